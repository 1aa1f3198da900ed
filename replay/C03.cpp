// print, parse the result again, print again
#include "run.hh"
#include "simpleOutput.hh"
using namespace both;
static const Params *P[2];
static string print(const JSonElement *e, bool compress) { std::ostringstream o; SimpleOutput::display(o, e, *P[compress]); return o.str(); }
// strict RFC 8259 text
struct V { const string &t; size_t p = 0; V(const string &x): t(x) {}
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
  bool lit(const char *s) { size_t n = strlen(s); if (t.compare(p, n, s)) return false; p += n; return true; }
  bool digits() { size_t q = p; while (p < t.size() && isdigit((unsigned char)t[p])) ++p; return p > q; }
  bool str() { if (t[p] != '"') return false; ++p; while (p < t.size()) { unsigned char c = t[p++]; if (c == '"') return true; if (c < 32) return false; if (c == '\\') { if (p >= t.size()) return false; c = t[p++]; if (c == 'u') { for (int i = 0; i < 4; ++i) if (p >= t.size() || !isxdigit((unsigned char)t[p++])) return false; } else if (!strchr("\"\\/bfnrt", c)) return false; } } return false; }
  bool val() { ws(); if (p >= t.size()) return false; char c = t[p]; if (c == '"') return str();
    if (c == '{' || c == '[') { ++p; ws(); char e = c == '{' ? '}' : ']'; if (p < t.size() && t[p] == e) { ++p; return true; } for (;;) { ws(); if (c == '{') { if (p >= t.size() || !str()) return false; ws(); if (p >= t.size() || t[p++] != ':') return false; } if (!val()) return false; ws(); if (p >= t.size()) return false; char s = t[p++]; if (s == e) return true; if (s != ',') return false; } }
    if (lit("true") || lit("false") || lit("null")) return true;
    if (c == '-') ++p; if (p < t.size() && t[p] == '0') ++p; else if (!digits()) return false; if (p < t.size() && t[p] == '.') { ++p; if (!digits()) return false; } if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if (!digits()) return false; } return true; }
  bool all() { if (!val()) return false; ws(); return p == t.size(); } };
static string strip(const string &t, bool &blank) { string r; bool in = false; blank = false; for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; if (in) { r += c; if (c == '\\' && i + 1 < t.size()) r += t[++i]; else if (c == '"') in = false; continue; } if (isspace((unsigned char)c)) { blank = true; continue; } if (c == '"') in = true; r += c; } return r; }
int main(int ac, char **av) {
  begin(ac, av);
  static char a0[] = "prog", a1[] = "--compress"; static char *v0[] = {a0, 0}, *v1[] = {a0, a1, 0}; Params *p0 = new Params(v0), *p1 = new Params(v1); p0->read(); p1->read(); P[0] = p0; P[1] = p1;
  while (more()) {
    Opt o = options(); bool tol = !o.strict && coin(); string t = coin(8) ? gen::text(tol) : gen::value(1 + below(5), tol);
    input(name(o) + show(t));
    Real r(t, o); if (r.res != 0) continue;
    bool odd = false; // an escape the document language does not have (tolerated, or left undecoded) is outside the property
    for (size_t i = 0; i + 1 < t.size(); ++i) if (t[i] == '\\') { char c = t[i + 1]; if (!strchr("\"\\/bfnrtu", c) || !c) odd = true; if (c == 'u' && o.ascii) { if (i + 5 >= t.size()) odd = true; else for (int k = 2; k < 6; ++k) if (!isxdigit((unsigned char)t[i + k])) odd = true; } ++i; }
    // an undecodable control character written raw comes back as an escape, which --ascii leaves alone
    if (o.ascii) { bool in = false; for (size_t i = 0; i < t.size(); ++i) { unsigned char c = t[i]; if (in && c < 32) odd = true; if (in && c == '\\') ++i; else if (c == '"') in = !in; } }
    if (odd) continue;
    string c = print(r.sc.getRoot(), true), f = print(r.sc.getRoot(), false); bool blank;
    string s = strip(c, blank); if (blank) fail("the compressed form has whitespace outside strings: " + show(c));
    if (strip(f, blank) != c) fail("the two forms differ: " + show(c) + " and " + show(f));
    if (!V(c).all()) fail("not a JSON text: " + show(c)); if (!V(f).all()) fail("not a JSON text: " + show(f));
    Opt q = o; if (!o.nul) q.strict = true; Oracle e(t, o);
    for (const string *x : {&c, &f}) { Real b(*x, q); if (b.res != 0) fail("the printed form is refused (" + b.what + "): " + show(*x));
      if (e.res == 0) { string d = differs(b.sc.getRoot(), e.root.get()); if (d.size()) fail("the printed form " + show(*x) + " is another document, at " + d); }
      if (print(b.sc.getRoot(), x == &c) != *x) fail("printing is not idempotent: " + show(*x)); }
  }
  return end(); }
