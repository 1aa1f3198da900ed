// reading a pattern and matching texts against it, compared with an independent reading of the search syntax
#include <string>
#include <regex>
#define private public
#include "searchPattern.hh"
#undef private
#include "ui.hh"
#include "jsonPrimitive.hh"
#include <regex>
using namespace ui;
struct Pat { string p; bool i = false, w = false, f = false, e = false; char type = 0; };
static Pat read(const string &in) { Pat r; size_t k = 0; while (k < in.size() && (in[k] == ' ' || in[k] == '\t')) ++k; bool closed = false;
  for (; k < in.size(); ++k) { if (in[k] == '\\') { if (k + 1 == in.size()) break; ++k; if (in[k] != '/') r.p += '\\'; r.p += in[k]; } else if (in[k] == '/') { closed = true; break; } else r.p += in[k]; }
  if (closed) for (++k; k < in.size(); ++k) switch (in[k]) { case 'i': r.i = true; break; case 'w': r.w = true; break; case 'f': r.f = true; break; case 'e': r.e = true; break; case 'b': case 'n': case 's': case 'o': r.type = in[k]; break; }
  if (r.e) { try { std::regex x(r.p, r.i ? std::regex::icase : std::regex::ECMAScript); } catch (std::regex_error &) { r.e = false; r.p.clear(); } }
  return r; }
static bool eq(char a, char b, bool i) { if (a == '\t') a = ' '; if (i) { if (a >= 'A' && a <= 'Z') a += 32; if (b >= 'A' && b <= 'Z') b += 32; } return a == b; }
static bool matches(const Pat &p, const string &s, char kind) {
  if (p.type && p.type != kind) return false;
  if (p.e) return std::regex_search(s, std::regex(p.p, p.i ? std::regex::icase | std::regex::ECMAScript : std::regex::ECMAScript));
  if (p.f && s.size() != p.p.size()) return false;
  for (size_t k = 0; k + p.p.size() <= s.size(); ++k) { size_t j = 0; while (j < p.p.size() && eq(s[k + j], p.p[j], p.i)) ++j; if (j < p.p.size()) continue;
    if (p.w) { char b = k ? s[k - 1] : ' ', a = k + j < s.size() ? s[k + j] : ' '; if (!eq(b, ' ', false) || !eq(a, ' ', false)) continue; }
    return true; }
  return false; }
static bool sameText(const SearchPattern &s, string p) { if (s.flags & SearchPattern::FLAG_CASE && !(s.flags & SearchPattern::FLAG_REGEX)) for (char &x : p) if (x >= 'A' && x <= 'Z') x += 32; return s.pattern == p; }
static int one(std::initializer_list<int> l) { return *(l.begin() + below(l.size())); }
static string word() { string r; unsigned n = below(7); while (n--) r += gen::pick({"a", "b", "A", "B", " ", "a", "b", "\t", "1", "\xc3\xa9", ".", "x", "-", "_", "\x80", "\xff", "Z"}); return r; }
int main(int ac, char **av) {
  begin(ac, av);
  JSonArray holder(nullptr); JSonPrimitive<bool> vb(nullptr, true); JSonPrimitive<string> vs(nullptr, "a"); JSonPrimitive<int> vi(nullptr, 1); JSonPrimitive<double> vd(nullptr, 1.5); JSonPrimitive<long long> vl(nullptr, 12345678901ll); JSonPrimitive<Null> vn(nullptr, Null()); JSonObjectEntry en(nullptr, "k", new JSonPrimitive<int>(nullptr, 2));
  std::vector<std::pair<const JSonElement *, char>> kinds = {{&vb, 'b'}, {&vs, 's'}, {&vi, 'n'}, {&vd, 'n'}, {&vl, 'n'}, {&vn, 0}, {&en, 'o'}};
  const Params *P = params({"p"}); term::keys.clear(); CurseSimpleOutput *c = new CurseSimpleOutput(*P); CurseSimpleOutput &cu = *c, &raw = *new CurseSimpleOutput(*params({"p", "--ascii"}));
  while (more()) {
    string in, body; unsigned k = below(10);
    body = k < 6 ? word() : k < 8 ? string(gen::pick({"[ab]+", "^a", "b$", "a|b", "(a", "a{", "*", "\\d", "[", "a\\.b", "\\w+", "\\", "(a)(b)", "."})) : gen::junk();
    in = coin(5) ? string(gen::pick({" ", "  ", "\t"})) + body : body; if (coin(8) && in.size()) in.insert(below(in.size()), gen::pick({"\\/", "\\", "\\\\", "/"}));
    if (coin()) { in += "/"; unsigned n = below(4); while (n--) in += gen::pick({"i", "w", "f", "e", "b", "n", "s", "o", "z", "/", " "}); } else if (coin(3)) in += gen::pick({"/e", "/ei", "/i", "/w", "/f"});
    in = string(in.c_str()); string d = "pattern " + show(in); input(d);
    Pat p = read(in); SearchPattern sp(in); const SearchPattern *use = &sp; const SearchPattern *typed = nullptr;
    bool text = true; for (unsigned char x : in) if (x == '\n' || x == '\r' || x == '\b' || x == 27 || x == 127) text = false;
    if (text && coin(3)) { CurseSimpleOutput &c = coin(4) ? raw : cu; bool uni = &c == &cu; string kd; auto key = [&](int k) { term::keys.push_back(k); kd += " " + std::to_string(k); };
      for (unsigned char x : in) { if (coin(12)) key(one({-1, KEY_UP, KEY_RESIZE, KEY_F(3), 0})); if (coin(8)) { int e = one({'\b', 127, KEY_BACKSPACE}); if (x < 128 && coin(3)) { key('q'); key(e); } else if (x < 128) { key(0xc3); key(0xa9); key(e); if (!uni) key(e); } } key(x); }
      key(coin() ? '\n' : '\r'); d = string("typing, ") + (uni ? "" : "--ascii, ") + "keys" + kd; input(d);
      typed = c.inputSearch(nullptr); if (!typed) fail("a typed pattern is dropped"); use = typed; if (!term::keys.empty()) fail("reading the pattern stops early");
      if (uni) p = read(StreamConsumer::extractUnicode(in).c_str()); if (!sameText(*use, p.p)) fail("the pattern read is not the text typed"); d = "typed pattern " + show(in); }
    else if (!sameText(sp, p.p)) fail("the text searched is not the text given");
    if (use->isEmpty() != p.p.empty()) fail(p.p.empty() ? "a pattern without text is not empty" : "the pattern is empty");
    unsigned n = p.p.empty() ? 0 : 6; while (n--) { string s; switch (below(5)) { case 0: s = word(); break; case 1: s = word() + body + word(); break; case 2: s = word() + " " + body + " " + word(); break; case 3: s = body; for (char &x : s) if (isalpha((unsigned char)x) && coin(3)) x ^= 32; break; default: s = word() + p.p + (coin() ? "" : word()); }
      auto t = kinds[below(kinds.size())]; d = "pattern " + show(in) + " against " + show(s); input(d); bool want = matches(p, s, t.second), got = use->match(s, t.first);
      if (want != got) fail(got ? "matches, expected not" : "does not match, expected to"); }
    delete typed;
  }
  return end();
}
