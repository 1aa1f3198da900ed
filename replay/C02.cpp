// refusals: every text gives a document or a JSON error, damaged texts are refused, and the report can be written
#define main jsonstroller_main
#include "../src/main.cpp"
#undef main
#include "run.hh"
using namespace both;
static const char *RES[] = {"accepted", "refused", "nothing read"};
static const Params *params[4];
static string report(const string &t, bool tol, bool &doc) {
  std::ostringstream err; std::streambuf *old = std::cerr.rdbuf(err.rdbuf()); std::istringstream in(t); std::deque<Warning> w;
  StreamConsumer *s = nullptr; 
  try { s = readOneFile(std::pair<std::string, std::basic_istream<char> *>("file", &in), *params[tol], w); for (Warning x : w) displayException(x.filename(), *params[tol], x.getType(), x()); }
  catch (...) { std::cerr.rdbuf(old); fail("an exception leaves the reader or the error report"); }
  std::cerr.rdbuf(old); doc = s != nullptr; delete s; return err.str(); }
int main(int ac, char **av) {
  begin(ac, av);
  { static char a0[] = "prog", a1[] = "-W"; static char *v0[] = {a0, 0}, *v1[] = {a0, a1, 0}; Params *p = new Params(v0); p->read(); params[0] = p; p = new Params(v1); p->read(); params[1] = p; }
  while (more()) {
    Opt o = options(); string t; bool must = false;
    switch (below(5)) {
      case 0: case 1: t = gen::text(true); break;
      case 2: t = gen::junk(); break;
      case 3: { t = gen::value(3); size_t n = t.size(); if (n < 2 || !strchr("{[\"", t[0])) break; t = t.substr(0, below(n)); must = true; break; }   // truncated
      case 4: { string a = gen::value(2), b = gen::value(2); must = true; switch (below(14)) {
          case 0: t = "[" + a + ":" + b + "]"; break; case 1: t = "[" + a + "}"; break; case 2: t = "{\"k\"," + b + "}"; break; case 3: t = "{\"k\":" + b + "]"; break;
          case 4: t = "{\"k\":" + a + ":\"l\":" + b + "}"; break; case 5: t = "[" + a + ",]"; break; case 6: t = "[," + a + "]"; break; case 7: t = "{\"k\":}"; break;
          case 8: t = "{\"k\":" + a + ",}"; break; case 9: t = "{1:" + b + "}"; break; case 10: t = "[\"\\u12g4\"]"; break; case 11: t = string("[") + gen::pick({"tru", "nul", "nulL!", "fals", "1.2.3", "--1", "1e", "1e+", "-", ".", "e1", "0x1", "99999999999999999999", "1e999", "\"\\q\"", "\"\\uD800\"", "\"\\uDC00\"", "\"\\uD800x\"", "truee", "falsefalse", "+1", "Infinity", "'a'", "#"}) + "]"; break;
          case 12: t = "{" + a + ":" + b + "}"; if (a[0] == '"') must = false; break; case 13: t = "{\"k\" " + b + "}"; break; } } }
    input(name(o) + show(t));
    Real r(t, o); Oracle e(t, o);
    if (must && o.strict && r.res == 0 && !(o.ascii) && !(o.nul)) fail("a malformed text is accepted");
    if (e.res != 0 && r.res == 0) fail(string("a text the oracle calls ") + RES[e.res] + " is accepted");
    if (e.res == 0 && r.res != 0) fail("a well formed text is refused: " + r.what);
    bool tol = coin(3), doc; string err = report(t, tol, doc);
    Opt p{false, !tol, false, true}; Oracle f(t, p);
    if (doc != (f.res == 0)) fail(doc ? "the reader returns a document for a refused text" : "the reader returns no document for an accepted text");
    if (!doc && err.empty()) fail("a refused text gives no message");
    if (f.res == 1) { // excerpt, then tildes and a caret under its last character
      size_t n = err.rfind('\n', err.size() - 2); string last = err.substr(n + 1); if (last.empty() || last[last.size() - 1] != '\n' || last[last.size() - 2] != '^') fail("the report does not end with a marker");
      size_t m = last.size() - 2; Real q(t, p); if (m != (q.hist.empty() ? 0 : q.hist.size() - 1)) fail("the marker is not below the last character of the excerpt");
      if (err.find("line " + std::to_string(q.line) + ", col " + std::to_string(q.col)) == string::npos) fail("the report does not show the position"); }
  }
  return end(); }
