// the tree of the real parser against the oracle's reading of the same text, under every option combination
#include "run.hh"
using namespace both;
static const char *RES[] = {"accepted", "refused", "nothing read"};
int main(int ac, char **av) {
  begin(ac, av);
  while (more()) {
    Opt o = options(); string t = gen::text(!o.strict || coin(6)); input(name(o) + show(t));
    Real r(t, o); Oracle e(t, o);
    if (e.res == 0) {
      if (r.res != 0) fail(string("a text that denotes a document is ") + RES[r.res] + " " + r.what);
      string d = differs(r.sc.getRoot(), e.root.get()); if (d.size()) fail("the tree differs at " + d);
      if ((int)r.sc.getMessages().size() != e.warnings) fail(std::to_string(r.sc.getMessages().size()) + " warnings instead of " + std::to_string(e.warnings));
      if (r.sc.read() != &r.sc) fail("reading again does not keep the document");
      d = differs(r.sc.getRoot(), e.root.get()); if (d.size()) fail("after reading again the tree differs at " + d);
      // bytes outside the printable range between tokens never change the result
      if (coin(3)) { string u; bool in = false, tok = false; for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; 
          if (!in && (strchr("{}[]:,", c) && c)) { u += c; u += gen::ws(1); tok = true; continue; }
          if (!in && c == '"') in = true; else if (in && c == '\\') { u += c; if (++i < t.size()) u += t[i]; continue; } else if (in && c == '"') in = false; u += c; } (void)tok;
        input(name(o) + show(u)); Real q(u, o); if (q.res != 0) fail("spaces between tokens make it " + string(RES[q.res])); d = differs(q.sc.getRoot(), e.root.get()); if (d.size()) fail("spaces between tokens change the tree at " + d); }
    } else if (r.res == 0) fail(string("a text that denotes no document is accepted (oracle: ") + RES[e.res] + ")");
  }
  return end(); }
