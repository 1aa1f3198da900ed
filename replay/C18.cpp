// several inputs through the whole program: printed in order up to the first one refused, each refusal and warning reported
#include "run.hh"
#include "simpleOutput.hh"
#define main jsonstroller_main
#define isatty(x) 0
#include "../src/main.cpp"
#undef main
#undef isatty
using namespace both;
static size_t times(const string &s, const string &x) { size_t n = 0, p = 0; while ((p = s.find(x, p)) != string::npos) { ++n; p += x.size(); } return n; }
int main(int ac, char **av) {
  begin(ac, av); char b[] = "/tmp/jsC18XXXXXX"; if (!mkdtemp(b)) return 2; string dir = b; if (chdir(b)) return 2;
  std::stringstream so, se, si; auto *oo = std::cout.rdbuf(), *oe = std::cerr.rdbuf(), *oi = std::cin.rdbuf();
  while (more()) {
    Opt o{false, !coin(), coin(4), coin()}; bool cz = coin(); std::vector<string> names, texts, argv = {"prog"}; unsigned n = below(5); string d;
    for (unsigned i = 0; i < n; ++i) { string nm = "f" + std::to_string(below(30)); if (std::find(names.begin(), names.end(), nm) != names.end()) continue; string t = coin(8) ? gen::text(!o.strict) : gen::ws() + gen::value(below(4), !o.strict) + gen::ws(); names.push_back(nm); texts.push_back(t); std::ofstream(nm) << t; d += " " + nm + "=" + show(t); }
    bool in = names.empty(); if (in) { texts.push_back(gen::text(!o.strict)); d += " standard input=" + show(texts[0]); }
    std::vector<string> opts; if (!o.strict) opts.push_back("-W"); if (o.ascii) opts.push_back("--ascii"); if (!o.sorted) opts.push_back("--keep-order"); if (cz) opts.push_back("--compress");
    if (coin()) { argv.insert(argv.end(), opts.begin(), opts.end()); argv.insert(argv.end(), names.begin(), names.end()); } else { argv.insert(argv.end(), names.begin(), names.end()); argv.insert(argv.end(), opts.begin(), opts.end()); }
    string cl; for (auto &x : argv) cl += " " + x; input(cl + ":" + d);
    string want; size_t warns = 0; bool bad = false; { const char *args[] = {"p", cz ? "--compress" : nullptr, nullptr}; Params q((char **)args); q.read(); for (auto &t : texts) { Real r(t, o); Oracle e(t, o); if (e.res) { bad = true; break; } if (r.res) fail("a document is refused"); std::ostringstream os; SimpleOutput::display(os, r.sc.getRoot(), q); want += os.str(); warns += e.warnings; } }
    std::vector<char *> v; for (auto &x : argv) v.push_back((char *)x.c_str()); v.push_back(nullptr);
    so.str(""); se.str(""); si.str(texts[0]); si.clear(); std::cout.rdbuf(so.rdbuf()); std::cerr.rdbuf(se.rdbuf()); std::cin.clear(); std::cin.rdbuf(si.rdbuf());
    int rc = jsonstroller_main(argv.size(), v.data()); std::cout.rdbuf(oo); std::cerr.rdbuf(oe); std::cin.rdbuf(oi); std::cout.clear(); std::cerr.clear(); (void)rc;
    if (so.str() != want) fail("printed " + show(so.str()) + " instead of " + show(want));
    if (!bad && !warns && se.str().size()) fail("something is reported though every input is read: " + show(se.str()));
    if (bad && se.str().empty()) fail("an input is refused and nothing is reported");
    if (times(se.str(), "Warning: prog: ") < warns) fail(std::to_string(times(se.str(), "Warning: prog: ")) + " warnings instead of " + std::to_string(warns));
    for (auto &x : names) unlink(x.c_str()); }
  if (chdir("/") == 0) rmdir(b);
  return end();
}
