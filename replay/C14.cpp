// the external diff command: words, files given, their content, nothing overwritten, nothing left
#include <dirent.h>
#include <sys/stat.h>
#include "run.hh"
#include "simpleOutput.hh"
#define main jsonstroller_main
#include "../src/main.cpp"
#undef main
using namespace both;
static string slurp(const string &f) { std::ifstream i(f); std::stringstream s; if (i.peek() != EOF) s << i.rdbuf(); return s.str(); }
static std::set<string> left() { std::set<string> r; DIR *d = opendir("/tmp"); while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "jsondifftmp", 11)) r.insert(string("/tmp/") + e->d_name); closedir(d); return r; }
static std::vector<string> words(char **av) { std::vector<string> r; while (*av) r.push_back(*av++); return r; }
int main(int ac, char **av) {
  begin(ac, av); char b[] = "/tmp/jsC14XXXXXX"; if (!mkdtemp(b)) return 2; string dir = b; if (chdir(b)) return 2;
  { std::ofstream t("tool"); t << "#!/bin/sh\ncd " << dir << "\ni=0\n: > log\nfor a; do printf '%s\\n' \"$a\" >> log; if [ -f \"$a\" ]; then cp \"$a\" \"copy.$i\"; fi; i=$((i+1)); done\n"; } chmod("tool", 0755);
  std::stringstream sink; auto *oe = std::cerr.rdbuf(); unsigned long turn = 0;
  while (more()) {
    { DiffCmd c; std::deque<string> cmd, in; unsigned n = below(6); while (n--) cmd.push_back(gen::pick({"{}", "{}", "x", "", "-u", "{} ", "a{}b", "{", "'{}'", "a b"})); n = below(5); while (n--) in.push_back(gen::pick({"/tmp/one", "/tmp/two", "{}", "", "three four"})); for (auto &x : cmd) c.add(x);
      string d = "command"; for (auto &x : cmd) d += " '" + x + "'"; d += " inputs"; for (auto &x : in) d += " '" + x + "'"; input(d); std::vector<string> want; for (auto &x : cmd) if (x == "{}") want.insert(want.end(), in.begin(), in.end()); else want.push_back(x);
      if (words(c.computeArgv(in)) != want) fail("other arguments than expected"); if (words(c.computeArgv(in)) != want) fail("other arguments the second time"); if (c.getArgv() != cmd) fail("the command words change"); if (cmd.size() && c.getFile() != cmd[0]) fail("another program"); }
    if (turn++ % 40) continue;
    std::vector<string> names, texts; unsigned n = 1 + below(4); string d; bool bad = false; Opt o{false, true, false, true};
    std::vector<string> pool = {"a", "b", "Aa", "BB", "f1", "dir x", "a.json", "@A", "  ", "bC", "c#"}; // some share the hash of their name
    for (unsigned i = 0; i < n; ++i) { string nm = pool[below(pool.size())]; if (std::find(names.begin(), names.end(), nm) != names.end()) continue; string t = gen::value(below(4)); if (coin(12)) t = gen::damage(t); names.push_back(nm); texts.push_back(t); std::ofstream(nm) << t; d += " " + nm + "=" + show(t); }
    std::vector<string> forms; size_t okay = 0; for (auto &t : texts) { Real r(t, o); if (r.res) { bad = true; break; } ++okay; std::ostringstream os; const char *args[] = {"p", nullptr}; Params q((char **)args); q.read(); SimpleOutput::display(os, r.sc.getRoot(), q); forms.push_back(os.str()); }
    std::vector<string> argv = {"prog", "--diff-cmd", dir + "/tool"}; std::vector<string> extra; unsigned m = 1 + below(3); bool ph = false; while (m--) { string x = gen::pick({"{}", "{}", "-u", "a b"}); ph |= x == "{}"; extra.push_back(x); } argv.insert(argv.end(), extra.begin(), extra.end()); argv.push_back(";"); argv.insert(argv.end(), names.begin(), names.end());
    string cl; for (auto &x : argv) cl += " '" + x + "'"; bool missing = coin(15); if (missing) argv[2] = dir + "/no-such-tool";
    // files already there under the names the program would choose
    std::set<string> mine; for (auto &nm : names) for (int i = 0; i < 3; ++i) if (coin(3)) { string f = "/tmp/jsondifftmp" + std::to_string(DiffCmd::hashString(nm)) + "." + std::to_string(i) + ".tmp"; if (access(f.c_str(), F_OK)) { std::ofstream(f) << "mine " << f; mine.insert(f); d += " existing " + f; } }
    input("command" + cl + d); unlink("log"); for (int i = 0; i < 12; ++i) unlink(("copy." + std::to_string(i)).c_str());
    std::set<string> before = left(); std::vector<char *> v; for (auto &x : argv) v.push_back((char *)x.c_str()); v.push_back(nullptr); { Params p(v.data()); p.read(); sink.str(""); std::cerr.rdbuf(sink.rdbuf()); runExternalDiff(p); std::cerr.rdbuf(oe); }
    for (auto &f : mine) if (slurp(f) != "mine " + f) fail("an existing file is overwritten or removed: " + f); std::set<string> after = left(); for (auto &f : after) if (!before.count(f)) fail("a temporary file is left: " + f); for (auto &f : mine) unlink(f.c_str());
    if (!bad && !missing) { if (access("log", F_OK)) fail("the tool is not run"); std::vector<string> got; { std::istringstream is(slurp("log")); string l; while (std::getline(is, l)) got.push_back(l); }
      size_t k = 0; std::vector<string> first; for (auto &x : extra) { if (x != "{}") { if (k >= got.size() || got[k] != x) fail("argument " + std::to_string(k) + " is not " + x); ++k; continue; }
        std::vector<string> these; for (size_t i = 0; i < names.size(); ++i, ++k) { if (k >= got.size()) fail("a file argument is missing"); if (mine.count(got[k])) fail("an existing file is given to the tool"); for (auto &y : these) if (y == got[k]) fail("two inputs share " + y); these.push_back(got[k]); string c = slurp("copy." + std::to_string(k)); if (c != forms[i]) fail("file of " + names[i] + " holds " + show(c) + " instead of " + show(forms[i])); }
        if (!first.empty() && first != these) fail("placeholders name different files"); first = these; }
      if (k != got.size()) fail("more arguments than asked for"); }
    else if (bad && !access("log", F_OK)) fail("the tool is run though an input is refused");
    for (auto &x : names) unlink(x.c_str()); }
  unlink("log"); unlink("tool"); for (int i = 0; i < 12; ++i) unlink(("copy." + std::to_string(i)).c_str()); if (chdir("/") == 0) rmdir(b);
  return end();
}
