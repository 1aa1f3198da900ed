// random command lines, compared with an independent reading of the help
#include <fstream>
#include <iostream>
#include <sstream>
#include <list>
#include <map>
#include <deque>
#include <algorithm>
#include <stdexcept>
#include <sys/stat.h>
#define private public
#include "params.hh"
#include "diffCmd.hh"
#undef private
#include "gen.hh"
using namespace drv; using std::string;
struct Want { bool error = false, stop = false, W = false, ascii = false, color = true, diff = false, compress = false, keep = false, ext = false, text = false; std::deque<string> cmd; std::vector<std::pair<string, string>> in; };
static string dir;
static Want read(const std::vector<string> &a) {
  Want w; bool incmd = false, arg = false, some = false; string joined; auto err = [&]() { w.error = true; };
  for (auto &t : a) {
    if (arg) { joined += (some ? " " : "") + t; some = true; continue; }
    if (incmd) { if (t == ";") incmd = false; else w.cmd.push_back(t); continue; }
    if (t == "--") { for (auto &i : w.in) if (i.first == "ARGS") { err(); return w; } arg = w.text = true; }
    else if (t == "-W") w.W = true; else if (t == "--ascii") w.ascii = true; else if (t == "--color") w.color = true; else if (t == "--diff") w.diff = true; else if (t == "--compress") w.compress = true; else if (t == "--keep-order") w.keep = true;
    else if (t == "-h" || t == "--help" || t == "-v" || t == "--version") { w.stop = true; return w; }
    else if (t == "--diff-cmd") { if (w.ext) { err(); return w; } w.ext = incmd = true; }
    else if (t.substr(0, 8) == "--color=") { string m = t.substr(8); if (m == "always") w.color = true; else if (m == "never") w.color = false; else { err(); return w; } }
    else if (t.size() && t[0] == '-') { err(); return w; }
    else { struct stat s; if (access(t.c_str(), R_OK) || stat(t.c_str(), &s)) { err(); return w; } for (auto &i : w.in) if (i.first == t) { err(); return w; } std::ifstream f(t); std::stringstream ss; ss << f.rdbuf(); w.in.push_back({t, ss.str()}); } }
  if (arg) w.in.push_back({"ARGS", joined});
  if (w.diff && (w.in.size() < 2 || w.in.size() > 3)) w.stop = true;
  return w; }
int main(int ac, char **av) {
  begin(ac, av); char b[] = "/tmp/jsC13XXXXXX"; if (!mkdtemp(b)) return 2; dir = b; if (chdir(b)) return 2; std::vector<string> files = {"a.json", "b.json", "c", "d", "e=f", "ARGS", "sp ace"}; for (auto &f : files) std::ofstream(f) << "[\"" << f << "\"]";
  std::stringstream sink; auto *oc = std::cout.rdbuf(), *oe = std::cerr.rdbuf();
  while (more()) {
    std::vector<string> a; unsigned n = below(9);
    while (n--) { unsigned k = below(20); if (k < 11) a.push_back(gen::pick({"-W", "--ascii", "--color", "--color=always", "--color=never", "--diff", "--compress", "--keep-order", "--diff", "--color=never", "--keep-order"})); else if (k < 16) a.push_back(files[below(files.size())]); else if (k == 16) { a.push_back("--diff-cmd"); unsigned m = below(4); while (m--) a.push_back(gen::pick({"cat", "{}", "-W", "a.json", "--", "--diff-cmd", "", "; "})); if (!coin(6)) a.push_back(";"); } else if (k == 17) { if (coin(2)) { a.push_back("--"); unsigned m = below(4); while (m--) a.push_back(gen::pick({"[1,", "2]", "", "--", "-W", "--ascii", "a.json", ";", "--bad"})); n = 0; } }
      else if (coin(4)) a.push_back(gen::pick({"--help", "-h", "-v", "--version", "--bad", "-", "-w", "--Ascii", "--color=", "--color=x", "--colors", "missing", "", "--diffs", "--compress=1", ";", "---", "-Wx", "a.json/x"})); }
    string d; for (auto &x : a) d += " '" + show(x) + "'"; input("arguments" + d);
    std::vector<char *> v; string prog = "prog"; v.push_back(&prog[0]); for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr);
    Want w = read(a); sink.str(""); std::cout.rdbuf(sink.rdbuf()); std::cerr.rdbuf(sink.rdbuf()); bool ran = false, err = false; string odd; Params *p = new Params(v.data());
    try { ran = p->read(); } catch (std::runtime_error &) { err = true; } catch (std::exception &e) { odd = e.what(); }
    std::cout.rdbuf(oc); std::cerr.rdbuf(oe);
    if (odd.size()) fail("another exception: " + odd); if (err != w.error) fail(err ? "refused" : "not refused"); if (ran != (!w.error && !w.stop)) fail(ran ? "goes on" : "does not go on");
    if ((w.stop || w.error) && !err && sink.str().empty()) fail("nothing is displayed");
    if (ran) {
      if (p->isStrict() == w.W) fail("-W"); if (p->isIgnoringUnicode() != w.ascii) fail("--ascii"); if (p->colorEnabled() != w.color) fail("--color"); if (p->isDiff() != w.diff) fail("--diff"); if (p->compressed() != w.compress) fail("--compress"); if (p->sortObjects() == w.keep) fail("--keep-order"); if (p->getProgName() != "prog") fail("program name");
      if (!!p->getExternalDiff() != w.ext) fail("--diff-cmd"); if (w.ext && p->getExternalDiff()->getArgv() != w.cmd) fail("the words of --diff-cmd");
      auto in = p->getInputs(); if (w.in.empty()) { if (in.size() != 1 || in.at(0).second != &std::cin) fail("standard input is not read"); }
      else { if (in.size() != w.in.size()) fail(std::to_string(in.size()) + " inputs, expected " + std::to_string(w.in.size())); for (size_t i = 0; i < w.in.size(); ++i) { if (in.at(i).first != w.in[i].first) fail("input " + std::to_string(i) + " is '" + in.at(i).first + "', expected '" + w.in[i].first + "'"); std::stringstream ss; if (in.at(i).second->peek() != EOF) ss << in.at(i).second->rdbuf(); if (ss.str() != w.in[i].second) fail("content of input " + w.in[i].first + ": " + show(ss.str())); } } }
    delete p; }
  for (auto &f : files) unlink(f.c_str()); if (chdir("/") == 0) rmdir(b);
  return end();
}
