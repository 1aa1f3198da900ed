// histories of optionals, insertion-ordered maps and display flags against plain models
#include <stdexcept>
#include "gen.hh"
#include "optional.hpp"
#include "fifoMap.hpp"
#include "outputFlag.hh"
using namespace drv; using std::string;
template<class T> static void opt(T a, T b) {
  struct M { bool has; T v; }; std::vector<std::pair<Optional<T>, M>> p; string d = "optional:"; p.push_back({Optional<T>::empty, {false, a}});
  unsigned n = 1 + below(8); while (n--) { switch (below(4)) { case 0: d += " empty"; p.push_back({Optional<T>::empty, {false, a}}); break; case 1: case 2: { T v = coin() ? a : b; d += " of"; p.push_back({Optional<T>::of(v), {true, v}}); break; } default: { unsigned i = below(p.size()), j = below(p.size()); d += " assign"; p[i] = p[j]; } }
    input(d);
    for (auto &x : p) { if (x.first.absent() == x.second.has) fail("absent()"); for (T q : {a, b}) if (!(x.first.orValue(q) == (x.second.has ? x.second.v : q))) fail("orValue()");
      for (int k = 0; k < 2; ++k) try { T g = k ? *x.first : x.first.get(); if (!x.second.has) fail("get() of an empty optional"); if (!(g == x.second.v)) fail("get() gives another value"); } catch (std::logic_error &) { if (x.second.has) fail("get() throws though a value is stored"); } } 
    if (!Optional<T>::empty.absent()) fail("the shared empty optional holds a value"); } }
template<class V> static void map(V dflt, V (*mk)(unsigned)) {
  fifoMap<string, V> m; std::vector<std::pair<string, V>> o; string d = "map:"; unsigned n = 1 + below(25);
  while (n--) { string k = gen::pick({"a", "b", "c", "", "aa", "ab", "A", "d"}); size_t at = o.size(); for (size_t i = 0; i < o.size(); ++i) if (o[i].first == k) { at = i; break; }
    switch (below(5)) { case 0: case 1: { V v = mk(below(100)); d += " [" + k + "]=v"; input(d); m[k] = v; if (at < o.size()) o[at].second = v; else o.push_back({k, v}); break; }
      case 2: d += " [" + k + "]"; input(d); { V &r = m[k]; if (at == o.size()) o.push_back({k, dflt}); if (!(r == o[at].second)) fail("operator[] gives another value"); } break;
      case 3: d += " contains(" + k + ")"; input(d); if (m.contains(k) != (at < o.size())) fail("contains()"); break;
      default: if (at < o.size()) { d += " erase(" + k + ")"; input(d); m.erase(m.begin() + at); o.erase(o.begin() + at); } }
    if (m.size() != o.size() || m.empty() != o.empty()) fail("number of entries"); for (size_t i = 0; i < o.size(); ++i) if (m.at(i).first != o[i].first || !(m.at(i).second == o[i].second)) fail("entry " + std::to_string(i)); } }
static void flags() {
  short init = below(4); OutputFlag f(init); bool s = init & 1, q = init & 2; char t = 0; eLevenshteinOperator op = equ; string d = "flags(" + std::to_string(init) + "):"; unsigned n = 1 + below(12);
  while (n--) { bool v = coin(); switch (below(5)) { case 0: d += v ? " +selected" : " -selected"; input(d); if (f.selected(v) != v) fail("selected(v)"); s = v; break; case 1: d += v ? " +searched" : " -searched"; input(d); if (f.searched(v) != v) fail("searched(v)"); q = v; break;
      case 2: { char c = (char)below(256); d += " type"; input(d); if (f.type(c) != c) fail("type(c)"); t = c; break; } case 3: { static const eLevenshteinOperator O[] = {add, rem, mod, equ}; op = O[below(4)]; d += " diff"; input(d); if (f.diffOp(op) != op) fail("diffOp(op)"); break; } default: { OutputFlag g(f); f = g; d += " copy"; } }
    if (f.selected() != s) fail("selected()"); if (f.searched() != q) fail("searched()"); if (f.type() != t) fail("type()"); if (f.diffOp() != op) fail("diffOp()"); } }
static int *mkp(unsigned i) { static int a[100]; return &a[i]; }
static int mki(unsigned i) { return (int)i; }
int main(int ac, char **av) { begin(ac, av); while (more()) { opt<int>(3, -1); opt<bool>(true, false); opt<string>("x", "yy"); opt<int>(0, 1); map<int *>(nullptr, mkp); map<int>(0, mki); flags(); } return end(); }
