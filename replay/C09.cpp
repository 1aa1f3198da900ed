// edit distance against an independent two-row computation; laws on longer strings
#include <algorithm>
#include <cmath>
#include "gen.hh"
#include "levenshtein.hpp"
#include <map>
#include "run.hh"
#include "levenshteinMatrice.hpp"
using namespace drv; using std::string;
static size_t dist(const string &a, const string &b) { std::vector<size_t> p(b.size() + 1), q(b.size() + 1); for (size_t j = 0; j <= b.size(); ++j) p[j] = j;
  for (size_t i = 1; i <= a.size(); ++i) { q[0] = i; for (size_t j = 1; j <= b.size(); ++j) q[j] = std::min(p[j - 1] + (a[i - 1] != b[j - 1]), 1 + std::min(p[j], q[j - 1])); std::swap(p, q); } return p[b.size()]; }
static string word(unsigned n, unsigned k) { string r; while (n--) r += coin(40) ? (char)below(256) : (char)('a' + below(k)); return r; }
static string edit(string s) { unsigned n = below(5); while (n--) { unsigned i = below(s.size() + 1); switch (below(4)) { case 0: s.insert(i, 1, 'a' + below(3)); break; case 1: if (i < s.size()) s.erase(i, 1); break; case 2: if (i < s.size()) s[i] = 'a' + below(3); break; default: if (s.size() > 2) std::rotate(s.begin(), s.begin() + i % s.size(), s.end()); } } return s; }
static void one(const string &a, const string &b) {
  input("'" + show(a.substr(0, 400)) + "' (" + std::to_string(a.size()) + ") '" + show(b.substr(0, 400)) + "' (" + std::to_string(b.size()) + ")");
  size_t d = dist(a, b), r = levenshtein(a, b); if (r != d) fail("distance " + std::to_string(r) + " instead of " + std::to_string(d));
  if (levenshtein(b, a) != d) fail("not symmetric"); if ((r == 0) != (a == b)) fail("zero exactly for equal texts");
  float want = a.empty() && b.empty() ? 1.f : 1.f - (float)d / std::max(a.size(), b.size()); float p = levenshteinPercent(a, b);
  if (!(std::fabs(p - want) < 1e-6) || p < 0 || p > 1) fail("similarity " + std::to_string(p) + " instead of " + std::to_string(want)); if (levenshteinPercent(b, a) != p) fail("similarity not symmetric"); }
// the same for arrays: elements are equal or fully different
static const char *W[] = {"null", "true", "\"cccc\"", "\"dddd\"", "11111", "\"eeee\""};
static void arrays(const std::vector<int> &a, const std::vector<int> &b) {
  auto text = [](const std::vector<int> &v) { string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + string(W[v[i]]); return r + "]"; };
  auto desc = [](const std::vector<int> &v) { string r; for (int x : v) r += 'a' + x; return r; };
  string x = desc(a), y = desc(b); input("arrays of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " elements: " + x + " " + y);
  both::Opt o{false, true, false, false}; both::Real r(text(a), o), s(text(b), o); if (r.res || s.res) fail("the arrays are not read");
  size_t d = dist(x, y); LevenshteinMatrice_base::Builder bd; for (int k = 0; k < 2; ++k) { LevenshteinMatrice_base *m = k ? bd.build(s.sc.getRoot(), r.sc.getRoot()) : bd.build(r.sc.getRoot(), s.sc.getRoot());
    if (m->result() != d) fail("distance " + std::to_string(m->result()) + " instead of " + std::to_string(d)); float w = x.empty() && y.empty() ? 1.f : 1.f - (float)d / std::max(x.size(), y.size()); if (std::fabs(w - 0.7f) > 1e-4 && m->areSimilar() != (w > 0.7f)) fail("similar or not"); delete m; } }
static std::vector<int> seq(unsigned n, unsigned k) { std::vector<int> r; while (n--) r.push_back(below(k)); return r; }
static std::vector<int> change(std::vector<int> v) { unsigned n = below(4); while (n--) { unsigned i = below(v.size() + 1); switch (below(3)) { case 0: v.insert(v.begin() + i, below(6)); break; case 1: if (i < v.size()) v.erase(v.begin() + i); break; default: if (i < v.size()) v[i] = below(6); } } return v; }
int main(int ac, char **av) { begin(ac, av);
  static const unsigned L[] = {0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513};
  for (unsigned x : L) for (unsigned y : {0u, 1u, 127u, 128u, 255u, 256u, 300u}) if (more()) { one(word(x, 3), word(y, 3)); string s = word(x, 2); one(s, edit(s)); one(s, s); }
  static const unsigned N[] = {0, 1, 126, 127, 128, 129, 254, 255, 256, 257}; unsigned long turn = 0;
  while (more()) { if (++turn % 300 == 1) { unsigned n = N[below(10)]; arrays(seq(n, 6), seq(coin() ? below(6) : 255 - std::min(n, 254u), 6)); if (coin(4)) { auto q = seq(n, 6); arrays(q, change(q)); } } else if (coin(8)) { auto q = seq(below(8), 1 + below(6)); arrays(q, coin() ? change(q) : seq(below(8), 6)); }
    string a = word(coin(30) ? below(400) : below(9), 1 + below(4)), b = coin() ? edit(a) : word(coin(30) ? below(400) : below(9), 1 + below(4)); one(a, b); if (coin(400)) { a = word(30000 + below(10000), 2); b = a; one(a.substr(0, 3), b); } }
  return end(); }
