// comparing documents: pairing belongs to both, is consistent and ordered, equal documents pair completely, marks exist for all, the screen survives
#include "ui.hh"
#include "levenshtein.hpp"
using namespace ui;
typedef const JSonElement *E;
static void every(E e, std::vector<E> &o) { o.push_back(e); if (auto en = dynamic_cast<const JSonObjectEntry *>(e)) { every(**en, o); return; } if (auto c = dynamic_cast<const JSonContainer *>(e)) for (E k : *c) every(k, o); }
static string alter(string s) { unsigned n = below(4); while (n--) if (s.size()) { unsigned i = below(s.size()); if (isalnum((unsigned char)s[i])) s[i] = coin() ? '1' + below(9) : 'a' + below(4); } return s; }
static string wide(unsigned n, unsigned skip) { string r = "["; for (unsigned i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string((i + skip) * 7919u % 100003u * 1000u + (i + skip) % 7); return r + "]"; }
static void judge(E ra, E rb, bool equal) {
  std::vector<E> a, b; every(ra, a); every(rb, b); std::set<E> sa(a.begin(), a.end()), sb(b.begin(), b.end());
  LevenshteinMatrice_base::Builder bd; LevenshteinMatrice_base *m = bd.build(ra, rb); auto ops = m->path();
  for (auto &o : ops) if (!sa.count(o.first) && !sb.count(o.first)) fail("marks an element outside both documents");
  std::map<E, E> pa; for (E e : a) { E q = m->getEquivalence(e); if (q && !sb.count(q)) fail(where(ra, e) + " is paired with an element outside the other document"); if (q) { if (m->getEquivalence(q) != e) fail(where(ra, e) + " is paired one way only"); pa[e] = q; } }
  std::set<E> used; for (E e : b) { E q = m->getEquivalence(e); if (q && !sa.count(q)) fail(where(rb, e) + " of the second document is paired with an element outside the first"); if (q) { if (m->getEquivalence(q) != e) fail(where(rb, e) + " of the second document is paired one way only"); if (!used.insert(q).second) fail("two elements are paired with one"); } }
  for (auto &p : pa) { auto x = ops.find(p.first), y = ops.find(p.second); if (x == ops.end() || y == ops.end()) { continue; } if (x->second != y->second) { E v = p.first, w = p.second; if (!!dynamic_cast<const JSonContainer *>(v) == !!dynamic_cast<const JSonContainer *>(w)) fail("paired elements carry different marks: " + where(ra, p.first)); } }
  for (E e : a) { auto x = ops.find(e); if (x != ops.end() && (x->second == eLevenshteinOperator::equ || x->second == eLevenshteinOperator::mod) && !m->getEquivalence(e)) fail("unpaired but not reported as added or removed: " + where(ra, e)); }
  for (E e : b) { auto x = ops.find(e); if (x != ops.end() && (x->second == eLevenshteinOperator::equ || x->second == eLevenshteinOperator::mod) && !m->getEquivalence(e)) fail("unpaired but not reported as added or removed: second document " + where(rb, e)); }
  // siblings keep their order
  for (E e : a) if (auto c = dynamic_cast<const JSonContainer *>(e)) { auto o = pa.find(e); if (o == pa.end()) continue; auto c2 = dynamic_cast<const JSonContainer *>(o->second); if (!c2) continue; std::map<E, int> at; int i = 0; for (E k : *c2) at[k] = i++; int last = -1; for (E k : *c) { auto q = pa.find(k); if (q == pa.end() || !at.count(q->second)) continue; if (at[q->second] <= last) fail("paired siblings change their order"); last = at[q->second]; } }
  if (equal) { if (a.size() != b.size()) fail("equal documents differ in size"); if (m->result() && !m->areSimilar()) fail("equal documents at a distance of " + std::to_string(m->result()));
    for (size_t i = 0; i < a.size(); ++i) { E q = m->getEquivalence(a[i]);
      if (q != b[i]) { fail("equal documents: " + where(ra, a[i]) + " is paired with " + (q ? where(rb, q) : "nothing")); }
      auto x = ops.find(a[i]); if (x == ops.end() || x->second != eLevenshteinOperator::equ) fail("equal documents: " + where(ra, a[i]) + " is not reported equal"); } }
  delete m; }
// what is drawn in a window, without the title and without the rows standing for what the other side alone has
static std::vector<string> drawn(WINDOW *w) { std::vector<string> o, r = term::rows(w); for (size_t i = 1; i < r.size(); ++i) { string x = r[i]; while (!x.empty() && x.back() == ' ') x.pop_back(); if (!x.empty() && x != "--") o.push_back(x); } return o; }
static void settle(CurseSplitOutput &c) { int g = 0; while (!c.redraw()) if (++g > 20000) fail("drawing never ends"); }
// however far the view is scrolled, each line keeps the mark it has on a screen where everything fits
static void marks(CurseSplitOutput &c) {
  settle(c); std::vector<string> v[2], r[2]; unsigned top[2], h = c.screenSize.second; for (int w = 0; w < 2; ++w) { v[w] = drawn(c.subWindows[w].innerWin); top[w] = c.subWindows[w].scrollTop; }
  c.screenSize.second = 3000; for (auto &w : c.subWindows) { wresize(w.innerWin, 3000, c.screenSize.first - 2); w.scrollTop = 0; } settle(c); bool fits = true;
  for (int w = 0; w < 2; ++w) { r[w] = drawn(c.subWindows[w].innerWin); if (c.subWindows[w].scrollTop || c.subWindows[w].cursor.second >= 2999) fits = false; }
  c.screenSize.second = h; for (int w = 0; w < 2; ++w) { wresize(c.subWindows[w].innerWin, h, c.screenSize.first - 2); c.subWindows[w].scrollTop = top[w]; } settle(c);
  if (fits) for (int w = 0; w < 2; ++w) if (!v[w].empty() && std::search(r[w].begin(), r[w].end(), v[w].begin(), v[w].end()) == r[w].end()) { string m; for (auto &l : v[w]) m += "|" + l; m += " while unscrolled "; for (auto &l : r[w]) m += "|" + l; fail(string("scrolled to ") + std::to_string(top[w]) + " the " + (w ? "right" : "left") + " side shows " + m); } }
static void screen(const Params &P, E ra, E rb, string d) {
  term::W = 30 + below(90); term::H = 5 + below(20); CurseSplitOutput c(P); term::keys.clear(); c.run({"l", "r"}, {(JSonElement *)ra, (JSonElement *)rb}); std::vector<E> all[2]; every(ra, all[0]); every(rb, all[1]);
  unsigned n = below(10); while (n--) { settle(c); if (coin(4)) marks(c); unsigned k = below(8); static const char *K[] = {"up", "down", "down", "pageup", "pagedown", "left", "right", "window"}; d += string(" ") + K[k]; input(d);
    switch (k) { case 0: c.selectUp(); break; case 1: case 2: c.selectDown(); break; case 3: c.selectPUp(); break; case 4: c.selectPDown(); break; case 5: c.collapseSelection(); break; case 6: c.expandSelection(); break; case 7: c.changeWindow(1, true); break; }
    for (int w = 0; w < 2; ++w) { E s = c.subWindows[w].selection; if (s && std::find(all[w].begin(), all[w].end(), s) == all[w].end()) fail(string("the selection of the ") + (w ? "right" : "left") + " side leaves its document"); if (!s && w == c.selectedWin) fail("nothing is selected in the active side");
      if (s) { E o = c.subWindows[1 - w].selection; if (o && c.diffMatrice->getEquivalence(s) != o) fail("the two sides select elements that are not paired"); } } } }
int main(int ac, char **av) {
  begin(ac, av); const Params *P = params({"p"}); static const unsigned L[] = {0, 1, 2, 84, 85, 126, 127, 128, 129, 170, 253, 254, 255, 256, 257, 300};
  while (more()) {
    string t, u; bool eqd = false; unsigned k = below(20); bool big = evals % 150 == 2;
    if (big) { unsigned n = L[below(16)], m = L[below(16)]; t = wide(n, 0); u = wide(m, coin() ? 0 : below(20)); if (coin(3)) u = t; eqd = t == u; }
    else { t = gen::value(1 + below(5)); if (k < 7) { u = t; eqd = true; } else u = k < 14 ? alter(t) : gen::value(1 + below(5)); }
    Opt o{false, true, false, coin()}; Real r(t, o), s(u, o); if (r.res || s.res) continue;
    string d = "documents " + show(t) + " and " + show(u) + ":"; input(d); judge(r.sc.getRoot(), s.sc.getRoot(), eqd);
    if (!big && coin(3)) screen(*P, r.sc.getRoot(), s.sc.getRoot(), d); }
  return end();
}
