// random key sequences: the selection stays on a visible element, moves are consistent, the document never changes
#include "ui.hh"
#include "simpleOutput.hh"
using namespace ui;
static bool stale; // the program draws again when the last key asks for it
static void draw(CurseOutput &c) { if (!stale) return; stale = false; int n = 0; while (!c.redraw()) if (++n > 20000) fail("drawing never ends"); }
static size_t pos(const std::vector<const JSonElement *> &v, const JSonElement *e) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == e) return i; return (size_t)-1; }
static const Params *P;
// the key as typed
static inputResult key(CurseOutput &c, int k) { static const std::vector<int> T[] = {{KEY_UP, 'k', 'K'}, {KEY_DOWN, 'j', 'J'}, {KEY_PPAGE}, {KEY_NPAGE}, {KEY_LEFT, 'h', 'H'}, {KEY_RIGHT, 'l', 'L'}, {'n', 'N'}, {'/'}, {'w', 'W'}, {KEY_RIGHT, 'l'}, {KEY_LEFT, 'h'}};
  term::keys.push_front(T[k][below(T[k].size())]); if (k >= 8) term::keys.push_front(23); inputResult r = c.evalKey(InputSequence::read(nullptr)); stale = r != inputResult::nextInput; return r; }
static string dump(const JSonElement *r) { std::ostringstream o; SimpleOutput::display(o, r, *P); return o.str(); }
static string alter(string s) { unsigned n = below(4); while (n--) if (s.size()) { unsigned i = below(s.size()); if (isalnum((unsigned char)s[i])) s[i] = coin() ? '1' : 'a'; } return s; }
// where the page keys and left and right lead, and what they fold
typedef const JSonElement *EL; typedef std::set<const JSonContainer *> Shut;
static const JSonContainer *held(EL e) { if (auto n = dynamic_cast<const JSonObjectEntry *>(e)) e = **n; return dynamic_cast<const JSonContainer *>(e); }
static EL above(EL e) { EL p = e->getParent(); if (p && p->getParent() && dynamic_cast<const JSonObjectEntry *>(p->getParent())) p = p->getParent(); return p; }
static EL goes(int k, EL e, const Shut &shut, const std::vector<EL> &vis) {
  const JSonContainer *c = held(e); EL p = e->getParent(), before = nullptr, after = nullptr, last = nullptr; if (auto in = dynamic_cast<const JSonContainer *>(p)) for (EL x : *in) { if (x == e) before = last; if (last == e) after = x; last = x; }
  if (k == 2) return before ? before : p ? above(e) : e; if (k == 3) { if (after) return after; if (!p) return e; EL r = goes(3, above(e), shut, vis); return r == above(e) ? e : r; }
  if (k == 4) return p && (!c || shut.count(c) || !c->size()) ? above(e) : e;
  if (!c || shut.count(c) || !c->size()) return e; size_t at = pos(vis, e); return at + 1 < vis.size() ? vis[at + 1] : e; }
static void folds(int k, EL e, EL now, const Shut &shut, const Shut &then, EL root, const Shut &pair) {
  const JSonContainer *c = held(e); Shut w = shut; if (k == 5 && c && shut.count(c)) { w.erase(c); for (auto x : pair) w.erase(x); } if (k == 4 && c && now == e && !shut.count(c)) { w.insert(c); w.insert(pair.begin(), pair.end()); }
  if (k == 4 && !c && e == root) return; if (w != then) fail(string(k == 4 ? "left" : k == 5 ? "right" : "a page key") + " on " + where(root, e) + " leaves other containers folded than it should"); }
static void split(const Params &p) {
  string t = gen::value(1 + below(5)), u = coin(4) ? gen::value(1 + below(5)) : alter(t); Opt o{false, true, false, coin()}; Real r(t, o), s(u, o); if (r.res || s.res) return; JSonElement *root[2] = {r.sc.getRoot(), s.sc.getRoot()}; string before[2] = {dump(root[0]), dump(root[1])};
  term::W = 40 + below(80); term::H = coin() ? 5 + below(8) : 6 + below(40); string d = "screen " + std::to_string(term::W) + "x" + std::to_string(term::H) + " documents " + show(t) + " and " + show(u) + " keys:"; input(d);
  CurseSplitOutput c(p); term::keys.clear(); stale = true; c.run({"l", "r"}, {root[0], root[1]}); unsigned n = 1 + below(40);
  auto check = [&]() { for (unsigned w = 0; w < 2; ++w) { t_subWindow &x = c.subWindows.at(w); std::vector<const JSonElement *> vis; list(root[w], vis, &c.collapsed); const char *side = w ? "right" : "left";
      if (w == c.selectedWin && !x.selection) fail("nothing is selected in the active window"); if (x.selection && x.selection != x.lastSelection) fail(string("the ") + side + " window remembers another selection");
      if (pos(vis, x.lastSelection) == (size_t)-1) fail(string("the selection of the ") + side + " window is " + where(root[w], x.lastSelection) + ", not a visible element"); } };
  while (n--) { draw(c); check(); unsigned w = c.selectedWin; t_subWindow &x = c.subWindows.at(w); std::vector<const JSonElement *> vis; list(root[w], vis, &c.collapsed); const JSonElement *was = x.selection; size_t at = pos(vis, was);
    unsigned k = below(16); static const char *K[] = {"up", "down", "pageup", "pagedown", "left", "right", "next", "search", "window", "window right", "window left", "down", "down", "down", "left", "down"}; d += string(" ") + K[k]; input(d); std::set<const JSonContainer *> shut = c.collapsed;
    switch (k) {
      case 0: key(c, 0); { size_t p = pos(vis, x.selection); if (!(p + 1 == at || (p == at && at == 0))) fail("up moves from " + where(root[w], was) + " to " + where(root[w], x.selection)); } break;
      case 1: case 11: case 12: case 13: case 15: key(c, 1); { size_t p = pos(vis, x.selection); if (!(p == at + 1 || (p == at && at + 1 == vis.size()))) fail("down moves from " + where(root[w], was) + " to " + where(root[w], x.selection));
        if (p == at + 1 && coin()) { draw(c); d += " up"; input(d); key(c, 0); if (x.selection != was) fail("down then up goes from " + where(root[w], was) + " to " + where(root[w], x.selection)); } } break;
      case 4: case 14: key(c, 4); for (auto y : shut) if (!c.collapsed.count(y)) fail("collapsing expands"); break;
      case 5: key(c, 5); for (auto y : c.collapsed) if (!shut.count(y)) fail("expanding collapses"); break;
      case 7: { string pat = gen::pick({"a", "b", "1", "", "true", "e/i", "zz", "/n", "c/e"}); d += "(" + pat + ")"; input(d); for (char y : pat) term::keys.push_back(y); term::keys.push_back('\n'); key(c, 7); } break;
      case 8: case 9: case 10: key(c, k); if (c.selectedWin != (k == 8 ? 1 - w : k == 9 ? 1 : 0)) fail("the window key leads to window " + std::to_string(c.selectedWin)); break;
      default: key(c, k); }
    if (int q = k == 2 ? 2 : k == 3 ? 3 : k == 4 || k == 14 ? 4 : k == 5 ? 5 : 0) { EL e = goes(q, was, shut, vis); if (x.selection != e) fail(string(K[k]) + " moves from " + where(root[w], was) + " to " + where(root[w], x.selection) + " instead of " + where(root[w], e));
      Shut pair; if (held(was)) if (EL o = c.diffMatrice->getEquivalence(held(was))) pair.insert((const JSonContainer *)o); folds(q, was, x.selection, shut, c.collapsed, root[w], pair); }
    if (dump(root[0]) != before[0] || dump(root[1]) != before[1]) fail("a document changed"); check(); } }
int main(int ac, char **av) {
  begin(ac, av); P = params({"p"}); Params *nc = params({"p", "--color=never"});
  while (more()) {
    if (coin(3)) { split(coin() ? *P : *nc); continue; }
    term::W = coin(4) ? 12 + below(20) : 20 + below(120); term::H = coin() ? 4 + below(8) : 5 + below(40);
    string t = gen::value(1 + below(6)); Opt o{false, true, false, coin()}; Real r(t, o); if (r.res) continue; JSonElement *root = r.sc.getRoot(); string before = dump(root);
    string d = "screen " + std::to_string(term::W) + "x" + std::to_string(term::H) + " " + show(t) + " keys:"; input(d);
    CurseSimpleOutput c(coin() ? *P : *nc); term::keys.clear(); stale = true; c.run(root, "name");
    unsigned n = 1 + below(40); 
    while (n--) { draw(c); std::vector<const JSonElement *> vis; list(root, vis, &c.collapsed); const JSonElement *was = c.selection; size_t at = pos(vis, was); if (at == (size_t)-1) fail("the selection is " + where(root, was) + ", not a visible element");
      unsigned k = below(11); static const char *K[] = {"up", "down", "down", "down", "pageup", "pagedown", "left", "right", "next", "search", "left"}; d += string(" ") + K[k]; input(d); unsigned top = c.scrollTop; std::set<const JSonContainer *> shut = c.collapsed;
      switch (k) {
        case 0: key(c, 0); { size_t p = pos(vis, c.selection); if (!(p + 1 == at || (p == at && at == 0))) fail("up moves from " + where(root, was) + " to " + where(root, c.selection)); } break;
        case 1: case 2: case 3: { key(c, 1); size_t p = pos(vis, c.selection); bool scrolled = c.scrollTop != top; if (!(p == at + 1 || (p == at && (at + 1 == vis.size() || scrolled)))) fail("down moves from " + where(root, was) + " to " + where(root, c.selection));
          if (p == at + 1 && coin()) { draw(c); d += " up"; input(d); key(c, 0); if (c.selection != was) fail("down then up goes from " + where(root, was) + " to " + where(root, c.selection)); } } break;
        case 4: key(c, 2); break; case 5: key(c, 3); break;
        case 6: case 10: { key(c, 4); if (c.collapsed.size() < shut.size()) fail("collapsing expands"); } break;
        case 7: { key(c, 5); for (auto x : c.collapsed) if (!shut.count(x)) fail("expanding collapses"); } break;
        case 8: key(c, 6); break;
        case 9: { string pat = gen::pick({"a", "b", "1", "", "true", "e/i", "zz", "/n", "c/e"}); d += "(" + pat + ")"; input(d); for (char x : pat) term::keys.push_back(x); term::keys.push_back('\n'); key(c, 7); break; } }
      if (int q = k == 4 ? 2 : k == 5 ? 3 : k == 6 || k == 10 ? 4 : k == 7 ? 5 : 0) { EL e = goes(q, was, shut, vis); if (c.selection != e) fail(string(K[k]) + " moves from " + where(root, was) + " to " + where(root, c.selection) + " instead of " + where(root, e)); folds(q, was, c.selection, shut, c.collapsed, root, Shut()); }
      if (dump(root) != before) fail("the document changed");
      draw(c); vis.clear(); list(root, vis, &c.collapsed); if (pos(vis, c.selection) == (size_t)-1) fail("the selection is " + where(root, c.selection) + ", not a visible element"); }
  }
  return end(); }
