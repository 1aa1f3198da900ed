// a search lists every match once in document order, next hit goes to the first one after the selection or wraps
#include "ui.hh"
using namespace ui;
static size_t pos(const std::vector<const JSonElement *> &v, const JSonElement *e) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == e) return i; return (size_t)-1; }
// an element is hit when its own text matches: a scalar, a key, or the scalar value of a key
static std::vector<const JSonElement *> hits(const JSonElement *root, const SearchPattern &p) {
  std::vector<const JSonElement *> all, r; list(root, all, nullptr);
  for (auto e : all) { bool m; if (auto en = dynamic_cast<const JSonObjectEntry *>(e)) { const JSonElement *v = **en; m = p.match(en->stringify(), en) || (!dynamic_cast<const JSonContainer *>(v) && p.match(v->stringify(), v)); }
    else m = !dynamic_cast<const JSonContainer *>(e) && p.match(e->stringify(), e); if (m) r.push_back(e); }
  return r; }
static void same(const JSonElement *root, const std::list<const JSonElement *> &got, const std::vector<const JSonElement *> &want) {
  std::vector<const JSonElement *> g(got.begin(), got.end()); if (g == want) return;
  size_t i = 0; while (i < g.size() && i < want.size() && g[i] == want[i]) ++i;
  fail("hit number " + std::to_string(i) + " is " + (i < g.size() ? where(root, g[i]) : "missing") + ", expected " + (i < want.size() ? where(root, want[i]) : "none")); }
static const JSonElement *nexthit(const JSonElement *root, const std::vector<const JSonElement *> &h, const JSonElement *sel) {
  std::vector<const JSonElement *> all; list(root, all, nullptr); size_t at = pos(all, sel);
  for (auto e : h) if (pos(all, e) > at) return e;
  return h[0]; }
static void visible(const JSonElement *root, const JSonElement *sel, const std::set<const JSonContainer *> &shut) { std::vector<const JSonElement *> v; list(root, v, &shut); if (pos(v, sel) == (size_t)-1) fail("the hit selected, " + where(root, sel) + ", is not shown"); }
static string pattern() { return gen::pick({"a", "b", "c", "1", "", "true", "u", "/s", "/n", "/o", "/b", "a/i", "c/o", "1/s", "a/w", "a/f", "e/e", "[ab]/e", "zzz", "\\u00e9"}); }
static void type(const string &pat) { term::keys.clear(); for (char x : pat) term::keys.push_back((unsigned char)x); term::keys.push_back(coin(8) ? 27 : '\n'); }
static void single(const Params &P) {
  string t = gen::value(1 + below(6)); Opt o{false, true, false, coin()}; Real r(t, o); if (r.res) return; JSonElement *root = r.sc.getRoot();
  term::W = 30 + below(80); term::H = 5 + below(20); string d = "document " + show(t) + ":"; input(d);
  CurseSimpleOutput c(P); term::keys.clear(); c.run(root, "n"); std::vector<const JSonElement *> all; list(root, all, nullptr); std::vector<const JSonElement *> h;
  unsigned n = 1 + below(12);
  while (n--) { int guard = 0; while (!c.redraw()) if (++guard > 20000) fail("drawing never ends");
    if (coin(3)) { c.selection = all[below(all.size())]; c.unfold(c.selection); d += " select " + where(root, c.selection); }
    if (coin(3) && all.size() > 1) { c.collapseSelection(); d += " collapse"; }
    const JSonElement *sel = c.selection; if (!sel) fail("nothing selected");
    if (coin()) { string pat = pattern(); bool esc; type(pat); esc = term::keys.back() == 27; d += " search(" + pat + (esc ? ", escape)" : ")"); input(d);
      c.initSearch(); if (esc) { if (c.selection != sel) fail("an abandoned search moves the selection"); continue; }
      SearchPattern sp(StreamConsumer::extractUnicode(pat.c_str())); h = sp.isEmpty() ? std::vector<const JSonElement *>() : hits(root, sp); same(root, c.search_result, h);
      if (sp.isEmpty()) { if (c.selection != sel) fail("an empty pattern moves the selection"); continue; } }
    else { d += " next"; input(d); c.nextResult(); }
    if (h.empty()) { if (c.selection != sel) fail("without a match the selection moves to " + where(root, c.selection)); continue; }
    const JSonElement *w = nexthit(root, h, sel); if (c.selection != w) fail("from " + where(root, sel) + " the next hit is " + where(root, c.selection) + ", expected " + where(root, w)); visible(root, c.selection, c.collapsed); } }
static string alter(string s) { unsigned n = below(3); while (n--) if (s.size()) { unsigned i = below(s.size()); if (isalnum((unsigned char)s[i])) s[i] = coin() ? '1' : 'a'; } return s; }
static void split(const Params &P) {
  string t = gen::value(1 + below(4)), u = coin(3) ? gen::value(1 + below(4)) : alter(t); Opt o{false, true, false, coin()}; Real r(t, o), s(u, o); if (r.res || s.res) return;
  JSonElement *root[2] = {r.sc.getRoot(), s.sc.getRoot()}; term::W = 40 + below(80); term::H = 6 + below(20); string d = "documents " + show(t) + " and " + show(u) + ":"; input(d);
  CurseSplitOutput c(P); term::keys.clear(); c.run({"l", "r"}, {root[0], root[1]}); std::vector<const JSonElement *> h[2];
  unsigned n = 1 + below(10);
  while (n--) { int guard = 0; while (!c.redraw()) if (++guard > 20000) fail("drawing never ends");
    if (coin(3)) { d += " window"; input(d); c.changeWindow(1, true); }
    else if (coin(3)) { d += " down"; input(d); c.selectDown(); }
    unsigned w = c.selectedWin; t_subWindow &sw = c.subWindows.at(w); const JSonElement *sel = sw.selection, *last = sw.lastSelection; if (!sel) fail("nothing selected in the active window");
    if (coin()) { string pat = pattern(); type(pat); bool esc = term::keys.back() == 27; d += " search(" + pat + (esc ? ", escape)" : ")"); input(d); c.initSearch(); if (c.selectedWin != w) fail("a search changes the active window");
      if (esc) { if (sw.selection != sel) fail("an abandoned search moves the selection"); continue; }
      SearchPattern sp(StreamConsumer::extractUnicode(pat.c_str())); for (int k = 0; k < 2; ++k) { h[k] = sp.isEmpty() ? std::vector<const JSonElement *>() : hits(root[k], sp); same(root[k], c.subWindows.at(k).searchResults, h[k]); }
      if (sp.isEmpty()) { if (sw.selection != sel) fail("an empty pattern moves the selection"); continue; } }
    else { d += " next"; input(d); c.nextResult(); }
    if (h[w].empty()) { if (sw.selection != sel) fail("without a match the selection moves to " + where(root[w], sw.selection)); continue; }
    const JSonElement *x = nexthit(root[w], h[w], last); if (sw.selection != x) fail("from " + where(root[w], last) + " the next hit is " + where(root[w], sw.selection) + ", expected " + where(root[w], x)); visible(root[w], sw.selection, c.collapsed); } }
int main(int ac, char **av) { begin(ac, av); const Params *P = params({"p"}); while (more()) if (coin(4)) split(*P); else single(*P); return end(); }
