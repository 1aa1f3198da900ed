// rows given to elements on screens of any size, and widths of texts, compared with counting characters
#include "ui.hh"
#include <clocale>
#include "config.h"
#include <cmath>
using namespace ui;
static size_t chars(const string &s) { mbstate_t st; memset(&st, 0, sizeof st); size_t n = 0, i = 0; while (i < s.size()) { if (!s[i]) break; size_t k = mbrlen(s.data() + i, s.size() - i, &st); if (k == (size_t)-1 || k == (size_t)-2) return s.size(); i += k ? k : 1; ++n; } return n; }
struct It { unsigned y, x; string s; };
struct Lay { unsigned W, y = 1; bool half; std::vector<It> out; const std::set<const JSonContainer *> &shut; Lay(unsigned w, bool h, const std::set<const JSonContainer *> &s): W(w), half(h), shut(s) {}
  void item(unsigned x, const string &first, size_t width, std::initializer_list<string> rest = {}) { out.push_back({y, x, first}); for (auto &r : rest) out.push_back({(unsigned)-1, 0, r}); y += (x + width + W - 1) / W; }
  void elem(const JSonElement *e, unsigned x) { auto c = dynamic_cast<const JSonContainer *>(e); if (!c) { item(x, e->stringify(), chars(e->stringify())); return; }
    bool obj = dynamic_cast<const JSonObject *>(e); if (shut.count(c)) { item(x, obj ? "{ ... }" : "[ ... ]", 7); return; }
    item(x, obj ? "{" : "[", 1); for (const JSonElement *k : *c) if (auto en = dynamic_cast<const JSonObjectEntry *>(k)) entry(en, x + INDENT_LEVEL); else elem(k, x + INDENT_LEVEL); item(x, obj ? "}" : "]", 1); }
  void entry(const JSonObjectEntry *en, unsigned x) { string key = en->stringify(); size_t kl = chars(key); const JSonElement *v = **en; auto c = dynamic_cast<const JSonContainer *>(v); string after; size_t al;
    bool obj = dynamic_cast<const JSonObject *>(v);
    if (c && !shut.count(c) && c->size()) { item(x, key, kl + 2, {": "}); elem(v, x + (half ? INDENT_LEVEL / 2 : 0)); return; }
    if (!c) { after = v->stringify(); al = chars(after); } else { after = shut.count(c) ? (obj ? "{ ... }" : "[ ... ]") : obj ? "{ }" : "[ ]"; al = after.size(); }
    item(x, key, kl + 2 + al, {": ", after}); } };
static void compare(const std::vector<It> &want, const std::vector<term::Write> &got, const char *who) {
  size_t j = 0; for (auto &w : want) { while (j < got.size() && (got[j].s.empty() || got[j].s == "++" || got[j].s == "!!")) ++j; if (w.s.empty()) { continue; }
    if (j == got.size()) fail(string(who) + ": '" + show(w.s) + "' is not drawn"); auto &g = got[j++];
    if (g.s != w.s) fail(string(who) + ": draws '" + show(g.s) + "' where '" + show(w.s) + "' is expected");
    if (w.y != (unsigned)-1 && (g.y != (int)w.y || g.x != (int)w.x)) fail(string(who) + ": '" + show(w.s) + "' is drawn at row " + std::to_string(g.y) + " column " + std::to_string(g.x) + ", expected row " + std::to_string(w.y) + " column " + std::to_string(w.x)); } }
static string text() { string r; unsigned n = coin() ? below(8) : below(90); while (n--) r += gen::pick({"a", "b", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", coin(8) ? "\xff" : "c", coin(8) ? "\xc3" : "d", "z"}); return r; }
static string value(int d) { unsigned k = below(d > 0 ? 6 : 3); if (k == 0) return gen::num(); if (k < 3) return "\"" + text() + "\""; string r; unsigned n = below(4); if (k < 4) { r = "["; for (unsigned i = 0; i < n; ++i) r += (i ? "," : "") + value(d - 1); return r + "]"; }
  r = "{"; std::set<string> used; bool first = true; for (unsigned i = 0; i < n; ++i) { string key = text(); if (!used.insert(key).second) continue; r += (first ? "\"" : ",\"") + key + "\":" + value(d - 1); first = false; } return r + "}"; }
int main(int ac, char **av) {
  begin(ac, av); if (!setlocale(LC_ALL, "C.UTF-8")) fail("no UTF-8 locale"); setlocale(LC_NUMERIC, "C"); const Params *P = params({"p"});
  while (more()) {
    for (int k = 0; k < 20; ++k) { size_t n = coin() ? below(300) : coin() ? (size_t)rnd() % 2000000000 : below(3000); unsigned w = coin() ? 1 + below(200) : 1 + below(5000); if (coin(3)) n = (size_t)w * below(50) + below(3); if (coin(4) && n) n--; input("width " + std::to_string(n) + " on a screen of " + std::to_string(w));
      size_t want = n / w + (n % w ? 1 : 0); if (want < (1u << 31)) { unsigned got = CurseOutput::getNbLines(n, w); if (got != want) fail("takes " + std::to_string(got) + " rows, expected " + std::to_string(want)); } }
    for (int k = 0; k < 10; ++k) { string s = text(); input("text " + show(s)); JSonPrimitive<string> p(nullptr, s); string shown = p.stringify(); size_t w = chars(shown); if (p.strlen() != w) fail("width " + std::to_string(p.strlen()) + ", expected " + std::to_string(w)); if (p.lazystrlen() != w || p.lazystrlen() != w) fail("lazy width " + std::to_string(p.lazystrlen()) + ", expected " + std::to_string(w)); if (p.strlen() != w) fail("width changes after the lazy one");
      JSonObjectEntry en(nullptr, s, new JSonPrimitive<int>(nullptr, 1)); w = chars(en.stringify()); if (en.strlen() != w || en.lazystrlen() != w || en.strlen() != w) fail("width of the key " + std::to_string(en.lazystrlen()) + ", expected " + std::to_string(w)); }
    string t = value(1 + below(4)); Opt o{false, true, true, coin()}; Real r(t, o); if (r.res) continue; JSonElement *root = r.sc.getRoot();
    term::W = coin() ? 4 + below(30) : 10 + below(100); term::H = 300; input("screen " + std::to_string(term::W) + " columns, document " + show(t)); term::keys.clear();
    if (coin()) { CurseSimpleOutput c(*P); c.run(root, "n"); std::vector<const JSonElement *> all; list(root, all, nullptr); unsigned n = below(4); while (n--) { auto e = all[below(all.size())]; if (auto en = dynamic_cast<const JSonObjectEntry *>(e)) e = **en; if (auto k = dynamic_cast<const JSonContainer *>(e)) c.collapsed.insert(k); }
      term::writes.clear(); bool ok = c.redraw(); if (!ok || c.scrollTop || c.selectIsLast) continue; Lay l(term::W, true, c.collapsed); l.elem(root, 0); if (l.y > 290) continue; if (term::writes.empty()) fail("nothing drawn"); term::writes.erase(term::writes.begin()); compare(l.out, term::writes, "browsing"); }
    else { term::W = 2 * (8 + below(60)); Real r2(t, o); CurseSplitOutput c(*P); c.run({"a", "b"}, {root, r2.sc.getRoot()}); term::writes.clear(); if (!c.redraw() || c.subWindows[0].scrollTop || c.subWindows[0].selectIsLast) continue; Lay l(term::W / 2 - 2, false, c.collapsed); l.elem(root, 2); if (l.y > 280) continue;
      for (int k = 0; k < 2; ++k) { std::vector<term::Write> w; for (auto &x : term::writes) if (x.w == c.subWindows[k].innerWin) w.push_back(x); if (w.empty()) fail("nothing drawn"); w.erase(w.begin()); std::vector<It> want; const JSonElement *rt = k ? r2.sc.getRoot() : root; Lay m(term::W / 2 - 2, false, c.collapsed); m.elem(rt, 2); compare(m.out, w, k ? "right side" : "left side"); } }
  }
  return end();
}
