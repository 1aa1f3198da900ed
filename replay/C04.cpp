// members of objects: order, uniqueness, lookup, links, replacement and its warning
#include <algorithm>
#include "run.hh"
using namespace both;
static string key() { static const char *k[] = {"a", "b", "c", "A", "", "aa", "ab", "\xc3\xa9", "\x7f", "z", "B", "0", "10", "9"}; string s = k[below(14)]; if (coin(4)) s += k[below(14)]; return s; }
static void parsed() {
  Opt o = options(); o.ascii = false; unsigned n = coin(10) ? below(40) : below(9); string t = gen::ws() + "{"; std::vector<std::pair<string, int>> m; int rep = 0; size_t firstrep = 0;
  for (unsigned i = 0; i < n; ++i) { string k = key(); t += (i ? "," : "") + gen::ws() + "\"" + k + "\"" + gen::ws() + ":" + gen::ws() + std::to_string(i) + gen::ws();
    for (size_t j = 0; j < m.size(); ++j) if (m[j].first == k) { m.erase(m.begin() + j); ++rep; break; }
    m.push_back({k, (int)i}); }
  (void)firstrep; t += "}"; input(name(o) + show(t));
  bool strict = o.nul || o.strict; if (o.sorted) std::sort(m.begin(), m.end(), [](const std::pair<string, int> &a, const std::pair<string, int> &b) { return a.first.compare(b.first) < 0; });
  Real r(t, o);
  if (rep && strict) { if (r.res != 1) fail("a repeated key is accepted in strict mode"); return; }
  if (r.res != 0) fail("refused: " + r.what);
  if ((int)r.sc.getMessages().size() != rep) fail(std::to_string(r.sc.getMessages().size()) + " warnings for " + std::to_string(rep) + " replaced members");
  const JSonObject *b = dynamic_cast<const JSonObject *>(r.sc.getRoot()); if (!b) fail("not an object");
  if (b->size() != m.size()) fail(std::to_string(b->size()) + " members instead of " + std::to_string(m.size()));
  size_t i = 0; const JSonElement *first = nullptr;
  for (const JSonElement *e : *b) { auto en = dynamic_cast<const JSonObjectEntry *>(e); if (!en) fail("not a member");
    if (en->stringify() != m[i].first) fail("member " + std::to_string(i) + " is '" + show(en->stringify()) + "' instead of '" + show(m[i].first) + "'");
    auto v = dynamic_cast<const JSonPrimitive<int> *>(**en); if (!v || v->getValue() != m[i].second) fail("member '" + show(m[i].first) + "' has another value");
    if (en->getParent() != b) fail("a member does not know its object"); if (v->getParent() != en) fail("a value does not know its member");
    if (b->get(m[i].first) != v) fail("looking '" + show(m[i].first) + "' up does not find its value"); if (!b->contains(m[i].first)) fail("contains() denies '" + show(m[i].first) + "'");
    if (b->find(m[i].first) == b->cend() || *b->find(m[i].first) != e) fail("find() misses '" + show(m[i].first) + "'");
    if (!i) first = v; ++i; }
  if (b->firstChild() != first) fail("firstChild() is not the value of the first member");
  for (int k = 0; k < 4; ++k) { string q = key() + (coin() ? "x" : ""); bool in = false; for (auto &x : m) in |= x.first == q; if (in != b->contains(q) || in != (b->get(q) != nullptr) || in != (b->find(q) != b->cend())) fail("lookup of '" + show(q) + "'"); } }
static void direct() {
  bool so = coin(); JSonObject *b = so ? new JSonSortedObject(nullptr) : new JSonObject(nullptr); std::vector<std::pair<string, const JSonElement *>> m; string d = so ? "sorted object:" : "object:"; unsigned n = 1 + below(20);
  while (n--) { string k = key(); bool in = false; size_t at = 0; for (size_t i = 0; i < m.size(); ++i) if (m[i].first == k) { in = true; at = i; }
    if (coin(3)) { d += " erase(" + show(k) + ")"; input(d); if (b->erase(k) != in) fail("erase reports otherwise"); if (in) m.erase(m.begin() + at); }
    else if (!in) { d += " push(" + show(k) + ")"; input(d); JSonElement *v = new JSonPrimitive<bool>(nullptr, coin()); b->push(k, v); size_t pos = m.size(); if (so) for (pos = 0; pos < m.size() && m[pos].first.compare(k) < 0; ++pos); m.insert(m.begin() + pos, {k, v}); }
    if (b->size() != m.size()) fail("number of members"); size_t i = 0; for (const JSonElement *e : *b) { auto en = dynamic_cast<const JSonObjectEntry *>(e); if (!en || en->stringify() != m[i].first || **en != m[i].second || en->getParent() != b || m[i].second->getParent() != en || b->get(m[i].first) != m[i].second) fail("member " + std::to_string(i)); ++i; } }
  delete b; }
int main(int ac, char **av) { begin(ac, av); while (more()) { parsed(); if (coin(3)) direct(); } return end(); }
