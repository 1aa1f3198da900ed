// parents, depths and stepping of every element of random documents
#include <map>
#include "run.hh"
using namespace both;
struct Info { const JSonElement *e, *parent, *next, *prev; unsigned level; string at; };
static std::vector<Info> all; static std::map<const JSonElement *, size_t> idx;
// next: the element that follows e and all it holds; outer: what follows its parent
static void walk(const JSonElement *e, const JSonElement *parent, const JSonElement *next, const JSonElement *prev, unsigned level, const string &at) {
  idx[e] = all.size(); all.push_back({e, parent, next, prev, level, at});
  if (auto c = dynamic_cast<const JSonContainer *>(e)) { std::vector<const JSonElement *> k(c->begin(), c->end());
    for (size_t i = 0; i < k.size(); ++i) walk(k[i], e, i + 1 < k.size() ? k[i + 1] : next, i ? k[i - 1] : nullptr, level + 1, at + "/" + std::to_string(i)); }
  else if (auto en = dynamic_cast<const JSonObjectEntry *>(e)) walk(**en, e, next, nullptr, level + 1, at + "/v"); }
static void judge(const JSonElement *root) {
  all.clear(); idx.clear(); walk(root, nullptr, nullptr, nullptr, 1, "");
  for (Info &i : all) {
    if (i.e->getParent() != i.parent) fail("parent of " + i.at); if (const_cast<JSonElement *>(i.e)->getParent() != i.parent) fail("parent of " + i.at);
    if (i.e->getLevel() != i.level) fail("depth of " + i.at + " is " + std::to_string(i.e->getLevel()) + " instead of " + std::to_string(i.level));
    const JSonElement *n = i.e->findNext(); if (n && !idx.count(n)) fail("stepping after " + i.at + " leaves the document");
    if (n != i.next) fail("stepping after " + i.at + " gives " + (n ? all[idx[n]].at : "nothing") + " instead of " + (i.next ? all[idx[i.next]].at : "nothing"));
    const JSonElement *p = i.e->findPrev(); if (p && !idx.count(p)) fail("stepping before " + i.at + " leaves the document");
    if (p != i.prev) fail("stepping before " + i.at + " gives " + (p ? all[idx[p]].at : "nothing") + " instead of " + (i.prev ? all[idx[i.prev]].at : "nothing"));
    if (auto c = dynamic_cast<const JSonContainer *>(i.e)) { const JSonElement *f = c->empty() ? nullptr : c->front(); if (auto en = dynamic_cast<const JSonObjectEntry *>(f)) f = **en; if (c->firstChild() != f || const_cast<JSonContainer *>(c)->firstChild() != f) fail("first child of " + i.at); } } }
int main(int ac, char **av) {
  begin(ac, av);
  while (more()) {
    Opt o = options(); string t = coin(4) ? gen::text(!o.strict) : gen::value(1 + below(6), !o.strict); input(name(o) + show(t));
    { Real r(t, o); if (r.res != 0) continue; judge(r.sc.getRoot());
      // removing a member: no step lands on it any more
      if (auto b = dynamic_cast<JSonObject *>(r.sc.getRoot())) while (b->size() && coin()) { unsigned k = below(b->size()); auto it = b->begin(); std::advance(it, k); string key = (*it)->stringify(); input(name(o) + show(t) + " erase(" + show(key) + ")"); b->erase(key); judge(b); } }
  }
  return end(); }
