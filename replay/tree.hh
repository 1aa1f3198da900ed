// view of the real tree through its public interface, compared with the oracle's tree
#pragma once
#include "ref.hh"
#include "streamConsumer.hh"
#include "jsonObjectEntry.hh"
struct Cfg: public AParams { bool s, a, o, c = true; Cfg(bool st, bool as, bool so): s(st), a(as), o(so) {} bool isIgnoringUnicode() const { return a; } bool isStrict() const { return s; } bool colorEnabled() const { return c; } bool sortObjects() const { return o; } };
static std::string path(const std::string &a, const std::string &b) { return a + "/" + b; }
// "" when equal, else where they differ
static std::string differs(const JSonElement *e, const ref::Node *n, const std::string &at = "") {
  if (!e) return at + ": missing element";
  if (auto x = dynamic_cast<const JSonPrimitive<Null> *>(e)) { (void)x; return n->k == ref::NUL ? "" : at + ": null"; }
  if (auto x = dynamic_cast<const JSonPrimitive<bool> *>(e)) return n->k == ref::BOOL && n->b == x->getValue() ? "" : at + ": boolean " + x->stringify();
  if (auto x = dynamic_cast<const JSonPrimitive<int> *>(e)) return n->k == ref::INT && n->i == x->getValue() ? "" : at + ": integer " + std::to_string(x->getValue());
  if (auto x = dynamic_cast<const JSonPrimitive<long long> *>(e)) return n->k == ref::INT && n->i == x->getValue() ? "" : at + ": integer " + std::to_string(x->getValue());
  if (auto x = dynamic_cast<const JSonPrimitive<double> *>(e)) return n->k == ref::DBL && n->d == x->getValue() ? "" : at + ": number " + x->stringify();
  if (auto x = dynamic_cast<const JSonPrimitive<std::string> *>(e)) return n->k == ref::STR && n->s == x->getValue() && x->stringify() == n->s ? "" : at + ": string '" + drv::show(x->getValue()) + "' instead of '" + drv::show(n->s) + "'";
  auto c = dynamic_cast<const JSonContainer *>(e); if (!c) return at + ": unknown kind";
  bool obj = dynamic_cast<const JSonObject *>(e) != nullptr;
  if (n->k != (obj ? ref::OBJ : ref::ARR)) return at + ": container kind";
  if (c->size() != n->kids.size()) return at + ": " + std::to_string(c->size()) + " children instead of " + std::to_string(n->kids.size());
  size_t i = 0;
  for (const JSonElement *k : *c) { const JSonElement *v = k; std::string key;
    if (obj) { auto en = dynamic_cast<const JSonObjectEntry *>(k); if (!en) return at + ": not a member"; key = en->stringify(); v = **en; if (key != n->kids[i].first) return at + ": member '" + drv::show(key) + "' instead of '" + drv::show(n->kids[i].first) + "'"; }
    std::string d = differs(v, n->kids[i].second.get(), path(at, obj ? key : std::to_string(i))); if (d.size()) return d; ++i; }
  return ""; }
