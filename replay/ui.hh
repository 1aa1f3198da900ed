// the browser without a terminal, and what is visible of a document
#pragma once
#include <streambuf>
#include <iostream>
#include <fstream>
#include <sstream>
#include <list>
#include <set>
#include <map>
#include <deque>
#include <stack>
#include <algorithm>
#include <curses.h>
#include "params.hh"
#define private public
#define protected public
#include "curseSimpleOutput.hh"
#include "curseSplitOutput.hh"
#include "levenshteinMatrice.hpp"
#undef private
#undef protected
#include "searchPattern.hh"
#include "curses_stub.hh"
#include "run.hh"
namespace ui {
using namespace both;
// selectable elements in document order; hidden ones left out when `shut` is given
static void list(const JSonElement *e, std::vector<const JSonElement *> &o, const std::set<const JSonContainer *> *shut) {
  const JSonElement *v = e; o.push_back(e);
  if (auto en = dynamic_cast<const JSonObjectEntry *>(e)) v = **en;
  if (auto c = dynamic_cast<const JSonContainer *>(v)) { if (shut && shut->count(c)) return; for (const JSonElement *k : *c) list(k, o, shut); } }
static std::string where(const JSonElement *root, const JSonElement *x) { std::vector<const JSonElement *> o; list(root, o, nullptr); for (size_t i = 0; i < o.size(); ++i) if (o[i] == x) return "element " + std::to_string(i) + " '" + show(x->stringify()) + "'"; return x ? "an element outside the document" : "nothing"; }
static Params *params(std::initializer_list<const char *> l) { std::vector<char *> v; for (const char *s : l) v.push_back(strdup(s)); v.push_back(nullptr); Params *p = new Params(v.data()); p->read(); return p; }
}
