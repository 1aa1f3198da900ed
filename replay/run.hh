// one parse of the real code and of the oracle under the same options
#pragma once
#include <sstream>
#include <iostream>
#include "gen.hh"
#include "tree.hh"
#include "jsonException.hh"
namespace both {
using namespace drv; using std::string;
struct Opt { bool nul, strict, ascii, sorted; };
static Opt options() { Opt o; o.nul = coin(8); o.strict = !coin(3); o.ascii = coin(5); o.sorted = coin(); if (o.nul) { o.strict = true; o.ascii = false; o.sorted = true; } return o; }
static string name(const Opt &o) { return o.nul ? "no options: " : string(o.strict ? "" : "-W ") + (o.ascii ? "--ascii " : "") + (o.sorted ? ": " : "--keep-order: "); }
// 0 document, 1 refused with a report, 2 nothing read
struct Real { std::istringstream in; Cfg cfg; StreamConsumer sc; int res; string what; unsigned line = 0, col = 0; string hist; size_t consumed = 0;
  Real(const string &t, const Opt &o): in(t), cfg(o.strict, o.ascii, o.sorted), sc(in), res(0) {
    if (!o.nul) sc.withConfig(&cfg);
    try { sc.read(); res = sc.getRoot() ? 0 : 2; }
    catch (JsonException &e) { res = 1; what = e.what(); line = e.currentLine(); col = e.currentCol(); hist = e.getHistory(); }
    catch (std::exception &e) { fail(string("an exception that is not a JSON error leaves the parser: ") + e.what()); }
    catch (...) { fail("an unknown exception leaves the parser"); }
    } };
struct Oracle { int res; ref::P root; int warnings = 0; size_t at = 0; int kind = 0;
  Oracle(const string &t, const Opt &o) { ref::Cfg c; c.nul = o.nul; c.strict = o.strict; c.ascii = o.ascii; c.sorted = o.sorted; ref::Parser p(t, c);
    try { root = p.document(); res = 0; } catch (ref::Refused &r) { res = 1; kind = r.kind; } catch (ref::Eof &) { res = 2; }
    warnings = p.warnings; at = p.p; } };
}
