// random JSON texts (valid ones, and damaged ones)
#pragma once
#include "drv.hh"
namespace gen {
using namespace drv; using std::string;
static const char *pick(std::initializer_list<const char *> l) { return *(l.begin() + below(l.size())); }
static string ws(int lvl = 3) {
  string r; if (!coin(lvl)) return r; unsigned n = 1 + below(3);
  while (n--) r += coin(6) ? string(1, (char)(coin() ? 128 + below(128) : 1 + below(31))) : string(pick({" ", "\n", "\t", "\r", "  ", "\r\n"}));
  return r; }
static string hex4(unsigned v, int cs) { char b[8]; snprintf(b, 8, cs ? "%04X" : "%04x", v); if (cs == 2) for (int i = 0; i < 4; ++i) if (coin()) b[i] = tolower(b[i]); return b; }
static string strbody(bool tolerated = false) {
  string r; unsigned n = coin(12) ? below(120) : below(7);
  while (n--) switch (below(tolerated ? 13 : 12)) {
    case 0: r += pick({"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"}); break;
    case 1: { unsigned v = coin(3) ? below(0x80) : coin() ? below(0x800) : below(0x10000); if (v >= 0xD800 && v <= 0xDFFF) v = 0x20ac; r += "\\u" + hex4(v, below(3)); break; }
    case 2: if (coin(3)) { r += "\\u" + hex4(0xD800 + below(0x400), below(3)) + "\\u" + hex4(0xDC00 + below(0x400), below(3)); } break;
    case 3: r += pick({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}); break;
    case 4: r += pick({"{", "}", "[", "]", ":", ",", "true", "null", " ", "'", "#"}); break;
    case 5: if (coin(4)) r += (char)(1 + below(31)); break;
    case 12: r += string("\\") + pick({"a", "x", "z", "'", "0", "-"}); break;
    default: r += (char)('a' + below(4)); }
  return r; }
static string num() {
  string r = coin(3) ? "-" : "";
  unsigned d = coin(6) ? 8 + below(13) : 1 + below(4); if (coin(6)) r += "0"; else { r += (char)('1' + below(9)); while (--d) r += (char)('0' + below(10)); }
  if (coin(8)) return coin() ? pick({"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808"}) : "0";
  if (coin(3)) { r += "."; unsigned k = 1 + below(coin(4) ? 18 : 4); while (k--) r += (char)('0' + below(10)); }
  if (coin(5)) { r += pick({"e", "E", "e+", "e-", "E+", "E-"}); r += std::to_string(below(coin(3) ? 300 : 20)); }
  return r; }
static string anycase(const string &s) { string r = s; for (char &c : r) if (coin(3)) c = toupper(c); return r; }
static string value(int depth, bool tol = false);
static string keystr(bool tol) { return coin() ? string(1, 'a' + below(6)) : coin(3) ? string(pick({"ab", "a", "", "b", "A", "aa", "\xc3\xa9"})) : strbody(tol); }
static string value(int depth, bool tol) {
  unsigned k = below(depth > 0 ? 10 : 6); string r;
  if (k == 0) { r = pick({"true", "false", "null"}); if (tol && coin(3)) r = anycase(r); return r; }
  if (k < 3) return num();
  if (k < 6) return "\"" + strbody(tol) + "\"";
  if (k < 8) { r = "["; unsigned n = below(4); if (coin(20)) n = below(12); for (unsigned i = 0; i < n; ++i) r += (i ? "," : "") + ws() + value(depth - 1, tol) + ws(); if (!n) r += ws(); return r + "]"; }
  std::set<string> used; r = "{"; unsigned n = below(5); bool first = true; if (coin(20)) n = below(12);
  for (unsigned i = 0; i < n; ++i) { string key = keystr(tol); if (!tol && used.count(key)) continue; used.insert(key);
    r += string(first ? "" : ",") + ws() + "\"" + key + "\"" + ws() + ":" + ws() + value(depth - 1, tol) + ws(); first = false; }
  if (first) r += ws();
  return r + "}"; }
static string damage(string s) {
  unsigned n = 1 + below(2);
  while (n--) switch (below(6)) {
    case 0: s = s.substr(0, below(s.size() + 1)); break;
    case 1: if (s.size()) s[below(s.size())] = (char)below(256); break;
    case 2: if (s.size()) s.erase(below(s.size()), 1 + below(2)); break;
    case 3: s.insert(below(s.size() + 1), pick({"\"", "\\", "{", "}", "[", "]", ":", ",", "e", ".", "-", "+", "\\u", "\\u12", "\\ud800", "t", "nul", "0", "\n", "\\ud83d\\ude00", "\\x", "1e999", "99999999999999999999", "--"})); break;
    case 4: if (s.size()) { unsigned i = below(s.size()), j = below(s.size()); std::swap(s[i], s[j]); } break;
    case 5: if (s.size() > 2) { unsigned i = below(s.size()); unsigned l = 1 + below(4); s.insert(i, s.substr(i, l)); } break; }
  return s; }
static string junk() { string r; unsigned n = below(12); while (n--) r += coin() ? (char)below(256) : "{}[],:\"\\truefalsn0123456789.eE+- \n"[below(35)]; return r; }
static string text(bool tol) { unsigned k = below(10); string v = ws() + value(below(5), tol) + (coin() ? "" : ws(1)); return k < 6 ? v : k < 9 ? damage(v) : junk(); }
}
