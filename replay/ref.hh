// an independent reading of the documented input language, used as oracle (shares no code with /repo)
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <set>
#include <cmath>
#include <climits>
#include <cstdlib>
#include <cerrno>
namespace ref {
using std::string;
enum Kind { NUL, BOOL, INT, DBL, STR, ARR, OBJ };
struct Node { Kind k; bool b = false; long long i = 0; double d = 0; string s; std::vector<std::pair<string, std::shared_ptr<Node>>> kids; };
typedef std::shared_ptr<Node> P;
struct Cfg { bool nul = false, strict = true, ascii = false, sorted = true; };
struct Refused { int kind; Refused(int k = 0): kind(k) {} };      // refused with an error report
struct Eof {};                                                  // nothing but an unfinished root
struct Parser {
  const string &t; size_t p = 0; Cfg c; int warnings = 0; bool unfinished = false;
  Parser(const string &x, Cfg y): t(x), c(y) {}
  bool strictLit() const { return c.nul || c.strict; }
  static bool skip(unsigned char ch) { return ch <= 32 || ch >= 127; }
  int peek() { while (p < t.size() && skip((unsigned char)t[p])) ++p; return p < t.size() ? (unsigned char)t[p] : -1; }
  // a scalar or a punctuation character; ch: the punctuation; end of input: ch = -1
  P scalar(int &ch) {
    int x = peek(); ch = -1; if (x < 0) return P();
    if (strchr("{}[]:,", x)) { ch = x; ++p; return P(); }
    if (x == '"') return str();
    if (strchr("tTfF", x)) return boolean();
    if (x == 'n' || x == 'N') return null();
    if ((x >= '0' && x <= '9') || x == '-' || x == '.') return number();
    throw Refused(1); }
  P null() {
    if (t.size() - p < 4) { p = t.size(); unfinished = true; return P(); }
    string raw = t.substr(p, 4), low = raw; p += 4; for (char &q : low) q = tolower((unsigned char)q);
    if (low != "null") throw Refused(1);
    if (raw != "null") { if (strictLit()) throw Refused(1); ++warnings; }
    P n(new Node); n->k = NUL; return n; }
  P boolean() {
    // letters of the literal; bytes that are never part of a document may not split it
    string raw; size_t q = p; while (q < t.size() && strchr("aelrsuAELRSU", t[q]) && t[q]) ++q, (void)0; if (q == p) { ++q; while (q < t.size() && t[q] && strchr("aelrsuAELRSU", t[q])) ++q; }
    raw = t.substr(p, q - p); string low = raw; for (char &x : low) x = tolower((unsigned char)x);
    p = q; 
    if (low.size() > (low[0] == 'f' ? 5u : 4u)) throw Refused(1);
    if (low != "true" && low != "false") throw Refused(1);
    if (low != raw) { if (strictLit()) throw Refused(1); ++warnings; }
    P n(new Node); n->k = BOOL; n->b = low == "true"; return n; }
  P number() {
    // the longest text made of digits, one point, one exponent mark and a sign after it
    size_t q = p; string raw; bool pt = t[p] == '.', ex = false; raw += t[q++];
    for (; q < t.size(); ++q) { char x = t[q];
      if (x >= '0' && x <= '9') ; else if (x == '.' && !pt) pt = true; else if ((x == 'e' || x == 'E') && !ex) ex = pt = true;
      else if ((x == '+' || x == '-') && (raw.back() == 'e' || raw.back() == 'E')) ; else break;
      raw += x; }
    p = q; P n(new Node);
    if (pt) { // digits, a point, digits, an exponent: at least one digit on one side of the point and in the exponent
      size_t k = 0, nd = 0; if (raw[k] == '-') ++k; while (k < raw.size() && isdigit((unsigned char)raw[k])) ++k, ++nd;
      if (k < raw.size() && raw[k] == '.') { ++k; while (k < raw.size() && isdigit((unsigned char)raw[k])) ++k, ++nd; }
      if (!nd) throw Refused(1);
      if (k < raw.size()) { ++k; if (k < raw.size() && (raw[k] == '+' || raw[k] == '-')) ++k; if (k >= raw.size()) throw Refused(1); while (k < raw.size() && isdigit((unsigned char)raw[k])) ++k; if (k < raw.size()) throw Refused(1); }
      n->k = DBL; n->d = strtod(raw.c_str(), 0); if (std::isinf(n->d)) throw Refused(1); return n; }
    size_t k = raw[0] == '-'; if (k >= raw.size()) throw Refused(1);
    bool neg = k; long long v = 0; for (; k < raw.size(); ++k) { if (__builtin_mul_overflow(v, 10, &v) || (neg ? __builtin_sub_overflow(v, raw[k] - '0', &v) : __builtin_add_overflow(v, raw[k] - '0', &v))) throw Refused(1); }
    n->k = INT; n->i = v; return n; }
  static int hexv(char x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; }
  long quad(size_t at) { long v = 0; for (int i = 0; i < 4; ++i) { int h = hexv(t[at + i]); if (h < 0) return -1; v = v * 16 + h; } return v; }
  static void put8(string &o, unsigned long v) {
    if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); }
    else if (v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
    else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } }
  // kept form: the reverse solidus of the simple escapes stays, \" and \/ lose theirs
  P str() {
    ++p; string o;
    while (p < t.size()) { char x = t[p++];
      if (x == '"') { P n(new Node); n->k = STR; n->s = o; return n; }
      if (x != '\\') { o += x; continue; }
      if (p >= t.size()) break;
      x = t[p++];
      if (x == '"' || x == '/') o += x;
      else if (x == '\\') o += "\\\\";
      else if (x == 'u') {
        if (!c.nul && c.ascii) { o += "\\u"; continue; }
        if (t.size() - p < 4) { p = t.size(); break; }
        long v = quad(p); if (v < 0) throw Refused(2);
        if (v >= 0xDC00 && v <= 0xDFFF) throw Refused(2);
        p += 4;
        if (v >= 0xD800 && v <= 0xDBFF) {
          if (t.size() - p < 6) { p = t.size(); break; }
          if (t[p] != '\\' || t[p + 1] != 'u') throw Refused(2);
          long w = quad(p + 2); if (w < 0xDC00 || w > 0xDFFF) throw Refused(2);
          p += 6; v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
        if (v == '\\') o += "\\\\"; else put8(o, v); }
      else if (strchr("bfnrt", x) && x) { o += '\\'; o += x; }
      else { if (!c.nul && c.strict) throw Refused(3); o += '\\'; o += x; ++warnings; } }
    p = t.size(); unfinished = true; return P(); }
  // a value; end of input or a wrong character is refused, except an unfinished scalar at the root (Eof)
  P value(P tok, int ch) {
    if (tok) return tok;
    if (ch == '[') { P n(new Node); n->k = ARR; int c2; P x = scalar(c2); if (!x && c2 == ']') return n;
      for (;;) { x = value(x, c2); if (!x) throw Refused(4); n->kids.push_back({"", x}); x = scalar(c2); if (x) throw Refused(5); if (c2 == ']') return n; if (c2 != ',') throw Refused(5); x = scalar(c2); } }
    if (ch == '{') { P n(new Node); n->k = OBJ; int c2; P x = scalar(c2); if (!x && c2 == '}') return n;
      for (;;) { if (!x || x->k != STR) throw Refused(6); string key = x->s; x = scalar(c2); if (x || c2 != ':') throw Refused(7);
        size_t at = n->kids.size(); for (size_t i = 0; i < n->kids.size(); ++i) if (n->kids[i].first == key) at = i;
        if (at < n->kids.size()) { if (strictLit()) throw Refused(8); n->kids.erase(n->kids.begin() + at); ++warnings; }
        x = scalar(c2); x = value(x, c2); if (!x) throw Refused(4);
        size_t pos = n->kids.size(); if (c.nul || c.sorted) { for (pos = 0; pos < n->kids.size() && n->kids[pos].first.compare(key) < 0; ++pos); }
        n->kids.insert(n->kids.begin() + pos, {key, x});
        x = scalar(c2); if (x) throw Refused(9); if (c2 == '}') return n; if (c2 != ',') throw Refused(9); x = scalar(c2); } }
    return P(); }
  P document() { int ch; P x = scalar(ch); x = value(x, ch); if (!x) throw Eof(); return x; }
};
}
