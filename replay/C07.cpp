// unicode escapes: every code unit in both cases, pairs, wrong digits, and the conversion of search patterns
#include <stdexcept>
#include <streambuf>
#include <iostream>
#include <sstream>
#define private public
#define protected public
#include "streamConsumer.hh"
#undef private
#undef protected
#include "run.hh"
#include "unicode.hpp"
using namespace both;
static string u8(unsigned long v) { string o; ref::Parser::put8(o, v); return o; }
static void inString(const string &esc, bool ok, const string &want, const Opt &o) {
  string pre = gen::pick({"", "x", "\\n", "\\\\", "\xc3\xa9"}), post = gen::pick({"", "y", "0", "\\t"}); string t = "\"" + pre + esc + post + "\""; input(name(o) + show(t));
  Real r(t, o); if (!ok) { if (r.res == 0) fail("accepted"); return; } if (r.res != 0) fail("refused: " + r.what);
  auto v = dynamic_cast<const JSonPrimitive<std::string> *>(r.sc.getRoot()); if (!v || v->getValue() != pre + want + post) fail("decoded to '" + show(v ? v->getValue() : "?") + "' instead of '" + show(pre + want + post) + "'"); }
static string want1(unsigned v) { return v == '\\' ? "\\\\" : u8(v); }
// the rewriting of search patterns, written from its description
static long quad(const string &s, size_t i) { if (i + 4 > s.size()) return -1; long v = 0; for (int k = 0; k < 4; ++k) { int h = ref::Parser::hexv(s[i + k]); if (h < 0) return -1; v = v * 16 + h; } return v; }
static string conv(const string &s) { string o; for (size_t i = 0; i < s.size();) { if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'u') { long v = quad(s, i + 2);
      if (v >= 0 && !(v >= 0xD800 && v <= 0xDFFF)) { o += u8(v); i += 6; continue; }
      if (v >= 0xD800 && v <= 0xDBFF && i + 12 <= s.size() && s[i + 6] == '\\' && s[i + 7] == 'u') { long w = quad(s, i + 8); if (w >= 0xDC00 && w <= 0xDFFF) { o += u8(0x10000 + (v - 0xD800) * 0x400 + (w - 0xDC00)); i += 12; continue; } } }
    o += s[i++]; } return o; }
static void extract(const string &s) { input("extractUnicode: " + show(s)); string e = conv(s); char *b = new char[s.size() + 1]; memcpy(b, s.c_str(), s.size() + 1);
  string r = StreamConsumer::extractUnicode(b); delete[] b; if (r != e) fail("gives '" + show(r) + "' instead of '" + show(e) + "'"); if (StreamConsumer::extractUnicode(s) != e) fail("the overloads differ"); }
int main(int ac, char **av) {
  begin(ac, av); Opt o{false, true, false, true}, a{false, true, true, true};
  for (int c = 0; c < 256; ++c) { input("hexbyte " + std::to_string(c)); int h = ref::Parser::hexv((char)c); try { unsigned char r = hexbyte((char)c); if (h < 0) fail("accepted as a digit"); if (r != h) fail("value " + std::to_string(r)); } catch (std::invalid_argument &) { if (h >= 0) fail("refused"); } }
  unsigned step = 0;
  for (;;) {
    for (int k = 0; k < 40; ++k) { unsigned v = step < 65536 ? step++ : below(65536); string e = "\\u" + gen::hex4(v, v % 3); bool sur = v >= 0xD800 && v <= 0xDFFF; inString(e, !sur, want1(v), o); if (coin(8)) inString(e, true, e, a); if (v) extract(gen::pick({"", "a", "\\"}) + e + gen::pick({"", "b", "\\u"})); }
    unsigned hi = 0xD800 + below(0x400), lo = 0xDC00 + below(0x400); string h = "\\u" + gen::hex4(hi, below(3)), l = "\\u" + gen::hex4(lo, below(3));
    inString(h + l, true, u8(0x10000 + (hi - 0xD800) * 0x400 + (lo - 0xDC00)), o); extract(h + l); inString(h, false, "", o); inString(l, false, "", o); inString(h + h, false, "", o); inString(h + "\\n", false, "", o); extract(h); extract(l + h); extract(h + h + l); extract("x" + h + "\\u12");
    { string bad = "\\u" + gen::hex4(below(65536), below(3)); char c; do c = (char)(1 + below(255)); while (isxdigit((unsigned char)c)); bad[2 + below(4)] = c; inString(bad, false, "", o); extract(bad); }
    { string s; unsigned n = below(20); while (n--) { unsigned k = below(8); if (k < 3) s += "\\u" + gen::hex4(coin() ? 0xD800 + below(0x800) : 1 + below(0xffff), below(3)); else if (k == 3) s += "\\"; else if (k == 4) s += "\\u"; else s += "0aFuxg\\9"[below(8)]; } if (s.find("u0000") == string::npos) extract(s); }
    if (!more() && step >= 65536) break; if (!more()) break; }
  return end(); }
