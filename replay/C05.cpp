// histories of the line history, and every refused text: line, column and excerpt against the text consumed
#include <streambuf>
#include <iostream>
#include <sstream>
#include <deque>
#include "gen.hh"
#define private public
#define protected public
#include "linearHistory.hh"
#undef private
#undef protected
#include "tree.hh"
#include "jsonException.hh"
using namespace drv;
static const size_t CAP = 45;
static bool nl(char c) { return c == '\n' || c == '\r'; }
// what may be shown after the text `pre` was consumed: the last line, or (line break consumed last) the line it ends
static std::string judge(const std::string &pre, unsigned line, unsigned col, const std::string &ex) {
  unsigned lines = 1; std::string cur, prev; bool last = false;
  for (char c : pre) { if (last) { ++lines; cur.clear(); } last = nl(c); if (!last) cur += c; }
  auto ok = [&](unsigned l, const std::string &s) { return line == l && col == s.size() && ex.size() <= CAP && ex.size() >= std::min(s.size(), CAP - 1) && s.compare(s.size() - std::min(s.size(), ex.size()), std::string::npos, ex) == 0 && ex.size() <= s.size(); };
  if (ok(lines, cur) || (last && ok(lines + 1, ""))) return "";
  return "line " + std::to_string(line) + " column " + std::to_string(col) + " excerpt '" + show(ex) + "' after '" + show(pre) + "': expected line " + std::to_string(lines) + " column " + std::to_string(cur.size()); }
static void hist() {
  LinearHistory h; std::string pre, d = "history:"; bool canpop = false; unsigned n = 1 + below(coin(4) ? 150 : 30);
  while (n--) {
    unsigned k = below(10); char c = coin(5) ? (coin() ? '\n' : '\r') : (char)(coin(9) ? below(256) : 'a' + below(26));
    if (k < 6) { d += " put(" + show(std::string(1, c)) + ")"; input(d); h.put(c); pre += c; canpop = true; }
    else if (k < 8) { if (!canpop) continue; d += " pop"; input(d); h.pop_back(); pre.pop_back(); canpop = false; }
    else { unsigned m = below(coin(5) ? 110 : 6); char *b = new char[m + 1]; for (unsigned i = 0; i < m; ++i) b[i] = coin(12) ? '\n' : 'A' + below(26); d += " put[" + show(std::string(b, m)) + "]"; input(d); h.put(b, m); pre.append(b, m); delete[] b; if (m) canpop = true; }
    std::string w = judge(pre, h.currentLine(), h.totalSize(), h.toString()); if (w.size()) fail(w);
    LinearHistory g(h); if (g.toString() != h.toString() || g.currentLine() != h.currentLine() || g.totalSize() != h.totalSize()) fail("a copy differs");
  } }
static void parse() {
  bool tol = coin(4), asc = coin(6), so = coin();
  std::string t = gen::text(tol); if (coin(3)) t = std::string(below(60), ' ') + t; if (coin(4)) { std::string pad(below(80), 'x'); size_t q = t.find('"'); if (q != std::string::npos) t.insert(q + 1, pad); }
  if (coin(20)) { t.insert(below(t.size() + 1), "\n"); }
  Cfg cfg(!tol, asc, so); std::istringstream in(t); StreamConsumer sc(in); bool nul = coin(8); if (!nul) sc.withConfig(&cfg);
  input((nul ? "no options, text: " : std::string(tol ? "-W " : "") + (asc ? "--ascii " : "") + (so ? "" : "--keep-order ") + "text: ") + show(t));
  try { sc.read(); }
  catch (JsonException &e) {
    size_t at = (size_t)in.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in);
    std::string w = judge(t.substr(0, at), e.currentLine(), e.currentCol(), e.getHistory()); if (w.size()) fail(w);
  } }
int main(int ac, char **av) { begin(ac, av); while (more()) { if (coin(3)) hist(); else for (int i = 0; i < 4; ++i) parse(); } return end(); }
