// random operation histories of the bounded buffer against a deque
#include "drv.hh"
#include <deque>
#include <stdexcept>
#include <string>
#define private public
#define protected public
#include "wrappedBuffer.hpp"
#undef private
#undef protected
using namespace drv;
template<int N> void one() {
  WrappedBuffer<char, N> *b = new WrappedBuffer<char, N>(); std::deque<char> m; unsigned long total = 0; std::string h = "capacity " + std::to_string(N) + ":";
  unsigned n = 1 + below(40);
  for (unsigned k = 0; k < n; ++k) {
    unsigned o = below(12); char tmp[64];
    if (o < 5) { char c = 'a' + below(26); snprintf(tmp, 64, " put(%c)", c); h += tmp; input(h); b->put(c); m.push_back(c); ++total; }
    else if (o < 8) { h += " pop"; input(h); b->pop_back(); if (!m.empty()) { m.pop_back(); --total; } }
    else if (o < 11) { unsigned c = coin(3) ? below(3 * N + 2) : below(N + 2); char *a = new char[c ? c : 1]; h += " put[";
      for (unsigned i = 0; i < c; ++i) { a[i] = 'A' + below(26); h += a[i]; m.push_back(a[i]); } h += "]"; total += c; input(h); b->put(a, c); delete[] a; }
    else if (coin(3)) { h += " reset"; input(h); b->reset(); m.clear(); total = 0; }
    while (m.size() > N) m.pop_front();
    if (b->size() != m.size()) fail("size() is " + std::to_string(b->size()) + ", expected " + std::to_string(m.size()));
    std::string s = b->toString(), e(m.begin(), m.end());
    if (s != e) fail("toString() is '" + show(s) + "', expected '" + e + "'");
    if (b->totalSize() != total) fail("totalSize() is " + std::to_string(b->totalSize()) + ", expected " + std::to_string(total));
  }
  delete b;
}
int main(int ac, char **av) {
  begin(ac, av);
  while (more()) { one<1>(); one<2>(); one<3>(); one<4>(); one<5>(); one<7>(); one<10>(); one<45>(); }
  return end();
}
