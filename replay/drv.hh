// common part of the replay drivers: random source, report of the input being evaluated, time budget
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <sstream>
#include <set>
#include <vector>
#include <functional>
#include <time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace drv {
static uint64_t st = 88172645463325252ull;
static inline uint64_t rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 2685821657736338717ull; }
static inline unsigned below(unsigned n) { return n ? (unsigned)((rnd() >> 33) % n) : 0; }
static inline bool coin(unsigned n = 2) { return below(n) == 0; }
static char cur[1 << 16]; static const char *rep = "found.txt";
static unsigned long evals = 0; static std::set<uint64_t> seen; static double deadline = 0; static int nsamples = 0;
static inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void dump(const char *why) {
  int fd = open(rep, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { (void)!write(fd, why, strlen(why)); (void)!write(fd, "\ninput: ", 8); (void)!write(fd, cur, strlen(cur)); (void)!write(fd, "\n", 1); close(fd); }
}
static void death() { dump("memory error or undefined behaviour (sanitizer report in the driver output)"); }
static void onsig(int s) { dump(s == SIGALRM ? "does not terminate" : s == SIGFPE ? "arithmetic fault" : "crash"); _exit(78); }
static std::string show(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) { if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } } return r; }
// announce the input about to be evaluated
static void input(const std::string &s, bool nontrivial = true) {
  snprintf(cur, sizeof cur, "%s", s.c_str()); ++evals; if (nontrivial && seen.size() < 2000000) seen.insert(std::hash<std::string>()(s));
  if (nsamples < 5 && (evals % 97) == 1) { ++nsamples; printf("SAMPLE %s\n", s.substr(0, 300).c_str()); }
  alarm(20);
}
static void fail(const std::string &why) { alarm(0); dump(("violation: " + why).c_str()); printf("FAIL %s\n  input: %s\n", why.c_str(), cur); fflush(stdout); _exit(1); }
static bool more() { return now() < deadline; }
static void begin(int ac, char **av) {
  uint64_t s = ac > 1 ? strtoull(av[1], 0, 10) : 1; for (uint64_t i = 0; i < 5 + s % 97; ++i) { st += s * 0x9e3779b97f4a7c15ull; rnd(); }
  deadline = now() + (ac > 2 ? atof(av[2]) : 5); if (ac > 3) rep = av[3];
  __sanitizer_set_death_callback(death);
  signal(SIGALRM, onsig); 
}
static int end() { alarm(0); printf("EVALS %lu %lu\n", evals, (unsigned long)seen.size()); return 0; }
}
