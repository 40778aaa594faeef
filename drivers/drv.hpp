// Replay / bounded stand-in support: every case is described before it runs, so that a
// crash, a sanitizer report or a failed expectation names the failing input.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <random>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace drv
{
inline char (&buf())[4096] { static char b[4096]; return b; }
inline unsigned long& count() { static unsigned long c = 0; return c; }
inline double& deadline() { static double d = 0; return d; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline void put(char const* s) { (void)!write(1, s, strlen(s)); }
inline void death() { put("FAIL "); put(buf()); put(" [crash or sanitizer report]\n"); }
inline void onsig(int s) { put("FAIL "); put(buf()); put(s == SIGABRT ? " [abort/assertion]\n" : s == SIGALRM ? " [does not terminate]\n" : " [signal]\n"); _exit(1); }
inline void setcase(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void setcase(char const* fmt, ...)
{
  va_list ap; va_start(ap, fmt); vsnprintf(buf(), sizeof(buf()), fmt, ap); va_end(ap);
  ++count();
}
inline void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(char const* fmt, ...)
{
  char d[2048]; va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof(d), fmt, ap); va_end(ap);
  put("FAIL "); put(buf()); put(" : "); put(d); put("\n"); _exit(1);
}
inline bool timeup() { return now() > deadline(); }
inline std::mt19937& rng() { static std::mt19937 r; return r; }
inline unsigned rnd(unsigned n) { return n ? rng()() % n : 0; }
inline double rndf(double lo, double hi) { return lo + (hi - lo) * (rng()() / 4294967295.0); }
inline bool close(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b)) || (a != a && b != b); }
// hints (values from the verifier's counterexample): HINT="n=4 alignment=1 ..."
inline bool hint(char const* name, long& v)
{
  char const* h = getenv("HINT");
  if (!h) return false;
  std::string s = std::string(" ") + h + " ", k = std::string(" ") + name + "=";
  auto p = s.find(k);
  if (p == std::string::npos) return false;
  v = atol(s.c_str() + p + k.size());
  return true;
}
inline int run(int argc, char** argv, std::function<void(bool)> body)
{
  unsigned seed = argc > 1 ? atoi(argv[1]) : 1;
  double secs = argc > 2 ? atof(argv[2]) : 5;
  rng().seed(seed);
  signal(SIGABRT, onsig); signal(SIGALRM, onsig);
  struct sigaction sa; memset(&sa, 0, sizeof(sa));
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  else { signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); }
  alarm(unsigned(secs * 3) + 60);
  deadline() = now() + secs;
  try
  {
    bool first = true;
    do { body(first); first = false; } while (!timeup());
  }
  catch (std::exception const& e) { fail("unexpected exception: %s", e.what()); }
  printf("OK cases=%lu\n", count());
  return 0;
}
} // namespace drv
