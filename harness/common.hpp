// Shared part of the replay harnesses: deterministic random inputs, the current input kept crash-safe, failure reporting.
#ifndef VERIF_COMMON
#define VERIF_COMMON
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
namespace vf {
static uint64_t S;
static double deadline, t0;
static char *lastbuf;
static long cases = 0, nontrivial = 0;
static std::string scratch;
inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline uint64_t rnd() {
  S ^= S << 13; S ^= S >> 7; S ^= S << 17;
  return S * 2685821657736338717ull;
}
inline uint64_t rnd(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
inline double unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
inline double real(double a, double b) { return a + (b - a) * unit(); }
inline bool coin(int n = 2) { return rnd(n) == 0; }
inline std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline void note(const std::string &s) {
  size_t n = s.size() < 4000 ? s.size() : 4000;
  memcpy(lastbuf, s.data(), n);
  lastbuf[n] = '\n';
  memset(lastbuf + n + 1, ' ', 4095 - n);
  cases++;
}
inline std::string last() {
  std::string s(lastbuf, strnlen(lastbuf, 4096));
  while (!s.empty() && (s.back() == ' ' || s.back() == '\n')) s.pop_back();
  return s;
}
[[noreturn]] inline void fail(const std::string &what) {
  printf("FAILING INPUT: %s\nWHAT FAILS: %s\n", last().c_str(), what.c_str());
  fflush(stdout);
  _exit(3);
}
#define REQUIRE(c, what) do { if (!(c)) vf::fail(what); } while (0)
inline bool more() { return now() < deadline; }
inline double elapsed() { return now() - t0; }
inline void onterm() {
  try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
  catch (const std::exception &e) { fail(std::string("unexpected exception: ") + e.what()); }
  catch (...) {}
  fail("unexpected exception");
}
inline void init(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  S = seed * 0x9E3779B97F4A7C15ull + 0x1234567ull;
  for (int i = 0; i < 8; i++) rnd();
  t0 = now();
  deadline = t0 + (argc > 2 ? atof(argv[2]) : 2);
  scratch = argc > 3 ? argv[3] : ".";
  std::string p = scratch + "/last_input.txt";
  int fd = open(p.c_str(), O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, 4096)) exit(2);
  lastbuf = (char *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  std::set_terminate(onterm);
}
inline int done() {
  printf("STATS {\"evaluations\": %ld, \"distinct_nontrivial\": %ld}\n", cases, nontrivial);
  return 0;
}
}
#endif
