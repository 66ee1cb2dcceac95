#pragma once
// Replay harness support: deterministic random numbers, instance-counted element type, op log.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <ctime>
#include <cstdarg>
namespace rh {
static unsigned long long S = 1;
static inline unsigned rnd(unsigned n) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return n ? (unsigned)((S >> 11) % n) : 0; }
static std::string oplog; static long cases = 0; static time_t t_end; static const char *curName = "";
static inline void flushlog() { int fd = open("last.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { (void)!write(fd, oplog.data(), oplog.size()); close(fd); } }
static void onsig(int s) { flushlog(); const char m[] = "\nFAIL: crashed or did not terminate\n"; (void)!write(1, m, sizeof m - 1); _exit(97); }
static inline void fail(const std::string &m) { flushlog(); printf("FAIL: %s\ncase: %s\n", m.c_str(), oplog.c_str()); fflush(stdout); _exit(1); }
static inline void op(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); oplog += b; oplog += "; "; if (oplog.size() < 4000) {} }
static inline void begin(const char *name) { oplog = std::string(name) + ": "; ++cases; alarm(10); }
static inline bool more() { return time(nullptr) < t_end; }
extern "C" void __asan_on_error() __attribute__((weak, used));
extern "C" void __asan_on_error() { flushlog(); }
static inline void init(int argc, char **argv) {
  int budget = argc > 3 ? atoi(argv[3]) : 30; S = 0x9E3779B97F4A7C15ull * (argc > 2 ? strtoull(argv[2], 0, 10) + 1 : 2); t_end = time(nullptr) + budget;
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGALRM, onsig); signal(SIGILL, onsig); stderr = fopen("/dev/null", "w"); dup2(1, 2); }
static inline int done(const char *bound = "") { alarm(0); printf("CASES %ld\nBOUND %s\n", cases, bound); return 0; }
}
#define REQ(c, m) do { if (!(c)) rh::fail(std::string(m) + "  [" #c "]"); } while (0)
// Element that knows whether it is alive; every misuse (double construct/destroy, use of dead) is a failure
struct Obj {
  int v; unsigned magic; static long live;
  static const unsigned A = 0xA11CE5EDu, D = 0xDEADBEEFu;
  void chk() const { if (magic != A) rh::fail("use of an element that is not alive"); }
  Obj() : v(0), magic(A) { ++live; }
  Obj(int x) : v(x), magic(A) { ++live; }
  Obj(const Obj &o) : v((o.chk(), o.v)), magic(A) { ++live; }
  Obj(Obj &&o) : v((o.chk(), o.v)), magic(A) { o.v = -777; ++live; }
  Obj &operator=(const Obj &o) { chk(); o.chk(); v = o.v; return *this; }
  Obj &operator=(Obj &&o) { chk(); o.chk(); int x = o.v; if (this != &o) o.v = -777; v = x; return *this; }
  ~Obj() { chk(); magic = D; --live; }
  bool operator==(const Obj &o) const { chk(); o.chk(); return v == o.v; }
  bool operator!=(const Obj &o) const { return !(*this == o); }
  bool operator<(const Obj &o) const { chk(); o.chk(); return v < o.v; }
  bool operator>(const Obj &o) const { return o < *this; }
  bool operator<=(const Obj &o) const { return !(o < *this); }
  bool operator>=(const Obj &o) const { return !(*this < o); }
};
long Obj::live = 0;
