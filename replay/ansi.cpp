#include "rh.h"
#include <malloc.h>
// every eighth request or so is refused by the (stand-in) system allocator
static bool refuse = false; static long held = 0;
extern "C" int kv_memalign(void **p, size_t a, size_t n) { REQ(a >= sizeof(void*) && (a & (a - 1)) == 0, "posix_memalign is given an invalid alignment"); if (refuse) { *p = (void*)0xdead; return 12; } ++held; return ::posix_memalign(p, a, n); }
extern "C" void kv_free(void *p) { if (p) --held; ::free(p); }
#define posix_memalign kv_memalign
#define free(x) kv_free(x)
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "../private/hal/malloc_ansi.cpp"
using namespace rh;
struct B { size_t n, a; unsigned char pat; };
int main(int c, char **v) { init(c, v);
  while (more() && cases < 60000) { begin("MallocAnsi"); MallocAnsi m; std::map<char*, B> live; unsigned char pat = 0;
    auto got = [&](char *p, size_t n, size_t a) { REQ(p, "null although the system gave memory"); REQ((uintp)p % a == 0, "block is not aligned"); REQ(malloc_usable_size(p) >= n, "block is smaller than requested"); REQ(!live.count(p), "block handed out twice"); };
    auto fill = [&](char *p, size_t n, size_t a) { live[p] = B{n, a, ++pat}; memset(p, pat, n); };
    auto chk = [&]() { for (auto &e : live) for (size_t i = 0; i < e.second.n; ++i) REQ((unsigned char)e.first[i] == e.second.pat, "content of a live block changed"); };
    auto pick = [&]() { auto it = live.begin(); std::advance(it, rnd(live.size())); return it->first; };
    for (int k = 0; k < 30; ++k) { refuse = rnd(8) == 0; size_t n = rnd(3) ? rnd(200) : rnd(5000), a = 1ull << rnd(10);
      switch (rnd(4)) {
      case 0: { op("alloc(%zu,%zu)%s", n, a, refuse ? " refused" : ""); char *p = (char*)m.alloc(n, a); if (refuse) REQ(!p, "alloc must return null when the system refuses"); else { got(p, n, a); fill(p, n, a); } break; }
      case 1: if (live.size()) { char *p = pick(); op("free"); live.erase(p); m.free(p); } else { op("free(null)"); m.free(nullptr); } break;
      case 2: { op("realloc(null,%zu,%zu)%s", n, a, refuse ? " refused" : ""); char *p = (char*)m.realloc(nullptr, n, a); if (refuse) REQ(!p, "realloc must return null when the system refuses"); else { got(p, n, a); fill(p, n, a); } break; }
      case 3: if (live.size()) { char *p = pick(); B b = live[p]; if (rnd(6) == 0) n = 0; op("realloc(%zu->%zu,%zu)%s", b.n, n, a, refuse ? " refused" : ""); char *q = (char*)m.realloc(p, n, a);
          if (n == 0) { REQ(!q, "resizing to nothing returns null"); live.erase(p); }
          else if (refuse) REQ(!q, "realloc must return null when the system refuses");
          else { live.erase(p); got(q, n, a); for (size_t i = 0; i < b.n && i < n; ++i) REQ((unsigned char)q[i] == b.pat, "content lost by realloc"); fill(q, n, a); } } break; }
      refuse = false; chk(); }
    for (auto &e : live) m.free(e.first);
    REQ(held == 0, "system blocks leaked"); }
  return done("random histories of 30 operations, sizes below 5000, alignments up to 512, refused system requests included"); }
