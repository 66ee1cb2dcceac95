#pragma once
// Tracking allocator: knows its live blocks; any foreign or double free is a failure, leaks are counted.
#include "hal/memory_base.h"
struct TM : MallocBase {
  std::map<void *, size_t> live; static long total;
  void *alloc(sizet n, sizet al) override { void *p = nullptr; if (posix_memalign(&p, al < 8 ? 8 : al, n ? n : 1)) abort(); memset(p, 0xa5, n); live[p] = n; ++total; return p; }
  void *realloc(void *o, sizet n, sizet al) override { void *p = alloc(n, al); if (o) { size_t k = live.count(o) ? live[o] : 0; memcpy(p, o, k < n ? k : n); free(o); } return p; }
  void free(void *p) override { if (!p) return; if (!live.count(p)) rh::fail("a block is freed that this allocator did not give out (double or foreign free)"); live.erase(p); --total; ::free(p); }
};
long TM::total = 0;
