// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp src/korin/core/private/hal/malloc_pool.cpp src/korin/core/private/hal/malloc_binned.cpp
#include "rh.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
using namespace rh;
// sum of free blocks over the pools of a bucket
static unsigned nfree(MallocPooled *b) { unsigned n = 0; auto *l = b->head; if (!l) return 0; do { n += l->data->getNumFreeBlocks(); l = l->next; } while (l != b->head); return n; }
extern "C" int __lsan_do_recoverable_leak_check();
int main(int c, char **v) { init(c, v);
  while (more() && cases < 20000) { begin("MallocBinned"); size_t lmin = 3 + rnd(4), linc = 1 + rnd(4), nb = 1 + rnd(4), lmax = lmin + linc * nb + rnd(linc); size_t pool = (1ull << (lmin + linc * nb)) << rnd(2), al = 1ull << rnd(7);
    bool def = rnd(6) == 0; if (def) { lmin = 3; linc = 3; nb = 5; } else op("poolSize=%zu min=2^%zu max=2^%zu increment=2^%zu alignment=%zu", pool, lmin, lmax, linc, al);
    MallocBinned *m = def ? new MallocBinned : new MallocBinned(MallocBinned::BucketInfo{pool, 1ull << lmin, 1ull << lmax, 1ull << linc}, al); if (def) al = 8; if (al < 8) al = 8;
    REQ(m->numBuckets == nb, "number of buckets");
    struct B { size_t n; unsigned i; unsigned char pat; }; std::map<char*, B> live; unsigned char pat = 0; size_t top = 1ull << (lmin + linc * (nb - 1));
    for (int k = 0; k < 40; ++k) { if (rnd(3)) { size_t s = 1 + rnd(2) * ((1ull << (lmin + rnd(linc * nb + 1))) - 1 + rnd(3) - 1); if (s == 0) s = 1; if (rnd(3) == 0) s = 1 + rnd(top + 4); size_t a = rnd(4) ? 8 : 1ull << rnd(8); op("alloc(%zu,%zu)", s, a); char *p = (char*)m->alloc(s, a);
        if (s > top || a > al) { REQ(!p, "a request no bucket can serve must give null"); continue; }
        REQ(p, "a request within the buckets gives null"); REQ((uintp)p % al == 0, "block is not aligned"); unsigned i = 0; while ((1ull << (lmin + linc * i)) < s) ++i;
        for (unsigned j = 0; j < nb; ++j) REQ(m->buckets[j]->hasBlock(p) == (i == j), "block is not from the smallest bucket that fits"); REQ(m->buckets[i]->poolInfo.blockSize >= s, "bucket blocks are smaller than the request");
        auto it = live.lower_bound(p); if (it != live.end()) REQ(p + s <= it->first, "block overlaps another live block"); if (it != live.begin()) { --it; REQ(it->first + it->second.n <= p, "block overlaps another live block"); }
        live[p] = B{s, i, ++pat}; memset(p, pat, s); }
      else if (live.size()) { auto it = live.begin(); std::advance(it, rnd(live.size())); op("free"); std::vector<unsigned> f; for (unsigned j = 0; j < nb; ++j) f.push_back(nfree(m->buckets[j])); m->free(it->first); for (unsigned j = 0; j < nb; ++j) REQ(nfree(m->buckets[j]) == f[j] + (j == it->second.i), "the block did not return to its bucket"); live.erase(it); }
      for (auto &e : live) for (size_t i = 0; i < e.second.n && i < 64; ++i) REQ((unsigned char)e.first[i] == e.second.pat, "content of a live block changed"); }
    int z; op("free of a foreign address"); m->free(&z); op("delete"); delete m; }
  return done("random histories of 40 operations, up to 5 buckets"); }
