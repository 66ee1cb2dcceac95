// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp src/korin/core/private/hal/malloc_pool.cpp
#include "rh.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
using namespace rh;
// blocks handed out: disjoint, aligned, writable over the whole block, contents kept until release
struct Blocks { std::map<uintp, std::pair<size_t, unsigned char>> m; unsigned char pat = 1;
  void got(void *p, size_t n, size_t al) { uintp a = (uintp)p; REQ(a % al == 0, "block is not aligned"); auto it = m.lower_bound(a); if (it != m.end()) REQ(a + n <= it->first, "block overlaps another live block"); if (it != m.begin()) { --it; REQ(it->first + it->second.first <= a, "block overlaps another live block"); } memset(p, ++pat, n); m[a] = {n, pat}; }
  void check() { for (auto &e : m) for (size_t i = 0; i < e.second.first; ++i) REQ(((unsigned char*)e.first)[i] == e.second.second, "content of a live block changed"); }
  void *pick() { auto it = m.begin(); std::advance(it, rnd(m.size())); return (void*)it->first; }
  void drop(void *p) { m.erase((uintp)p); } };
static void pool1() { unsigned N = rnd(12); size_t S = 1 + rnd(70), A = 1ull << rnd(8); void *own = nullptr; char *big = nullptr; begin("MemoryPool"); op("numBlocks=%u blockSize=%zu alignment=%zu", N, S, A); size_t EA = A < 8 ? 8 : A;
  if (rnd(2)) { size_t L = ((S + 8 - 1) | (EA - 1)) + 1; own = aligned_alloc(EA, L * N + EA); op("external buffer"); }
  { MallocPool mp(N, S, A, own); MemoryPool &p = mp.pool; Blocks b; REQ(p.getNumFreeBlocks() == N, "all blocks free initially");
  for (int k = 0; k < 60; ++k) { REQ(p.getNumFreeBlocks() == N - b.m.size(), "free count"); REQ(p.isExhausted() == (b.m.size() == N), "isExhausted");
    switch (rnd(6)) {
    case 0: case 1: { op("acquire"); void *x = p.acquireBlock(); if (b.m.size() == N) REQ(!x, "exhausted pool must return null"); else { REQ(x, "pool with free blocks returned null"); REQ(p.hasBlock(x), "hasBlock of own block"); b.got(x, S, EA); } break; }
    case 2: if (b.m.size()) { void *x = b.pick(); op("release"); b.check(); b.drop(x); p.releaseBlock(x); } break;
    case 3: { size_t s = rnd(2 * S + 1), al = 1ull << rnd(9); op("alloc(%zu,%zu)", s, al); void *x = mp.alloc(s, al); if (s <= S && al <= EA && b.m.size() < N) { REQ(x, "alloc returned null although a block is free"); b.got(x, S, EA); } else REQ(!x, "alloc must return null"); break; }
    case 4: if (b.m.size()) { void *x = b.pick(); op("free"); b.check(); b.drop(x); mp.free(x); } break;
    case 5: if (b.m.size()) { void *x = b.pick(); size_t s = rnd(2 * S + 1); op("realloc(%zu)", s); void *y = mp.realloc(x, s, 8); if (s <= S) REQ(y == x, "realloc of a fitting size keeps the block"); else REQ(!y, "realloc beyond the block size returns null"); } break;
    } b.check(); }
  int z; REQ(!p.hasBlock(&z), "hasBlock of a foreign address"); } ::free(own); (void)big; }
static void pooled() { unsigned N = 1 + rnd(6), init = 1 + rnd(4); size_t S = 1 + rnd(70), A = 1ull << rnd(8); begin("MallocPooled"); op("numBlocks=%u blockSize=%zu alignment=%zu pools=%u", N, S, A, init); size_t EA = A < 8 ? 8 : A;
  MallocPooled *m = new MallocPooled(N, S, A, init); Blocks b; REQ(m->getNumPools() == init, "initial number of pools"); int M = 10 + rnd(120);
  for (int k = 0; k < M; ++k) switch (rnd(7)) {
    case 0: case 1: case 2: case 3: { size_t s = rnd(3) ? rnd(S + 1) : rnd(2 * S + 1), al = rnd(3) ? 8 : 1ull << rnd(9); op("alloc(%zu,%zu)", s, al); size_t np = m->getNumPools(), full = b.m.size() == np * N; void *x = m->alloc(s, al); if (s <= S && al <= EA) { REQ(x, "alloc returned null"); REQ(m->getNumPools() == np + full, "a pool is added exactly when all blocks are in use"); REQ(m->hasBlock(x), "hasBlock of an allocated block"); b.got(x, S, EA); } else REQ(!x, "alloc beyond block size or alignment must return null"); break; }
    case 4: case 5: if (b.m.size()) { void *x = b.pick(); op("free"); b.check(); b.drop(x); m->free(x); } break;
    case 6: if (b.m.size()) { void *x = b.pick(); size_t s = rnd(2 * S + 1); op("realloc(%zu)", s); void *y = m->realloc(x, s, 8); if (s <= S) REQ(y == x, "realloc of a fitting size keeps the block"); else REQ(!y, "realloc beyond the block size returns null"); } break; }
  b.check(); int z; REQ(!m->hasBlock(&z), "hasBlock of a foreign address");
  op("delete"); delete m; }
int main(int c, char **v) { init(c, v); bool all = true; for (int i = 1; i < c; ++i) if (!strcmp(v[i], "nopooled")) all = false;
  while (more() && cases < 60000) { pool1(); if (all) pooled(); }
  return done("random operation sequences, at most 12 blocks per pool, block sizes up to 70, alignments up to 128"); }
