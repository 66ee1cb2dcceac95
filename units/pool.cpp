#include <stdio.h>
#include <new>
#include "hal/platform_memory.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_pool.cpp"
// Verification unit: fixed-size memory pools
using P = MemoryPool; using M = MallocPool;
extern "C" {
void *S_Pool(P *p) { return p + 1; }
void *F_Pool_buffer(P *p) { return &p->buffer; }
void *F_Pool_own(P *p) { return &p->bHasOwnBuffer; }
const void *F_Pool_num(P *p) { return &p->numBlocks; }
const void *F_Pool_size(P *p) { return &p->blockSize; }
const void *F_Pool_align(P *p) { return &p->blockAlignment; }
void *F_Pool_free(P *p) { return &p->numFreeBlocks; }
const void *F_Pool_lsize(P *p) { return &p->logicalBlockSize; }
const void *F_Pool_bsize(P *p) { return &p->bufferSize; }
void *F_Pool_head(P *p) { return &p->head; }
void *S_MPool(M *p) { return p + 1; }
void *F_MPool_pool(M *p) { return &p->pool; }

void pool_ctor(P *p, uint32 n, sizet s, sizet a, void *b) { new (p) P(n, s, a, b); }
void pool_dtor(P *p) { p->~P(); }
void *pool_acquire(P *p) { return p->acquireBlock(); }
void pool_release(P *p, void *b) { p->releaseBlock(b); }
uint32 pool_numFree(P *p) { return p->getNumFreeBlocks(); }
bool pool_exhausted(P *p) { return p->isExhausted(); }
bool pool_hasBlock(P *p, void *b) { return p->hasBlock(b); }
sizet pool_computeLogical(sizet s, sizet a) { return P::computeLogicalBlockSize(s, a); }
P *mpool_pool(M *m) { return &m->pool; }
void mpool_ctor(M *m, uint32 n, sizet s, sizet a, void *b) { new (m) M(n, s, a, b); }
void mpool_inline(MallocPoolInline<7, 24, 16> *m, void *b) { new (m) MallocPoolInline<7, 24, 16>(b); }
void *mpool_alloc(M *m, sizet s, sizet a) { return m->M::alloc(s, a); }
void *mpool_realloc(M *m, void *b, sizet s, sizet a) { return m->M::realloc(b, s, a); }
void mpool_free(M *m, void *b) { m->M::free(b); }
}
