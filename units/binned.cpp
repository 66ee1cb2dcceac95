#include <stdio.h>
#include <new>
#include "hal/platform_memory.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_binned.cpp"
// Verification unit: binned allocator (the growing pools behind it are used through their contracts)
using B = MallocBinned; using A = Array<MallocPooled*>;
extern "C" {
void *S_Binned(B *b) { return b + 1; }
const void *F_Binned_psize(B *b) { return &b->bucketInfo.poolSize; }
const void *F_Binned_min(B *b) { return &b->bucketInfo.allocUnitMinSize; }
const void *F_Binned_max(B *b) { return &b->bucketInfo.allocUnitMaxSize; }
const void *F_Binned_inc(B *b) { return &b->bucketInfo.allocUnitIncrement; }
const void *F_Binned_num(B *b) { return &b->numBuckets; }
const void *F_Binned_align(B *b) { return &b->poolAlign; }
void *F_Binned_malloc(B *b) { return &b->buckets.malloc; }
void *F_Binned_buf(B *b) { return &b->buckets.buffer; }
void *F_Binned_count(B *b) { return &b->buckets.count; }
void *F_Binned_cap(B *b) { return &b->buckets.capacity; }
void *V_alloc(MallocBase *m) { return m->alloc(1, 1); }
void V_free(MallocBase *m) { m->free(m); }
void V_dtor(MallocBase *m) { delete m; }

void bin_default(B *m) { new (m) B; }
void bin_dtor(B *m) { m->B::~B(); }
uint32 bin_idx(const B *m, sizet s) { return m->getBucketIdx(s); }
void *bin_alloc(B *m, sizet s, sizet a) { return m->B::alloc(s, a); }
void bin_free(B *m, void *o) { m->B::free(o); }
}
