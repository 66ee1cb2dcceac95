#include <stdio.h>
#include <new>
#include "elem.h"
#include "hal/memory_base.h"
#include "containers/array.h"
// Verification unit: Array over an opaque element and over an integer
using AE = Array<Elem>; using AN = Array<int32>; using AL = Array<sizet>;
using IE = AE::Iterator; using IN = AN::Iterator; using IL = AL::Iterator;
extern "C" {
void *V_alloc(MallocBase *m, sizet n, sizet a) { return m->alloc(n, a); }
void V_free(MallocBase *m, void *p) { m->free(p); }
#define OPS(P, A, E, X, I) \
void *S_##X(A *a) { return a + 1; } \
void *F_##X##_malloc(A *a) { return &a->malloc.malloc; } \
void *F_##X##_buffer(A *a) { return &a->buffer; } \
void *F_##X##_cap(A *a) { return &a->capacity; } \
void *F_##X##_count(A *a) { return &a->count; } \
void P##_ctor(A *a) { new (a) A(); } \
void P##_ctorM(A *a, MallocBase *m) { new (a) A(m); } \
void P##_ctorN(A *a, uint64 c, uint64 n) { new (a) A(c, n); } \
void P##_ctorB(A *a, const E *b, uint64 n, uint64 k) { new (a) A(b, n, k); } \
void P##_copy(A *a, const A *o) { new (a) A(*o); } \
void P##_move(A *a, A *o) { new (a) A(static_cast<A&&>(*o)); } \
void P##_dtor(A *a) { a->~A(); } \
A *P##_assign(A *a, const A *o) { return &(*a = *o); } \
A *P##_assign_self(A *a) { return &(*a = *(const A*)a); } \
A *P##_massign(A *a, A *o) { return &(*a = static_cast<A&&>(*o)); } \
uint64 P##_getCount(const A *a) { return a->getCount(); } \
uint64 P##_getSize(const A *a) { return a->getSize(); } \
uint64 P##_getNum(const A *a) { return a->getNum(); } \
bool P##_isEmpty(const A *a) { return a->isEmpty(); } \
sizet P##_getBytes(const A *a) { return a->getBytes(); } \
const void *P##_data(A *a) { return **a; } \
const void *P##_cdata(const A *a) { return **a; } \
const void *P##_getData(A *a) { return a->getData(); } \
const void *P##_idx(A *a, uint64 i) { return &(*a)[i]; } \
const void *P##_cidx(const A *a, uint64 i) { return &(*a)[i]; } \
const void *P##_getAt(A *a, uint64 i) { return &a->getAt(i); } \
const void *P##_at(A *a, uint64 i) { return &(*a)(i); } \
const void *P##_at_init(A *a, uint64 i, const E *e) { return &(*a)(i, *e); } \
const void *P##_insertAt(A *a, uint64 i, const E *e) { return &a->insertAt(i, *e); } \
const void *P##_insertAt_rv(A *a, uint64 i, E *e) { return &a->insertAt(i, static_cast<E&&>(*e)); } \
void P##_insertAt2(A *a, uint64 i, const E *e, const E *f) { a->insertAt(i, *e, *f); } \
void P##_insertAt3(A *a, uint64 i, const E *e, const E *f, const E *g) { a->insertAt(i, *e, *f, *g); } \
const void *P##_insertFirst(A *a, const E *e) { return &a->insertFirst(*e); } \
void P##_insertFirst2(A *a, const E *e, const E *f) { a->insertFirst(*e, *f); } \
const void *P##_insertLast(A *a, const E *e) { return &a->insertLast(*e); } \
const void *P##_insertLast_rv(A *a, E *e) { return &a->insertLast(static_cast<E&&>(*e)); } \
void P##_insertLast2(A *a, const E *e, const E *f) { a->insertLast(*e, *f); } \
void P##_add(A *a, const E *e) { a->add(*e); } \
void P##_push(A *a, const E *e) { a->push(*e); } \
void P##_removeAt(A *a, uint64 i, uint64 n) { a->removeAt(i, n); } \
void P##_removeAt1(A *a, uint64 i) { a->removeAt(i); } \
void P##_removeFirst(A *a) { a->removeFirst(); } \
void P##_removeLast(A *a) { a->removeLast(); } \
void P##_popAt(A *a, uint64 i, E *o) { a->popAt(i, *o); } \
void P##_popFirst(A *a, E *o) { a->popFirst(*o); } \
void P##_popLast(A *a, E *o) { a->popLast(*o); } \
void P##_empty(A *a) { a->empty(); } \
void P##_clear(A *a) { a->clear(); } \
void P##_reset(A *a) { a->reset(); } \
const void *P##_it_begin(A *a) { return &*a->begin(); } \
const void *P##_it_end(A *a) { return &*a->end(); } \
const void *P##_it_cbegin(const A *a) { return &*a->begin(); } \
const void *P##_it_cend(const A *a) { return &*a->end(); } \
const void *P##_it_arrow(A *a, int64 i) { I t{*a, i}; return t.operator->(); } \
const void *P##_it_index(A *a, int64 i, uint64 j) { I t{*a, i}; return &t[j]; } \
const void *P##_it_preinc(A *a, int64 i) { I t{*a, i}; I &r = ++t; return &r == &t ? &*t : nullptr; } \
const void *P##_it_postinc(A *a, int64 i) { I t{*a, i}; return &*t++; } \
const void *P##_it_postinc2(A *a, int64 i) { I t{*a, i}; t++; return &*t; } \
const void *P##_it_predec(A *a, int64 i) { I t{*a, i}; I &r = --t; return &r == &t ? &*t : nullptr; } \
const void *P##_it_postdec(A *a, int64 i) { I t{*a, i}; return &*t--; } \
const void *P##_it_postdec2(A *a, int64 i) { I t{*a, i}; t--; return &*t; } \
const void *P##_it_addeq(A *a, int64 i, uint64 n) { I t{*a, i}; t += n; return &*t; } \
const void *P##_it_subeq(A *a, int64 i, uint64 n) { I t{*a, i}; t -= n; return &*t; } \
const void *P##_it_add(A *a, int64 i, uint64 n) { const I t{*a, i}; return &*(t + n); } \
const void *P##_it_sub(A *a, int64 i, uint64 n) { const I t{*a, i}; return &*(t - n); } \
bool P##_it_eq(A *a, int64 i, int64 j) { return I{*a, i} == I{*a, j}; } \
bool P##_it_ne(A *a, int64 i, int64 j) { return I{*a, i} != I{*a, j}; } \
bool P##_it_lt(A *a, int64 i, int64 j) { return I{*a, i} < I{*a, j}; } \
bool P##_it_gt(A *a, int64 i, int64 j) { return I{*a, i} > I{*a, j}; } \
bool P##_it_le(A *a, int64 i, int64 j) { return I{*a, i} <= I{*a, j}; } \
bool P##_it_ge(A *a, int64 i, int64 j) { return I{*a, i} >= I{*a, j}; }
OPS(arr, AE, Elem, Arr, IE)
OPS(ari, AN, int32, Ari, IN)
OPS(arl, AL, uint64, Arl, IL)
}
