#include <stdio.h>
#include <new>
#include "elem.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "templates/array.h"
// Verification unit: tuples, pairs and fixed arrays over opaque elements and integers
struct Cmp { int32 operator()(const Elem &, const Elem &) const; };
using T4 = Tuple<Elem, int32, Elem, int64>; using T1 = Tuple<Elem>; using P2 = Pair<Elem, int64, Cmp>; using P3 = Pair<Elem, Elem, Cmp>;
using AE = StaticArray<Elem, 3>; using AI = StaticArray<int32, 5>;
extern "C" {
void *S_T4(T4 *t) { return t + 1; }
void *F_T4_e0(T4 *t) { return &t->get<0>().v; }
void *F_T4_i1(T4 *t) { return &t->get<1>(); }
void *F_T4_e2(T4 *t) { return &t->get<2>().v; }
void *F_T4_i3(T4 *t) { return &t->get<3>(); }
void *S_T1(T1 *t) { return t + 1; }
void *F_T1_e0(T1 *t) { return &t->get<0>().v; }
void *S_P2(P2 *t) { return t + 1; }
void *F_P2_e0(P2 *t) { return &t->first.v; }
void *F_P2_i1(P2 *t) { return &t->second; }
void *S_P3(P3 *t) { return t + 1; }
void *F_P3_e0(P3 *t) { return &t->first.v; }
void *F_P3_e1(P3 *t) { return &t->second.v; }
void *S_AE(AE *t) { return t + 1; }
void *F_AE_count(AE *t) { return &t->count; }
void *S_AI(AI *t) { return t + 1; }
void *F_AI_count(AI *t) { return &t->count; }
#define OPS(P, T) \
void P##_copy(T *r, const T *o) { new (r) T(*o); } \
void P##_copy_nc(T *r, T *o) { new (r) T(*o); } \
void P##_move(T *r, T *o) { new (r) T(static_cast<T&&>(*o)); } \
T *P##_assign(T *r, const T *o) { return &(*r = *o); } \
T *P##_assign_self(T *r) { return &(*r = *(const T*)r); } \
T *P##_massign(T *r, T *o) { return &(*r = static_cast<T&&>(*o)); } \
void P##_dtor(T *r) { r->~T(); }
OPS(t4, T4) OPS(t1, T1) OPS(p2, P2) OPS(p3, P3) OPS(ae, AE) OPS(ai, AI)
void t4_ctor(T4 *r, const Elem *a, int32 b, const Elem *c, int64 d) { new (r) T4(*a, b, *c, d); }
void t4_ctor_nc(T4 *r, Elem *a, const int32 *b, Elem *c, const int64 *d) { new (r) T4(*a, *b, *c, *d); }
void t4_ctor_rv(T4 *r, Elem *a, int32 b, Elem *c, int64 d) { new (r) T4(static_cast<Elem&&>(*a), b, static_cast<Elem&&>(*c), d); }
void t4_ctor_x(T4 *r, int64 a, int32 b, const Elem *c, int64 d) { new (r) T4(a, b, *c, d); }
const void *t4_get0(T4 *t) { return &t->get<0>(); }
const void *t4_get1(T4 *t) { return &t->get<1>(); }
const void *t4_get2(T4 *t) { return &t->get<2>(); }
const void *t4_get3(T4 *t) { return &t->get<3>(); }
const void *t4_cget0(const T4 *t) { return &t->get<0>(); }
const void *t4_cget1(const T4 *t) { return &t->get<1>(); }
const void *t4_cget2(const T4 *t) { return &t->get<2>(); }
const void *t4_cget3(const T4 *t) { return &t->get<3>(); }
const void *t4_type0(T4 *t) { return &t->get<Elem>(); }
const void *t4_type1(T4 *t) { return &t->get<int32>(); }
const void *t4_type3(T4 *t) { return &t->get<int64>(); }
const void *t4_ctype0(const T4 *t) { return &t->get<Elem>(); }
const void *t4_ctype1(const T4 *t) { return &t->get<int32>(); }
const void *t4_ctype3(const T4 *t) { return &t->get<int64>(); }
uint64 t4_count(const T4 *t) { return t->getCount(); }
uint64 t4_length(const T4 *t) { return t->getLength(); }
uint64 t4_size(const T4 *t) { return t->getSize(); }
void t1_ctor(T1 *r, const Elem *a) { new (r) T1(*a); }
void t1_ctor_rv(T1 *r, Elem *a) { new (r) T1(static_cast<Elem&&>(*a)); }
const void *t1_get0(T1 *t) { return &t->get<0>(); }
const void *t1_cget0(const T1 *t) { return &t->get<0>(); }
const void *t1_type0(T1 *t) { return &t->get<Elem>(); }
uint64 t1_count(const T1 *t) { return t->getCount(); }
void p2_ctor(P2 *r, const Elem *a, int64 b) { new (r) P2(*a, b); }
void p2_ctor_rv(P2 *r, Elem *a, int64 b) { new (r) P2(static_cast<Elem&&>(*a), b); }
const void *p2_key(const P2 *p) { return &p->getKey(); }
const void *p2_val(P2 *p) { return &p->getVal(); }
const void *p2_cval(const P2 *p) { return &p->getVal(); }
void p3_ctor(P3 *r, const Elem *a, const Elem *b) { new (r) P3(*a, *b); }
void p3_ctor_rv(P3 *r, Elem *a, Elem *b) { new (r) P3(static_cast<Elem&&>(*a), static_cast<Elem&&>(*b)); }
const void *p3_key(const P3 *p) { return &p->getKey(); }
const void *p3_val(P3 *p) { return &p->getVal(); }
const void *p3_cval(const P3 *p) { return &p->getVal(); }
#define REL(P, T) \
bool P##_eq(const T *a, const T *b) { return *a == *b; } \
bool P##_ne(const T *a, const T *b) { return *a != *b; } \
bool P##_lt(const T *a, const T *b) { return *a < *b; } \
bool P##_gt(const T *a, const T *b) { return *a > *b; } \
bool P##_le(const T *a, const T *b) { return *a <= *b; } \
bool P##_ge(const T *a, const T *b) { return *a >= *b; } \
int32 P##_find(const T *a, const T *b) { return T::FindPair{}(*a, *b); } \
int32 P##_findk(const T *a, const Elem *k) { return T::FindPair{}(*a, *k); } \
int32 P##_kfind(const Elem *k, const T *a) { return T::FindPair{}(*k, *a); }
REL(p2, P2) REL(p3, P3)
void ae_default(AE *r) { new (r) AE; }
void ae_from(AE *r, const Elem *p) { new (r) AE(p); }
void ae_items(AE *r, const Elem *a, const Elem *b, const Elem *c) { new (r) AE(*a, *b, *c); }
void ae_items2(AE *r, const Elem *a, const Elem *b) { new (r) AE(*a, *b); }
const void *ae_at(AE *r, uint64 i) { return &(*r)[i]; }
const void *ae_cat(const AE *r, uint64 i) { return &(*r)[i]; }
const void *ae_ptr(AE *r) { return **r; }
const void *ae_cptr(const AE *r) { return **r; }
uint64 ae_count(const AE *r) { return r->getCount(); }
void ai_default(AI *r) { new (r) AI; }
void ai_from(AI *r, const int32 *p) { new (r) AI(p); }
void ai_make(AI *r, const int32 (*p)[5]) { new (r) AI(makeStaticArray(*p)); }
void ai_items(AI *r, int32 a, int32 b, int32 c, int32 d, int32 e) { new (r) AI(a, b, c, d, e); }
void ai_items3(AI *r, int32 a, int32 b, int32 c) { new (r) AI(a, b, c); }
const void *ai_at(AI *r, uint64 i) { return &(*r)[i]; }
const void *ai_cat(const AI *r, uint64 i) { return &(*r)[i]; }
void ai_put(AI *r, uint64 i, int32 v) { (*r)[i] = v; }
const void *ai_ptr(AI *r) { return **r; }
const void *ai_cptr(const AI *r) { return **r; }
uint64 ai_count(const AI *r) { return r->getCount(); }
}
