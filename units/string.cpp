#include <stdio.h>
#include <new>
#include "hal/memory_base.h"
#include "containers/string.h"
// Verification unit: StringBase<char> and PlatformStrings
using S = String; typedef const char *CS;
extern "C" {
void *S_Str(S *a) { return a + 1; }
void *V_alloc(MallocBase *m, sizet n, sizet a) { return m->alloc(n, a); }
void V_free(MallocBase *m, void *p) { m->free(p); }
void *F_Str_malloc(S *a) { return &a->array.malloc.malloc; }
void *F_Str_buffer(S *a) { return &a->array.buffer; }
void *F_Str_cap(S *a) { return &a->array.capacity; }
void *F_Str_count(S *a) { return &a->array.count; }
void str_ctor(S *r) { new (r) S(); }
void str_ctorN(S *r, sizet n) { new (r) S(n); }
void str_fill(S *r, sizet n, char c) { new (r) S(n, c); }
void str_ctorB(S *r, CS b, sizet n) { new (r) S(b, n); }
void str_ctorC(S *r, CS b) { new (r) S(b); }
void str_copy(S *r, const S *o) { new (r) S(*o); }
void str_move(S *r, S *o) { new (r) S(static_cast<S&&>(*o)); }
void str_dtor(S *a) { a->~S(); }
S *str_assign(S *a, const S *o) { return &(*a = *o); }
S *str_massign(S *a, S *o) { return &(*a = static_cast<S&&>(*o)); }
S *str_assign_self(S *a) { return &(*a = *(const S*)a); }
S *str_assignC(S *a, CS b) { return &(*a = b); }
sizet str_getLength(const S *a) { return a->getLength(); }
sizet str_getSize(const S *a) { return a->getSize(); }
sizet str_getLen(const S *a) { return a->getLen(); }
const void *str_data(S *a) { return **a; }
const void *str_cdata(const S *a) { return **a; }
const void *str_getData(S *a) { return a->getData(); }
const void *str_getBuffer(const S *a) { return a->getBuffer(); }
const void *str_idx(S *a, uint64 i) { return &(*a)[i]; }
const void *str_cidx(const S *a, uint64 i) { return &(*a)[i]; }
const void *str_getAt(const S *a, uint64 i) { return &a->getAt(i); }
#define REL(N, OP) \
bool str_##N(const S *a, const S *b) { return *a OP *b; } \
bool str_##N##C(const S *a, CS b) { return *a OP b; }
REL(eq, ==) REL(ne, !=) REL(lt, <) REL(gt, >) REL(le, <=) REL(ge, >=)
int32 str_cmp(const S *a, const S *b) { return a->cmp(*b); }
int32 str_cmpC(const S *a, CS b) { return a->cmp(b); }
int32 str_icmp(const S *a, const S *b) { return a->icmp(*b); }
int32 str_icmpC(const S *a, CS b) { return a->icmp(b); }
S *str_addc(S *a, char c) { return &(*a += c); }
S *str_addC(S *a, CS b) { return &(*a += b); }
S *str_addS(S *a, const S *b) { return &(*a += *b); }
S *str_addself(S *a) { return &(*a += *(const S*)a); }
S *str_addown(S *a, uint64 i) { return &(*a += (CS)(**a + i)); }
S *str_addi32(S *a, int32 v) { return &(*a += v); }
S *str_addi64(S *a, int64 v) { return &(*a += v); }
S *str_addu32(S *a, uint32 v) { return &(*a += v); }
S *str_addu64(S *a, uint64 v) { return &(*a += v); }
S *str_addf32(S *a, float32 v) { return &(*a += v); }
S *str_addf64(S *a, float64 v) { return &(*a += v); }
S *str_prti32(S *a, int32 v) { return &(*a <<= v); }
S *str_prti64(S *a, int64 v) { return &(*a <<= v); }
S *str_prtu32(S *a, uint32 v) { return &(*a <<= v); }
S *str_prtu64(S *a, uint64 v) { return &(*a <<= v); }
S *str_prtf32(S *a, float32 v) { return &(*a <<= v); }
S *str_prtf64(S *a, float64 v) { return &(*a <<= v); }
void str_plusc(S *r, const S *a, char c) { new (r) S(*a + c); }
void str_plusC(S *r, const S *a, CS b) { new (r) S(*a + b); }
void str_plusS(S *r, const S *a, const S *b) { new (r) S(*a + *b); }
void str_plusi32(S *r, const S *a, int32 v) { new (r) S(*a + v); }
void str_format0(S *r, CS f) { new (r) S(S::format(f)); }
void str_format2(S *r, CS f, int32 x, CS y) { new (r) S(S::format(f, x, y)); }
void str_substr(S *r, const S *a, sizet n, sizet p) { new (r) S(a->substr(n, p)); }
S *str_spliceS(S *a, sizet p, sizet n, const S *b) { return &a->splice(p, n, *b); }
S *str_spliceC(S *a, sizet p, sizet n, CS b) { return &a->splice(p, n, b); }
int64 str_findC(const S *a, CS p, sizet i) { return a->findIndex(p, i); }
int64 str_findCn(const S *a, CS p, sizet i, sizet n) { return a->findIndex(p, i, n); }
int64 str_findS(const S *a, const S *p, sizet i) { return a->findIndex(*p, i); }
int64 str_findc(const S *a, char p, sizet i) { return a->findIndex(p, i); }
void str_findAllS(Array<sizet> *r, const S *a, const S *p) { new (r) Array<sizet>(a->findAll(*p)); }
void str_findAllC(Array<sizet> *r, const S *a, CS p) { new (r) Array<sizet>(a->findAll(p)); }
void str_findAllc(Array<sizet> *r, const S *a, char p) { new (r) Array<sizet>(a->findAll(p)); }
S *str_replaceAll(S *a, const S *p, const S *q) { return &a->replaceAll(*p, *q); }
void str_toLower(S *r, const S *a) { new (r) S(a->toLower()); }
void str_toUpper(S *r, const S *a) { new (r) S(a->toUpper()); }
int32 pls_cmpn(CS a, CS b, sizet n, sizet i) { return PlatformStrings::cmpn(a, b, n, i); }
int32 pls_cmpn0(CS a, CS b, sizet n) { return PlatformStrings::cmpn(a, b, n); }
int32 pls_icmpn(CS a, CS b, sizet n, sizet i) { return PlatformStrings::icmpn(a, b, n, i); }
int32 pls_icmpn0(CS a, CS b, sizet n) { return PlatformStrings::icmpn(a, b, n); }
}
