#include <stdio.h>
#include <new>
#include "hal/platform_atomics.h"
#include "templates/atomic.h"
using O = UnixPlatformAtomics::AtomicOrder;
struct E12 { int a, b, c; };
#define EACH(X) X(int8, int8) X(uint8, uint8) X(int16, int16) X(uint16, uint16) X(int32, int32) X(uint32, uint32) X(int64, int64) X(uint64, uint64)
#define ALL(X) EACH(X) X(pi, int*) X(pe, E12*)
extern "C" {
#define P(N, T) void *F_##N##_value(Atomic<T> *p) { return (void*)&p->value; }
ALL(P)
#define D(N, T) \
 T load_##N(Atomic<T> *a) { return a->load(); } T loadRelaxed_##N(Atomic<T> *a) { return a->load(O::Relaxed); } \
 T cast_##N(Atomic<T> *a) { return (T)*a; } \
 void store_##N(Atomic<T> *a, T v) { a->store(v); } void storeRelaxed_##N(Atomic<T> *a, T v) { a->store(v, O::Relaxed); } \
 T assign_##N(Atomic<T> *a, T v) { return *a = v; } \
 T preInc_##N(Atomic<T> *a) { return ++*a; } T postInc_##N(Atomic<T> *a) { return (*a)++; } \
 T preDec_##N(Atomic<T> *a) { return --*a; } T postDec_##N(Atomic<T> *a) { return (*a)--; } \
 T exch_##N(Atomic<T> *a, T v) { return PlatformAtomics::exchange(&a->value, v); } \
 void ctor_##N(Atomic<T> *a, T v) { new (a) Atomic<T>(v); }
ALL(D)
#define I(N, T) T add_##N(Atomic<T> *a, T v) { return *a += v; } T sub_##N(Atomic<T> *a, T v) { return *a -= v; }
EACH(I)
int *add_pi(Atomic<int*> *a, intp v) { return *a += v; } int *sub_pi(Atomic<int*> *a, intp v) { return *a -= v; }
E12 *add_pe(Atomic<E12*> *a, intp v) { return *a += v; } E12 *sub_pe(Atomic<E12*> *a, intp v) { return *a -= v; }
}
