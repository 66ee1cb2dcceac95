#include <stdio.h>
#include <new>
#include "elem.h"
#include "templates/optional.h"
// Verification unit: Optional over an opaque element and over an integer
using O = Optional<Elem>; using N = Optional<int32>;
extern "C" {
void *S_Opt(O *o) { return o + 1; }
void *F_Opt_engaged(O *o) { return &o->engaged; }
void *F_Opt_val(O *o) { return &o->storage.value.v; }
void *S_Int(N *o) { return o + 1; }
void *F_Int_engaged(N *o) { return &o->engaged; }
void *F_Int_val(N *o) { return &o->storage.value; }
#define OPS(P, T, E) \
void P##_default(T *o) { new (o) T; } \
void P##_copy(T *o, const T *p) { new (o) T(*p); } \
void P##_copy_nc(T *o, T *p) { new (o) T(*p); } \
void P##_move(T *o, T *p) { new (o) T(static_cast<T&&>(*p)); } \
void P##_value(T *o, const E *e) { new (o) T(*e); } \
void P##_value_rv(T *o, E *e) { new (o) T(static_cast<E&&>(*e)); } \
void P##_value_nc(T *o, E *e) { new (o) T(*e); } \
void P##_dtor(T *o) { o->~T(); } \
T *P##_assign(T *o, const T *p) { return &(*o = *p); } \
T *P##_assign_self(T *o) { return &(*o = *(const T*)o); } \
T *P##_massign(T *o, T *p) { return &(*o = static_cast<T&&>(*p)); } \
T *P##_massign_self(T *o) { return &(*o = static_cast<T&&>(*o)); } \
T *P##_set(T *o, const E *e) { return &(*o = *e); } \
T *P##_set_rv(T *o, E *e) { return &(*o = static_cast<E&&>(*e)); } \
void P##_emplace(T *o, const E *e) { o->emplace(*e); } \
void P##_emplace_rv(T *o, E *e) { o->emplace(static_cast<E&&>(*e)); } \
void P##_reset(T *o) { o->reset(); } \
bool P##_has(T *o) { return o->hasValue(); } \
bool P##_bool(const T *o) { return (bool)*o; } \
const void *P##_deref(T *o) { return &**o; } \
const void *P##_cderef(const T *o) { return &**o; } \
const void *P##_arrow(T *o) { return o->operator->(); } \
const void *P##_carrow(const T *o) { return o->operator->(); } \
void P##_deref_rv(E *d, T *o) { new (d) E(*static_cast<T&&>(*o)); }
OPS(opt, O, Elem)
OPS(oi, N, int32)
void opt_emplace0(O *o) { o->emplace(); }
void opt_emplace_k(O *o, int64 k) { o->emplace(k); }
}
