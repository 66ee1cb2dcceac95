#include <stdio.h>
#include <new>
#include "core_types.h"
#include "hal/malloc_ansi.h"
#include "templates/function.h"
// Verification unit: Function over an opaque functor (every lifetime event and call is observed), a plain function and a lambda with captures
struct Elem { int64 v; Elem(); explicit Elem(int64); Elem(const Elem &); Elem(Elem &&); Elem & operator=(const Elem &); Elem & operator=(Elem &&); ~Elem(); int32 operator()(int32, int64); };
struct Act { int64 v; Act(const Act &); Act(Act &&); ~Act(); void operator()(int32 &); };
using F = Function<int32(int32, int64)>; using G = Function<void(int32 &)>; using P = int32 (*)(int32, int64);
struct Lam { int32 a, b; int32 operator()(int32 x, int64 y) const { return (int32)((uint32)a * (uint32)x + (uint32)b + (uint32)y); } };
extern "C" {
int32 plain(int32, int64);
void *S_F(F *f) { return f + 1; }
void *F_F_callable(F *f) { return &f->callable; }
void *F_F_heap(F *f) { return &f->storage.heap; }
void *S_G(G *f) { return f + 1; }
void *F_G_callable(G *f) { return &f->callable; }
void *F_G_heap(G *f) { return &f->storage.heap; }
void *S_Lam(Lam *f) { return f + 1; }
void *S_OP(FunctionOwnedObject<P> *f) { return f + 1; }
void *F_OP_object(FunctionOwnedObject<P> *f) { return &f->object; }
void V_address(FunctionOwnedObjectInterface *p) { p->getAddress(); }
void V_destroy(FunctionOwnedObjectInterface *p) { p->destroy(); }
void V_clone(const FunctionOwnedObjectInterface *p) { p->clone(); }
#define OPS(N, F) \
void N##_default(F *r) { new (r) F; } \
void N##_copy(F *r, const F *o) { new (r) F(*o); } \
void N##_copy_nc(F *r, F *o) { new (r) F(*o); } \
void N##_move(F *r, F *o) { new (r) F(static_cast<F&&>(*o)); } \
void N##_dtor(F *r) { r->~F(); } \
F *N##_assign(F *r, const F *o) { return &(*r = *o); } \
F *N##_assign_self(F *r) { return &(*r = *(const F*)r); } \
F *N##_massign(F *r, F *o) { return &(*r = static_cast<F&&>(*o)); } \
F *N##_massign_self(F *r) { return &(*r = static_cast<F&&>(*r)); } \
bool N##_bool(const F *r) { return (bool)*r; }
OPS(f, F) OPS(g, G)
int32 f_call(F *r, int32 a, int64 b) { return (*r)(a, b); }
int32 f_ccall(const F *r, int32 a, int64 b) { return (*r)(a, b); }
void g_call(G *r, int32 *a) { (*r)(*a); }
void g_ccall(const G *r, int32 *a) { (*r)(*a); }
void f_bind(F *r, const Elem *e) { new (r) F(*e); }
void f_bind_nc(F *r, Elem *e) { new (r) F(*e); }
void f_bind_rv(F *r, Elem *e) { new (r) F(static_cast<Elem&&>(*e)); }
void g_bind(G *r, const Act *e) { new (r) G(*e); }
void g_bind_rv(G *r, Act *e) { new (r) G(static_cast<Act&&>(*e)); }
F *f_set(F *r, const Elem *e) { return &(*r = *e); }
void f_plain(F *r) { new (r) F(plain); }
void f_ptr(F *r, P p) { new (r) F(p); }
void f_lam(F *r, const Lam *l) { new (r) F(*l); }
}
