#include <stdio.h>
#include <new>
#include "elem.h"
#include "hal/memory_base.h"
#include "containers/set.h"
// Verification unit: sets over an opaque element and comparison
struct Cmp { int32 operator()(const Elem &, const Elem &) const; };
using T = BinaryTree<Elem, Cmp>; using N = BinaryNode<Elem, Cmp>; using S = Set<Elem, Cmp>;
extern "C" {
void *V_alloc(MallocBase *m, sizet n, sizet a) { return m->alloc(n, a); }
void V_free(MallocBase *m, void *p) { m->free(p); }
void *S_Node(N *p) { return p + 1; }
void *F_Node_parent(N *p) { return &p->parent; }
void *F_Node_left(N *p) { return &p->left; }
void *F_Node_right(N *p) { return &p->right; }
void *F_Node_next(N *p) { return &p->next; }
void *F_Node_prev(N *p) { return &p->prev; }
void *F_Node_data(N *p) { return &p->data; }
void *F_Node_color(N *p) { return &p->color; }
void *S_Tree(T *p) { return p + 1; }
void *F_Tree_malloc(T *p) { return &p->malloc.malloc; }
void *F_Tree_root(T *p) { return &p->root; }
void *F_Tree_num(T *p) { return &p->numNodes; }
void *S_Set(S *p) { return p + 1; }
void *F_Set_tree(S *p) { return &p->tree; }

void set_ctor(S *s) { new (s) S(); }
void set_copy(S *s, const S *o) { new (s) S(*o); }
void set_dtor(S *s) { s->~S(); }
const T *set_ctree(const S *s) { return &s->getTree(); }
T *set_tree(S *s) { return &s->getTree(); }
uint64 set_getSize(const S *s) { return s->getSize(); }
uint64 set_getCount(const S *s) { return s->getCount(); }
uint64 set_getNumItems(const S *s) { return s->getNumItems(); }
const N *set_cbegin(const S *s) { return s->begin().node; }
N *set_begin(S *s) { return s->begin().node; }
const N *set_cend(const S *s) { return s->end().node; }
N *set_end(S *s) { return s->end().node; }
const N *set_cbeginK(const S *s, const Elem *k) { return s->begin(*k).node; }
N *set_beginK(S *s, const Elem *k) { return s->begin(*k).node; }
const N *set_cendK(const S *s, const Elem *k) { return s->end(*k).node; }
N *set_endK(S *s, const Elem *k) { return s->end(*k).node; }
bool set_get(const S *s, const Elem *k) { return s->get(*k); }
bool set_getV(S *s, const Elem *k, Elem *o) { return s->get(*k, *o); }

bool set_cgetV(const S *s, const Elem *k, Elem *o) { return s->get(*k, *o); }

bool set_any1(const S *s, const Elem *k) { return s->any(*k); }
bool set_any3(const S *s, const Elem *k, const Elem *l, const Elem *m) { return s->any(*k, *l, *m); }
bool set_all1(const S *s, const Elem *k) { return s->all(*k); }
bool set_all3(const S *s, const Elem *k, const Elem *l, const Elem *m) { return s->all(*k, *l, *m); }
Elem *set_set(S *s, const Elem *e) { return &s->set(*e); }
Elem *set_set_rv(S *s, Elem *e) { return &s->set(static_cast<Elem&&>(*e)); }
void set_set2(S *s, const Elem *e, const Elem *f) { s->set(*e, *f); }
bool set_remove(S *s, const Elem *k) { return s->remove(*k); }
bool set_removeV(S *s, const Elem *k, Elem *o) { return s->remove(*k, *o); }
S *set_addEq(S *s, const S *o) { return &(*s += *o); }
S *set_mulEq(S *s, const S *o) { return &(*s *= *o); }
S *set_subEq(S *s, const S *o) { return &(*s -= *o); }
void set_add(S *r, const S *s, const S *o) { new (r) S(*s + *o); }
void set_mul(S *r, const S *s, const S *o) { new (r) S(*s * *o); }
void set_sub(S *r, const S *s, const S *o) { new (r) S(*s - *o); }
bool set_eq(const S *s, const S *o) { return *s == *o; }
bool set_ne(const S *s, const S *o) { return *s != *o; }
bool set_le(const S *s, const S *o) { return *s <= *o; }
bool set_ge(const S *s, const S *o) { return *s >= *o; }
bool set_lt(const S *s, const S *o) { return *s < *o; }
bool set_gt(const S *s, const S *o) { return *s > *o; }
}
