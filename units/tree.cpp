#include <stdio.h>
#include <new>
#include "elem.h"
#include "hal/memory_base.h"
#include "containers/tree.h"
// Verification unit: red-black tree over an opaque element and comparison
struct Cmp { int32 operator()(const Elem &, const Elem &) const; };
// the const overload of end(key)
#define WITH_CEND 1
using N = BinaryNode<Elem, Cmp>; using T = BinaryTree<Elem, Cmp>;
extern "C" {
void *V_alloc(MallocBase *m, sizet n, sizet a) { return m->alloc(n, a); }
void V_free(MallocBase *m, void *p) { m->free(p); }
void *S_Node(N *p) { return p + 1; }
void *F_Node_parent(N *p) { return &p->parent; }
void *F_Node_left(N *p) { return &p->left; }
void *F_Node_right(N *p) { return &p->right; }
void *F_Node_next(N *p) { return &p->next; }
void *F_Node_prev(N *p) { return &p->prev; }
void *F_Node_data(N *p) { return &p->data; }
void *F_Node_color(N *p) { return &p->color; }
void *S_Tree(T *p) { return p + 1; }
void *F_Tree_malloc(T *p) { return &p->malloc.malloc; }
void *F_Tree_root(T *p) { return &p->root; }
void *F_Tree_num(T *p) { return &p->numNodes; }

N *node_getRoot(N *n) { return n->getRoot(); }
const N *node_cgetRoot(const N *n) { return n->getRoot(); }
N *node_getMin(N *n) { return n->getMin(); }
const N *node_cgetMin(const N *n) { return n->getMin(); }
N *node_getMax(N *n) { return n->getMax(); }
const N *node_cgetMax(const N *n) { return n->getMax(); }
uint64 node_size(N *n) { return N::getTreeSize(n); }
N *node_find(N *n, const Elem *k) { return n->find(*k); }
N *node_findMin(N *n, const Elem *k) { return n->findMin(*k); }
N *node_findMax(N *n, const Elem *k) { return n->findMax(*k); }
N *node_insert(N *n, N *x) { return n->insert(x); }
N *node_insertUnique(N *n, N *x) { return n->insertUnique(x); }
N *node_remove(N *n, N **o) { return n->remove(*o); }
N *node_remove0(N *n) { return n->remove(); }

void tree_ctor(T *t) { new (t) T(); }
void tree_ctorM(T *t, MallocBase *m) { new (t) T(m); }
void tree_copy(T *t, const T *o) { new (t) T(*o); }
void tree_move(T *t, T *o) { new (t) T(static_cast<T&&>(*o)); }
T *tree_assign(T *t, const T *o) { return &(*t = *o); }
T *tree_massign(T *t, T *o) { return &(*t = static_cast<T&&>(*o)); }
void tree_empty(T *t) { t->empty(); }
void tree_dtor(T *t) { t->~T(); }
uint64 tree_num(const T *t) { return t->getNumNodes(); }
uint64 tree_count(const T *t) { return t->getCount(); }
uint64 tree_getSize(const T *t) { return t->getSize(); }
const N *tree_croot(const T *t) { return t->getRoot(); }
N *tree_root(T *t) { return t->getRoot(); }
const N *tree_cmin(const T *t) { return t->getMin(); }
N *tree_min(T *t) { return t->getMin(); }
const N *tree_cmax(const T *t) { return t->getMax(); }
N *tree_max(T *t) { return t->getMax(); }
const N *tree_cbegin(const T *t) { return t->begin().node; }
N *tree_begin(T *t) { return t->begin().node; }
const N *tree_cbeginK(const T *t, const Elem *k) { return t->begin(*k).node; }
N *tree_beginK(T *t, const Elem *k) { return t->begin(*k).node; }
const N *tree_cend(const T *t) { return t->end().node; }
N *tree_end(T *t) { return t->end().node; }
#ifdef WITH_CEND
const N *tree_cendK(const T *t, const Elem *k) { return t->end(*k).node; }
#endif
N *tree_endK(T *t, const Elem *k) { return t->end(*k).node; }
const N *tree_cfindNode(const T *t, const Elem *k) { return t->findNode(*k); }
N *tree_findNode(T *t, const Elem *k) { return t->findNode(*k); }
const N *tree_cfind(const T *t, const Elem *k) { return t->find(*k).node; }
N *tree_find(T *t, const Elem *k) { return t->find(*k).node; }
Elem *tree_insert(T *t, const Elem *e) { return &t->insert(*e); }
Elem *tree_insert_rv(T *t, Elem *e) { return &t->insert(static_cast<Elem&&>(*e)); }
Elem *tree_insertUnique(T *t, const Elem *e) { return &t->insertUnique(*e); }
Elem *tree_insertUnique_rv(T *t, Elem *e) { return &t->insertUnique(static_cast<Elem&&>(*e)); }
Elem *tree_replace(T *t, const Elem *e) { return &t->replace(*e); }
Elem *tree_replace_rv(T *t, Elem *e) { return &t->replace(static_cast<Elem&&>(*e)); }
N *tree_removeNode(T *t, N *n) { return t->removeNode(n); }
N *tree_removeIt(T *t, N *n) { return t->remove(T::Iterator{n}).node; }
bool tree_remove(T *t, const Elem *k) { return t->remove(*k); }
// iterators
const Elem *it_deref(N *n) { return &*T::Iterator{n}; }
const Elem *it_arrow(N *n) { return T::Iterator{n}.operator->(); }
const Elem *cit_deref(const N *n) { return &*T::ConstIterator{n}; }
N *it_inc(N *n) { T::Iterator i{n}; return (++i).node; }
N *it_dec(N *n) { T::Iterator i{n}; return (--i).node; }
N *it_pinc(N *n, N **o) { T::Iterator i{n}; T::Iterator j = i++; *o = i.node; return j.node; }
N *it_pdec(N *n, N **o) { T::Iterator i{n}; T::Iterator j = i--; *o = i.node; return j.node; }
bool it_eq(N *a, N *b) { return T::Iterator{a} == T::Iterator{b}; }
bool it_ne(N *a, N *b) { return T::Iterator{a} != T::Iterator{b}; }
const N *it_conv(N *n) { return T::ConstIterator{T::Iterator{n}}.node; }
const N *cit_inc(const N *n) { T::ConstIterator i{n}; return (++i).node; }
}
