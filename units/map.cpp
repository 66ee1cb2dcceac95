#include <stdio.h>
#include <new>
#include "core_types.h"
#include "hal/memory_base.h"
#include "containers/map.h"
// Verification unit: maps from opaque keys to opaque values, and an opaque comparison of keys
struct Key { int64 v; Key(const Key &); Key(Key &&); Key & operator=(const Key &); Key & operator=(Key &&); ~Key(); };
struct Val { int64 v; Val(); Val(const Val &); Val(Val &&); Val & operator=(const Val &); Val & operator=(Val &&); ~Val(); };
struct KCmp { int32 operator()(const Key &, const Key &) const; };
using M = Map<Key, Val, KCmp>; using P = Pair<Key, Val, KCmp>; using T = BinaryTree<P, P::FindPair>; using N = BinaryNode<P, P::FindPair>;
extern "C" {
void *V_alloc(MallocBase *m, sizet n, sizet a) { return m->alloc(n, a); }
void V_free(MallocBase *m, void *p) { m->free(p); }
void *S_Node(N *p) { return p + 1; }
void *F_Node_parent(N *p) { return &p->parent; }
void *F_Node_left(N *p) { return &p->left; }
void *F_Node_right(N *p) { return &p->right; }
void *F_Node_next(N *p) { return &p->next; }
void *F_Node_prev(N *p) { return &p->prev; }
void *F_Node_data(N *p) { return &p->data; }
void *F_Node_color(N *p) { return &p->color; }
void *S_Tree(T *p) { return p + 1; }
void *F_Tree_malloc(T *p) { return &p->malloc.malloc; }
void *F_Tree_root(T *p) { return &p->root; }
void *F_Tree_num(T *p) { return &p->numNodes; }
void *S_Set(M *p) { return p + 1; }
void *F_Set_tree(M *p) { return &p->tree; }
void *S_Pair(P *p) { return p + 1; }
void *F_Pair_first(P *p) { return &p->first; }
void *F_Pair_second(P *p) { return &p->second; }

void map_ctor(M *m) { new (m) M(); }
void map_ctorM(M *m, MallocBase *a) { new (m) M(a); }
void map_copy(M *m, const M *o) { new (m) M(*o); }
void map_move(M *m, M *o) { new (m) M(static_cast<M&&>(*o)); }
M *map_assign(M *m, const M *o) { return &(*m = *o); }
M *map_massign(M *m, M *o) { return &(*m = static_cast<M&&>(*o)); }
void map_dtor(M *m) { m->~M(); }
uint64 map_getCount(const M *m) { return m->getCount(); }
uint64 map_getNumNodes(const M *m) { return m->getNumNodes(); }
uint64 map_getSize(const M *m) { return m->getSize(); }
const N *map_cbegin(const M *m) { return m->begin().node; }
N *map_begin(M *m) { return m->begin().node; }
const N *map_cend(const M *m) { return m->end().node; }
N *map_end(M *m) { return m->end().node; }
const N *map_cbeginK(const M *m, const Key *k) { return m->begin(*k).node; }
N *map_beginK(M *m, const Key *k) { return m->begin(*k).node; }
const N *map_cendK(const M *m, const Key *k) { return m->end(*k).node; }
N *map_endK(M *m, const Key *k) { return m->end(*k).node; }
Val *map_index(M *m, const Key *k) { return &(*m)[*k]; }
Val *map_index_rv(M *m, Key *k) { return &(*m)[static_cast<Key&&>(*k)]; }
Val *map_insert(M *m, const Key *k, const Val *v) { return &m->insert(*k, *v); }
Val *map_insert_rv(M *m, Key *k, Val *v) { return &m->insert(static_cast<Key&&>(*k), static_cast<Val&&>(*v)); }
const N *map_cfind(const M *m, const Key *k) { return m->find(*k).node; }
N *map_find(M *m, const Key *k) { return m->find(*k).node; }
bool map_findV(const M *m, const Key *k, Val *o) { return m->find(*k, *o); }
bool map_has(const M *m, const Key *k) { return m->has(*k); }
N *map_removeIt(M *m, N *n) { return m->remove(M::Iterator{n}).node; }
bool map_remove(M *m, const Key *k) { return m->remove(*k); }
bool map_pop(M *m, const Key *k, Val *o) { return m->pop(*k, *o); }
// the pair behind a node
void pair_ctor(P *p, const Key *k, const Val *v) { new (p) P(*k, *v); }
void pair_ctor_rv(P *p, Key *k, Val *v) { new (p) P(static_cast<Key&&>(*k), static_cast<Val&&>(*v)); }
void pair_ctor_krv(P *p, const Key *k, Val *v) { new (p) P(*k, static_cast<Val&&>(*v)); }
void pair_copy(P *p, const P *o) { new (p) P(*o); }
void pair_move(P *p, P *o) { new (p) P(static_cast<P&&>(*o)); }
P *pair_massign(P *p, P *o) { return &(*p = static_cast<P&&>(*o)); }
void pair_dtor(P *p) { p->~P(); }
}
