#include "containers/list.h"
#include "hal/memory_base.h"
// Verification unit: one wrapper per operation under contract, T = int (trivial) or Elem (opaque, non-trivial)
using L = List<int>; using K = Link<int>;
extern "C" {
void *S_Link(K *p) { return p + 1; }
void *F_Link_next(K *p) { return &p->next; }
void *F_Link_prev(K *p) { return &p->prev; }
void *F_Link_data(K *p) { return &p->data; }
void *S_List(L *p) { return p + 1; }
void *F_List_malloc(L *p) { return &p->malloc; }
void *F_List_head(L *p) { return &p->head; }
void *F_List_tail(L *p) { return &p->tail; }
void *F_List_length(L *p) { return &p->length; }
void *V_alloc(MallocBase *m, sizet n, sizet a) { return m->alloc(n, a); }
void V_free(MallocBase *m, void *p) { m->free(p); }

int *list_pushBack(L *l, const int *x) { return &l->pushBack(*x); }
int *list_pushFront(L *l, const int *x) { return &l->pushFront(*x); }
void list_pushBack2(L *l, int *x, int *y) { l->pushBack(*x, *y); }
void list_pushFront2(L *l, int *x, int *y) { l->pushFront(*x, *y); }
void list_remove(L *l, K *x) { l->remove(x); }
void list_removeIt(L *l, K *x) { l->remove(ListIterator<K>{x}); }
bool list_removeBack(L *l) { return l->removeBack(); }
bool list_removeFront(L *l) { return l->removeFront(); }
bool list_popBack(L *l, int *o) { return l->popBack(*o); }
bool list_popFront(L *l, int *o) { return l->popFront(*o); }
void list_empty(L *l) { l->empty(); }
void list_dtor(L *l) { l->~L(); }
void list_ctor(L *l) { new (l) L(); }
void list_ctorM(L *l, MallocBase *m) { new (l) L(m); }
void list_copyCtor(L *l, const L *o) { new (l) L(*o); }
void list_moveCtor(L *l, L *o) { new (l) L(static_cast<L&&>(*o)); }
L *list_copyAssign(L *l, const L *o) { return &(*l = *o); }
L *list_moveAssign(L *l, L *o) { return &(*l = static_cast<L&&>(*o)); }
uint64 list_getLength(const L *l) { return l->getLength(); }
const K *list_getHead(const L *l) { return l->getHead(); }
const K *list_getTail(const L *l) { return l->getTail(); }
void *list_begin(L *l) { return l->begin().link; }
void *list_end(L *l) { return l->end().link; }
void *list_itNext(K *k) { ListIterator<K> it{k}; ++it; return it.link; }
void *list_itPrev(K *k) { ListIterator<K> it{k}; --it; return it.link; }
int *list_itDeref(K *k) { ListIterator<K> it{k}; return &*it; }
void *list_itPostNext(K *k, void **o) { ListIterator<K> it{k}; auto r = it++; *o = it.link; return r.link; }
void *list_itPostPrev(K *k, void **o) { ListIterator<K> it{k}; auto r = it--; *o = it.link; return r.link; }
bool list_itEq(K *k, K *j) { return ListIterator<K>{k} == ListIterator<K>{j}; }
bool list_itNe(K *k, K *j) { return ListIterator<K>{k} != ListIterator<K>{j}; }
}
