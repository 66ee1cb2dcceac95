// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp
#include "trees.h"
#include "tm.h"
struct KV { Obj k; int tag; KV(int a, int b) : k(a), tag(b) {} };
struct CmpKV { int32 operator()(const KV &a, const KV &b) const { a.k.chk(); b.k.chk(); return a.k.v < b.k.v ? -3 : a.k.v > b.k.v; } int32 operator()(const KV &a, int b) const { return a.k.v - b; } int32 operator()(int a, const KV &b) const { return a - b.k.v; } };
using T = BinaryTree<KV, CmpKV>; using N = T::NodeT; typedef std::vector<std::pair<int,int>> M;
static int nc(N *a, N *b) { return a->data.k.v - b->data.k.v; }
static void same(T &t, const M &m, const char *w) {
  auto v = checkTree(t, nc, w); REQ(v.size() == m.size(), std::string(w) + ": size");
  for (size_t i = 0; i < v.size(); ++i) { v[i]->data.k.chk(); REQ(v[i]->data.k.v == m[i].first && v[i]->data.tag == m[i].second, std::string(w) + ": content"); } }
static void one(int maxops) {
  long live0 = Obj::live; TM A;
  { T a{&A}, b; M ma, mb; int n = 1 + rnd(maxops), tag = 1, KR = 1 + rnd(30);
    for (int s = 0; s < n; ++s) {
      bool fa = rnd(4); T &t = fa ? a : b, &o = fa ? b : a; M &m = fa ? ma : mb, &mo = fa ? mb : ma; const char *nm = fa ? "a" : "b";
      int k = rnd(KR); auto ub = [&](int k) { size_t i = 0; while (i < m.size() && m[i].first <= k) ++i; return i; }; auto lb = [&](int k) { size_t i = 0; while (i < m.size() && m[i].first < k) ++i; return i; };
      int c = rnd(20); if (n > 40 && s < n / 2 && c > 6) c = rnd(7);
      switch (c) {
      case 0: case 1: case 2: case 3: { KV x(k, tag); op("%s.insert(%d)", nm, k); KV &r = rnd(2) ? t.insert(x) : t.insert(KV(k, tag)); REQ(r.k.v == k && r.tag == tag && x.k.v == k, "insert result"); m.insert(m.begin() + ub(k), {k, tag}); ++tag; break; }
      case 4: { op("%s.insertUnique(%d)", nm, k); size_t l = lb(k), u = ub(k); KV x(k, tag); KV &r = rnd(2) ? t.insertUnique(x) : t.insertUnique(KV(k, tag)); REQ(r.k.v == k, "insertUnique result"); if (l == u) { m.insert(m.begin() + u, {k, tag}); REQ(r.tag == tag, "insertUnique result"); } else { bool f = false; for (size_t i = l; i < u; ++i) f |= m[i].second == r.tag; REQ(f, "insertUnique refers to an existing element"); } ++tag; break; }
      case 5: { op("%s.replace(%d)", nm, k); size_t l = lb(k), u = ub(k); KV x(k, tag); KV &r = rnd(2) ? t.replace(x) : t.replace(KV(k, tag)); REQ(r.k.v == k && r.tag == tag, "replace result"); if (l == u) m.insert(m.begin() + u, {k, tag}); else { size_t i = l; N *p = t.getMin(); for (size_t j = 0; j < l; ++j) p = p->next; for (; i < u && &p->data != &r; ++i) p = p->next; REQ(i < u, "replace refers to an element of the tree"); m[i].second = tag; } ++tag; break; }
      case 6: case 7: case 8: { op("%s.remove(key %d)", nm, k); size_t l = lb(k), u = ub(k); std::multiset<int> tg; for (size_t i = l; i < u; ++i) tg.insert(m[i].second); KV x(k, 0); bool r = t.remove(x); REQ(r == (l < u), "remove result"); if (r) { size_t i = l; N *p = t.getMin(); for (size_t j = 0; j < l && p; ++j) p = p->next; while (i + 1 < u && p && p->data.tag == m[i].second) { ++i; p = p->next; } m.erase(m.begin() + i); } break; }
      case 9: case 10: case 11: if (!m.empty()) { unsigned i = rnd(m.size()); op("%s.removeNode(#%u)", nm, i); N *p = t.getMin(); for (unsigned j = 0; j < i; ++j) p = p->next; m.erase(m.begin() + i);
          N *r; switch (rnd(3)) { case 0: r = t.removeNode(p); break; default: { auto it = T::Iterator{p}; r = t.remove(it).node; } }
          N *q = t.getMin(); for (unsigned j = 0; j < i && q; ++j) q = q->next; REQ(r == q, "removal gives the node of the next key"); } else { op("%s.remove(end)", nm); REQ(t.remove(T::Iterator{nullptr}).node == nullptr, "remove end"); } break;
      case 12: { op("%s.find(%d)", nm, k); size_t l = lb(k), u = ub(k); N *f = t.findNode(k); REQ((f != nullptr) == (l < u) && (!f || f->data.k.v == k), "findNode"); REQ(t.find(k).node == f, "find");
          auto at = [&](size_t i) { N *q = t.getMin(); for (size_t j = 0; j < i && q; ++j) q = q->next; return q; };
          if (l < u) { REQ(t.begin(k).node == at(l), "begin(key)"); REQ(t.end(k).node == at(u), "end(key)"); const T &ct = t; REQ(ct.begin(k).node == at(l) && ct.end(k).node == at(u), "const begin, end(key)"); } else { REQ(t.begin(k).node == nullptr && t.end(k).node == nullptr, "begin, end(absent key)"); }
          REQ(t.root == nullptr || N::getTreeSize(t.root) == m.size(), "getTreeSize"); break; }
      case 13: op("%s = %s", nm, fa ? "b" : "a"); { T &r = (t = o); REQ(&r == &t, "assignment result"); } m = mo; break;
      case 14: op("%s = move(%s)", nm, fa ? "b" : "a"); { T c(o); M mc = mo; t = static_cast<T&&>(c); m = mc; REQ(c.getNumNodes() == 0 && !c.root, "moved-from is empty"); c.insert(KV(3, 3)); same(c, M{{3, 3}}, "moved-from usable"); } break;
      case 15: op("copy %s", nm); { T d(t); same(d, m, "copy"); d.insert(KV(5, -1)); if (!m.empty()) { KV x(m[0].first, 0); d.remove(x); } same(t, m, "original of a copy"); T e(static_cast<T&&>(d)); same(d, M(), "moved-from"); checkTree(e, nc, "moved"); } break;
      case 16: op("%s = %s", nm, nm); { T &r = t; t = r; } break;
      case 17: if (rnd(3) == 0) { op("%s.empty", nm); t.empty(); m.clear(); } break;
      case 18: if (t.root) { N *nn = new (t.malloc.alloc(1)) N{KV(k, tag)}; bool un = rnd(2); op("node insert%s(%d)", un ? "Unique" : "", k); size_t l = lb(k), u = ub(k); N *r = un ? t.root->insertUnique(nn) : t.root->insert(nn); if (un && l < u) { REQ(r != nn && r->data.k.v == k, "node insertUnique result"); t.destroyNode(nn); } else { REQ(r == nn, "node insert result"); t.root = t.root->getRoot(); ++t.numNodes; m.insert(m.begin() + u, {k, tag}); } ++tag; } break;
      default: break; }
      same(a, ma, "a"); same(b, mb, "b");
      REQ(Obj::live - live0 == (long)(ma.size() + mb.size()), "number of live elements");
    } }
  REQ(Obj::live == live0, "elements leaked or destroyed twice"); REQ(A.live.empty(), "blocks leaked");
}
int main(int c, char **v) { init(c, v); long lim = 300000;
  for (int sz = 3; more() && cases < lim; sz = sz < 120 ? sz + 1 : 3) for (int i = 0; i < 100 && more(); ++i) { begin("BinaryTree"); one(sz); }
  return done("random operation sequences of up to 120 operations on two trees"); }
