// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp
#include "trees.h"
#include "containers/map.h"
#include <map>
struct Key : Obj { using Obj::Obj; };
struct Val : Obj { using Obj::Obj; };
struct KeyCmp { int32 operator()(const Key &a, const Key &b) const { a.chk(); b.chk(); return a.v < b.v ? -3 : a.v > b.v; } };
using MapT = Map<Key, Val, KeyCmp>; using PairT = Pair<Key, Val, KeyCmp>; using NodeT = BinaryNode<PairT, PairT::FindPair>; typedef std::map<int, int> M;
static int nc(NodeT *a, NodeT *b) { return a->data.first.v - b->data.first.v; }
static void same(MapT &s, const M &m, const char *w) {
  auto v = checkTree(s.tree, nc, w); REQ(v.size() == m.size() && s.getSize() == m.size() && s.getCount() == m.size() && s.getNumNodes() == m.size(), std::string(w) + ": size");
  size_t i = 0; for (auto &p : m) { v[i]->data.first.chk(); v[i]->data.second.chk(); REQ(v[i]->data.first.v == p.first && v[i]->data.second.v == p.second, std::string(w) + ": content"); ++i; }
  auto e = m.begin(); for (auto it = s.begin(); it != s.end(); ++it, ++e) { REQ(e != m.end() && it->first.v == e->first && it->second.v == e->second, std::string(w) + ": iteration"); } REQ(e == m.end(), std::string(w) + ": iteration ends early");
  const MapT &c = s; e = m.begin(); for (auto it = c.begin(); it != c.end(); ++it, ++e) REQ(e != m.end() && it->first.v == e->first && it->second.v == e->second, std::string(w) + ": const iteration"); REQ(e == m.end(), std::string(w) + ": const iteration ends early"); }
static void one(int maxops) {
  long live0 = Obj::live;
  { MapT a, b; M ma, mb; int n = 1 + rnd(maxops), KR = 1 + rnd(maxops < 20 ? 7 : 40), tag = 100;
    for (int s = 0; s < n; ++s) {
      bool fa = rnd(4) != 0; MapT &t = fa ? a : b, &o = fa ? b : a; M &m = fa ? ma : mb, &mo = fa ? mb : ma; const char *nm = fa ? "a" : "b", *om = fa ? "b" : "a";
      int k = rnd(KR); ++tag; bool h = m.count(k); Key x(k);
      switch (rnd(20)) {
      case 0: case 1: { op("%s[%d] = %d", nm, k, tag); if (rnd(2)) t[x] = Val(tag); else t[Key(k)] = Val(tag); m[k] = tag; break; }
      case 2: { op("%s[%d]", nm, k); Val &r = t[x]; r.chk(); REQ(r.v == m[k], "operator[] result"); break; }
      case 3: case 4: case 5: case 6: { op("%s.insert(%d, %d)", nm, k, tag); Val y(tag); int f = rnd(3); Val &r = f == 0 ? t.insert(x, y) : f == 1 ? t.insert(Key(k), Val(tag)) : t.insert(x, Val(tag)); m[k] = tag; r.chk(); REQ(r.v == tag, "insert result"); REQ(f || y.v == tag, "inserted value is changed"); REQ(&r == &t.find(x)->second, "insert refers to another value"); break; }
      case 7: case 8: case 9: { op("%s.remove(%d)", nm, k); REQ(t.remove(x) == h, "remove result"); m.erase(k); break; }
      case 10: case 11: { op("%s.pop(%d)", nm, k); Val y(-1); REQ(t.pop(x, y) == h, "pop result"); y.chk(); REQ(y.v == (h ? m[k] : -1), "popped value"); m.erase(k); break; }
      case 12: { op("%s.remove(find(%d))", nm, k); auto it = t.remove(t.find(x)); auto e = m.upper_bound(k); if (h) { REQ((it.node != nullptr) == (e != m.end()), "remove(iterator) result"); if (it.node) REQ(it->first.v == e->first, "remove(iterator) result"); } else REQ(!it.node, "removing the end"); m.erase(k); break; }
      case 13: case 14: { op("%s.find, has(%d)", nm, k); const MapT &q = t; Val y(-1); REQ(q.find(x, y) == h && y.v == (h ? m[k] : -1), "find value"); REQ(q.has(x) == h, "has");
          REQ((t.find(x).node != nullptr) == h && q.find(x).node == t.find(x).node, "find"); if (h) REQ(q.find(x)->first.v == k && q.find(x)->second.v == m[k], "found pair");
          auto nx = m.upper_bound(k); auto bi = t.begin(x), ei = t.end(x); REQ((bi.node != nullptr) == h && (!h || bi->first.v == k), "begin(key)"); if (h) REQ((ei.node != nullptr) == (nx != m.end()) && (nx == m.end() || ei->first.v == nx->first), "end(key)");
          REQ(q.begin(x).node == bi.node && (!h || q.end(x).node == ei.node), "const begin, end(key)"); break; }
      case 15: op("%s = %s", nm, om); t = o; m = mo; break;
      case 16: { op("%s = move(%s)", nm, om); t = static_cast<MapT&&>(o); m = mo; mo.clear(); break; }
      case 17: { op("copy and move %s", nm); MapT d(t); same(d, m, "copy"); MapT e(static_cast<MapT&&>(d)); same(e, m, "moved"); same(d, M(), "moved-from"); d.insert(x, Val(tag)); same(e, m, "moved"); break; }
      default: { op("%s[%d] += 1", nm, k); t[x].v += 1; m[k] += 1; break; } }
      x.chk(); REQ(x.v == k, "key argument changed");
      same(a, ma, "a"); same(b, mb, "b");
      REQ(Obj::live - live0 - 1 == 2 * (long)(ma.size() + mb.size()), "number of live keys and values");
    } }
  REQ(Obj::live == live0, "elements leaked or destroyed twice");
}
int main(int c, char **v) { init(c, v); long lim = 300000;
  for (int sz = 3; more() && cases < lim; sz = sz < 80 ? sz + 1 : 3) for (int i = 0; i < 100 && more(); ++i) { begin("Map"); one(sz); }
  return done("random operation sequences of up to 80 operations on two maps"); }
