// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp
#include "trees.h"
#include "containers/set.h"
#include <map>
struct KV { Obj k; int tag; KV(int a, int b) : k(a), tag(b) {} };
struct CmpKV { int32 operator()(const KV &a, const KV &b) const { a.k.chk(); b.k.chk(); return a.k.v < b.k.v ? -3 : a.k.v > b.k.v; } int32 operator()(const KV &a, int b) const { return a.k.v - b; } int32 operator()(int a, const KV &b) const { return a - b.k.v; } };
using SetT = Set<KV, CmpKV>; using NodeT = BinaryNode<KV, CmpKV>; typedef std::map<int, int> M;
static int nc(NodeT *a, NodeT *b) { return a->data.k.v - b->data.k.v; }
static void same(SetT &s, const M &m, const char *w) {
  auto v = checkTree(s.getTree(), nc, w); REQ(v.size() == m.size() && s.getSize() == m.size() && s.getCount() == m.size() && s.getNumItems() == m.size(), std::string(w) + ": size");
  size_t i = 0; for (auto &p : m) { v[i]->data.k.chk(); REQ(v[i]->data.k.v == p.first && v[i]->data.tag == p.second, std::string(w) + ": content"); ++i; }
  auto e = m.begin(); for (auto it = s.begin(); it != s.end(); ++it, ++e) { REQ(e != m.end() && it->k.v == e->first, std::string(w) + ": iteration"); } REQ(e == m.end(), std::string(w) + ": iteration ends early");
  const SetT &c = s; e = m.begin(); for (auto it = c.begin(); it != c.end(); ++it, ++e) REQ(e != m.end() && it->k.v == e->first, std::string(w) + ": const iteration"); REQ(e == m.end(), std::string(w) + ": const iteration ends early"); }
static M uni(const M &a, const M &b) { M r = a; r.insert(b.begin(), b.end()); return r; }
static M inter(const M &a, const M &b, bool in) { M r; for (auto &p : a) if ((b.count(p.first) != 0) == in) r.insert(p); return r; }
static bool sub(const M &a, const M &b) { for (auto &p : a) if (!b.count(p.first)) return false; return true; }
static void cmp(const SetT &a, const SetT &b, const M &x, const M &y, const char *w) {
  bool s = sub(x, y), p = sub(y, x);
  REQ((a == b) == (s && p), std::string(w) + ": =="); REQ((a != b) == !(s && p), std::string(w) + ": !="); REQ((a <= b) == s, std::string(w) + ": <="); REQ((a >= b) == p, std::string(w) + ": >=");
  REQ((a < b) == (s && !p), std::string(w) + ": <"); REQ((a > b) == (p && !s), std::string(w) + ": >"); }
static void one(int maxops) {
  long live0 = Obj::live;
  { SetT a, b; M ma, mb; int n = 1 + rnd(maxops), tag = 1, KR = 1 + rnd(maxops < 20 ? 7 : 40);
    for (int s = 0; s < n; ++s) {
      bool fa = rnd(3) != 0; SetT &t = fa ? a : b, &o = fa ? b : a; M &m = fa ? ma : mb, &mo = fa ? mb : ma; const char *nm = fa ? "a" : "b", *om = fa ? "b" : "a";
      int k = rnd(KR), l = rnd(KR), j = rnd(KR); int c = rnd(24);
      switch (c) {
      case 0: case 1: case 2: case 3: { op("%s.set(%d)", nm, k); KV x(k, tag); KV &r = rnd(2) ? t.set(x) : t.set(KV(k, tag)); m.insert({k, tag}); REQ(r.k.v == k && r.tag == m[k], "set result"); ++tag; break; }
      case 4: case 5: { op("%s.set(%d, %d, %d)", nm, k, l, j); KV x(l, tag + 1); t.set(KV(k, tag), x, KV(j, tag + 2)); m.insert({k, tag}); m.insert({l, tag + 1}); m.insert({j, tag + 2}); tag += 3; break; }
      case 6: case 7: { op("%s.remove(%d)", nm, k); KV x(k, 0); REQ(t.remove(x) == (m.erase(k) != 0), "remove result"); break; }
      case 8: { op("%s.remove(%d, out)", nm, k); KV x(-1, -1); bool h = m.count(k); REQ(t.remove(k, x) == h, "remove result"); REQ(h ? x.k.v == k && x.tag == m[k] : x.k.v == -1 && x.tag == -1, "removed value"); m.erase(k); break; }
      case 9: { op("%s.get, any, all(%d, %d, %d)", nm, k, l, j); const SetT &q = t; bool h = m.count(k), g = m.count(l), f = m.count(j); REQ(q.get(k) == h, "get"); REQ(q.any(k) == h && q.all(k) == h, "any, all of one"); REQ(q.any(k, l, j) == (h || g || f), "any"); REQ(q.all(k, l, j) == (h && g && f), "all");
          KV x(-1, -1); REQ(t.get(k, x) == h && (h ? x.k.v == k && x.tag == m[k] : x.tag == -1), "get value"); KV y(-1, -1); REQ(q.get(k, y) == h && (h ? y.k.v == k && y.tag == m[k] : y.tag == -1), "const get value");
          auto nx = m.upper_bound(k); auto bi = t.begin(k), ei = t.end(k); REQ((bi.node != nullptr) == h && (!h || bi->k.v == k), "begin(key)"); if (h) REQ((ei.node != nullptr) == (nx != m.end()) && (nx == m.end() || ei->k.v == nx->first), "end(key)");
          REQ(q.begin(k).node == bi.node && (!h || q.end(k).node == ei.node), "const begin, end(key)"); break; }
      case 10: case 11: { op("%s += %s", nm, om); SetT &r = (t += o); REQ(&r == &t, "+= result"); m = uni(m, mo); break; }
      case 12: case 13: { op("%s *= %s", nm, om); SetT &r = (t *= o); REQ(&r == &t, "*= result"); m = inter(m, mo, true); break; }
      case 14: case 15: { op("%s -= %s", nm, om); SetT &r = (t -= o); REQ(&r == &t, "-= result"); m = inter(m, mo, false); break; }
      case 16: { op("%s + %s", nm, om); SetT r = t + o; same(r, uni(m, mo), "union"); break; }
      case 17: { op("%s * %s", nm, om); SetT r = t * o; same(r, inter(m, mo, true), "intersection"); break; }
      case 18: { op("%s - %s", nm, om); SetT r = t - o; same(r, inter(m, mo, false), "difference"); break; }
      case 19: case 20: { op("compare %s, %s", nm, om); cmp(t, o, m, mo, "comparison"); cmp(t, t, m, m, "comparison with itself"); SetT d(t); M md = m; cmp(t, d, m, md, "comparison with a copy"); d.set(KV(k, tag)); md.insert({k, tag}); cmp(t, d, m, md, "comparison with a larger copy"); cmp(d, t, md, m, "comparison of a larger copy"); break; }
      case 21: { int w = rnd(4); op("%s %s= %s", nm, w < 2 ? "-" : w == 2 ? "+" : "*", nm); SetT &u = t; if (w < 2) { t -= u; m.clear(); } else if (w == 2) t += u; else t *= u; break; }
      case 22: op("%s = %s", nm, om); t = o; m = mo; break;
      case 23: { op("copy and move %s", nm); SetT d(t); same(d, m, "copy"); SetT e(static_cast<SetT&&>(d)); same(e, m, "moved"); same(d, M(), "moved-from"); d.set(KV(k, tag)); same(e, m, "moved"); break; }
      default: break; }
      same(a, ma, "a"); same(b, mb, "b");
      REQ(Obj::live - live0 == (long)(ma.size() + mb.size()), "number of live elements");
    } }
  REQ(Obj::live == live0, "elements leaked or destroyed twice");
}
int main(int c, char **v) { init(c, v); long lim = 300000;
  for (int sz = 3; more() && cases < lim; sz = sz < 80 ? sz + 1 : 3) for (int i = 0; i < 100 && more(); ++i) { begin("Set"); one(sz); }
  return done("random operation sequences of up to 80 operations on two sets"); }
