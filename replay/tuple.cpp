#include "rh.h"
#include <new>
#include "templates/utility.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "templates/array.h"
using namespace rh;
struct Cmp { int32 operator()(const Obj &a, const Obj &b) const { a.chk(); b.chk(); return a.v < b.v ? -3 : a.v > b.v ? 5 : 0; } };
struct Str { std::string s; bool operator==(const Str &o) const { return s == o.s; } };
using T5 = Tuple<Obj, int, Obj, long long, Str>; struct V5 { int a; int b; int c; long long d; Str e; };
static V5 rv() { return V5{(int)rnd(50), (int)rnd(50), (int)rnd(50), (long long)rnd(1000) << 33, Str{std::to_string(rnd(100)) + " is a value long enough to be on the heap"}}; }
static void chk(const T5 &t, const V5 &v, const char *w) { T5 &m = const_cast<T5&>(t); REQ(t.get<0>().v == v.a && t.get<1>() == v.b && t.get<2>().v == v.c && t.get<3>() == v.d && t.get<4>() == v.e, w); REQ(m.get<0>().v == v.a && m.get<1>() == v.b && m.get<2>().v == v.c && m.get<3>() == v.d && m.get<4>() == v.e, w);
  REQ(t.get<Obj>().v == v.a && t.get<int>() == v.b && t.get<long long>() == v.d && t.get<Str>() == v.e && m.get<Obj>().v == v.a && m.get<int>() == v.b && m.get<long long>() == v.d && m.get<Str>() == v.e, "access by type"); REQ(t.getCount() == 5 && t.getLength() == 5 && t.getSize() == 5, "count"); t.get<0>().chk(); t.get<2>().chk(); }
static void tup() { begin("Tuple<Obj,int,Obj,long long,string>"); long l0 = Obj::live; { V5 v = rv(), w = rv(); op("(%d,%d,%d,..) (%d,%d,%d,..)", v.a, v.b, v.c, w.a, w.b, w.c); Obj a(v.a), c(v.c); T5 t(a, v.b, c, v.d, v.e); chk(t, v, "constructed"); REQ(a.v == v.a && c.v == v.c, "arguments changed"); T5 u{Obj(w.a), w.b, Obj(w.c), w.d, w.e}; chk(u, w, "constructed from rvalues");
  REQ(Obj::live == l0 + 6, "number of live components"); const T5 &k = t; T5 p(k), q(t); chk(p, v, "copied"); chk(q, v, "copied"); T5 r(static_cast<T5&&>(p)); chk(r, v, "moved"); p = u; chk(p, w, "assigned"); chk(u, w, "source of an assignment changed"); p = static_cast<T5&&>(r); chk(p, v, "move assigned"); T5 &self = p; p = self; chk(p, v, "self assigned");
  V5 x = rv(); p.get<0>() = Obj(x.a); v.a = x.a; chk(p, v, "write by index"); p.get<1>() = x.b; p.get<2>().v = x.c; v.b = x.b; v.c = x.c; chk(p, v, "write by index"); p.get<long long>() = x.d; p.get<Str>() = x.e; v.d = x.d; v.e = x.e; chk(p, v, "write by type"); Tuple<Obj> o(a), o2(o), o3(Obj(7)); o = o3; REQ(o.get<0>().v == 7 && o2.get<Obj>().v == a.v && o.getCount() == 1, "one component"); Tuple<int, int, int> i3(1, 2, 3), j3(i3); j3.get<1>() = 9; REQ(i3.get<0>() == 1 && i3.get<1>() == 2 && i3.get<2>() == 3 && j3.get<0>() == 1 && j3.get<1>() == 9 && j3.get<2>() == 3, "equal types"); }
  REQ(Obj::live == l0, "components leaked or destroyed twice"); }
static void pr() { begin("Pair<Obj,Obj>"); long l0 = Obj::live; { using P = Pair<Obj, Obj, Cmp>; int a = rnd(4), b = rnd(9), c = rnd(4), d = rnd(9); op("(%d,%d) (%d,%d)", a, b, c, d); Obj x(a), y(b); P p(x, y), q{Obj(c), Obj(d)}; REQ(x.v == a && y.v == b, "arguments changed"); REQ(p.getKey().v == a && p.getVal().v == b && q.first.v == c && q.second.v == d, "components");
  int s = a < c ? -1 : a > c; REQ((p == q) == (s == 0) && (p != q) == (s != 0) && (p < q) == (s < 0) && (p > q) == (s > 0) && (p <= q) == (s <= 0) && (p >= q) == (s >= 0), "comparison by key"); P::FindPair f; auto sg = [](int v) { return v < 0 ? -1 : v > 0; }; Obj k(c); REQ(sg(f(p, q)) == s && sg(f(p, k)) == s && sg(f(k, p)) == -s, "FindPair"); P r(p), t(static_cast<P&&>(r)); REQ(t.first.v == a && t.second.v == b, "copied and moved"); t = q; t.getVal() = Obj(77); REQ(t.first.v == c && t.second.v == 77 && q.second.v == d, "assigned"); const P &ct = t; REQ(ct.getVal().v == 77, "const value"); }
  REQ(Obj::live == l0, "components leaked or destroyed twice"); }
template<typename T> static int val(const T &x) { return x; } template<> int val(const Obj &x) { x.chk(); return x.v; }
template<typename T> static void arr(const char *n) { begin(n); long l0 = Obj::live; { T b[4] = {T((int)rnd(50)), T((int)rnd(50)), T((int)rnd(50)), T((int)rnd(50))}; using A = StaticArray<T, 4>; op("%d %d %d %d", val(b[0]), val(b[1]), val(b[2]), val(b[3])); const T *cb = b; A e, f(cb), g(b[3], b[2], b[1], b[0]), h(b[0], b[1]); const T (&lst)[4] = b; A m = makeStaticArray(lst);
  for (int i = 0; i < 4; ++i) { REQ(val(e[i]) == 0, "default"); REQ(val(f[i]) == val(b[i]), "from a buffer"); REQ(val(g[i]) == val(b[3 - i]), "from items"); REQ(val(h[i]) == (i < 2 ? val(b[i]) : 0), "missing items are default"); REQ(val(m[i]) == val(b[i]), "makeStaticArray"); const A &cf = f; REQ(&cf[i] == *cf + i && &f[i] == *f + i, "address of items"); }
  REQ(e.getCount() == 4 && f.getCount() == 4 && g.getCount() == 4 && h.getCount() == 4 && m.getCount() == 4, "count"); A c(f), k((const A &)f), l; l = g; A mv(static_cast<A&&>(c)); l[1] = T(99); for (int i = 0; i < 4; ++i) { REQ(val(k[i]) == val(b[i]) && val(mv[i]) == val(b[i]), "copied and moved"); REQ(val(l[i]) == (i == 1 ? 99 : val(b[3 - i])) && val(g[i]) == val(b[3 - i]), "assigned"); } REQ(l.getCount() == 4 && k.getCount() == 4 && mv.getCount() == 4, "count of a copy"); }
  REQ(Obj::live == l0, "items leaked or destroyed twice"); }
int main(int c, char **v) { init(c, v); while (more() && cases < 150000) { tup(); pr(); arr<Obj>("StaticArray<Obj, 4>"); arr<int>("StaticArray<int, 4>"); } return done("random component values"); }
