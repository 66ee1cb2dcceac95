// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp
#include "rh.h"
#include <new>
#include "containers/array.h"
#include "tm.h"
using namespace rh;
template<class T> static int val(const T &t); template<> int val(const int &t) { return t; } template<> int val(const Obj &t) { t.chk(); return t.v; }
struct Str { std::string s; Str() : s("0 is the default value, on the heap") {} Str(int v) : s(std::to_string(v) + " is a value long enough to be on the heap") {} }; template<> int val(const Str &t) { return atoi(t.s.c_str()); }
template<> int val(const char &t) { return t; }
static const int ANY = -999999;
template<class T> static void run(const char *nm) { begin(nm); long l0 = Obj::live; TM tm[2]; const bool triv = std::is_trivially_constructible<T>::value; const int DEF = triv ? ANY : 0;
  { typedef Array<T> A; const int K = 3; alignas(A) char raw[K][sizeof(A)]; A *a[K]; std::vector<int> m[K]; int am[K];
  auto mk = [&](int k) { memset(raw[k], 0xab, sizeof(A)); };
  for (int k = 0; k < K; ++k) { mk(k); am[k] = k % 2; a[k] = new (raw[k]) A(&tm[am[k]]); }
  auto V = [&](int c) { return c % 100 + 1; };
  int steps = 2 + rnd(12), ctr = 1;
  for (int q = 0; q < steps; ++q) { int i = rnd(K), j = rnd(K); A &x = *a[i]; auto &w = m[i]; int n = (int)w.size(); int p = n ? rnd(n) : 0, far = n + rnd(4); int v = V(ctr++), v2 = V(ctr++), v3 = V(ctr++);
    switch (rnd(34)) {
    case 0: case 1: case 2: { T t(v); op("a%d.insertLast(%d)", i, v); T &r = x.insertLast(t); REQ(val<T>(r) == v && val<T>(t) == v, "insertLast"); w.push_back(v); break; }
    case 3: { T t(v); op("a%d.insertLast(rvalue %d)", i, v); T &r = x.insertLast(static_cast<T&&>(t)); REQ(val<T>(r) == v, "insertLast"); w.push_back(v); break; }
    case 4: { T t(v), u(v2); op("a%d.insertLast(%d,%d)", i, v, v2); x.insertLast(t, u); REQ(val<T>(t) == v && val<T>(u) == v2, "arguments changed"); w.push_back(v); w.push_back(v2); break; }
    case 5: { T t(v); op("a%d.add(%d)", i, v); x.add(t); w.push_back(v); break; }
    case 6: { T t(v); op("a%d.insertFirst(%d)", i, v); T &r = x.insertFirst(t); REQ(val<T>(r) == v, "insertFirst"); w.insert(w.begin(), v); break; }
    case 7: { T t(v), u(v2); op("a%d.insertFirst(%d,%d)", i, v, v2); x.insertFirst(t, u); w.insert(w.begin(), v2); w.insert(w.begin(), v); break; }
    case 8: case 9: { T t(v); op("a%d.insertAt(%d, %d)", i, p, v); T &r = x.insertAt(p, t); REQ(val<T>(r) == v, "insertAt"); w.insert(w.begin() + p, v); break; }
    case 10: { T t(v); op("a%d.insertAt(%d, %d)", i, far, v); T &r = x.insertAt(far, t); REQ(val<T>(r) == v, "insertAt"); w.resize(far, DEF); w.push_back(v); break; }
    case 11: { T t(v), u(v2); op("a%d.insertAt(%d, %d, %d)", i, p, v, v2); x.insertAt(p, t, u); w.insert(w.begin() + p, v2); w.insert(w.begin() + p, v); break; }
    case 12: { T t(v), u(v2), y(v3); op("a%d.insertAt(%d, %d, %d, %d)", i, p, v, v2, v3); x.insertAt(p, t, u, y); w.insert(w.begin() + p, v3); w.insert(w.begin() + p, v2); w.insert(w.begin() + p, v); break; }
    case 13: { T t(v), u(v2); op("a%d.insertAt(%d, %d, %d)", i, far, v, v2); x.insertAt(far, t, u); w.resize(far, DEF); w.push_back(v); w.push_back(v2); break; }
    case 14: if (n) { op("a%d.removeAt(%d)", i, p); x.removeAt(p); w.erase(w.begin() + p); } break;
    case 15: { int k = rnd(n - p + 1); op("a%d.removeAt(%d, %d)", i, p, k); x.removeAt(p, k); w.erase(w.begin() + p, w.begin() + p + k); break; }
    case 16: if (n) { op("a%d.removeFirst", i); x.removeFirst(); w.erase(w.begin()); } break;
    case 17: if (n) { op("a%d.removeLast", i); x.removeLast(); w.pop_back(); } break;
    case 18: if (n) { T t(v); op("a%d.popAt(%d)", i, p); x.popAt(p, t); if (w[p] != ANY) REQ(val<T>(t) == w[p], "popped value"); w.erase(w.begin() + p); } break;
    case 19: if (n) { T t(v); op("a%d.popFirst", i); x.popFirst(t); if (w[0] != ANY) REQ(val<T>(t) == w[0], "popped value"); w.erase(w.begin()); } break;
    case 20: if (n) { T t(v); op("a%d.popLast", i); x.popLast(t); if (w[n-1] != ANY) REQ(val<T>(t) == w[n-1], "popped value"); w.pop_back(); } break;
    case 21: op("a%d.empty", i); x.empty(); w.clear(); break;
    case 22: op("a%d.reset", i); x.reset(); w.clear(); REQ(x.getCount() == 0, "reset"); break;
    case 23: case 24: case 25: { op("a%d = a%d", i, j); const A &s = *a[j]; A &r = (x = s); REQ(&r == &x, "returns itself"); w = std::vector<int>(m[j]); break; }
    case 26: case 27: if (i != j) { op("a%d = move a%d", i, j); A &r = (x = static_cast<A&&>(*a[j])); REQ(&r == &x, "returns itself"); w = m[j]; m[j].clear(); } break;
    case 28: if (i != j) { op("destroy a%d, copy construct from a%d", i, j); x.~A(); mk(i); a[i] = new (raw[i]) A(*(const A*)a[j]); w = m[j]; } break;
    case 29: if (i != j) { op("destroy a%d, move construct from a%d", i, j); x.~A(); mk(i); a[i] = new (raw[i]) A(static_cast<A&&>(*a[j])); w = m[j]; m[j].clear(); } break;
    case 30: { int c = rnd(6), k = rnd(c + 1); op("destroy a%d, construct with capacity %d count %d", i, c, k); x.~A(); mk(i); a[i] = new (raw[i]) A((uint64)c, (uint64)k); w.assign(k, DEF); break; }
    case 31: { int c = rnd(6), k = rnd(4); op("destroy a%d, construct from a buffer of %d, slack %d", i, c, k); x.~A(); mk(i); { std::vector<T> b; w.clear(); for (int z = 0; z < c; ++z) { w.push_back(V(ctr)); b.push_back(T(V(ctr++))); } std::vector<T> dummy(1, T(0)); a[i] = new (raw[i]) A(c ? (const T*)b.data() : (const T*)dummy.data(), (uint64)c, (uint64)k); } break; }
    case 32: { int k = n + (int)rnd(4) - 1; if (k < 0) k = 0; op("a%d(%d)", i, k); T &r = x(k); if (k >= n) w.resize(k + 1, DEF); REQ(&r == &x[k], "operator() refers to the element"); break; }
    case 33: { int k = n + (int)rnd(4) - 1; if (k < 0) k = 0; op("a%d(%d, %d)", i, k, v); T t(v); T &r = x(k, t); if (k >= n) { w.resize(k, DEF); w.push_back(v); } REQ(&r == &x[k], "operator() refers to the element"); break; } }
    long tot = 0;
    for (int k = 0; k < K; ++k) { A &y = *a[k]; const A &cy = y; auto &u = m[k]; tot += (long)u.size(); REQ(y.getCount() == u.size() && y.getSize() == u.size() && y.getNum() == u.size(), "count"); REQ(y.isEmpty() == u.empty(), "isEmpty"); REQ(y.getBytes() == u.size() * sizeof(T), "bytes"); REQ(y.capacity >= y.count, "capacity");
      for (size_t z = 0; z < u.size(); ++z) if (u[z] != ANY) REQ(val<T>(y[z]) == u[z] && val<T>(cy[z]) == u[z] && val<T>((*y)[z]) == u[z] && val<T>((*cy)[z]) == u[z], "element");
      size_t z = 0; for (auto &e : y) { REQ(z < u.size(), "iteration"); if (u[z] != ANY) REQ(val<T>(e) == u[z], "iteration"); ++z; } REQ(z == u.size(), "iteration length");
      z = 0; for (auto &e : cy) { if (u[z] != ANY) REQ(val<T>(e) == u[z], "iteration"); ++z; } REQ(z == u.size(), "const iteration length");
      if (u.size() > 1 && std::is_same<T, int>::value && k == 0) { auto it = y.begin(), en = y.end(); REQ(it < en && !(it > en) && it <= en && en >= it && it != en && !(it == en), "iterator order"); auto o = it++; REQ(&*o == &y[0] && &*it == &y[1], "it++"); auto o2 = it--; REQ(&*o2 == &y[1] && &*it == &y[0], "it--"); it += 1; REQ(&*it == &y[1], "it+="); it -= 1; REQ(&*it == &y[0], "it-="); REQ(&*(it + 1) == &y[1] && &*((it + 1) - 1) == &y[0] && &it[1] == &y[1] && &*++it == &y[1] && &*--it == &y[0], "iterator arithmetic"); } }
    if (std::is_same<T, Obj>::value) REQ(Obj::live == l0 + tot, "number of live elements differs from the counts"); }
  for (int k = 0; k < K; ++k) a[k]->~A(); }
  REQ(Obj::live == l0, "elements leaked or destroyed twice"); REQ(tm[0].live.empty() && tm[1].live.empty(), "a buffer is leaked"); }
// Iterator assignment is not possible (reference member): postfix results are new iterators
int main(int c, char **v) { init(c, v); static TM g; gMalloc = &g; while (more() && cases < 300000) { run<Obj>("Array<Obj>"); run<int>("Array<int>"); run<Str>("Array<Str>"); REQ(g.live.empty(), "a buffer is leaked"); } return done("random sequences of at most 13 operations on three arrays"); }
