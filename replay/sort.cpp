#include "rh.h"
#include "algorithm/sort.h"
#include "templates/functional.h"
using namespace rh;
struct KV { int k, id; Obj o; KV() : k(0), id(0) {} KV(int k, int i) : k(k), id(i), o(i) {} };
template<class F> static void one(int n, int pad, int mode, F cmp) {
  std::vector<KV> v; std::vector<int> a; std::vector<long> x;
  for (int i = 0; i < n + 2 * pad; ++i) { int k; switch (mode) { case 0: k = rnd(1 + rnd(30)); break; case 1: k = i; break; case 2: k = -i; break; case 3: k = 7; break; default: k = (int)rnd(1u << 31) - (int)rnd(1u << 31); } v.emplace_back(k, i); a.push_back(k); x.push_back(i); }
  std::string ks; for (int k : a) ks += std::to_string(k) + " "; op("n=%d pad=%d keys=%s", n, pad, ks.c_str());
  auto c = [&](const KV &p, const KV &q) { p.o.chk(); q.o.chk(); return cmp(p.k, q.k); };
  int what = rnd(4);
  if (what == 0) { op("quicksort"); Sort::quicksort(v.data() + pad, v.data() + pad + n, c); }
  else if (what == 1) { op("argquicksort"); Sort::argquicksort(v.data() + pad, v.data() + pad + n, x.data() + pad, c); for (size_t i = 0; i < v.size(); ++i) REQ(x[i] == v[i].id, "arguments are not permuted like the elements"); }
  else if (what == 2) { op("quicksort of ints"); std::vector<int> b = a; Sort::quicksort(b.data() + pad, b.data() + pad + n, cmp); std::vector<int> e = a; std::stable_sort(e.begin() + pad, e.begin() + pad + n, [&](int p, int q) { return cmp(p, q) < 0; }); for (size_t i = 0; i < b.size(); ++i) REQ(cmp(b[i], e[i]) == 0, "not in order or not a permutation"); std::sort(b.begin(), b.end()); std::sort(e.begin(), e.end()); REQ(b == e, "not a permutation"); return; }
  else { op("partition"); KV pv(n ? v[pad + rnd(n)].k : 3, -1); KV *r = Sort::partition(v.data() + pad, v.data() + pad + n, pv, c); REQ(r >= v.data() + pad && r <= v.data() + pad + n, "partition result outside the range"); for (KV *p = v.data() + pad; p != v.data() + pad + n; ++p) REQ((cmp(p->k, pv.k) < 0) == (p < r), "partition"); }
  std::vector<int> seen(v.size()); for (size_t i = 0; i < v.size(); ++i) { v[i].o.chk(); REQ(v[i].o.v == v[i].id && v[i].k == a[v[i].id], "element broken"); REQ(!seen[v[i].id]++, "element duplicated or lost"); if ((int)i < pad || (int)i >= pad + n) REQ(v[i].id == (int)i, "element outside the range moved"); }
  if (what < 2) for (int i = pad + 1; i < pad + n; ++i) REQ(cmp(v[i - 1].k, v[i].k) <= 0, "not in order"); }
int main(int c, char **v) { init(c, v);
  for (int i = 0; more() && cases < 400000; ++i) { begin("sort"); int n = i < 4000 ? i % 8 : rnd(4) ? rnd(40) : rnd(300), pad = rnd(4), mode = rnd(6);
    switch (rnd(4)) { case 0: one(n, pad, mode, [](int a, int b) { return (a > b) - (a < b); }); break; case 1: one(n, pad, mode, [](int a, int b) { return ((a < b) - (a > b)) * 5; }); break; case 2: one(n, pad, mode, [](int a, int b) { return (a & 7) - (b & 7); }); break; case 3: one(n, pad, mode, ThreeWayCompare{}); break; } }
  return done("random ranges of at most 300 elements, four orders"); }
