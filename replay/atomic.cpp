// NOSAN
#include "rh.h"
#include <thread>
#include <atomic>
#include "hal/platform_atomics.h"
#include "templates/atomic.h"
using namespace rh;
struct E12 { int a, b, c; };
using O = UnixPlatformAtomics::AtomicOrder;
template<typename T> static void seq(const char *n) { begin(n);
  T v0 = (T)rnd(1u << 30), w = (T)rnd(1000); if (sizeof(T) > 4 && rnd(2)) v0 = (T)((unsigned long long)v0 << 31);
  if (sizeof(T) >= 4) { if (v0 > (T)1000000000) v0 = v0 / 2; }
  op("v=%lld w=%lld", (long long)v0, (long long)w); Atomic<T> a(v0);
  REQ(a.load() == v0, "load"); REQ((T)a == v0, "cast"); REQ(a.load(O::Relaxed) == v0, "relaxed load");
  REQ(++a == (T)(v0 + 1), "++x result"); REQ(a.load() == (T)(v0 + 1), "++x"); REQ(a++ == (T)(v0 + 1), "x++ result"); REQ(a.load() == (T)(v0 + 2), "x++");
  REQ(--a == (T)(v0 + 1), "--x result"); REQ(a.load() == (T)(v0 + 1), "--x"); REQ(a-- == (T)(v0 + 1), "x-- result"); REQ(a.load() == v0, "x--");
  REQ((a += w) == (T)(v0 + w), "+= result"); REQ(a.load() == (T)(v0 + w), "+="); REQ((a -= w) == v0, "-= result"); REQ(a.load() == v0, "-=");
  REQ((a = w) == w, "assignment result"); REQ(a.load() == w, "assignment"); a.store(v0); REQ(a.load() == v0, "store"); a.store(w, O::Relaxed); REQ(a.load() == w, "relaxed store");
  REQ(PlatformAtomics::exchange(&a.value, v0) == w, "exchange result"); REQ(a.load() == v0, "exchange"); }
template<typename E> static void ptr(const char *n) { begin(n); static E arr[64]; int i = 8 + rnd(40), k = rnd(8); op("i=%d k=%d", i, k); Atomic<E*> p(arr + i);
  REQ(p.load() == arr + i, "load"); REQ(++p == arr + i + 1, "++p result"); REQ(p.load() == arr + i + 1, "++p"); REQ(p++ == arr + i + 1, "p++ result"); REQ(p.load() == arr + i + 2, "p++");
  REQ(--p == arr + i + 1, "--p result"); REQ(p.load() == arr + i + 1, "--p"); REQ(p-- == arr + i + 1, "p-- result"); REQ(p.load() == arr + i, "p--");
  REQ((p += k) == arr + i + k, "+= result"); REQ(p.load() == arr + i + k, "+="); REQ((p -= k) == arr + i, "-= result"); REQ(p.load() == arr + i, "-="); REQ((p = arr + k) == arr + k, "assign"); REQ(p.load() == arr + k, "assign"); }
template<typename T> static void mt(const char *n) { begin(n); const int N = 4000; Atomic<T> a(T(0)); std::vector<T> r[2]; std::atomic<int> go(0);
  int kind = rnd(6); op("two threads, operation %d, %d times each", kind, N);
  auto f = [&](int id) { r[id].reserve(N); ++go; while (go < 2); for (int i = 0; i < N; ++i) r[id].push_back(kind == 0 ? ++a : kind == 1 ? a++ : kind == 2 ? --a : kind == 3 ? a-- : kind == 4 ? (a += 1) : (a -= 1)); };
  std::thread t0(f, 0), t1(f, 1); t0.join(); t1.join();
  bool up = kind == 0 || kind == 1 || kind == 4; REQ(a.load() == (T)(up ? 2 * N : -2 * N), "an update was lost"); std::vector<T> all(r[0]); all.insert(all.end(), r[1].begin(), r[1].end()); std::sort(all.begin(), all.end()); for (size_t i = 1; i < all.size(); ++i) REQ(all[i] != all[i - 1], "two threads got the same result"); }
static void asg() { begin("assignment from two threads"); Atomic<int64> a(0); std::atomic<int> go(0); std::atomic<bool> bad(false); auto f = [&](int id) { ++go; while (go < 2); for (int i = 0; i < 20000; ++i) { int64 v = id * 1000000 + i; int64 q = (a = v); if (q != v) bad = true; } }; std::thread t0(f, 0), t1(f, 1); t0.join(); t1.join(); REQ(!bad, "assignment returned a value another thread stored"); }
template<typename T> static void xch() { begin("exchange from four threads"); const int TN = 4, N = 4000; volatile T a = 0; std::vector<T> r[TN]; std::atomic<int> go(0); std::vector<std::thread> ts;
  for (int id = 0; id < TN; ++id) ts.emplace_back([&, id] { r[id].reserve(N); ++go; while (go < TN); for (int i = 0; i < N; ++i) r[id].push_back(PlatformAtomics::exchange(&a, (T)(1 + id * N + i))); });
  for (auto &t : ts) t.join(); std::vector<char> seen(TN * N + 1); for (auto &w : r) for (T x : w) { REQ(!seen[x], "an exchanged value was handed out twice"); seen[x] = 1; } REQ(!seen[a], "an exchanged value was handed out twice"); }
static void lowlevel() { begin("low-level add and sub from two threads"); const int N = 4000; volatile int64 a = 0; std::atomic<int> go(0); std::vector<int64> r[2];
  auto f = [&](int id) { ++go; while (go < 2); for (int i = 0; i < N; ++i) r[id].push_back(id ? PlatformAtomics::add(&a, 3) : PlatformAtomics::sub(&a, -3)); }; std::thread t0(f, 0), t1(f, 1); t0.join(); t1.join();
  REQ(a == 6 * N, "an update was lost"); std::set<int64> s; for (auto &w : r) for (int64 x : w) REQ(s.insert(x).second && x % 3 == 0 && x < 6 * N, "two threads got the same old value"); }
/* store buffering: with sequentially consistent stores and loads at least one thread sees the other's store */
static void dekker() { begin("store buffering litmus with sequential order"); static Atomic<int32> x{0}, y{0}; const int N = 20000; std::atomic<int> go(0), ph(0); static int r0[N], r1[N];
  for (int q = 0; q < 1; ++q) { std::atomic<int> c0(0), c1(0); auto f = [&](int id) { for (int i = 0; i < N; ++i) { (id ? c1 : c0).store(i + 1); while ((id ? c0 : c1).load() < i + 1); if (id) { y.store(i + 1); r1[i] = x.load(); } else { x.store(i + 1); r0[i] = y.load(); } } }; std::thread t0(f, 0), t1(f, 1); t0.join(); t1.join();
    for (int i = 0; i < N; ++i) REQ(!(r0[i] < i + 1 && r1[i] < i + 1), "both threads missed the other's sequentially consistent store"); x.store(0); y.store(0); } }
int main(int c, char **v) { init(c, v);
  for (int k = 0; more() && k < 400; ++k) { for (int i = 0; i < 100; ++i) { seq<int8>("int8"); seq<uint8>("uint8"); seq<int16>("int16"); seq<uint16>("uint16"); seq<int32>("int32"); seq<uint32>("uint32"); seq<int64>("int64"); seq<uint64>("uint64"); ptr<int>("int*"); ptr<E12>("E12*"); }
    mt<int32>("threads int32"); mt<int64>("threads int64"); mt<uint32>("threads uint32"); if (k % 8 == 0) asg(); if (k % 4 == 1) xch<int32>(), xch<int64>(), xch<uint16>(); if (k % 4 == 2) lowlevel(); if (k % 8 == 3) dekker(); }
  return done("random values; two threads, up to 20000 operations each"); }
