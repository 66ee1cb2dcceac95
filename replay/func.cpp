// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp
#include "rh.h"
#include <new>
#include "hal/malloc_ansi.h"
#include "templates/function.h"
using namespace rh;
using F = Function<int(int, long long)>; using G = Function<void(int &)>;
static int plain(int a, long long b) { return (int)(7 * a - b); }
static int other(int a, long long b) { return (int)(a + 100 * b); }
struct Fn { Obj o; int k; Fn(int v) : o(v), k(0) {} int operator()(int a, long long b) { o.chk(); return o.v * 1000 + 10 * (k++) + a - (int)b; } };
struct Big { Obj o; int pad[40]; Big(int v) : o(v) { for (int i = 0; i < 40; ++i) pad[i] = v + i; } int operator()(int a, long long b) const { o.chk(); for (int i = 0; i < 40; ++i) if (pad[i] != o.v + i) fail("captured state changed"); return o.v + a * (int)b; } };
struct M { int k = 0, v = 0, n = 0; };     // kind, value, calls
static int want(M &m, int a, long long b) { switch (m.k) { case 1: return plain(a, b); case 2: return other(a, b); case 3: return m.v * 1000 + 10 * (m.n++) + a - (int)b; case 4: return m.v + a * (int)b; case 5: return m.v - a + 3 * (int)b; } return 0; }
static long objs(const M *m, int n) { long r = 0; for (int i = 0; i < n; ++i) r += m[i].k == 3 || m[i].k == 4; return r; }
static void hist() { begin("Function<int(int, long long)>"); long l0 = Obj::live; { const int K = 3; alignas(F) char raw[K][sizeof(F)]; F *f[K]; M m[K]; 
  for (int i = 0; i < K; ++i) { memset(raw[i], 0xab, sizeof(F)); f[i] = new (raw[i]) F; }
  auto renew = [&](int i) { f[i]->~F(); memset(raw[i], 0xcd, sizeof(F)); };
  int steps = 3 + rnd(14); for (int q = 0; q < steps; ++q) { int a = rnd(K), b = rnd(K), x = 1 + rnd(50);
    switch (rnd(16)) {
    case 0: op("f%d: construct from Fn(%d)", a, x); { Fn t(x); renew(a); if (rnd(2)) f[a] = new (raw[a]) F(t); else { const Fn &c = t; f[a] = new (raw[a]) F(c); } REQ(t.o.v == x && t.k == 0, "the functor given changed"); t(1, 1); t.o.v = 4242; } m[a] = M{3, x, 0}; break;
    case 1: op("f%d: construct from Fn(%d)&&", a, x); { Fn t(x); renew(a); f[a] = new (raw[a]) F(static_cast<Fn&&>(t)); } m[a] = M{3, x, 0}; break;
    case 2: op("f%d = Big(%d)", a, x); { Big t(x); F &r = (*f[a] = t); REQ(&r == f[a], "returns itself"); t.pad[3] = 0; } m[a] = M{4, x, 0}; break;
    case 3: op("f%d = plain", a); *f[a] = plain; m[a] = M{1, 0, 0}; break;
    case 4: op("f%d: construct from pointer", a); { int (*p)(int, long long) = other; renew(a); f[a] = new (raw[a]) F(p); p = plain; } m[a] = M{2, 0, 0}; break;
    case 5: op("f%d = lambda %d", a, x); { int y = x; auto l = [y](int a, long long b) { return y - a + 3 * (int)b; }; *f[a] = l; } m[a] = M{5, x, 0}; break;
    case 6: case 7: op("f%d = f%d", a, b); { const F &s = *f[b]; F &r = (*f[a] = s); REQ(&r == f[a], "returns itself"); } m[a] = m[b]; break;
    case 8: case 9: if (a != b) { op("f%d = move f%d", a, b); F &r = (*f[a] = static_cast<F&&>(*f[b])); REQ(&r == f[a], "returns itself"); bool e = (bool)*f[b]; M o = m[a]; m[a] = m[b]; m[b] = e ? o : M(); } break;
    case 10: case 11: if (a != b) { op("f%d: copy construct from f%d", a, b); renew(a); if (rnd(2)) f[a] = new (raw[a]) F(*f[b]); else { const F &s = *f[b]; f[a] = new (raw[a]) F(s); } m[a] = m[b]; } break;
    case 12: case 13: if (a != b) { op("f%d: move construct from f%d", a, b); renew(a); f[a] = new (raw[a]) F(static_cast<F&&>(*f[b])); m[a] = m[b]; m[b] = M(); } break;
    case 14: op("f%d: default construct", a); renew(a); f[a] = new (raw[a]) F; m[a] = M(); break;
    case 15: { op("call f%d", a); if (m[a].k) { int p = rnd(100); long long q = rnd(100); int w = want(m[a], p, q); const F &c = *f[a]; int r = rnd(2) ? (*f[a])(p, q) : c(p, q); REQ(r == w, "a call gives another result"); } break; } }
    for (int i = 0; i < K; ++i) { REQ((bool)*f[i] == (m[i].k != 0), "reports whether it is empty"); if (m[i].k) { int p = rnd(9); int w = want(m[i], p, 5), r = (*f[i])(p, 5); REQ(r == w, "a wrapper calls something else"); } }
    REQ(Obj::live == l0 + objs(m, K), "number of live functors differs from the wrappers bound to one"); }
  for (int i = 0; i < K; ++i) f[i]->~F(); }
  REQ(Obj::live == l0, "functors leaked or destroyed twice"); }
struct Add { int n; void operator()(int &x) const { x += n; } };
struct Acc { int n; void operator()(int &x) { x = ++n; } };
static void refs() { begin("Function<void(int &)>"); int n = rnd(100), x = rnd(1000), y = x; op("add %d to %d", n, x); G g(Add{n}); g(x); REQ(x == y + n, "the argument is passed by reference"); G h(g); G k; k = h; const G &c = k; c(x); REQ(x == y + 2 * n, "a copy passes the argument by reference"); int seen = 0; auto l = [&seen](int &v) { seen = v; v = 0; }; h = l; h(x); REQ(seen == y + 2 * n && x == 0, "captures by reference"); REQ((bool)g && (bool)h && (bool)k, "empty"); G s(Acc{n}), t(s); for (int i = 1; i < 4; ++i) { s(x); REQ(x == n + i, "state of the callable is lost between calls"); } t(x); REQ(x == n + 1, "a copy shares the state of the callable"); }
int main(int c, char **v) { init(c, v); while (more() && cases < 200000) { hist(); refs(); } return done("random histories of at most 16 operations on three wrappers"); }
