// SOURCES: src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp
#include "rh.h"
#include <new>
#include "hal/memory_base.h"
#include "containers/string.h"
#include "tm.h"
using namespace rh; typedef std::string M;
static int sign(long x) { return x < 0 ? -1 : x > 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static M txt(int max) { static const char A[] = "aabbABz{@[`Z\xe9"; M r; int n = rnd(max + 1); int w = rnd(3) ? 2 : 13; for (int i = 0; i < n; ++i) r += A[rnd(w)]; return r; }
static int mcmp(const M &a, const M &b) { for (size_t i = 0;; ++i) { char x = a.c_str()[i], y = b.c_str()[i]; if (x != y) return x - y; if (!x) return 0; } }
static int micmp(const M &a, const M &b) { for (size_t i = 0;; ++i) { char x = a.c_str()[i], y = b.c_str()[i]; if (low(x) != low(y)) return x - y; if (!x) return 0; } }
static int mcmpn(const char *a, const char *b, size_t n, bool ci) { for (size_t i = 0; i < n; ++i) if (ci ? low(a[i]) != low(b[i]) : a[i] != b[i]) return a[i] - b[i]; return 0; }
template<class... A> static M fm(const char *f, A... a) { int n = snprintf(0, 0, f, a...); M r(n + 1, 0); snprintf(&r[0], n + 1, f, a...); r.resize(n); return r; }
static void chk(const String &s, const M &m, const char *w) { if (s.array.count != m.size() + 1 || s.getLength() != m.size() || s.getSize() != m.size()) { op("got length %lu, expected %lu", (unsigned long)s.getLength(), (unsigned long)m.size()); fail(std::string(w) + ": length"); } REQ(s.array.capacity >= s.array.count, w); REQ((*s)[m.size()] == 0, w); if (memcmp(*s, m.data(), m.size())) { op("got '%.60s', expected '%.60s'", *s, m.c_str()); fail(std::string(w) + ": characters"); } for (size_t i = 0; i < m.size(); ++i) REQ(s[i] == m[i], w); }
static M mrep(const M &s, const M &p, const M &r) { if (p.empty()) return s; M o; size_t i = 0; for (;;) { size_t j = s.find(p, i); if (j == M::npos) return o + s.substr(i); o += s.substr(i, j - i) + r; i = j + p.size(); } }
template<class A> static void chkall(const A &a, const M &s, const M &p) { std::vector<size_t> e; for (size_t i = 0; (i = s.find(p, i)) != M::npos; ++i) e.push_back(i); REQ(a.getCount() == e.size(), "findAll count"); for (size_t i = 0; i < e.size(); ++i) REQ(a[i] == e[i], "findAll position"); }
int main(int c, char **v) { init(c, v); static TM g; gMalloc = &g;
  while (more() && cases < 400000) { begin("strings");
    { const int K = 3; M m[K]; alignas(String) char raw[K][sizeof(String)]; String *a[K];
    for (int k = 0; k < K; ++k) { memset(raw[k], 0xab, sizeof raw[k]); m[k] = txt(rnd(6) ? 6 : 40); int w = rnd(6); op("s%d ctor kind %d '%s'", k, w, m[k].c_str());
      if (w < 2) a[k] = new (raw[k]) String(m[k].c_str()); else if (w == 2) { M b = m[k] + "xx"; a[k] = new (raw[k]) String(b.c_str(), (sizet)m[k].size()); } else if (w == 3) { m[k] = ""; a[k] = new (raw[k]) String(); } else if (w == 4) { int n = rnd(2) ? rnd(8) : rnd(1500); m[k] = M(n, 'q'); a[k] = new (raw[k]) String((sizet)n, 'q'); } else { m[k] = ""; a[k] = new (raw[k]) String((sizet)rnd(40)); } chk(*a[k], m[k], "constructor"); }
    int steps = 1 + rnd(8);
    for (int q = 0; q < steps; ++q) { int i = rnd(K), j = rnd(K); String &x = *a[i]; const String &y = *a[j]; M &u = m[i]; const M &w = m[j]; M t = txt(rnd(5) ? 3 : 12); const char *ct = t.c_str(); int n = (int)u.size(), p = rnd(n + 1), l = rnd(n - p + 1); long big = rnd(2) ? (long)S : (long)rnd(100) - 50; char ch = "abAz\xe9"[rnd(5)]; double dv = rnd(4) == 0 ? 1e300 * rnd(9) : (double)(int)rnd(100000) / 7 - 3;
      switch (rnd(38)) {
      case 0: op("s%d += '%c'", i, ch); REQ(&(x += ch) == &x, "+="); u += ch; break;
      case 1: op("s%d += \"%s\"", i, ct); REQ(&(x += ct) == &x, "+="); u += t; break;
      case 2: case 3: op("s%d += s%d", i, j); REQ(&(x += y) == &x, "+="); u += M(w); break;
      case 4: { op("s%d += its own characters from %d", i, p); M z = M(u.c_str() + p); x += (const char*)(*x + p); u += z; break; }
      case 5: op("s%d += int32 %ld", i, (long)(int32)big); x += (int32)big; u += fm("%d", (int32)big); break;
      case 6: op("s%d += int64 %ld", i, big); x += (int64)big; u += fm("%lld", (long long)big); break;
      case 7: op("s%d += uint32 %lu", i, (unsigned long)(uint32)big); x += (uint32)big; u += fm("%u", (uint32)big); break;
      case 8: op("s%d += uint64 %lu", i, (unsigned long)big); x += (uint64)big; u += fm("%llu", (unsigned long long)big); break;
      case 9: op("s%d += float64 %g", i, dv); x += (float64)dv; u += fm("%f", dv); break;
      case 10: op("s%d += float32 %g", i, dv); x += (float32)dv; u += fm("%f", (double)(float)dv); break;
      case 11: op("s%d <<= int32 %ld", i, (long)(int32)big); REQ(&(x <<= (int32)big) == &x, "<<="); u = fm("%d", (int32)big); break;
      case 12: op("s%d <<= int64 %ld", i, big); x <<= (int64)big; u = fm("%lld", (long long)big); break;
      case 13: op("s%d <<= uint32 %lu", i, (unsigned long)(uint32)big); x <<= (uint32)big; u = fm("%u", (uint32)big); break;
      case 14: op("s%d <<= uint64 %lu", i, (unsigned long)big); x <<= (uint64)big; u = fm("%llu", (unsigned long long)big); break;
      case 15: op("s%d <<= float64 %g", i, dv); x <<= (float64)dv; u = fm("%f", dv); break;
      case 16: op("s%d <<= float32 %g", i, dv); x <<= (float32)dv; u = fm("%f", (double)(float)dv); break;
      case 17: case 18: op("s%d = s%d", i, j); REQ(&(x = y) == &x, "="); u = M(w); break;
      case 19: op("s%d = \"%s\"", i, ct); x = ct; u = t; break;
      case 20: { op("s%d + s%d", i, j); String r = x + y; chk(r, u + w, "+"); break; }
      case 21: { op("s%d + \"%s\"", i, ct); String r = x + ct; chk(r, u + t, "+"); break; }
      case 22: { op("s%d + '%c', + int", i, ch); String r = x + ch; chk(r, u + ch, "+"); String r2 = x + (int32)big; chk(r2, u + fm("%d", (int32)big), "+"); break; }
      case 23: { op("copy of s%d", i); String r(x); chk(r, u, "copy"); String r2(static_cast<String&&>(r)); chk(r2, u, "move"); break; }
      case 24: { op("s%d.substr(%d, %d)", i, l, p); String r = x.substr(l, p); chk(r, u.substr(p, l), "substr"); break; }
      case 25: op("s%d.splice(%d, %d, \"%s\")", i, p, l, ct); REQ(&x.splice(p, l, ct) == &x, "splice"); u.replace(p, l, t); break;
      case 26: if (i != j) { op("s%d.splice(%d, %d, s%d)", i, p, l, j); REQ(&x.splice(p, l, y) == &x, "splice"); u.replace(p, l, w); } break;
      case 27: { M r = txt(3); String sp(ct), sr(r.c_str()); op("s%d.replaceAll(\"%s\", \"%s\")", i, ct, r.c_str()); REQ(&x.replaceAll(sp, sr) == &x, "replaceAll"); u = mrep(u, t, r); chk(sp, t, "pattern"); chk(sr, r, "replacement"); break; }
      case 28: { String sp(ct); int st = rnd(n + 3); op("s%d.findIndex(\"%s\", %d)", i, ct, st); size_t e = u.find(t, st); long z = e == M::npos ? -1 : (long)e; REQ(x.findIndex(ct, st) == z, "findIndex"); REQ(x.findIndex(sp, st) == z, "findIndex(String)"); if (t.size() > 1) { size_t k = 1 + rnd(t.size() - 1); op("length %d", (int)k); size_t e2 = u.find(t.substr(0, k), st); REQ(x.findIndex(ct, st, k) == (e2 == M::npos ? -1 : (long)e2), "findIndex with length"); } break; }
      case 29: { int st = rnd(n + 3); op("s%d.findIndex('%c', %d)", i, ch, st); size_t e = u.find(ch, st); REQ(x.findIndex(ch, st) == (e == M::npos ? -1 : (long)e), "findIndex(char)"); break; }
      case 30: { String sp(ct); op("s%d.findAll(\"%s\")", i, ct); chkall(x.findAll(ct), u, t); chkall(x.findAll(sp), u, t); op("findAll('%c')", ch); chkall(x.findAll(ch), u, M(1, ch)); break; }
      case 31: { op("s%d toLower, toUpper", i); M e = u, f = u; for (auto &z : e) z = low(z); for (auto &z : f) z = up(z); String r = x.toLower(), r2 = x.toUpper(); chk(r, e, "toLower"); chk(r2, f, "toUpper"); break; }
      case 32: case 33: { M b = rnd(2) ? w : u; if (rnd(2)) for (auto &z : b) if (rnd(3) == 0) z = rnd(2) ? up(z) : low(z); String sb(b.c_str()); const char *cb = b.c_str(); int e = mcmp(u, b); op("compare s%d with \"%.50s\"", i, cb); REQ(x.cmp(sb) == e && x.cmp(cb) == e, "cmp"); REQ(x.icmp(sb) == micmp(u, b) && x.icmp(cb) == micmp(u, b), "icmp"); REQ((x == sb) == (e == 0) && (x == cb) == (e == 0) && (x != sb) == (e != 0) && (x != cb) == (e != 0), "== !="); REQ((x < sb) == (e < 0) && (x > sb) == (e > 0) && (x <= sb) == (e <= 0) && (x >= sb) == (e >= 0), "order"); REQ((x < cb) == (e < 0) && (x > cb) == (e > 0) && (x <= cb) == (e <= 0) && (x >= cb) == (e >= 0), "order"); break; }
      case 34: { size_t k = std::min(u.size(), w.size()), st = rnd(k + 1), ln = rnd(k - st + 1); op("cmpn of s%d, s%d: %d from %d", i, j, (int)ln, (int)st); REQ(PlatformStrings::cmpn(u.data(), w.data(), ln, st) == mcmpn(u.data() + st, w.data() + st, ln, false), "cmpn"); REQ(PlatformStrings::icmpn(u.data(), w.data(), ln, st) == mcmpn(u.data() + st, w.data() + st, ln, true), "icmpn"); REQ(PlatformStrings::cmpn(u.data(), w.data(), ln) == mcmpn(u.data(), w.data(), ln, false), "cmpn"); REQ(PlatformStrings::icmpn(u.data(), w.data(), ln) == mcmpn(u.data(), w.data(), ln, true), "icmpn"); REQ(PlatformStrings::getLength(ct) == t.size(), "getLength"); break; }
      case 35: { M z(rnd(3) ? rnd(5) : 1015 + rnd(20), 'f'); op("format of %d characters", (int)z.size() + 5); String r = String::format("<%s|%d>", z.c_str(), (int)n); chk(r, fm("<%s|%d>", z.c_str(), n), "format"); String r2 = String::format("plain"); chk(r2, "plain", "format"); break; }
      case 36: op("s%d = s%d (itself)", i, i); REQ(&(x = *(const String*)&x) == &x, "="); break;
      case 37: if (n) { op("s%d[%d] = 'k'", i, p % n); x[p % n] = 'k'; u[p % n] = 'k'; } break; }
      for (int k = 0; k < K; ++k) chk(*a[k], m[k], "after the operation"); if (oplog.size() > 6000) break; }
    for (int k = 0; k < K; ++k) a[k]->~String(); }
    REQ(g.live.empty(), "a buffer is leaked"); }
  return done("random sequences of at most 8 operations on three strings"); }
