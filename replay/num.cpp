#include "rh.h"
#include "hal/platform_math.h"
using namespace rh; using M = PlatformMath;
typedef unsigned __int128 u128; typedef __int128 i128;
static unsigned long long r64() { unsigned long long v = ((unsigned long long)rnd(1u << 31) << 33) ^ ((unsigned long long)rnd(1u << 31) << 11) ^ rnd(2048); switch (rnd(6)) { case 0: return v >> rnd(64); case 1: return 1ull << rnd(64); case 2: return (1ull << rnd(64)) - 1; case 3: return (1ull << rnd(64)) + 1; case 4: return rnd(20); } return v; }
template<typename T> static bool sgn() { return T(-1) < T(0); }
template<typename T> static void one(const char *tn) {
  T a = (T)r64(), b = (T)r64(), c = (T)r64(), d = (T)r64(); begin(tn); op("a=%lld b=%lld c=%lld d=%lld", (long long)a, (long long)b, (long long)c, (long long)d);
  T mn = a < b ? a : b, mx = a > b ? a : b; REQ(M::min(a, b) == mn, "min"); REQ(M::max(a, b) == mx, "max");
  T mn3 = mn < c ? mn : c, mx3 = mx > c ? mx : c; REQ(M::min(a, b, c) == mn3, "min of three"); REQ(M::max(a, b, c) == mx3, "max of three");
  REQ(M::min(a, b, c, d) == (mn3 < d ? mn3 : d), "min of four"); REQ(M::max(a, b, c, d) == (mx3 > d ? mx3 : d), "max of four");
  T n = a; if (n < 0) n = ~n; const int bits = sizeof(T) * 8 - sgn<T>();
  T lg = M::log2(n); if (n == 0) REQ(lg == 0, "log2(0)"); else REQ(((u128)1 << lg) <= (u128)n && (u128)n < ((u128)1 << (lg + 1)), "log2");
  unsigned e = rnd(bits); unsigned long long al = 1ull << e; op("n=%llu align=%llu", (unsigned long long)n, al);
  T dn = M::align2Down(n, al); REQ((u128)dn == (u128)n / al * al, "align2Down");
  if ((u128)n + al < ((u128)1 << bits)) { T up = M::align2Up(n, al); REQ((u128)up == ((u128)n / al + 1) * al, "align2Up"); }
  if (sgn<T>()) { if (b != (T)((u128)1 << bits)) { T v = M::abs(b); REQ((i128)v == ((i128)b < 0 ? -(i128)b : (i128)b), "abs"); } }
}
template<typename T, typename U> static void pw(const char *tn, unsigned lim) { T x = (T)rnd(7); U y = (U)rnd(lim); if (sgn<T>() && rnd(2)) x = -x; T z = 1; i128 big = 1; bool ok = true; for (unsigned i = 0; i < (unsigned)y; ++i) { big *= (i128)x; if (big > ((i128)1 << (sizeof(T) * 8 - 2)) || big < -((i128)1 << (sizeof(T) * 8 - 2))) { ok = false; break; } } if (!ok) return; z = (T)big; begin(tn); op("x=%lld y=%lld", (long long)x, (long long)y); REQ(M::pow(x, y) == z, "pow"); }
template<typename T, typename U> static void pwu(const char *tn) { T x = (T)r64(); U y = (U)r64(); if (sizeof(U) > 2 && rnd(3)) y &= 0xfffff; begin(tn); op("x=%llu y=%llu", (unsigned long long)x, (unsigned long long)y); if (y < 0) return; T z = 1, b = x; for (unsigned long long e = y; e; e >>= 1) { if (e & 1) z *= b; b *= b; } REQ(M::pow(x, y) == z, "pow modulo the word size"); }
int main(int c, char **v) { init(c, v);
  while (more() && cases < 3000000) { one<int8>("int8"); one<uint8>("uint8"); one<int16>("int16"); one<uint16>("uint16"); one<int32>("int32"); one<uint32>("uint32"); one<int64>("int64"); one<uint64>("uint64");
    pw<int32, uint32>("pow<int32,uint32>", 32); pw<uint32, uint32>("pow<uint32,uint32>", 34); pw<int64, uint32>("pow<int64,uint32>", 66); pw<uint64, uint64>("pow<uint64,uint64>", 66); pw<uint64, int32>("pow<uint64,int32>", 66); pw<int32, int32>("pow<int32,int32>", 34); pw<uint32, uint8>("pow<uint32,uint8>", 34);
    pwu<uint32, uint32>("pow<uint32,uint32>"); pwu<uint64, uint64>("pow<uint64,uint64>"); pwu<uint64, uint32>("pow<uint64,uint32>"); pwu<uint32, uint8>("pow<uint32,uint8>"); pwu<uint64, uint16>("pow<uint64,uint16>"); pwu<uint64, int32>("pow<uint64,int32>"); }
  return done("random and boundary integers of every width"); }
