#include "hal/platform_math.h"
// Verification unit: integer platform math, all machine inputs (bit-vector semantics)
using M = PlatformMath;
#define EACH(X) X(int8) X(uint8) X(int16) X(uint16) X(int32) X(uint32) X(int64) X(uint64)
extern "C" {
#define A(T) T abs_##T(T v) { return M::abs(v); }
A(int32) A(int64) A(int16) A(int8) A(uint32) A(uint64)
#define MM(T) T min_##T(T a, T b) { return M::min(a, b); } T max_##T(T a, T b) { return M::max(a, b); } \
  T min3_##T(T a, T b, T c) { return M::min(a, b, c); } T max3_##T(T a, T b, T c) { return M::max(a, b, c); } \
  T min4_##T(T a, T b, T c, T d) { return M::min(a, b, c, d); } T max4_##T(T a, T b, T c, T d) { return M::max(a, b, c, d); }
EACH(MM)
#define LG(T) T log2_##T(T n) { return M::log2(n); }
EACH(LG)
#define AL(T) T alignDown_##T(T n, sizet a) { return M::align2Down(n, a); } T alignUp_##T(T n, sizet a) { return M::align2Up(n, a); }
EACH(AL)
#define PW(T, U) T pow_##T##_##U(T x, U y) { return M::pow(x, y); }
PW(int32, uint32) PW(uint32, uint32) PW(int64, uint32) PW(uint64, uint64) PW(uint64, int32) PW(int32, int32) PW(uint32, uint8) PW(uint64, uint16)
float32 abs_float32(float32 v) { return M::abs(v); }
float32 min_float32(float32 a, float32 b) { return M::min(a, b); }
float32 max_float32(float32 a, float32 b) { return M::max(a, b); }
float32 sqrt_float32(float32 a) { return M::sqrt(a); }
#define TRIG(f) float32 trig_##f(float32 a) { return M::f(a); }
TRIG(sin) TRIG(cos) TRIG(tan) TRIG(asin) TRIG(acos) TRIG(atan)
float32 powf_float32(float32 a, float32 b) { return M::pow(a, b); }
}
