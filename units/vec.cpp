#include <stdio.h>
#include <new>
#include "math/vec2.h"
#include "math/vec3.h"
// (clang wants the specialisations of math.cpp declared before their first use; g++ does not)
#define DECL(n) template<> const Vec3<float32> Vec3<float32>::n;
DECL(zero) DECL(unit) DECL(right) DECL(left) DECL(up) DECL(down) DECL(forward) DECL(backward)
#include "math/math.h"
#include "math/mat4.h"
#include "math/simd.h"
#include "math/math.cpp"
// Verification unit: vectors, quaternion and matrix.  r never overlaps an operand; operands of the _self forms are the same object
#define VEC(P, V, T) \
void P##_ctor0(V *r) { new (r) V; } \
void P##_ctors(V *r, T s) { new (r) V(s); } \
T P##_at(const V *a, int32 i) { return (*a)[i]; } \
void P##_put(V *r, int32 i, T s) { (*r)[i] = s; } \
T P##_sq(const V *a) { return a->getSquaredSize(); } \
void P##_neg(V *r, const V *a) { *r = -*a; } \
V *P##_addeq(V *r, const V *b) { return &(*r += *b); } \
V *P##_subeq(V *r, const V *b) { return &(*r -= *b); } \
V *P##_muleq(V *r, const V *b) { return &(*r *= *b); } \
V *P##_diveq(V *r, const V *b) { return &(*r /= *b); } \
V *P##_addeq_self(V *r) { return &(*r += *r); } \
V *P##_subeq_self(V *r) { return &(*r -= *r); } \
V *P##_muleq_self(V *r) { return &(*r *= *r); } \
V *P##_diveq_self(V *r) { return &(*r /= *r); } \
V *P##_addeqs(V *r, T s) { return &(*r += s); } \
V *P##_subeqs(V *r, T s) { return &(*r -= s); } \
V *P##_muleqs(V *r, T s) { return &(*r *= s); } \
V *P##_diveqs(V *r, T s) { return &(*r /= s); } \
V *P##_addeqs_own(V *r) { return &(*r += r->x); } \
V *P##_subeqs_own(V *r) { return &(*r -= r->x); } \
V *P##_muleqs_own(V *r) { return &(*r *= r->x); } \
V *P##_diveqs_own(V *r) { return &(*r /= r->x); } \
void P##_add(V *r, const V *a, const V *b) { *r = *a + *b; } \
void P##_sub(V *r, const V *a, const V *b) { *r = *a - *b; } \
void P##_mul(V *r, const V *a, const V *b) { *r = *a * *b; } \
void P##_div(V *r, const V *a, const V *b) { *r = *a / *b; } \
void P##_addvs(V *r, const V *a, T s) { *r = *a + s; } \
void P##_subvs(V *r, const V *a, T s) { *r = *a - s; } \
void P##_mulvs(V *r, const V *a, T s) { *r = *a * s; } \
void P##_divvs(V *r, const V *a, T s) { *r = *a / s; } \
void P##_addsv(V *r, T s, const V *b) { *r = s + *b; } \
void P##_subsv(V *r, T s, const V *b) { *r = s - *b; } \
void P##_mulsv(V *r, T s, const V *b) { *r = s * *b; } \
void P##_divsv(V *r, T s, const V *b) { *r = s / *b; } \
T P##_dot(const V *a, const V *b) { return *a & *b; } \
int32 P##_cmpeq(const V *a, const V *b) { return a->cmpeq(*b); } \
int32 P##_cmpne(const V *a, const V *b) { return a->cmpne(*b); } \
int32 P##_cmplt(const V *a, const V *b) { return a->cmplt(*b); } \
int32 P##_cmpgt(const V *a, const V *b) { return a->cmpgt(*b); } \
int32 P##_cmple(const V *a, const V *b) { return a->cmple(*b); } \
int32 P##_cmpge(const V *a, const V *b) { return a->cmpge(*b); } \
bool P##_opeq(const V *a, const V *b) { return *a == *b; } \
bool P##_opne(const V *a, const V *b) { return *a != *b; } \
bool P##_oplt(const V *a, const V *b) { return *a < *b; } \
bool P##_opgt(const V *a, const V *b) { return *a > *b; } \
bool P##_ople(const V *a, const V *b) { return *a <= *b; } \
bool P##_opge(const V *a, const V *b) { return *a >= *b; }
#define FLT(P, V) \
float32 P##_size(const V *a) { return a->getSize(); } \
V *P##_normalize(V *r) { return &r->normalize(); } \
void P##_normal(V *r, const V *a) { *r = a->getNormal(); }
#define DIM(S, T) \
void v2##S##_ctor(Vec2<T> *r, T x, T y) { new (r) Vec2<T>(x, y); } \
void v3##S##_ctor(Vec3<T> *r, T x, T y, T z) { new (r) Vec3<T>(x, y, z); } \
void v4##S##_ctor(Vec4<T> *r, T x, T y, T z, T w) { new (r) Vec4<T>(x, y, z, w); } \
void v3##S##_from2(Vec3<T> *r, const Vec2<T> *a, T z) { new (r) Vec3<T>(*a, z); } \
void v4##S##_from3(Vec4<T> *r, const Vec3<T> *a) { new (r) Vec4<T>(*a); } \
void v4##S##_from3w(Vec4<T> *r, const Vec3<T> *a, T w) { new (r) Vec4<T>(*a, w); } \
void v4##S##_to3(Vec3<T> *r, const Vec4<T> *a) { *r = static_cast<Vec3<T>>(*a); } \
void v3##S##_cross(Vec3<T> *r, const Vec3<T> *a, const Vec3<T> *b) { *r = *a ^ *b; } \
void m##S##_ctors(Mat4<T> *r, const T *s) { new (r) Mat4<T>(*s); } \
void m##S##_ctor2(Mat4<T> *r, const T *a) { new (r) Mat4<T>(a[0], a[1]); } \
void m##S##_ctor16(Mat4<T> *r, const T *a) { new (r) Mat4<T>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); } \
void m##S##_ctorp(Mat4<T> *r, const T *a) { new (r) Mat4<T>(a); } \
T m##S##_row(const Mat4<T> *a, uint32 i, uint32 j) { return (*a)[i][j]; } \
T m##S##_at2(const Mat4<T> *a, uint32 i, uint32 j) { return (*a)(i, j); } \
T m##S##_at1(const Mat4<T> *a, uint32 i) { return (*a)(i); } \
T m##S##_data(const Mat4<T> *a, uint32 i) { return (**a)[i]; } \
void m##S##_rowput(Mat4<T> *r, uint32 i, uint32 j, T s) { (*r)[i][j] = s; } \
void m##S##_put2(Mat4<T> *r, uint32 i, uint32 j, T s) { (*r)(i, j) = s; } \
void m##S##_put1(Mat4<T> *r, uint32 i, T s) { (*r)(i) = s; } \
void m##S##_dataput(Mat4<T> *r, uint32 i, T s) { (**r)[i] = s; } \
uint16 m##S##_cmp(const Mat4<T> *a, const Mat4<T> *b) { return a->cmp(*b); } \
bool m##S##_eq(const Mat4<T> *a, const Mat4<T> *b) { return *a == *b; } \
bool m##S##_ne(const Mat4<T> *a, const Mat4<T> *b) { return *a != *b; } \
Mat4<T> *m##S##_transpose(Mat4<T> *r) { return &r->transpose(); }
using VF = Vector4<float32>;
extern "C" {
VEC(v2f, Vec2<float32>, float32) VEC(v3f, Vec3<float32>, float32) VEC(v4f, Vec4<float32>, float32)
VEC(v2i, Vec2<int32>, int32) VEC(v3i, Vec3<int32>, int32) VEC(v4i, Vec4<int32>, int32)
FLT(v2f, Vec2<float32>) FLT(v3f, Vec3<float32>) FLT(v4f, Vec4<float32>)
DIM(f, float32) DIM(i, int32)
void v2f_cross(Vec3<float32> *r, const Vec2<float32> *a, const Vec2<float32> *b) { *r = *a ^ *b; }
void q_ctor(Quat *r) { new (r) Quat; }
void q_angle_axis(Quat *r, float32 t, const Vec3<float32> *a) { new (r) Quat(t, *a); }
void q_rotvec(Quat *r, const Vec3<float32> *a) { new (r) Quat(*a); }
void q_get_aa(float32 *t, Vec3<float32> *r, const Quat *a) { a->getAngleAndAxis(*t, *r); }
float32 q_get_angle(const Quat *a) { return a->getAngle(); }
void q_inv(Quat *r, const Quat *a) { *r = -*a; }
void q_mul(Quat *r, const Quat *a, const Quat *b) { *r = *a * *b; }
void q_mul_self(Quat *r, const Quat *a) { *r = *a * *a; }
void q_rot(Vec3<float32> *r, const Quat *a, const Vec3<float32> *b) { *r = *a * *b; }
void q_axes(Vec3<float32> *r, const Quat *a) { auto t = a->getAxes(); r[0] = t[0]; r[1] = t[1]; r[2] = t[2]; }
void q_right(Vec3<float32> *r, const Quat *a) { *r = a->getRight(); }
void q_left(Vec3<float32> *r, const Quat *a) { *r = a->getLeft(); }
void q_up(Vec3<float32> *r, const Quat *a) { *r = a->getUp(); }
void q_down(Vec3<float32> *r, const Quat *a) { *r = a->getDown(); }
void q_forward(Vec3<float32> *r, const Quat *a) { *r = a->getForward(); }
void q_backward(Vec3<float32> *r, const Quat *a) { *r = a->getBackward(); }
void c_zero(Vec3<float32> *r) { *r = Vec3<float32>::zero; }
void c_unit(Vec3<float32> *r) { *r = Vec3<float32>::unit; }
void s_add(float32 *r, const float32 *a, const float32 *b) { VF::store(r, VF::add(VF::loadu(a), VF::loadu(b))); }
void s_sub(float32 *r, const float32 *a, const float32 *b) { VF::store(r, VF::sub(VF::load(a), VF::loadu(b))); }
void s_mul(float32 *r, const float32 *a, const float32 *b) { VF::store(r, VF::mul(VF::loadu(a), VF::load(b))); }
void s_div(float32 *r, const float32 *a, const float32 *b) { VF::store(r, VF::div(VF::loadu(a), VF::loadu(b))); }
void s_splat(float32 *r, float32 s) { VF::store(r, VF::load(s)); }
}
