#include "rh.h"
#include "math/math.h"
#include "math/mat4.h"
#include "../private/math/math.cpp"
using namespace rh;
static int small() { return (int)rnd(19) - 9; }
static float nz() { return (rnd(2) ? 1 : -1) * (float)(1 << rnd(4)); }        // divisors that divide exactly
template<typename T> static T val() { return (T)small(); }
template<typename T> static T dv() { return std::is_same<T, float>::value ? (T)nz() : (T)(1 + rnd(5)); }
template<typename V> struct Tr; template<typename T> struct Tr<Vec2<T>> { static const int n = 2; using E = T; }; template<typename T> struct Tr<Vec3<T>> { static const int n = 3; using E = T; }; template<typename T> struct Tr<Vec4<T>> { static const int n = 4; using E = T; };
#define EACH for (int i = 0; i < n; ++i)
template<typename V> static void vec(const char *name) { using T = typename Tr<V>::E; const int n = Tr<V>::n; begin(name); V a, b, r; T s = val<T>(), d = dv<T>(); V w;
  { V z; EACH REQ(z[i] == 0, "default vector is not zero"); V q(s); EACH REQ(q[i] == s, "scalar constructor"); }
  EACH { a[i] = val<T>(); b[i] = rnd(3) ? val<T>() : a[i]; w[i] = dv<T>(); } std::string dsc; EACH dsc += std::to_string(a[i]) + "," + std::to_string(b[i]) + "," + std::to_string(w[i]) + " "; op("a,b,w= %s s=%g d=%g", dsc.c_str(), (double)s, (double)d);
  const V A = a, B = b;
#define BIN(o, x, y, X, Y) r = x o y; EACH REQ(r[i] == (T)((X) o (Y)), "component of " #x " " #o " " #y);
  BIN(+, a, b, a[i], b[i]) BIN(-, a, b, a[i], b[i]) BIN(*, a, b, a[i], b[i]) BIN(/, a, w, a[i], w[i]) BIN(+, a, s, a[i], s) BIN(-, a, s, a[i], s) BIN(*, a, s, a[i], s) BIN(/, a, d, a[i], d)
  BIN(+, s, a, s, a[i]) BIN(-, s, a, s, a[i]) BIN(*, s, a, s, a[i]) BIN(/, s, w, s, w[i])
#define CMPD(o, y, Y) { V c = A; V &t = (c o##= y); REQ(&t == &c, "compound operator returns another object"); EACH REQ(c[i] == (T)(A[i] o (Y)), "component of " #o "= " #y); }
  CMPD(+, b, b[i]) CMPD(-, b, b[i]) CMPD(*, b, b[i]) CMPD(/, w, w[i]) CMPD(+, s, s) CMPD(-, s, s) CMPD(*, s, s) CMPD(/, d, d)
#define SELF(o, U) { V c = U; c o##= c; EACH REQ(c[i] == (T)(U[i] o U[i]), "component of x " #o "= x"); c = U; c o##= c.x; EACH REQ(c[i] == (T)(U[i] o U.x), "component of x " #o "= x.x"); }
  SELF(+, A) SELF(-, A) SELF(*, A) { V U; EACH U[i] = U.x ? d : d; SELF(/, U) }
  r = -a; EACH REQ(r[i] == -a[i], "negation"); T dot = 0, sq = 0; EACH { dot += a[i] * b[i]; sq += a[i] * a[i]; } REQ((a & b) == dot, "dot product"); REQ(a.getSquaredSize() == sq, "squared size");
#define CM(f, o) { int m = 0; EACH m |= (a[i] o b[i]) << i; REQ(a.cmp##f(b) == m, "cmp" #f); REQ((a o b) == (m == (1 << n) - 1), "operator " #o); }
  CM(eq, ==) CM(ne, !=) CM(lt, <) CM(gt, >) CM(le, <=) CM(ge, >=)
  EACH { REQ(a[i] == A[i] && b[i] == B[i], "operand changed"); } }
template<typename T> static void conv() { begin("conversions"); Vec2<T> a(val<T>(), val<T>()); Vec3<T> b(val<T>(), val<T>(), val<T>()), c(val<T>(), val<T>(), val<T>()); T s = val<T>();
  Vec3<T> r(a, s); REQ(r.x == a.x && r.y == a.y && r.z == s, "Vec3(Vec2, z)"); Vec4<T> q(b), p(b, s); REQ(q.x == b.x && q.y == b.y && q.z == b.z && q.w == 0, "Vec4(Vec3)"); REQ(p.x == b.x && p.y == b.y && p.z == b.z && p.w == s, "Vec4(Vec3, w)");
  Vec3<T> t = static_cast<Vec3<T>>(p); REQ(t.x == b.x && t.y == b.y && t.z == b.z, "Vec3(Vec4)"); r = b ^ c; REQ(r.x == b.y * c.z - b.z * c.y && r.y == b.z * c.x - b.x * c.z && r.z == b.x * c.y - b.y * c.x, "cross product");
  Vec2<T> v2(val<T>(), val<T>()); REQ(v2.x == v2[0] && v2.y == v2[1] && p.w == p[3] && b.z == b[2], "components and indices"); }
static bool near(float a, float b) { return fabsf(a - b) <= 1e-4f * (1 + fabsf(a) + fabsf(b)); }
struct D4 { double v[4]; };
static void qm(const double *p, const double *q, double *r) { r[0] = p[3]*q[0] + p[0]*q[3] + p[1]*q[2] - p[2]*q[1]; r[1] = p[3]*q[1] - p[0]*q[2] + p[1]*q[3] + p[2]*q[0]; r[2] = p[3]*q[2] + p[0]*q[1] - p[1]*q[0] + p[2]*q[3]; r[3] = p[3]*q[3] - p[0]*q[0] - p[1]*q[1] - p[2]*q[2]; }
static Quat unitq(double *d) { for (int i = 0; i < 4; ++i) d[i] = 0; if (rnd(3)) for (int i = 0; i < 4; ++i) d[i] = rnd(2) ? .5 : -.5; else d[rnd(4)] = rnd(2) ? 1 : -1; Quat q; q.x = d[0]; q.y = d[1]; q.z = d[2]; q.w = d[3]; return q; }
static void quat() { begin("Quat"); double a[4], b[4], r[4], c[4]; Quat p = unitq(a), q = unitq(b); { Quat i; REQ(i.x == 0 && i.y == 0 && i.z == 0 && i.w == 1, "default quaternion is not the identity"); }
  op("p=(%g,%g,%g,%g) q=(%g,%g,%g,%g)", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]); Quat m = p * q; qm(a, b, r); REQ(m.x == r[0] && m.y == r[1] && m.z == r[2] && m.w == r[3], "Hamilton product");
  auto rot = [&](const double *u, vec3 v) { double x[4] = {v.x, v.y, v.z, 0}, t[4], cj[4] = {-u[0], -u[1], -u[2], u[3]}, o[4]; qm(u, x, t); qm(t, cj, o); return vec3((float)o[0], (float)o[1], (float)o[2]); };
  auto same = [&](vec3 x, vec3 y, const char *w) { REQ(near(x.x, y.x) && near(x.y, y.y) && near(x.z, y.z), w); }; vec3 v(small(), small(), small()); same(p * v, rot(a, v), "rotation of a vector"); same((p * q) * v, p * (q * v), "product applies q2 then q1"); same((-p) * (p * v), v, "inverse rotation");
  same(p.getRight(), rot(a, vec3(1, 0, 0)), "getRight"); same(p.getLeft(), rot(a, vec3(-1, 0, 0)), "getLeft"); same(p.getUp(), rot(a, vec3(0, 1, 0)), "getUp"); same(p.getDown(), rot(a, vec3(0, -1, 0)), "getDown"); same(p.getForward(), rot(a, vec3(0, 0, 1)), "getForward"); same(p.getBackward(), rot(a, vec3(0, 0, -1)), "getBackward");
  auto ax = p.getAxes(); same(ax[0], rot(a, vec3(1, 0, 0)), "axes: x"); same(ax[1], rot(a, vec3(0, 1, 0)), "axes: y"); same(ax[2], rot(a, vec3(0, 0, 1)), "axes: z");
  float ang = .1f + .01f * rnd(570); vec3 d(small(), small(), small()); if ((d & d) == 0) d = vec3(0, 3, -4); float n = sqrtf(d & d); REQ(near(d.getSize(), n), "size"); vec3 u = d.getNormal(); same(u, vec3(d.x / n, d.y / n, d.z / n), "getNormal"); { vec3 w = d; REQ(&w.normalize() == &w, "normalize"); same(w, u, "normalize"); vec4 f(small(), small(), 1, small()); float k = sqrtf(f & f); REQ(near(f.getSize(), k), "size"); vec4 g = f.getNormal(); f.normalize(); for (int i = 0; i < 4; ++i) REQ(near(f[i], g[i]) && near(g.getSize(), 1), "normalize"); vec2 h(3, small()); float hs = h.getSize(); REQ(near(hs * hs, h & h), "size"); }
  Quat z(ang, u); REQ(near(z.x, u.x * sinf(ang / 2)) && near(z.y, u.y * sinf(ang / 2)) && near(z.z, u.z * sinf(ang / 2)) && near(z.w, cosf(ang / 2)), "angle and axis"); float back; vec3 bx; z.getAngleAndAxis(back, bx); REQ(fabsf(back - ang) < 1e-2f && fabsf(bx.x - u.x) < 1e-2f && fabsf(bx.y - u.y) < 1e-2f && fabsf(bx.z - u.z) < 1e-2f, "angle and axis read back"); REQ(fabsf(z.getAngle() - ang) < 1e-2f, "angle read back");
}
template<typename T> static void mat() { begin("Mat4"); T x[16]; for (auto &e : x) e = val<T>(); Mat4<T> a(x), c(x[0], x[1]), s(x[0]), f(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]);
  for (unsigned i = 0; i < 16; ++i) { REQ(a(i) == x[i] && (*a)[i] == x[i] && a(i / 4, i % 4) == x[i] && a[i / 4][i % 4] == x[i] && f(i) == x[i], "elements"); REQ(c(i) == (i < 2 ? x[i] : 0), "missing values are zero"); REQ(s(i) == x[0], "scalar constructor"); }
  Mat4<T> b = a; unsigned m = 0xffff; int k = rnd(4); while (k--) { unsigned i = rnd(16); b(i) = x[i] + 1; m &= ~(1u << (15 - i)); } REQ(a.cmp(b) == m, "comparison mask"); REQ((a == b) == (m == 0xffff) && (a != b) == (m != 0xffff), "equality");
  Mat4<T> t = a; REQ(&t.transpose() == &t, "transpose returns another object"); for (unsigned i = 0; i < 4; ++i) for (unsigned j = 0; j < 4; ++j) REQ(t(i, j) == x[4 * j + i], "transposition"); }
int main(int c, char **v) { init(c, v);
  while (more() && cases < 60000) { ::vec<Vec2<float>>("Vec2<float>"); ::vec<Vec3<float>>("Vec3<float>"); ::vec<Vec4<float>>("Vec4<float>"); ::vec<Vec2<int>>("Vec2<int>"); ::vec<Vec3<int>>("Vec3<int>"); ::vec<Vec4<int>>("Vec4<int>"); conv<float>(); conv<int>(); quat(); mat<float>(); mat<int>(); }
  return done("random small components for which float arithmetic is exact, unit quaternions"); }
