#include "sxk.h"
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/Transformation.hpp>
using namespace sm::kinematics; using namespace sxk;
typedef Eigen::Vector4d V4d; typedef Eigen::Vector3d V3d;
static V4d mul(const V4d& q, const V4d& p) { // reference product (library convention)
  return V4d(p[0]*q[3] + p[1]*q[2] - p[2]*q[1] + p[3]*q[0], p[2]*q[0] - p[0]*q[2] + p[1]*q[3] + p[3]*q[1],
             p[0]*q[1] - p[1]*q[0] + p[2]*q[3] + p[3]*q[2], p[3]*q[3] - p[1]*q[1] - p[2]*q[2] - p[0]*q[0]);
}
SX_ENTRY h_slerp_ends() {
  V4d q0 = V4("q"), q1 = V4("p"); double t = sx_double("t"); sx_assume(t <= 0 || t >= 1);
  V4d r = qslerp(q0, q1, t);
  if (t <= 0) eq(r, q0, "slerp at or before 0 is the start"); else eq(r, q1, "slerp at or beyond 1 is the end");
  sx_reach("end");
}
// every pair of unit quaternions is (q0, +-q0*(s u, c)) with u a unit vector, s, c >= 0 and s^2+c^2 = 1
static void slerp(bool small) {
  V4d q0 = UQ("q"); V3d u = U3("u"); double s = sx_double("s"), c = sx_double("c"), t = sx_double("t"); bool flip = sx_param(0);
  sx_assume_eq(s * s + c * c, 1); sx_assume(t > 0 && t < 1 && s >= 0 && c >= 1e-3); // the half-turn ambiguity (c = 0) is outside
  double f = std::acos(c);
  if (small) sx_assume(t * f <= 7e-5); else sx_assume(t * f >= 6.2e-5 && s >= 1.25e-4);
  V4d d(s * u[0], s * u[1], s * u[2], c); V4d q1 = mul(q0, d); if (flip) q1 = V4d(-q1);
  V4d r = qslerp(q0, q1, t);
  V4d inv(-q0[0], -q0[1], -q0[2], q0[3]); V4d rel = mul(inv, r);
  double S = std::sin(t * f), C = std::cos(t * f);
  if (!small) {
    V4d e(S * u[0], S * u[1], S * u[2], C);
    eq(rel, e, "relative rotation is the fraction t of the (shorter) full relative rotation");
    sx_assert_eq(r.squaredNorm(), 1.0, "interpolated quaternion is a unit quaternion");
  } else {
    double k = rel[0]*u[0] + rel[1]*u[1] + rel[2]*u[2];
    for (int i = 0; i < 3; i++) sx_assert_eq(rel[i], k * u[i], "relative rotation is about the same axis (small)");
    if (s >= 1.25e-4) { sx_assert_near(k, S, 1e-10, "relative rotation is the fraction t (small)"); sx_assert_near(rel[3], C, 1e-10, "scalar part (small)"); }
  }
  sx_reach("end");
}
SX_ENTRY h_slerp() { slerp(false); }
SX_ENTRY h_slerp_small() { slerp(true); }
SX_ENTRY h_slerp_same() { // identical (or opposite) end points
  V4d q0 = UQ("q"); double t = sx_double("t"); sx_assume(t > 0 && t < 1); bool flip = sx_param(0);
  V4d q1 = flip ? V4d(-q0) : q0; V4d r = qslerp(q0, q1, t);
  eq(r, q0, "interpolating between equal rotations stays there"); sx_reach("end");
}
SX_ENTRY h_lerp() {
  int n = sx_param(0); double t = sx_double("t"); Eigen::VectorXd a(n), b(n);
  for (int i = 0; i < n; i++) { a[i] = D("a", i); b[i] = D("b", i); }
  Eigen::VectorXd r = lerp(a, b, t); sx_assert(r.size() == n, "lerp keeps the length");
  for (int i = 0; i < n; i++) { if (t <= 0) sx_assert_eq(r[i], a[i], "lerp before 0"); else if (t >= 1) sx_assert_eq(r[i], b[i], "lerp beyond 1"); else sx_assert_eq(r[i], a[i] + t * (b[i] - a[i]), "lerp is the convex combination"); }
  sx_reach("end");
}
SX_ENTRY h_lerp_mismatch() {
  unsigned n = sx_choose(4, "n"), m = sx_choose(4, "m"); double t = sx_double("t"); Eigen::VectorXd a(n), b(m); bool thrown = false;
  for (unsigned i = 0; i < n; i++) a[i] = i; for (unsigned i = 0; i < m; i++) b[i] = 1;
  try { lerp(a, b, t); } catch (const std::runtime_error&) { thrown = true; }
  sx_assert(thrown == (n != m), "lerp rejects exactly vectors of different length"); sx_reach("end");
}
SX_ENTRY h_interp() {
  V4d q0 = UQ("q"), q1 = UQ("p"); V3d t0 = V3("t"), t1 = V3("r"); double s0 = sx_double("s0"), s1 = sx_double("s1"), si = sx_double("si");
    Transformation T0(q0, t0), T1(q1, t1);
  { // outside the interval: clamped to the nearer end
    sx_assume(s1 >= s0 + 1e-12); bool lo = sx_param(1);
    if (lo) sx_assume(si <= s0); else sx_assume(si >= s1);
    bool sw = sx_param(2);
    Transformation R = sw ? interpolateTransformations(T1, s1, T0, s0, si) : interpolateTransformations(T0, s0, T1, s1, si);
    eq(R.q(), lo ? q0 : q1, "clamped to the nearer end (rotation)"); eq(R.t(), lo ? t0 : t1, "clamped to the nearer end (translation)");
  }
  sx_reach("end");
}
SX_ENTRY h_interp_t() { // translation part
  V3d t0 = V3("t"), t1 = V3("r"); double s0 = sx_double("s0"), s1 = sx_double("s1"), si = sx_double("si");
  sx_assume(s1 >= s0 + 1e-12 && si > s0 && si < s1); bool sw = sx_param(0); V4d id(0, 0, 0, 1);
  Transformation T0(id, t0), T1(id, t1);
  Transformation R = sw ? interpolateTransformations(T1, s1, T0, s0, si) : interpolateTransformations(T0, s0, T1, s1, si);
  double f = (si - s0) / (s1 - s0);
  eq(R.t(), V3d(t0 + f * (t1 - t0)), "translation is interpolated linearly"); eq(R.q(), id, "equal rotations stay");
  sx_reach("end");
}
SX_ENTRY h_interp_rot() { // rotation part equals the spherical interpolation at the time fraction, both argument orders
  V3d u = U3("u"); double s = sx_double("s"), c = sx_double("c"), s0 = sx_double("s0"), s1 = sx_double("s1"), si = sx_double("si"); sx_assume_eq(s * s + c * c, 1);
  sx_assume(s1 >= s0 + 1e-12 && s >= 1e-2 && c >= 1e-3 && si - s0 >= 0.1 * (s1 - s0) && s1 - si >= 0.1 * (s1 - s0));
  V4d d(s * u[0], s * u[1], s * u[2], c); double f = std::acos(c);
  V3d z(0, 0, 0), e1(1, 2, 3); Transformation T0(V4d(0, 0, 0, 1), z), T1(d, e1); bool sw = sx_param(0);
  Transformation R = sw ? interpolateTransformations(T1, s1, T0, s0, si) : interpolateTransformations(T0, s0, T1, s1, si);
  double x = (si - s0) / (s1 - s0), S = std::sin(x * f), C = std::cos(x * f); V4d e(S * u[0], S * u[1], S * u[2], C);
  eq(R.q(), e, "rotation is interpolated at the time fraction"); eq(R.t(), V3d(x * e1), "translation is interpolated at the same fraction"); sx_reach("end");
}
