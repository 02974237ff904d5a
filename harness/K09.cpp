#include "kin.h"
static Transformation mk(const TS& s) { return Transformation(s.q, s.t); }
SX_ENTRY h_access() {
  TS s = sym("q", "t"); Transformation A = mk(s);
  eq(A.T(), s.T, "T() is the matrix"); eq(A.C(), s.R, "C() is the rotation"); eq(A.t(), s.t, "t() is the translation"); eq(A.q(), s.q, "q() is the quaternion");
  Eigen::Matrix<double,3,4> E = s.T.topRows<3>(); eq(A.T3x4(), E, "T3x4() is the top of the matrix");
  for (int i = 0; i < 4; i++) sx_assert_eq(A.qptr()[i], s.q[i], "qptr"); for (int i = 0; i < 3; i++) sx_assert_eq(A.tptr()[i], s.t[i], "tptr");
  Transformation I; eq(I.T(), M4(M4::Identity()), "default is the identity"); A.setIdentity(); eq(A.T(), M4(M4::Identity()), "setIdentity"); sx_reach("end");
}
SX_ENTRY h_normalise() { // any non-zero quaternion is normalised
  V4d q = V4("q"); V3d t = V3("t"); double n = std::sqrt(q.dot(q)); sx_assume(n >= 1e-3); Transformation A(q, t);
  eq(A.q(), V4d(q / n), "constructor normalises the quaternion"); eq(A.t(), t, "constructor keeps the translation"); sx_reach("end");
}
SX_ENTRY h_matrix() { // construct or set from a matrix: reading the matrix back gives it
  TS s = sym("q", "t"); int m = sx_param(0);
  if (m == 0) { Transformation A(s.T); eq(A.T(), s.T, "matrix constructor"); eq(A.t(), s.t, "matrix constructor translation"); sx_assert(A.q()[3] >= 0, "scalar part is not negative"); }
  else { Transformation A(V4d(0, 0, 0, 1), V3d(1, 2, 3)); A.set(s.T); eq(A.T(), s.T, "set from a matrix"); }
  sx_reach("end");
}
SX_ENTRY h_compose() {
  TS a = sym("q", "t"), b = sym("r", "s"); Transformation A = mk(a), B = mk(b), P = A * B;
  eq(P.T(), M4(a.T * b.T), "composition is the matrix product"); sx_assert_eq(P.q().dot(P.q()), 1, "composition keeps the quaternion unit"); sx_reach("end");
}
SX_ENTRY h_inverse() {
  TS a = sym("q", "t"); Transformation A = mk(a), I = A.inverse();
  eq((I * A).T(), M4(M4::Identity()), "inverse from the left"); eq((A * I).T(), M4(M4::Identity()), "inverse from the right"); eq(M4(I.T() * a.T), M4(M4::Identity()), "matrix of the inverse");
  eq(I.inverse().T(), a.T, "inverse of the inverse"); sx_reach("end");
}
SX_ENTRY h_apply() {
  TS a = sym("q", "t"); Transformation A = mk(a); V3d p = V3("p"); V4d h = V4("h");
  eq(V3d(A * p), V3d(a.R * p + a.t), "Euclidean point"); eq(V4d(A * h), V4d(a.T * h), "homogeneous point");
  eq(A.rotate(p), V3d(a.R * p), "rotate a vector"); V4d e; e << V3d(a.R * h.head<3>()), h[3]; eq(A.rotate(h), e, "rotate a homogeneous vector"); sx_reach("end");
}
SX_ENTRY h_apply_point() {
  TS a = sym("q", "t"); Transformation A = mk(a); V4d h = V4("h"); sx_assume(h[3] >= 0.01 || h[3] <= -0.01);
  HomogeneousPoint P(h); HomogeneousPoint Q = A * P; eq(Q.toHomogeneous(), V4d(a.T * h), "homogeneous point object"); eq(Q.toEuclidean(), V3d(a.R * (h.head<3>() / h[3]) + a.t), "Euclidean coordinates of the transformed point object"); sx_reach("end");
}
SX_ENTRY h_apply_uncertain() { // rotating a vector with covariance
  TS a = sym("q", "t"); Transformation A = mk(a); V3d p = V3("p"); M3 U = cov<3>("u"); UncertainVector3 v(p, U); UncertainVector3 r = A.rotate(v);
  eq(V3d(r.mean()), V3d(a.R * p), "mean of the rotated vector"); eq(M3(r.covariance()), M3(a.R * U * a.R.transpose()), "covariance of the rotated vector"); sx_reach("end");
}
SX_ENTRY h_s() { TS a = sym("q", "t"); M6 S = M6::Identity(); S.topRightCorner<3,3>() = -sk(a.t); eq(mk(a).S(), S, "sensitivity matrix"); sx_reach("end"); }
// exact flow: along any fixed direction d the point moves by the small motion S d, at every step length
static V4d flow(const TS& a, const V6& d, const V4d& p, double t) { Transformation A = mk(a); A.oplus(V6(t * d)); return A * p; }
SX_ENTRY h_oplus() {
  TS a = sym("q", "t"); V3d w = U3("w"), v = V3("v"); V4d p = V4("p"); double t = sx_double("s"); sx_assume(t >= 2e-3 && t <= 6.2); V6 d; d << v, w;
  V4d y = flow(a, d, p, t); Transformation A = mk(a); A.oplus(V6(t * d)); eq(A.t(), V3d(a.t + t * v), "translation update"); sx_assert_eq(A.q().dot(A.q()), 1, "quaternion stays unit");
  V4d m = refB(y) * (A.S() * d); // motion predicted by the sensitivity matrix
  for (int i = 0; i < 4; i++) { double dy; if (sx_is_symbolic()) dy = sx_d(y[i], t); else dy = (flow(a, d, p, t + 1e-6)[i] - flow(a, d, p, t - 1e-6)[i]) / 2e-6; sx_assert_near(dy, m[i], sx_is_symbolic() ? 0 : 1e-5 * (1 + p.norm() + v.norm()), "minimal update is the motion described by its sensitivity matrix"); }
  sx_reach("end");
}
SX_ENTRY h_oplus_zero() { TS a = sym("q", "t"); V3d v = V3("v"); Transformation A = mk(a); V6 d; d << v, 0, 0, 0; A.oplus(d); eq(A.q(), a.q, "zero rotation update keeps the quaternion"); eq(A.t(), V3d(a.t + v), "translation update"); sx_reach("end"); }
SX_ENTRY h_oplus_exp() { // any update: left multiplication by the quaternion of the rotation update
  TS a = sym("q", "t"); V6 d; for (int i = 0; i < 6; i++) d[i] = D("d", i); V4d e = axisAngle2quat(V3d(d.tail<3>())), q = a.q, r; Transformation A = mk(a); A.oplus(d);
  // library product: (x, w) of e q
  V3d x = e[3] * q.head<3>() + q[3] * e.head<3>() - V3d(e.head<3>()).cross(V3d(q.head<3>())); r << x, e[3] * q[3] - e.head<3>().dot(q.head<3>());
  eq(A.q(), r, "update multiplies by the quaternion of the rotation update from the left"); eq(A.t(), V3d(a.t + d.head<3>()), "translation update"); sx_reach("end");
}
SX_ENTRY h_equal() { // binary equality
  TS a; a.q = UQ("q"); a.t = V3("t"); Transformation A(a.q, a.t), B(A); sx_assert(A.isBinaryEqual(B), "copies are equal"); int i = sx_choose(7, "i"); if (i < 4) B.qptr()[i] += 0.25; else B.tptr()[i - 4] += 0.25; sx_assert(!A.isBinaryEqual(B), "a differing coefficient makes them unequal"); sx_reach("end");
}
