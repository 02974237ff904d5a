#include "kin.h"
static V4d W4(const char* n) { V4d p = V4(n); sx_assume(p[3] >= 1e-3 || p[3] <= -1e-3); return p; }
static V3d eu(const V4d& p) { return V3d(p[0] / p[3], p[1] / p[3], p[2] / p[3]); }
SX_ENTRY h_build() {
  V3d a = V3("a"); V4d p = W4("p"); V4d ah(a[0], a[1], a[2], 1), o(0, 0, 0, 1);
  HomogeneousPoint O, A(a), P(p), C(P); eq(O.toHomogeneous(), o, "default point is the origin"); eq(O.toEuclidean(), V3d(V3d::Zero()), "default point");
  eq(A.toHomogeneous(), ah, "from Euclidean"); eq(A.toEuclidean(), a, "Euclidean round trip"); eq(P.toHomogeneous(), p, "from homogeneous"); eq(P.toEuclidean(), eu(p), "Euclidean value"); eq(C.toHomogeneous(), p, "copy");
  O = p; eq(O.toHomogeneous(), p, "assign homogeneous"); O = a; eq(O.toHomogeneous(), ah, "assign Euclidean");
  O.set(p); eq(O.toHomogeneous(), p, "set 4"); O.set(a); eq(O.toHomogeneous(), ah, "set 3"); O = P; eq(O.toHomogeneous(), p, "assign point");
  Eigen::VectorXd d4 = p, d3 = a; O.set(d4); eq(O.toHomogeneous(), p, "set dynamic 4"); O.set(d3); eq(O.toHomogeneous(), ah, "set dynamic 3");
  O.set(p); for (int i = 0; i < 4; i++) sx_assert_eq(O.pptr()[i], p[i], "pptr"); O.setZero(); eq(O.toHomogeneous(), o, "setZero"); sx_reach("end");
}
SX_ENTRY h_set_bad() { int n = sx_param(0); Eigen::VectorXd d(n); for (int i = 0; i < n; i++) d[i] = D("d", i); V4d p = W4("p"); HomogeneousPoint P(p); bool thrown = false; try { P.set(d); } catch (const std::exception&) { thrown = true; } sx_assert(thrown, "set refuses other sizes"); eq(P.toHomogeneous(), p, "and leaves the point alone"); sx_reach("end"); }
SX_ENTRY h_sum() {
  V4d p = W4("p"), q = W4("q"); HomogeneousPoint P(p), Q(q); HomogeneousPoint S = P + Q, M = P - Q; eq(S.toEuclidean(), V3d(eu(p) + eu(q)), "sum"); eq(M.toEuclidean(), V3d(eu(p) - eu(q)), "difference");
  eq(fromHomogeneous(V4d(toHomogeneousPlus(p) * q)), V3d(eu(p) + eu(q)), "plus matrix"); eq(fromHomogeneous(V4d(toHomogeneousMinus(p) * q)), V3d(eu(q) - eu(p)), "minus matrix"); sx_reach("end");
}
SX_ENTRY h_convert() {
  V3d a = V3("a"); V4d p = W4("p"); Eigen::Matrix<double,4,3> Ja; Eigen::Matrix<double,3,4> Jp; double tol = sx_is_symbolic() ? 0 : 1e-5;
  eq(toHomogeneous(a, &Ja), V4d(a[0], a[1], a[2], 1), "toHomogeneous"); eq(toHomogeneous(a), V4d(a[0], a[1], a[2], 1), "toHomogeneous"); eq(fromHomogeneous(p, &Jp), eu(p), "fromHomogeneous"); eq(fromHomogeneous(p), eu(p), "fromHomogeneous");
  near(Ja, (jac<4,3>([](const V3d& x) { return toHomogeneous(x); }, a)), tol, "derivative of toHomogeneous"); eq(toHomogeneousJacobian(a), Ja, "toHomogeneousJacobian");
  near(Jp, (jac<3,4>([](const V4d& x) { return fromHomogeneous(x); }, p)), tol * 1e6, "derivative of fromHomogeneous"); eq(fromHomogeneousJacobian(p), Jp, "fromHomogeneousJacobian"); sx_reach("end");
}
SX_ENTRY h_columns() {
  int r = sx_param(0), c = sx_param(1); Eigen::MatrixXd M(r, c); for (int i = 0; i < r * c; i++) M(i / c, i % c) = D("m", i); Eigen::MatrixXd H = toHomogeneousColumns(M); sx_assert(H.rows() == r + 1 && H.cols() == c, "size");
  for (int i = 0; i <= r; i++) for (int j = 0; j < c; j++) sx_assert_eq(H(i, j), i < r ? M(i, j) : 1, "toHomogeneousColumns");
  for (int j = 0; j < c; j++) { double w = D("w", j); sx_assume(w >= 1e-3 || w <= -1e-3); H.col(j) *= w; } eq(fromHomogeneousColumns(H), M, "fromHomogeneousColumns undoes it for any weights"); sx_reach("end");
}
template <int N> static void nrm() {
  Eigen::Matrix<double,N,1> v, y; for (int i = 0; i < N; i++) v[i] = D("v", i); sx_assume(v.squaredNorm() >= 1e-6); Eigen::Matrix<double,N,N> J; double tol = sx_is_symbolic() ? 0 : 1e-3;
  y = normalizeAndJacobian<N>(v, J); double n = y.squaredNorm(); sx_assert_eq(n, 1, "unit length"); eq(y, normalize<N>(v), "normalize agrees");
  for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sx_assert_eq(y[i] * v[j], y[j] * v[i], "same direction"); sx_assert(y.dot(v) > 0, "same orientation");
  near(J, (jac<N,N>([](const Eigen::Matrix<double,N,1>& x) { return normalize<N>(x); }, v)), tol, "derivative of normalize"); sx_reach("end");
}
SX_ENTRY h_normalize() { switch (sx_param(0)) { case 1: nrm<1>(); break; case 2: nrm<2>(); break; case 3: nrm<3>(); break; default: nrm<4>(); } }
SX_ENTRY h_point_normalize() { V4d p = W4("p"); HomogeneousPoint P(p); P.normalize(); sx_assert_eq(P.toHomogeneous().squaredNorm(), 1, "unit length"); eq(P.toEuclidean(), eu(p), "normalisation keeps the Euclidean point"); sx_assert(P.toHomogeneous()[3] * p[3] > 0, "sign kept"); sx_reach("end"); }
SX_ENTRY h_oplus() { // along a direction: position t+dt is the small update of position t
  V4d p = UQ("p"); V3d u = U3("u"); double t = sx_double("t"); sx_assume(t >= 1.25e-4 && t <= 6.2); double tol = sx_is_symbolic() ? 0 : 1e-5;
  HomogeneousPoint P(p); P.oplus(u * t); V4d r = P.toHomogeneous(); sx_assert_eq(r.squaredNorm(), 1, "the update keeps the norm"); HomogeneousPoint::homogeneous_jacobian_t J; eq(P.toHomogeneousAndJacobian(J), r, "value");
  Eigen::Matrix<double,1,1> x; x[0] = t; auto d = jac<4,1>([&](const Eigen::Matrix<double,1,1>& s) { HomogeneousPoint X(p); X.oplus(u * s[0]); return V4d(X.toHomogeneous()); }, x);
  near(d, V4d(J * u), tol, "Jacobian of the update"); sx_reach("end");
}
SX_ENTRY h_oplus_zero() { V4d p = V4("p"); sx_assume(p.squaredNorm() >= 1e-6); HomogeneousPoint P(p); P.oplus(V3d(0, 0, 0)); eq(P.toHomogeneous(), p, "updating by nothing"); sx_reach("end"); }
SX_ENTRY h_oplus_jac() { // both Jacobians are linked by the conversion's derivative
  V4d p = W4("p"); HomogeneousPoint P(p); HomogeneousPoint::homogeneous_jacobian_t J; HomogeneousPoint::euclidean_jacobian_t Je; P.toHomogeneousAndJacobian(J); eq(P.toEuclideanAndJacobian(Je), eu(p), "value");
  double i = 1 / p[3]; Eigen::Matrix<double,3,4> F; F.setZero(); for (int k = 0; k < 3; k++) { F(k, k) = i; F(k, 3) = -p[k] * i * i; } eq(Je, M3(F * J), "Euclidean Jacobian of the update");
  Eigen::Matrix<double,4,3> E; E << p[3], -p[2], p[1], p[2], p[3], -p[0], -p[1], p[0], p[3], -p[0], -p[1], -p[2]; E *= 0.5; eq(J, E, "homogeneous Jacobian of the update"); sx_reach("end");
}
SX_ENTRY h_kind() {
  V4d p = W4("p"); HomogeneousPoint P(p); sx_assert(!P.isVector() && !P.atInfinity(), "a point"); double s = sx_double("s"); HomogeneousPoint S(p); S.scale(s); eq(S.toEuclidean(), V3d(eu(p) * s), "scale");
  P.convertToVector(); sx_assert(P.isVector() && P.atInfinity(), "a vector"); eq(P.toHomogeneous(), V4d(p[0], p[1], p[2], 0), "convertToVector");
  V3d d = p.head<3>(); sx_assume(d.squaredNorm() >= 1e-6); P.convertToPoint(); V4d h = P.toHomogeneous(); sx_assert_eq(h[3], 1, "convertToPoint"); V3d e = h.head<3>(); sx_assert_eq(e.squaredNorm(), 1, "unit distance"); sx_assert(e.dot(d) > 0, "orientation"); eq(V3d(e.cross(d)), V3d(V3d::Zero()), "direction"); sx_reach("end");
}
SX_ENTRY h_equal() { V4d p = W4("p"); HomogeneousPoint P(p), Q(P); sx_assert(P.isBinaryEqual(Q), "copies are equal"); int i = sx_choose(4, "i"); Q.pptr()[i] += 0.25; sx_assert(!P.isBinaryEqual(Q), "a differing coordinate makes them unequal"); sx_reach("end"); }
