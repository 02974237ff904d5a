#include "kin.h"
static V4d W4(const char* n) { V4d p = V4(n); sx_assume(p[3] >= 1e-3 || p[3] <= -1e-3); return p; }
static V3d eu(const V4d& p) { return V3d(p[0] / p[3], p[1] / p[3], p[2] / p[3]); }
static Eigen::Matrix<double,3,4> F(const V4d& p) { Eigen::Matrix<double,3,4> J; J.setZero(); double i = 1 / p[3]; for (int k = 0; k < 3; k++) { J(k, k) = i; J(k, 3) = -p[k] * i * i; } return J; }
static M3 u3(const V4d& p, const M4& U) { auto J = F(p); return J * U * J.transpose(); }
typedef UncertainHomogeneousPoint UP;
SX_ENTRY h_access() {
  V3d a = V3("a"); V4d p = W4("p"), ah(a[0], a[1], a[2], 1); M4 U = cov<4>("u"), Z = M4::Zero(); M3 W = cov<3>("w"); M4 E = Z; E.topLeftCorner<3,3>() = W;
  auto chk = [&](const UP& P, const V4d& m, const M4& C, const char* s) { eq(P.toHomogeneous(), m, s); eq(P.U4(), C, s); };
  chk(UP(), V4d(0, 0, 0, 1), Z, "default"); chk(UP(a), ah, Z, "Euclidean"); chk(UP(p), p, Z, "homogeneous"); HomogeneousPoint H(p); chk(UP(H), p, Z, "point"); chk(UP(a, W), ah, E, "Euclidean, covariance"); eq(UP(a, W).U3(), W, "Euclidean covariance round trip");
  chk(UP(p, U), p, U, "homogeneous, covariance"); chk(UP(H, U), p, U, "point, covariance"); UP P(p); P.setU(U); chk(P, p, U, "setU"); UP C(P), A; A = P; chk(C, p, U, "copy"); chk(A, p, U, "assign"); eq(P.U3(), u3(p, U), "U3"); eq(P.toEuclidean(), eu(p), "mean"); sx_reach("end");
}
SX_ENTRY h_oplus() { // minimal representation, on the unit sphere
  V4d p = UQ("p"); M3 W = cov<3>("w"); HomogeneousPoint H(p); UP A(p, W), B(H, W), C(p); C.setUOplus(W); eq(A.U_av_form(), W, "round trip"); eq(A.toHomogeneous(), p, "mean"); eq(B.U4(), A.U4(), "from a point"); eq(C.U4(), A.U4(), "setUOplus");
  HomogeneousPoint::homogeneous_jacobian_t J; H.toHomogeneousAndJacobian(J); eq(A.U4(), M4(J * W * J.transpose()), "stored covariance is the one the update's Jacobian gives"); sx_reach("end");
}
SX_ENTRY h_oplus_bad() { V4d p = V4("p"); sx_assume(p.squaredNorm() >= 1.1 && p.squaredNorm() <= 100); M3 W = cov<3>("w"); UP P(p); int k = sx_choose(2, "k"); bool thrown = false; try { if (k) P.setUOplus(W); else P.U_av_form(); } catch (const std::exception&) { thrown = true; } sx_assert(thrown, "the minimal form is refused off the unit sphere"); sx_reach("end"); }
SX_ENTRY h_sum() {
  V4d p = W4("p"), q = W4("q"); M4 U = cov<4>("u"), W = cov<4>("w"); int m = sx_param(0), minus = sx_param(1); M4 Z = M4::Zero(); if (m == 1 || m == 4) U = Z; if (m == 2) W = Z;
  UP A(p, U), B(q, W), R; const HomogeneousPoint a(p), b(q); const HomogeneousPoint& Ab = A;
  if (m == 0) R = minus ? A - B : A + B;
  if (m == 1) R = minus ? a - B : a + B;
  if (m == 2) R = minus ? A - b : A + b;
  if (m == 3) R = minus ? Ab - B : Ab + B; // through the base class
  if (m == 4) R = minus ? UP(a) - B : UP(a) + B;
  eq(R.toEuclidean(), V3d(eu(p) + (minus ? -1.0 : 1.0) * eu(q)), "mean"); eq(R.U3(), M3(u3(p, U) + u3(q, W)), "covariances add"); sx_reach("end");
}
SX_ENTRY h_sum4() { // the homogeneous covariance itself is the first-order one
  V4d p = W4("p"), q = W4("q"); M4 U = cov<4>("u"), W = cov<4>("w"); UP R = UP(p, U) + UP(q, W); M4 A = M4::Zero(), B = M4::Zero(); for (int i = 0; i < 3; i++) { A(i, i) = q[3]; A(i, 3) = q[i]; B(i, i) = p[3]; B(i, 3) = p[i]; } A(3, 3) = q[3]; B(3, 3) = p[3];
  eq(R.U4(), M4(A * U * A.transpose() + B * W * B.transpose()), "homogeneous covariance of the sum"); sx_reach("end");
}
SX_ENTRY h_normalize() { V4d p = W4("p"); M4 U = cov<4>("u"); UP P(p, U); int k = sx_param(0); if (k) { HomogeneousPoint& b = P; b.normalize(); } else P.normalize(); sx_assert_eq(P.toHomogeneous().squaredNorm(), 1, "unit length"); eq(P.toEuclidean(), eu(p), "mean"); eq(P.U3(), u3(p, U), "normalising keeps the Euclidean covariance"); 
  eq(V4d(P.U4() * P.toHomogeneous()), V4d(V4d::Zero()), "no uncertainty along the normalised direction"); sx_reach("end"); }
SX_ENTRY h_transform() { // Euclidean view of transforming an uncertain point
  TS a = sym("q", "t"); M6 U = cov<6>("u"); V3d p = V3("p"); M3 W = cov<3>("w"); UncertainTransformation T(a.q, a.t, U); UP R = T * UP(p, W); V3d y = a.R * p + a.t; eq(R.toEuclidean(), y, "mean"); Eigen::Matrix<double,3,6> B; B << M3::Identity(), sk(y); eq(R.U3(), M3(a.R * W * a.R.transpose() + B * U * B.transpose()), "first-order covariance"); sx_reach("end");
}
SX_ENTRY h_transform_h() { // any weight: certain transformation
  TS a = sym("q", "t"); V4d p = W4("p"); M4 W = cov<4>("w"); const Transformation T(a.q, a.t); UP R = T * UP(p, W); eq(R.toEuclidean(), V3d(a.R * eu(p) + a.t), "mean"); eq(R.U3(), M3(a.R * u3(p, W) * a.R.transpose()), "covariance rotates with the point"); sx_reach("end");
}
SX_ENTRY h_equal() { V4d p = W4("p"); M4 U = cov<4>("u"); UP P(p, U), Q(P); sx_assert(P.isBinaryEqual(Q), "copies are equal"); int i = sx_choose(20, "i"); if (i < 4) Q.pptr()[i] += 0.25; else { M4 V = U; V((i - 4) / 4, i % 4) += 0.25; Q.setU(V); } sx_assert(!P.isBinaryEqual(Q), "a differing coefficient makes them unequal"); sx_reach("end"); }
