#include "sxk.h"
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
using namespace sm::kinematics; using namespace sxk;
typedef Eigen::Matrix<double, 4, 1> V4d; typedef Eigen::Matrix<double, 3, 1> V3d;
static double nrm(const V3d& a) { return std::sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2]); }
static V3d big(const char* n) { V3d a = V3(n); double th = nrm(a); sx_assume(th >= 1.25e-4 && th < 6.2831); return a; }
static Eigen::Matrix3d skew(const V3d& u) { Eigen::Matrix3d U; U << 0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0; return U; }
// quatExpJacobian is the derivative of axisAngle2quat
SX_ENTRY h_expjac() {
  V3d a = big("a");
  eq(quatExpJacobian(a), jac<4, 3>([](const V3d& x) { return axisAngle2quat(x); }, a), "quatExpJacobian is the derivative of axisAngle2quat");
  sx_reach("end");
}
SX_ENTRY h_expjac_zero() {
  V3d z = V3d::Zero(); Eigen::Matrix<double, 4, 3> J = quatExpJacobian(z);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) sx_assert_eq(J(i, j), i == j ? 0.5 : 0.0, "quatExpJacobian at zero");
  eq(expDiffMat(z), Eigen::Matrix3d::Identity().eval(), "expDiffMat at zero"); eq(logDiffMat(z), Eigen::Matrix3d::Identity().eval(), "logDiffMat at zero");
  sx_reach("end");
}
SX_ENTRY h_inverse() {
  V3d a = big("a"); sx_assume(std::cos(nrm(a) / 2) != 0);
  eq((logDiffMat(a) * expDiffMat(a)).eval(), Eigen::Matrix3d::Identity().eval(), "logDiffMat times expDiffMat is the identity");
  sx_reach("end");
}
// derivative of the logarithm 2 acos(w) v/|v| with respect to all four components
SX_ENTRY h_logjac() {
  V4d q = V4("q"); sx_assume(q[3] > -1 && q[3] < 1 && q[0]*q[0] + q[1]*q[1] + q[2]*q[2] > 0);
  auto f = [](const V4d& x) { double n = std::sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]), k = 2 * std::acos(x[3]) / n; return V3d(k * x[0], k * x[1], k * x[2]); };
  eq(quatLogJacobian(q), jac<3, 4>(f, q), "quatLogJacobian is the derivative of the logarithm");
  sx_reach("end");
}
// chain rule through the real functions: d log / dq * d exp / da = I, with q = exp(a)
SX_ENTRY h_chain() {
  V3d a = big("a"); sx_assume(std::cos(nrm(a) / 2) != 0);
  V4d q = axisAngle2quat(a);
  eq((quatLogJacobian(q) * quatExpJacobian(a)).eval(), Eigen::Matrix3d::Identity().eval(), "quatLogJacobian times quatExpJacobian is the identity");
  sx_reach("end");
}
SX_ENTRY h_chain2() { // exp(log q) = q is K03, so the right factor is quatExpJacobian(log q) with q in place of exp(log q)
  V4d q = UQ("q"); sx_assume(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] >= 1.25e-4 * 1.25e-4 && q[3] != 0);
  Eigen::Matrix<double, 3, 4> J = quatLogJacobian2(q);
  Eigen::Matrix<double, 4, 3> E = quatOPlus(q) * quatV<double>() * expDiffMat(quat2AxisAngle(q));
  eq((J * E).eval(), Eigen::Matrix3d::Identity().eval(), "quatLogJacobian2 times quatExpJacobian is the identity");
  eq((J * q).eval(), V3d::Zero().eval(), "quatLogJacobian2 annihilates the normal direction");
  sx_reach("end");
}
// series branches: D = I - alpha U + beta U^2 with alpha, beta within 1e-9 of the closed form
SX_ENTRY h_exp_series() {
  V3d u = U3("u"); double th = sx_double("th"); sx_assume(th > 0 && th <= 1.23e-4);
  Eigen::Matrix3d D = expDiffMat(V3d(th * u)), U = skew(u);
  double al = -((D(2,1) - D(1,2)) * u[0] + (D(0,2) - D(2,0)) * u[1] + (D(1,0) - D(0,1)) * u[2]) / 2, be = (3 - D.trace()) / 2;
  eq(D, (Eigen::Matrix3d::Identity() - al * U + be * U * U).eval(), "expDiffMat structure (small)");
  sx_assert(std::fabs(al * th - (1 - std::cos(th))) <= 1e-9 * th, "expDiffMat first coefficient within 1e-9 (small)");
  sx_assert(std::fabs(be * th - (th - std::sin(th))) <= 1e-9 * th, "expDiffMat second coefficient within 1e-9 (small)");
  sx_reach("end");
}
SX_ENTRY h_log_series() {
  V3d u = U3("u"); double th = sx_double("th"); sx_assume(th > 0 && th <= 1.23e-4);
  Eigen::Matrix3d D = logDiffMat(V3d(th * u)), U = skew(u);
  double al = ((D(2,1) - D(1,2)) * u[0] + (D(0,2) - D(2,0)) * u[1] + (D(1,0) - D(0,1)) * u[2]) / 2, be = (3 - D.trace()) / 2;
  eq(D, (Eigen::Matrix3d::Identity() + al * U + be * U * U).eval(), "logDiffMat structure (small)");
  sx_assert_eq(al, th / 2, "logDiffMat first coefficient (small)");
  double s = std::sin(th / 2), c = std::cos(th / 2);
  sx_assert(std::fabs(be * s - (s - th / 2 * c)) <= 1e-9 * s, "logDiffMat second coefficient within 1e-9 (small)");
  sx_reach("end");
}
// rate matrices
SX_ENTRY h_rates() {
  V4d q = UQ("q"); V4d p = V4("p");
  eq((quatS(q) * quatInvS(q)).eval(), Eigen::Matrix3d::Identity().eval(), "quatS times quatInvS is the identity");
  // tangent projector the other way round
  eq((quatInvS(q) * quatS(q)).eval(), (Eigen::Matrix4d::Identity() - q * q.transpose()).eval(), "quatInvS times quatS is the tangent projector");
  Eigen::Matrix<double, 4, 3> J = quatJacobian(p), I = quatInvS(p), R;
  for (int j = 0; j < 3; j++) { V4d e = V4d::Zero(); e[j] = 0.5; R.col(j) = qplus(e, p); }
  eq(J, R, "quatJacobian maps an increment e to (e/2, 0) times p"); eq(I, R, "quatInvS maps an increment e to (e/2, 0) times p");
  const Eigen::Matrix<double, 4, 3>& V = quatV<double>();
  for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) sx_assert_eq(V(i, j), i == j ? 0.5 : 0.0, "quatV is half the identity");
  sx_reach("end");
}
