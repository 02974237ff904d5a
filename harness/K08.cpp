#include "sxk.h"
#include <sm/kinematics/transformations.hpp>
using namespace sm::kinematics; using namespace sxk;
typedef Eigen::Vector3d V3d; typedef Eigen::Vector4d V4d; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix<double,6,1> V6;
static M4 TF(const char* q, const char* t) { M3 R = refR(UQ(q)); V3d r = V3(t); M4 T = M4::Identity(); T.topLeftCorner<3,3>() = R; T.topRightCorner<3,1>() = r; return T; }
static M3 el(int ax, double c, double s) { M3 R; int i = (ax + 1) % 3, j = (ax + 2) % 3; R.setZero(); R(ax, ax) = 1; R(i, i) = c; R(j, j) = c; R(i, j) = -s; R(j, i) = s; return R; }
static V6 V6s(const char* n) { V6 v; for (int i = 0; i < 6; i++) v[i] = D(n, i); return v; }
static V6 zero6(const char* n) { V6 v = V6s(n); for (int i = 0; i < 6; i++) sx_assume_eq(v[i], 0); return v; }
SX_ENTRY h_inverse() {
  M4 T = TF("q", "t"); M4 I = inverseTransform(T); eq((T * I).eval(), M4(M4::Identity()), "T times its inverse"); eq((I * T).eval(), M4(M4::Identity()), "inverse times T");
  eq(inverseTransform(I), T, "inverse of the inverse"); sx_reach("end");
}
SX_ENTRY h_parts() {
  M3 C; for (int i = 0; i < 9; i++) C(i/3, i%3) = D("c", i); V3d r = V3("r"); M4 T = rt2Transform(C, r);
  eq(transform2C(T), C, "rotation part"); eq(transform2rho(T), r, "translation part"); eq(transform2rhoHomogeneous(T), V4d(r[0], r[1], r[2], 1), "homogeneous translation part");
  for (int j = 0; j < 4; j++) sx_assert_eq(T(3, j), j == 3, "last row"); V3d p = V3("p"); V4d e; e << V3d(C * p + r), 1; eq(V4d(T * V4d(p[0], p[1], p[2], 1)), e, "acts as rotation then translation");
  M4 U; for (int i = 0; i < 16; i++) U(i/4, i%4) = i < 12 ? D("u", i) : i == 15; eq(rt2Transform(transform2C(U), transform2rho(U)), U, "splitting and assembling");
  sx_reach("end");
}
SX_ENTRY h_euler() { // transform -> six parameters -> transform
  double cx = sx_double("cx"), sx = sx_double("sx"), cy = sx_double("cy"), sy = sx_double("sy"), cz = sx_double("cz"), sz = sx_double("sz"); V3d t = V3("t");
  sx_assume_eq(cx*cx + sx*sx, 1); sx_assume_eq(cy*cy + sy*sy, 1); sx_assume_eq(cz*cz + sz*sz, 1); sx_assume(cy > 0);
  M4 T = M4::Identity(); T.topLeftCorner<3,3>() = el(2, cz, sz) * el(1, cy, sy) * el(0, cx, sx); T.topRightCorner<3,1>() = t;
  V6 v = fromTEuler(T); eq(toTEuler(v), T, "toTEuler(fromTEuler(T)) == T"); eq(toTEuler(v[0], v[1], v[2], v[3], v[4], v[5]), T, "six-argument toTEuler"); sx_reach("end");
}
SX_ENTRY h_params() {
  V6 v = V6s("v"); for (int i = 3; i < 6; i++) { double l = i == 4 ? 1.57 : 3.14; sx_assume(v[i] > -l && v[i] < l); }
  eq(fromTEuler(toTEuler(v)), v, "fromTEuler(toTEuler(v)) == v"); sx_reach("end");
}
SX_ENTRY h_toeuler() {
  V6 v = V6s("v"); M4 T = M4::Identity(); M3 R = el(2, std::cos(v[5]), -std::sin(v[5])) * el(1, std::cos(v[4]), -std::sin(v[4])) * el(0, std::cos(v[3]), -std::sin(v[3]));
  T.topLeftCorner<3,3>() = R; T.topRightCorner<3,1>() = v.head<3>(); eq(toTEuler(v), T, "toTEuler is the documented transform"); eq(toTEuler(v[0], v[1], v[2], v[3], v[4], v[5]), T, "six-argument toTEuler"); sx_reach("end");
}
SX_ENTRY h_box() { // operators of small motions
  V6 d = V6s("d"); V4d p = V4("p");
  eq(V4d(boxMinus(p) * d), V4d(-(boxPlus(d) * p)), "boxMinus(p) d == -boxPlus(d) p");
  V4d e; e << p[3]*d[0] + p[1]*d[5] - p[2]*d[4], p[3]*d[1] + p[2]*d[3] - p[0]*d[5], p[3]*d[2] + p[0]*d[4] - p[1]*d[3], 0; eq(V4d(boxMinus(p) * d), e, "small motion of a homogeneous point");
  M4 T = TF("q", "t"); M4 I = M4::Identity(); I.topLeftCorner<3,3>() = T.topLeftCorner<3,3>().transpose(); I.topRightCorner<3,1>() = -I.topLeftCorner<3,3>() * T.topRightCorner<3,1>();
  eq(M4(T * boxPlus(d) * I), boxPlus(V6(boxTimes(T) * d)), "T boxPlus(d) T^-1 == boxPlus(boxTimes(T) d)");
  eq((boxMinus(V4d(T * p)) * boxTimes(T)).eval(), (T * boxMinus(p)).eval(), "boxMinus(T p) boxTimes(T) == T boxMinus(p)"); sx_reach("end");
}
SX_ENTRY h_boxtimes() {
  M4 A = TF("q", "t"), B = TF("r", "s"); eq((boxTimes(A) * boxTimes(B)).eval(), boxTimes(M4(A * B)), "boxTimes is multiplicative"); eq((boxTimes(A) * boxTimes(inverseTransform(A))).eval(), (Eigen::Matrix<double,6,6>::Identity().eval()), "boxTimes of the inverse"); sx_reach("end");
}
SX_ENTRY h_first() { // boxPlus and boxMinus are the first-order motion of toTEuler
  V6 d = zero6("d"); V4d p = V4("p"); double tol = sx_is_symbolic() ? 0 : 1e-5;
  auto J = jac<4,6>([&](const V6& x) { return V4d(toTEuler(x) * p); }, d); near(J, boxMinus(p), tol, "boxMinus is the derivative of a small motion applied to a point"); sx_reach("end");
}
SX_ENTRY h_jacobian() {
  M4 T = TF("q", "t"); V4d p = V4("p"), out; Eigen::Matrix<double,4,6> B; V6 d = zero6("d"); double tol = sx_is_symbolic() ? 0 : 1e-5;
  transformationAndJacobian(T, p, out, B); eq(out, V4d(T * p), "transformed point");
  auto J = jac<4,6>([&](const V6& x) { return V4d(toTEuler(x) * T * p); }, d); near(B, J, tol, "Jacobian of the transformed point"); sx_reach("end");
}
SX_ENTRY h_invjacobian() {
  M4 T = TF("q", "t"); V4d p = V4("p"), out; Eigen::Matrix<double,4,6> B; V6 d = zero6("d"); double tol = sx_is_symbolic() ? 0 : 1e-5;
  inverseTransformationAndJacobian(T, p, out, B); eq(V4d(T * out), p, "inversely transformed point");
  auto J = jac<4,6>([&](const V6& x) { M4 U = toTEuler(x) * T; M4 I = M4::Identity(); I.topLeftCorner<3,3>() = U.topLeftCorner<3,3>().transpose(); I.topRightCorner<3,1>() = -I.topLeftCorner<3,3>() * U.topRightCorner<3,1>(); return V4d(I * p); }, d);
  near(B, J, tol, "Jacobian of the inversely transformed point"); sx_reach("end");
}
