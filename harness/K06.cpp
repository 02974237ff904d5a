#include "sxk.h"
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
namespace sm { namespace kinematics { Eigen::Matrix3d rph2C(Eigen::VectorXd const&); Eigen::Matrix3d rph2C(Eigen::MatrixXd const&, unsigned); Eigen::Vector3d C2rph(Eigen::MatrixXd const&); } }
using namespace sm::kinematics; using namespace sxk;
typedef Eigen::Vector3d V3d; typedef Eigen::Matrix3d M3;
static M3 el(int ax, double c, double s) { M3 R; int i = (ax + 1) % 3, j = (ax + 2) % 3; R.setZero(); R(ax, ax) = 1; R(i, i) = c; R(j, j) = c; R(i, j) = -s; R(j, i) = s; return R; }
SX_ENTRY h_elementary() {
  double a = sx_double("a"), c = std::cos(a), s = std::sin(a);
  eq(Rx(a), el(0, c, s), "Rx is the active rotation about x"); eq(Ry(a), el(1, c, s), "Ry is the active rotation about y"); eq(Rz(a), el(2, c, s), "Rz is the active rotation about z");
  eq(Cx(a), el(0, c, -s), "Cx is the passive rotation about x"); eq(Cy(a), el(1, c, -s), "Cy is the passive rotation about y"); eq(Cz(a), el(2, c, -s), "Cz is the passive rotation about z");
  sx_reach("end");
}
SX_ENTRY h_rph() {
  V3d x = V3("x");
  M3 R = el(2, std::cos(x[2]), std::sin(x[2])) * el(1, std::cos(x[1]), std::sin(x[1])) * el(0, std::cos(x[0]), std::sin(x[0]));
  eq(rph2R(x), R, "rph2R is Rz(heading) Ry(pitch) Rx(roll)"); eq(rph2R(x[0], x[1], x[2]), R, "rph2R of three angles");
  M3 C = el(2, std::cos(x[2]), -std::sin(x[2])) * el(1, std::cos(x[1]), -std::sin(x[1])) * el(0, std::cos(x[0]), -std::sin(x[0]));
  eq(rph2C(x), C, "rph2C is Cz(heading) Cy(pitch) Cx(roll)"); eq(rph2C(x[0], x[1], x[2]), C, "rph2C of three angles");
  Eigen::VectorXd xd(3); xd << x[0], x[1], x[2]; eq(rph2C(xd), C, "rph2C of a dynamic vector");
  Eigen::MatrixXd A(3, 2); A << 0, x[0], 0, x[1], 0, x[2]; eq(rph2C(A, 1), C, "rph2C of a matrix column");
  rotation(rph2R(x), "rph2R is a rotation"); sx_reach("end");
}
// every rotation matrix with pitch strictly inside +-90 degrees is Rz Ry Rx of unit (cos, sin) pairs with cos(pitch) > 0
SX_ENTRY h_extract() { // mode 0 active, 1 passive, 2 passive dynamic
  double cx = sx_double("cx"), sx = sx_double("sx"), cy = sx_double("cy"), sy = sx_double("sy"), cz = sx_double("cz"), sz = sx_double("sz");
  sx_assume_eq(cx*cx + sx*sx, 1); sx_assume_eq(cy*cy + sy*sy, 1); sx_assume_eq(cz*cz + sz*sz, 1); sx_assume(cy > 0);
  M3 R = el(2, cz, sz) * el(1, cy, sy) * el(0, cx, sx); int m = sx_param(0);
  if (m == 0) eq(rph2R(R2rph(R)), R, "rph2R(R2rph(R)) == R");
  if (m == 1) eq(rph2C(C2rph(R)), R, "rph2C(C2rph(C)) == C");
  if (m == 2) { Eigen::MatrixXd Rd = R; eq(rph2C(C2rph(Rd)), R, "rph2C(C2rph(C)) == C (dynamic)"); }
  sx_reach("end");
}
SX_ENTRY h_angles() { // angles in the principal range come back
  V3d x = V3("x"); for (int i = 0; i < 3; i++) { double l = i == 1 ? 1.57 : 3.14; sx_assume(x[i] > -l && x[i] < l); } int m = sx_param(0);
  if (m == 0) eq(R2rph(rph2R(x)), x, "R2rph(rph2R(x)) == x"); else eq(C2rph(rph2C(x)), x, "C2rph(rph2C(x)) == x");
  sx_reach("end");
}
// R = c I + (1-c) u u^T - s [u]x with c, s within 1e-11 of cos, sin of the angle
static void nearRot(const M3& R, const V3d& u, double a, const char* m) {
  double c = (R.trace() - 1) / 2, s = ((R(1,2) - R(2,1)) * u[0] + (R(2,0) - R(0,2)) * u[1] + (R(0,1) - R(1,0)) * u[2]) / 2;
  M3 U; U << 0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0;
  eq(R, M3(c * M3::Identity() + (1 - c) * u * u.transpose() - s * U), m);
  sx_assert_near(c, std::cos(a), 1e-11, m); sx_assert_near(s, std::sin(a), 1e-11, m);
}
SX_ENTRY h_axang() { // four-argument form: any angle, unit axis; mode: positive, negative, tiny
  V3d u = U3("u"); double a = sx_double("a"); int m = sx_param(0);
  if (m == 0) sx_assume(a >= 1e-12); if (m == 1) sx_assume(a <= -1e-12); if (m == 2) sx_assume(a > -1.1e-12 && a < 1.1e-12);
  M3 R = axisAngle2R(a, u[0], u[1], u[2]);
  if (m < 2) { double s = std::sin(a / 2), c = std::cos(a / 2); M3 E = refR(Eigen::Vector4d(s * u[0], s * u[1], s * u[2], c)); eq(R, E, "axisAngle2R(angle, axis) is the rotation about that axis by that angle"); rotation(R, "axisAngle2R is a rotation"); }
  else nearRot(R, u, a, "axisAngle2R of a tiny angle is within 1e-11");
  sx_reach("end");
}
SX_ENTRY h_axang_vec() {
  V3d v = V3("v"); double th = std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]); sx_assume(th >= 1e-12);
  double s = std::sin(th / 2), c = std::cos(th / 2); V3d u = v / th; M3 E = refR(Eigen::Vector4d(s * u[0], s * u[1], s * u[2], c));
  if (sx_param(0)) eq(axisAngle2R(v), E, "axisAngle2R(vector) agrees with the quaternion of the same vector");
  else eq(axisAngle2R(v[0], v[1], v[2]), E, "axisAngle2R(x,y,z) agrees with the quaternion of the same vector");
  sx_reach("end");
}
SX_ENTRY h_axang_vec_small() { // the same for small angles, with the difference to the identity scaled up
  V3d v = V3("v"); double th = std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]); sx_assume(th >= 1e-9 && th <= 1e-3);
  double s = std::sin(th / 2), c = std::cos(th / 2); V3d u = v / th; M3 E = refR(Eigen::Vector4d(s * u[0], s * u[1], s * u[2], c));
  M3 R = sx_param(0) ? axisAngle2R(v) : axisAngle2R(v[0], v[1], v[2]);
  eq(M3((R - M3::Identity()) / th), M3((E - M3::Identity()) / th), "axisAngle2R of a small vector agrees with the quaternion of the same vector, relative to the angle"); sx_reach("end");
}
SX_ENTRY h_axang_quat() { // agreement with the library's own exponential
  V3d v = V3("v"); double th = std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]); sx_assume(th >= 1.25e-4);
  eq(axisAngle2R(v), quat2r(axisAngle2quat(v)), "axisAngle2R(v) == quat2r(axisAngle2quat(v))"); sx_reach("end");
}
SX_ENTRY h_axang_vec_tiny() {
  V3d u = U3("u"); double th = sx_double("th"); sx_assume(th >= 0 && th <= 1.1e-12);
  nearRot(axisAngle2R(V3d(th * u)), u, th, "axisAngle2R of a tiny vector is within 1e-11"); sx_reach("end");
}
// matrix logarithm: the rotation by angle 2 acos(w) about v of the unit quaternion (v, w), w >= 0, in each octant of v
SX_ENTRY h_r2aa() {
  Eigen::Vector4d q = UQ("q"); int sg = sx_param(0); double n2 = q[0]*q[0] + q[1]*q[1] + q[2]*q[2]; sx_assume(n2 >= 1e-6);
  for (int i = 0; i < 3; i++) if (sg >> i & 1) sx_assume(q[i] <= 0); else sx_assume(q[i] >= 0);
  sx_assume(q[3] > 0);
  V3d a = R2AxisAngle(refR(q)); double k = 2 * std::acos(q[3]) / std::sqrt(n2);
  eq(a, V3d(k * q[0], k * q[1], k * q[2]), "R2AxisAngle returns the angle times the axis"); sx_reach("end");
}
SX_ENTRY h_r2aa_half() { // half turn: either of the two opposite axes
  V3d u = U3("u"); int sg = sx_param(0); for (int i = 0; i < 3; i++) if (sg >> i & 1) sx_assume(u[i] <= 0); else sx_assume(u[i] >= 0);
  V3d a = R2AxisAngle(refR(Eigen::Vector4d(u[0], u[1], u[2], 0)));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx_assert_eq(a[i] * a[j], (M_PI * u[i]) * (M_PI * u[j]), "R2AxisAngle of a half turn");
  sx_reach("end");
}
SX_ENTRY h_r2aa_id() { V3d a = R2AxisAngle(M3(M3::Identity())); for (int i = 0; i < 3; i++) sx_assert_eq(a[i], 0, "R2AxisAngle of the identity"); sx_reach("end"); }
SX_ENTRY h_cross() {
  V3d a = V3("a"), b = V3("b"); V3d c(a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]);
  eq((crossMx(a) * b).eval(), c, "crossMx(a) b is the cross product"); eq((crossMx(a[0], a[1], a[2]) * b).eval(), c, "crossMx(x,y,z) b is the cross product");
  Eigen::VectorXd d(3); d << a[0], a[1], a[2]; eq((crossMx(d) * b).eval(), c, "crossMx of a dynamic vector"); sx_reach("end");
}
