#include "sxk.h"
#include <sm/kinematics/quaternion_algebra.hpp>
using namespace sm::kinematics; using namespace sxk;
static const double SMALL = 1.2207031250e-4; // eps^(1/4), the library's switch to series
// closed-form branch: exact
SX_ENTRY h_exp() {
  Eigen::Vector3d a = V3("a"); double th = std::sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2]); sx_assume(th >= 1.25e-4);
  Eigen::Vector4d q = axisAngle2quat(a);
  sx_assert_eq(q[3], std::cos(th / 2), "scalar part is the cosine of half the angle");
  for (int i = 0; i < 3; i++) sx_assert_eq(q[i] * th, a[i] * std::sin(th / 2), "vector part is the axis times the sine of half the angle");
  sx_assert_eq(q.squaredNorm(), 1.0, "unit norm");
  sx_reach("end");
}
// every small angle: within 1e-12 (relative to the vector) of the exact value
SX_ENTRY h_exp_small() {
  Eigen::Vector3d u = U3("u"); double th = sx_double("th"); sx_assume(th >= 0 && th <= 1.25e-4);
  Eigen::Vector4d q = axisAngle2quat(Eigen::Vector3d(th * u));
  sx_assert_eq(q[3], std::cos(th / 2), "scalar part is the cosine of half the angle (small)");
  double k = q[0]*u[0] + q[1]*u[1] + q[2]*u[2];
  for (int i = 0; i < 3; i++) sx_assert_eq(q[i], k * u[i], "vector part is along the axis (small)");
  sx_assert_near(k, std::sin(th / 2), 1e-16, "vector part has length sin(angle/2) within 1e-12 relative (small)");
  sx_reach("end");
}
// logarithm: exact closed forms
SX_ENTRY h_log() {
  Eigen::Vector4d q = UQ("q"); double n2 = q[0]*q[0] + q[1]*q[1] + q[2]*q[2];
  sx_assume(n2 >= 1.25e-4 * 1.25e-4);
  Eigen::Vector3d a = quat2AxisAngle(q);
  Eigen::Vector4d p = axisAngle2quat(a);
  eq(p, q, "axisAngle2quat(quat2AxisAngle(q)) == q");
  sx_reach("end");
}
// logarithm near the identity: q = (sin(h) u, cos(h)), h in [0, 1.3e-4]; a must be 2 h u
SX_ENTRY h_log_small() {
  Eigen::Vector3d u = U3("u"); double h = sx_double("h"); sx_assume(h >= 0 && h <= 1.3e-4);
  double s = std::sin(h), c = std::cos(h); Eigen::Vector4d q(s*u[0], s*u[1], s*u[2], c);
  Eigen::Vector3d a = quat2AxisAngle(q);
  double k = a[0]*u[0] + a[1]*u[1] + a[2]*u[2];
  for (int i = 0; i < 3; i++) sx_assert_eq(a[i], k * u[i], "axis-angle vector is along the axis (small)");
  sx_assert_near(k, 2 * h, 1e-16, "axis-angle vector has length angle within 1e-12 relative (small)");
  sx_reach("end");
}
// logarithm near the negative identity (angle close to a full turn), including q = (0,0,0,-1)
SX_ENTRY h_log_full() {
  Eigen::Vector4d q = UQ("q"); sx_assume(q[3] < 0 && q[0]*q[0] + q[1]*q[1] + q[2]*q[2] <= 1.3e-4 * 1.3e-4);
  Eigen::Vector3d a = quat2AxisAngle(q);
  for (int i = 0; i < 3; i++) sx_assert_finite(a[i], "axis-angle vector of a near-full turn is finite");
  Eigen::Vector4d p = axisAngle2quat(a);
  eq(p, q, "axisAngle2quat(quat2AxisAngle(q)) == q near a full turn");
  sx_reach("end");
}
