#include "sxk.h"
#include <sm/kinematics/quaternion_algebra.hpp>
using namespace sm::kinematics; using namespace sxk;
// quaternion -> matrix is a proper rotation (and the library's documented one)
SX_ENTRY h_quat2r() {
  Eigen::Vector4d q = UQ("q"); Eigen::Matrix3d R = quat2r(q);
  rotation(R, "matrix of a unit quaternion is orthonormal with determinant one");
  eq(R, refR(q), "matrix entries of quat2r");
  Eigen::Vector4d n = -q; eq(quat2r(n), R, "q and -q give the same matrix");
  Eigen::Vector3d e = qeps(q); sx_assert_eq(e[0], q[0], "qeps"); sx_assert_eq(e[1], q[1], "qeps"); sx_assert_eq(e[2], q[2], "qeps"); sx_assert_eq(qeta(q), q[3], "qeta");
  sx_reach("end");
}
// matrix -> quaternion inverts it up to sign, scalar part non-negative
SX_ENTRY h_r2quat() {
  Eigen::Vector4d q = UQ("q"); Eigen::Vector4d p = r2quat(quat2r(q));
  for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) sx_assert_eq(p[i] * p[j], q[i] * q[j], "r2quat(quat2r(q)) equals q up to sign");
  sx_assert(p[3] >= 0, "scalar part of r2quat is non-negative");
  sx_reach("end");
}
