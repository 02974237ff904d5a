#include "sxk.h"
#include <sm/kinematics/quaternion_algebra.hpp>
using namespace sm::kinematics; using namespace sxk;
SX_ENTRY h_product() { // arbitrary (not only unit) quaternions
  Eigen::Vector4d q = V4("q"), p = V4("p"), r = V4("r");
  eq(qplus(qplus(q, p), r), qplus(q, qplus(p, r)), "product is associative");
  eq(quatPlus(q) * p, qplus(q, p), "left product matrix");
  eq(quatOPlus(q) * p, qoplus(q, p), "right product matrix");
  eq(qoplus(q, p), qplus(p, q), "qoplus is the reversed product");
  Eigen::Vector4d id = quatIdentity(); eq(qplus(id, q), q, "identity left"); eq(qplus(q, id), q, "identity right");
  sx_assert_eq(id[3], 1.0, "identity"); sx_assert_eq(id.squaredNorm(), 1.0, "identity");
  sx_assert_eq(qplus(q, p).squaredNorm(), q.squaredNorm() * p.squaredNorm(), "norm is multiplicative");
  sx_reach("end");
}
SX_ENTRY h_inverse() {
  Eigen::Vector4d q = UQ("q"); Eigen::Vector4d i = quatInv(q), j = q; invertQuat(j); eq(i, j, "invertQuat equals quatInv");
  Eigen::Vector4d id(0, 0, 0, 1); eq(qplus(i, q), id, "left inverse"); eq(qplus(q, i), id, "right inverse");
  eq(quat2r(i), quat2r(q).transpose(), "inverse quaternion is the transposed matrix");
  sx_reach("end");
}
SX_ENTRY h_rotate() {
  Eigen::Vector4d q = UQ("q"), p = UQ("p"); Eigen::Vector3d v = V3("v");
  eq(quat2r(qplus(q, p)), quat2r(q) * quat2r(p), "product of quaternions is the product of matrices");
  eq(quatRotate(q, v), quat2r(q) * v, "rotating a vector equals multiplying by the matrix");
  sx_reach("end");
}
SX_ENTRY h_update() {
  Eigen::Vector4d q = V4("q"); Eigen::Vector3d d = V3("d");
  eq(updateQuat(q, d), qplus(axisAngle2quat(d), q), "update equals left multiplication by the increment");
  sx_reach("end");
}
