#pragma once
#include "sxk.h"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/rotations.hpp>
using namespace sm::kinematics; using namespace sxk;
typedef Eigen::Vector3d V3d; typedef Eigen::Vector4d V4d; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::Matrix<double,6,1> V6; typedef Eigen::Matrix<double,6,6> M6;
struct TS { V4d q; V3d t; M3 R; M4 T; };
inline TS sym(const char* qn, const char* tn) { TS s; s.q = UQ(qn); s.t = V3(tn); s.R = refR(s.q); s.T = M4::Identity(); s.T.topLeftCorner<3,3>() = s.R; s.T.topRightCorner<3,1>() = s.t; return s; }
template <int N> Eigen::Matrix<double,N,N> cov(const char* n) { Eigen::Matrix<double,N,N> U; int k = 0; for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { U(i, j) = U(j, i) = D(n, k); k++; } return U; }
inline M3 sk(const V3d& v) { M3 X; X << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return X; }
// effect on the left of a small motion applied on the right of (R, t)
inline M6 refAd(const M3& R, const V3d& t) { M6 A = M6::Zero(); A.topLeftCorner<3,3>() = R; A.bottomRightCorner<3,3>() = R; A.topRightCorner<3,3>() = -sk(t) * R; return A; }
inline Eigen::Matrix<double,4,6> refB(const V4d& p) { Eigen::Matrix<double,4,6> B = Eigen::Matrix<double,4,6>::Zero(); B.topLeftCorner<3,3>() = p[3] * M3::Identity(); B.topRightCorner<3,3>() = sk(p.head<3>()); return B; }
