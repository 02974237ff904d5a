#include "sxk.h"
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
using namespace sm::kinematics; using namespace sxk;
typedef Eigen::Vector3d V3d; typedef Eigen::Matrix3d M3;
static EulerAnglesZYX r0; static EulerAnglesYawPitchRoll r1; static EulerAnglesZXY r2; static EulerRodriguez r3; static RotationVector r4;
static const RotationalKinematics& K(int i) { static const RotationalKinematics* k[5] = {&r0, &r1, &r2, &r3, &r4}; return *k[i]; }
static M3 el(int ax, double c, double s) { M3 R; int i = (ax + 1) % 3, j = (ax + 2) % 3; R.setZero(); R(ax, ax) = 1; R(i, i) = c; R(j, j) = c; R(i, j) = -s; R(j, i) = s; return R; }
// parameters of class k; the rotation vector is kept away from its removable singularity at zero
static V3d params(int k) { V3d p = V3("p"); if (k == 4) sx_assume(p[0]*p[0] + p[1]*p[1] + p[2]*p[2] >= 1e-26); return p; }
static V3d omegaOf(const M3& X) { return V3d(X(1,2), -X(0,2), X(0,1)); }
SX_ENTRY h_matrix() { // proper rotation, of the documented sequence
  int k = sx_param(0); V3d p = params(k); M3 C = K(k).parametersToRotationMatrix(p);
  rotation(C, "parameters give a proper rotation matrix");
  double s0 = std::sin(p[0]), c0 = std::cos(p[0]), s1 = std::sin(p[1]), c1 = std::cos(p[1]), s2 = std::sin(p[2]), c2 = std::cos(p[2]);
  if (k == 0) eq(C, M3(el(2, c0, -s0) * el(1, c1, -s1) * el(0, c2, -s2)), "ZYX: passive heading, pitch, roll sequence");
  if (k == 1) eq(C, M3(el(2, c0, s0) * el(1, c1, s1) * el(0, c2, s2)), "yaw-pitch-roll: active Rz Ry Rx sequence");
  if (k == 2) eq(C, M3(el(2, c0, s0) * el(0, c1, s1) * el(1, c2, s2)), "ZXY: active Rz Rx Ry sequence");
  if (k == 3) { double w = std::sqrt(1 / (1 + p.squaredNorm())); eq(C, refR(Eigen::Vector4d(w*p[0], w*p[1], w*p[2], w)), "Euler-Rodriguez: rotation about p by 2 atan |p|"); }
  if (k == 4) { double th = std::sqrt(p[0]*p[0] + p[1]*p[1] + p[2]*p[2]), s = std::sin(th/2) / th, c = std::cos(th/2); eq(C, refR(Eigen::Vector4d(s*p[0], s*p[1], s*p[2], c)), "rotation vector: rotation about p by |p|"); }
  sx_reach("end");
}
SX_ENTRY h_smatrix() { // dC C^T = sum_k dp_k [S col k]: the rate matrix maps parameter rates to angular velocity, both accessors agree
  int k = sx_param(0); V3d p = params(k); M3 S; M3 C = K(k).parametersToRotationMatrix(p, &S); M3 S2 = K(k).parametersToSMatrix(p);
  eq(S, S2, "both accessors return the same rate matrix");
  eq(C, K(k).parametersToRotationMatrix(p), "asking for the rate matrix does not change the rotation");
  Eigen::Matrix<double,9,3> J = jac<9,3>([&](const V3d& x) { M3 A = K(k).parametersToRotationMatrix(x); Eigen::Matrix<double,9,1> v; for (int i = 0; i < 9; i++) v[i] = A(i/3, i%3); return v; }, p);
  for (int j = 0; j < 3; j++) { M3 D; for (int i = 0; i < 9; i++) D(i/3, i%3) = J(i, j); V3d w = omegaOf(D * C.transpose()); for (int i = 0; i < 3; i++) sx_assert_near(S2(i, j), w[i], sx_is_symbolic() ? 0 : 1e-5, "rate matrix is the derivative of the rotation matrix"); }
  sx_reach("end");
}
SX_ENTRY h_rotjac() { // the derivative of C v is [C v]x S
  int k = sx_param(0); V3d p = params(k), v = V3("v"); M3 S = K(k).parametersToSMatrix(p); V3d u = K(k).parametersToRotationMatrix(p) * v;
  M3 X; X << 0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0; M3 E = X * S;
  M3 J = jac<3,3>([&](const V3d& x) { return V3d(K(k).parametersToRotationMatrix(x) * v); }, p);
  near(E, J, sx_is_symbolic() ? 0 : 1e-4, "derivative of the rotated vector is [C v]x S"); sx_reach("end");
}
SX_ENTRY h_omega() {
  int k = sx_param(0); V3d p = params(k), pd = V3("pd"); Eigen::Matrix<double,3,6> J;
  V3d w = K(k).angularVelocityAndJacobian(p, pd, &J); M3 S = K(k).parametersToSMatrix(p);
  eq(w, V3d(S * pd), "angular velocity is S times the parameter rate"); eq(K(k).angularVelocityAndJacobian(p, pd, 0), w, "the Jacobian is optional");
  M3 Jp = jac<3,3>([&](const V3d& x) { return K(k).angularVelocityAndJacobian(x, pd, 0); }, p);
  M3 A = J.leftCols(3), B = J.rightCols(3);
  near(A, Jp, sx_is_symbolic() ? 0 : 1e-4, "Jacobian with respect to the parameters"); eq(B, S, "Jacobian with respect to the rates"); sx_reach("end");
}
SX_ENTRY h_extract() { // Euler sequences: every rotation with the middle angle strictly inside a quarter turn
  int k = sx_param(0);
  double ca = sx_double("ca"), sa = sx_double("sa"), cb = sx_double("cb"), sb = sx_double("sb"), cc = sx_double("cc"), sc = sx_double("sc");
  sx_assume_eq(ca*ca + sa*sa, 1); sx_assume_eq(cb*cb + sb*sb, 1); sx_assume_eq(cc*cc + sc*sc, 1); sx_assume(cb > 0);
  M3 R = k == 2 ? M3(el(2, ca, sa) * el(0, cb, sb) * el(1, cc, sc)) : M3(el(2, ca, sa) * el(1, cb, sb) * el(0, cc, sc));
  eq(K(k).parametersToRotationMatrix(K(k).rotationMatrixToParameters(R)), R, "extracted parameters rebuild the matrix"); sx_reach("end");
}
SX_ENTRY h_params() { // parameters in the principal range come back
  int k = sx_param(0); V3d x = V3("x"); int mid = 1;
  for (int i = 0; i < 3; i++) { double l = i == mid ? 1.57 : 3.14; sx_assume(x[i] > -l && x[i] < l); }
  eq(K(k).rotationMatrixToParameters(K(k).parametersToRotationMatrix(x)), x, "parameters survive the round trip"); sx_reach("end");
}
// half-angle tangent t = sin/cos of a unit pair, axis u
static V3d tanParams() { V3d u = U3("u"); double c = sx_double("c"), s = sx_double("s"); sx_assume_eq(c*c + s*s, 1); sx_assume(c >= 1e-4 && s >= 1e-4); return u * (s / c); }
SX_ENTRY h_rodriguez() {
  V3d p = tanParams();
  eq(r3.rotationMatrixToParameters(r3.parametersToRotationMatrix(p)), p, "Euler-Rodriguez parameters survive the round trip"); sx_reach("end");
}
SX_ENTRY h_vector() {
  V3d u = U3("u"); double a = sx_double("a"); sx_assume(a >= 1e-4 && a <= 3.1415); sx_assume(std::sin(a) >= 1e-6); V3d p = a * u;
  eq(r4.rotationMatrixToParameters(r4.parametersToRotationMatrix(p)), p, "rotation vectors shorter than a half turn survive the round trip"); sx_reach("end");
}
SX_ENTRY h_vector_half() { // a half turn about u: either of the two opposite vectors
  V3d u = U3("u"); V3d a = r4.rotationMatrixToParameters(refR(Eigen::Vector4d(u[0], u[1], u[2], 0)));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx_assert_eq(a[i] * a[j], (M_PI * u[i]) * (M_PI * u[j]), "rotation vector of a half turn");
  sx_reach("end");
}
SX_ENTRY h_zero() { // identity
  int k = sx_param(0); V3d z = K(k).rotationMatrixToParameters(M3::Identity()); for (int i = 0; i < 3; i++) sx_assert_eq(z[i], 0, "parameters of the identity are zero");
  M3 S; eq(K(k).parametersToRotationMatrix(V3d(0, 0, 0), &S), M3(M3::Identity()), "zero parameters give the identity"); eq(S, K(k).parametersToSMatrix(V3d(0, 0, 0)), "both accessors agree at zero");
  sx_reach("end");
}
SX_ENTRY h_zero_s() { eq(r4.parametersToSMatrix(V3d(0, 0, 0)), M3(M3::Identity()), "rate matrix at zero"); eq(r4.parametersToInverseSMatrix(V3d(0, 0, 0)), M3(M3::Identity()), "inverse rate matrix at zero"); sx_reach("end"); }
SX_ENTRY h_noisy() { // a matrix whose trace is off by rounding still has finite parameters
  V3d u = U3("u"); double c = sx_double("c"), s = sx_double("s"), e = sx_double("e"); sx_assume_eq(c*c + s*s, 1); sx_assume(e >= -1e-9 && e <= 1e-9 && c >= 1e-2);
  M3 C = refR(Eigen::Vector4d(u[0]*s, u[1]*s, u[2]*s, c)); C(0,0) += e;
  V3d a = sx_param(0) ? r4.rotationMatrixToParameters(C) : r3.rotationMatrixToParameters(C);
  for (int i = 0; i < 3; i++) sx_assert_finite(a[i], "parameters of a matrix within rounding of a rotation are finite"); sx_reach("end");
}
SX_ENTRY h_inverse() { // rotation vector: S and its inverse
  V3d p = V3("p"); double n = std::sqrt(p[0]*p[0] + p[1]*p[1] + p[2]*p[2]); sx_assume(n >= 1e-4 && n <= 6.2831);
  M3 S = r4.parametersToSMatrix(p), I = r4.parametersToInverseSMatrix(p);
  eq((S * I).eval(), M3(M3::Identity()), "S times its inverse"); eq((I * S).eval(), M3(M3::Identity()), "inverse times S"); sx_reach("end");
}
SX_ENTRY h_vector_tiny() { // below the threshold
  V3d u = U3("u"); double t = sx_double("t"); sx_assume(t >= 0 && t <= 0.99e-14); V3d p = t * u; M3 S; M3 C = r4.parametersToRotationMatrix(p, &S);
  near(C, M3(M3::Identity()), 1e-13, "tiny rotation vectors give nearly the identity"); near(S, M3(M3::Identity()), 1e-13, "rate matrix of a tiny rotation vector"); sx_reach("end");
}
