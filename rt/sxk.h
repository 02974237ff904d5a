// Helpers for harnesses over Eigen types in exact real arithmetic.
#pragma once
#include "sx.h"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
#include <cstdio>
#include <string>
namespace sxk {
inline double D(const char* b, int i) { char n[24]; int p = 0; while (*b) n[p++] = *b++; if (i >= 10) n[p++] = '0' + i / 10; n[p++] = '0' + i % 10; n[p] = 0; return sx_double(n); }
inline Eigen::Vector3d V3(const char* n) { double a = D(n, 0), b = D(n, 1), c = D(n, 2); return Eigen::Vector3d(a, b, c); }
inline Eigen::Vector4d V4(const char* n) { double a = D(n, 0), b = D(n, 1), c = D(n, 2), d = D(n, 3); return Eigen::Vector4d(a, b, c, d); }
inline Eigen::Vector4d UQ(const char* n) { Eigen::Vector4d q = V4(n); sx_assume_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1.0); return q; }
inline Eigen::Vector3d U3(const char* n) { Eigen::Vector3d q = V3(n); sx_assume_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2], 1.0); return q; }
template <class A, class B> void eq(const A& a, const B& b, const char* m) {
  typename A::PlainObject x = a; typename B::PlainObject y = b;
  sx_assert(x.rows() == y.rows() && x.cols() == y.cols(), m);
  for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) sx_assert_eq(x(i, j), y(i, j), m);
}
template <class A, class B> void near(const A& a, const B& b, double tol, const char* m) {
  typename A::PlainObject x = a; typename B::PlainObject y = b;
  for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) sx_assert_near(x(i, j), y(i, j), tol, m);
}
template <class A> void rotation(const A& R, const char* m) { // orthonormal, determinant one
  eq((R * R.transpose()).eval(), Eigen::Matrix3d::Identity().eval(), m);
  double d = R(0,0)*(R(1,1)*R(2,2)-R(1,2)*R(2,1)) - R(0,1)*(R(1,0)*R(2,2)-R(1,2)*R(2,0)) + R(0,2)*(R(1,0)*R(2,1)-R(1,1)*R(2,0));
  sx_assert_eq(d, 1.0, m);
}
// reference rotation matrix of a unit quaternion, independent of the library (library convention)
inline Eigen::Matrix3d refR(const Eigen::Vector4d& q) {
  double x = -q[0], y = -q[1], z = -q[2], w = q[3]; Eigen::Matrix3d R;
  R << 1 - 2*(y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w), 2*(x*y + z*w), 1 - 2*(x*x + z*z), 2*(y*z - x*w), 2*(x*z - y*w), 2*(y*z + x*w), 1 - 2*(x*x + y*y);
  return R;
}
// Jacobian of f: R^n -> R^m at x.  Symbolically: exact derivative (x must hold plain symbols).
// On replay: central differences.
template <int M, int N, class F> Eigen::Matrix<double, M, N> jac(F f, const Eigen::Matrix<double, N, 1>& x) {
  Eigen::Matrix<double, M, N> J;
  if (sx_is_symbolic()) { Eigen::Matrix<double, M, 1> y = f(x); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) J(i, j) = sx_d(y[i], x[j]); }
  else for (int j = 0; j < N; j++) { double h = 1e-5 * std::max(1e-2, x.norm()); Eigen::Matrix<double, N, 1> a = x, b = x; a[j] += h; b[j] -= h; Eigen::Matrix<double, M, 1> ya = f(a), yb = f(b); J.col(j) = (ya - yb) / (2 * h); }
  return J;
}
}
