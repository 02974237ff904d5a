#include "sx.h"
#include "sxk.h"
#include <functional>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/NumericalDiff.hpp>
using namespace Eigen;
static double bnd(const char* n) { double d = sx_double(n); sx_assume(d >= -1000 && d <= 1000); return d; }
template <class Out, class In> static void root(const In& A) { Out S; sm::eigen::computeMatrixSqrt(A, S); int n = A.rows(); sx_assert(S.rows() == n && S.cols() == n, "the root has the size of the matrix"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double p = 0; for (int k = 0; k < n; k++) p += S(i, k) * S(j, k); sx_assert_eq(p, A(i, j), "the root times its transpose is the matrix"); } sx_reach("end"); }
template <int N> static Matrix<double, N, N> spd(int order) { // L L^T with a positive diagonal, rows permuted
  Matrix<double, N, N> L = Matrix<double, N, N>::Zero(), A; for (int i = 0; i < N; i++) { for (int j = 0; j < i; j++) L(i, j) = bnd("l"); double d = bnd("d"); sx_assume(d > 0.001); L(i, i) = d; } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double p = 0; for (int k = 0; k < N; k++) p += L(i, k) * L(j, k); A(i, j) = p; } (void)order; return A; }
SX_ENTRY h_sqrt() { switch (sx_param(0)) {
  case 0: { Matrix<double, 1, 1> A = spd<1>(0); root<Matrix<double, 1, 1>>(A); break; } case 1: { Matrix2d A = spd<2>(0); root<Matrix2d>(A); break; } case 2: { Matrix2d A = spd<2>(0); root<MatrixXd>(A); break; }
  case 3: { double s = bnd("s"); sx_assume(s > 0.001); Matrix3d A = Matrix3d::Identity() * s; root<Matrix3d>(A); break; } case 4: { Matrix3d A = Matrix3d::Zero(); for (int i = 0; i < 3; i++) { double d = bnd("d"); sx_assume(d > 0.001); A(i, i) = d; } root<Matrix3d>(A); break; }
  case 8: { Matrix2d A = Matrix2d::Zero(); double a = bnd("a"), b = bnd("b"); A << a * a, a * b, a * b, b * b; root<Matrix2d>(A); break; }
  case 5: root<Matrix3d>(Matrix3d::Identity()); break; case 6: { Matrix2d B = spd<2>(0); double d = bnd("d"); sx_assume(d >= 0); Matrix3d A = Matrix3d::Zero(); static const int P[3][3] = {{0, 1, 2}, {2, 0, 1}, {0, 2, 1}}; const int* q = P[sx_choose(3, "perm")]; A(q[0], q[0]) = B(0, 0); A(q[0], q[1]) = A(q[1], q[0]) = B(0, 1); A(q[1], q[1]) = B(1, 1); A(q[2], q[2]) = d; root<Matrix3d>(A); break; } case 7: { MatrixXd A = spd<2>(0); root<MatrixXd>(A); break; } } }
typedef std::function<VectorXd(const VectorXd&)> F;
SX_ENTRY h_linear() { int n = sx_param(0), m = sx_param(1); MatrixXd A(m, n); VectorXd b(m), x(n); for (int i = 0; i < m; i++) { b[i] = bnd("b"); for (int j = 0; j < n; j++) A(i, j) = bnd("a"); } for (int j = 0; j < n; j++) x[j] = bnd("x"); VectorXd keep = x;
  F f = [&](const VectorXd& y) { VectorXd r(m); for (int i = 0; i < m; i++) { double s = b[i]; for (int j = 0; j < n; j++) s += A(i, j) * y[j]; r[i] = s; } return r; };
  MatrixXd J = sx_param(2) ? sm::eigen::numericalDiff<VectorXd, VectorXd>(f, x, 0.001) : sm::eigen::numericalDiff<VectorXd, VectorXd>(f, x); sx_assert(J.rows() == m && J.cols() == n, "one row per output and one column per input"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sx_assert_near(J(i, j), A(i, j), 0.01, "the derivative of an affine function is its matrix"); for (int j = 0; j < n; j++) sx_assert(x[j] == keep[j], "the input is not changed"); sx_reach("end"); }
SX_ENTRY h_quadratic() { double a = bnd("a"), b = bnd("b"), c = bnd("c"); VectorXd x(2); x[0] = bnd("x"); x[1] = bnd("y"); F f = [&](const VectorXd& p) { VectorXd r(1); r[0] = a * p[0] * p[0] + b * p[0] * p[1] + c * p[1] * p[1]; return r; };
  MatrixXd J = sm::eigen::numericalDiff<VectorXd, VectorXd>(f, x, 0.01); sx_assert(J.rows() == 1 && J.cols() == 2, "one row per output and one column per input"); sx_assert_near(J(0, 0), 2 * a * x[0] + b * x[1], 0.01, "the derivative of a quadratic function is exact"); sx_assert_near(J(0, 1), b * x[0] + 2 * c * x[1], 0.01, "the derivative of a quadratic function is exact"); sx_reach("end"); }
// in floating point: matrices without full rank
SX_ENTRY h_semidefinite() { double x = sx_choose(16, "x") * 0.1, y = sx_param(0) * 0.7 + sx_choose(8, "y") * 0.1; Matrix2d A, S; A << x * x, x * y, x * y, y * y; sm::eigen::computeMatrixSqrt(A, S); for (int i = 0; i < 4; i++) sx_assert(S(i % 2, i / 2) == S(i % 2, i / 2), "the root of a semidefinite matrix is a number"); double e = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double p = S(i, 0) * S(j, 0) + S(i, 1) * S(j, 1) - A(i, j); e = p > e ? p : -p > e ? -p : e; } sx_assert(e < 1e-6, "the root times its transpose is the matrix"); sx_reach("end"); }
