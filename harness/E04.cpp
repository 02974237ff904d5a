// Matrix comparisons for tests (sm/eigen/gtest.hpp): the assertions of the test framework are replaced by ones that record their outcome.
#include "sx.h"
#include <cmath>
#include <cstdlib>
#include <sstream>
#include <string>
#define GOOGLETEST_INCLUDE_GTEST_GTEST_H_
#define GTEST_INCLUDE_GTEST_GTEST_H_
namespace { int g_fails = 0; struct Note { template <class T> Note& operator<<(const T&) { return *this; } Note& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } }; struct Rec { void operator=(const Note&) const { g_fails++; } }; bool closeTo(double a, double b, double t) { return std::fabs(a - b) <= t; } }
#define SXT_(c) if (c) {} else
#define ASSERT_TRUE(c) SXT_(c) return Rec() = Note()
#define ASSERT_EQ(a, b) SXT_((a) == (b)) return Rec() = Note()
#define EXPECT_EQ(a, b) SXT_((a) == (b)) Rec() = Note()
#define ASSERT_NEAR(a, b, t) SXT_(closeTo(a, b, t)) return Rec() = Note()
#define EXPECT_NEAR(a, b, t) SXT_(closeTo(a, b, t)) Rec() = Note()
#include <sm/eigen/gtest.hpp>
typedef Eigen::MatrixXd M;
static M mat(int r, int c, const char* n) { M m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sx_double(n); return m; }
static bool refNear(double a, double b, double t) { return !(std::isnan(a) || std::isnan(b) || std::isnan(a - b)) && std::fabs(a - b) <= t; }
static void size(int& r, int& c) { static const int S[6][2] = {{1, 1}, {2, 2}, {2, 1}, {1, 3}, {3, 2}, {0, 2}}; r = S[sx_param(0)][0]; c = S[sx_param(0)][1]; }
// one coefficient of the second matrix, or of both, is arbitrary; every position
SX_ENTRY h_near() {
  int r, c; size(r, c); M a(r, c), b(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a(i, j) = b(i, j) = 1.5 * i - j; double t = sx_double("t"); sx_assume(t >= 0); bool ok = true;
  if (r * c) { int k = sx_choose(r * c, "at"); double x = sx_double("x"), y = sx_double("y"); a(k / c, k % c) = x; b(k / c, k % c) = y; ok = refNear(x, y, t); }
  g_fails = 0; sm::eigen::assertNear(a, b, t, SM_SOURCE_FILE_POS, "m"); sx_assert(g_fails == !ok, "assertNear refuses exactly what is further apart than the tolerance"); g_fails = 0; sm::eigen::expectNear(a, b, t, SM_SOURCE_FILE_POS, "m"); sx_assert(g_fails == !ok, "expectNear as well"); sx_reach("end");
}
SX_ENTRY h_equal() {
  int r, c; size(r, c); M a(r, c), b(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a(i, j) = b(i, j) = 1.5 * i - j; bool ok = true, fin = true;
  if (r * c) { int k = sx_choose(r * c, "at"); double x = sx_double("x"), y = sx_double("y"); a(k / c, k % c) = x; b(k / c, k % c) = y; ok = x == y; fin = std::isfinite(x); }
  g_fails = 0; sm::eigen::assertEqual(a, b, SM_SOURCE_FILE_POS, "m"); sx_assert(g_fails == !ok, "assertEqual refuses exactly what differs"); g_fails = 0; sm::eigen::assertFinite(a, SM_SOURCE_FILE_POS, "m"); sx_assert(g_fails == !fin, "assertFinite refuses exactly what is not finite"); sx_reach("end");
}
// two differences: counted once by an assertion, each by an expectation
SX_ENTRY h_two() { M a = M::Zero(2, 2), b = M::Zero(2, 2); int k = sx_choose(4, "k"), l = sx_choose(4, "l"); a(k / 2, k % 2) = 1; b(l / 2, l % 2) = 3; g_fails = 0; sm::eigen::assertNear(a, b, 0.5, SM_SOURCE_FILE_POS); sx_assert(g_fails == 1, "one failure"); g_fails = 0; sm::eigen::expectNear(a, b, 0.5, SM_SOURCE_FILE_POS); sx_assert(g_fails == (k == l ? 1 : 2), "one failure for each coefficient"); sx_reach("end"); }
// matrices of different sizes are refused and nothing outside of them is read; params: 0..2 the assertions, 3 expectNear
SX_ENTRY h_sizes() { int k = sx_param(0); static const int S[4][2] = {{2, 2}, {1, 2}, {2, 1}, {3, 3}}; int i = sx_choose(4, "i"), j = sx_choose(4, "j"); if (k == 3) { i = 0; j = sx_param(1); } sx_assume(i != j); M a = M::Zero(S[i][0], S[i][1]), b = M::Zero(S[j][0], S[j][1]); g_fails = 0; if (k == 0) sm::eigen::assertNear(a, b, 1.0, SM_SOURCE_FILE_POS); if (k == 1) sm::eigen::assertEqual(a, b, SM_SOURCE_FILE_POS); if (k == 2) [&] { ASSERT_DOUBLE_MX_EQ(a, b, 1.0, "m"); }(); if (k == 3) sm::eigen::expectNear(a, b, 1.0, SM_SOURCE_FILE_POS); sx_assert(g_fails >= 1, "matrices of different sizes are refused"); sx_reach("end"); }
// relative comparison of finite numbers; params: the kind of numbers, their order
SX_ENTRY h_relative() {
  int k = sx_param(0); double a, b, pct = 1.0, err = -1; if (k == 0) { a = sx_double("a"); b = a; sx_assume(std::isfinite(a)); }
  else if (k == 1) { a = sx_double("a"); b = 0; sx_assume(a > -1e6 && a < 1e6); }
  else if (k == 2) { a = sx_double("a"); b = -a; sx_assume(std::isfinite(a)); }
  else { a = k == 3 ? 100 : -8; b = sx_double("b"); sx_assume(b > -1e6 && b < 1e6); }
  bool r = sx_param(1) ? sm::eigen::compareRelative(b, a, pct, &err) : sm::eigen::compareRelative(a, b, pct, &err); double fa = std::fabs(a);
  if (k == 0) sx_assert(r, "a number equals itself"); if (k == 1) sx_assert(r == (fa < 1e-6), "next to zero only small numbers are equal to zero"); if (k == 2) sx_assert(r == (fa < 1e-15), "numbers of opposite sign differ");
  if (k == 3) { if (b >= 99.01 && b <= 101.0) sx_assert(r, "within the tolerance"); if (b <= 98.99 || b >= 101.02) sx_assert(!r, "outside the tolerance"); } if (k == 4) { if (b >= -8.08 && b <= -7.93) sx_assert(r, "within the tolerance"); if (b >= -7.91 || b <= -8.09) sx_assert(!r, "outside the tolerance"); }
  sx_assert(r ? err == -1 : err > pct, "the error is reported when it is too large"); sx_reach("end");
}
// what is not a number, or infinite, is never near a finite number; param: which
SX_ENTRY h_nonfinite() { double a = sx_param(0) ? HUGE_VAL : NAN, b = sx_double("b"); sx_assume(std::isfinite(b)); sx_assert(!sm::eigen::compareRelative(a, b, 1.0) && !sm::eigen::compareRelative(b, a, 1.0), "a number that is not finite is near no finite one"); sx_reach("end"); }
// the relative matrix assertion is the comparison of every coefficient
SX_ENTRY h_matrix() { int r, c; size(r, c); M a(r, c), b(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a(i, j) = b(i, j) = 1.5 * i - j + 10; bool ok = true; if (r * c) { int k = sx_choose(r * c, "at"); double y = sx_double("y"); sx_assume(y > 0 && y < 1000); double x = a(k / c, k % c); b(k / c, k % c) = y; ok = sm::eigen::compareRelative(x, y, 2.0); } g_fails = 0; [&] { ASSERT_DOUBLE_MX_EQ(a, b, 2.0, "m"); }(); sx_assert(g_fails == !ok, "the matrix assertion is the comparison of every coefficient"); sx_reach("end"); }
// random covariances are symmetric with variances on the diagonal, positive definite by a margin
#ifdef SX_SYMBOLIC
static double eig(double lo, double hi) { static int k; char n[8] = "e"; n[1] = '0' + k / 10; n[2] = '0' + k % 10; n[3] = 0; k++; double u = sx_double(n); sx_assume(u >= 0); sx_assume(u <= 1); return lo + (hi - lo) * u; }
extern "C" __attribute__((used, noinline)) double sxmodel__ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runERKdS4_(const double& x, const double& y) { return eig(x, y); }
extern "C" __attribute__((used, noinline)) double sxmodel__ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runEv() { return eig(-1, 1); }
#else
extern "C" int rand() { static int k; char n[8] = "e"; n[1] = '0' + k / 10; n[2] = '0' + k % 10; n[3] = 0; k++; double u = sx_double(n); return (int)(u * 2147483647.0 + 0.5); }
#endif
template <class C> static void covariance(const C& U, int n) {
  double x[3], q = 0, l = 0; int z = n == 3 ? sx_choose(3, "z") : 3; for (int i = 0; i < n; i++) { if (i == z) { x[i] = 0; continue; } char m[3] = {'x', (char)('0' + i), 0}; x[i] = sx_double(m); sx_assume(x[i] >= -10 && x[i] <= 10); l += x[i] * x[i]; }
  sx_assert(U.rows() == n && U.cols() == n, "the size asked for"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { q += x[i] * U(i, j) * x[j]; sx_assert_eq(U(i, j), U(j, i), "a random covariance is symmetric"); }
  sx_assert(q >= l, "and positive definite");
}
SX_ENTRY h_covariance() { int n = sx_param(0); if (sx_param(1)) covariance(sm::eigen::randomCovarianceXd(n), n); else if (n == 1) covariance(sm::eigen::randomCovariance<1>(), 1); else if (n == 2) covariance(sm::eigen::randomCovariance<2>(), 2); else covariance(sm::eigen::randomCovariance<3>(), 3); sx_reach("end"); }
