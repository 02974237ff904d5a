#include "sx.h"
#include <cmath>
#include <limits>
#include <stdexcept>
#include <sm/numerical_comparisons.hpp>
#include <sm/round.hpp>
#include <sm/maths.hpp>
// ---- tolerant comparisons, exact real arithmetic: the documented definitions
SX_ENTRY h_def() {
  double a = sx_double("a"), b = sx_double("b"), e = sx_double("e"); sx_assume(a <= 1e12 && a >= -1e12 && b <= 1e12 && b >= -1e12 && e <= 1e3); int k = sx_param(0); double A = a < 0 ? -a : a, B = b < 0 ? -b : b, m = A > B ? A : B;
  bool threw = false, r = false; try { r = k == 0 ? sm::approximatelyEqual(a, b, e) : k == 1 ? sm::definitelyGreaterThan(a, b, e) : sm::definitelyLessThan(a, b, e); } catch (const std::invalid_argument&) { threw = true; }
  if (e <= 0) { sx_assert(threw, "a non-positive tolerance is refused"); sx_reach("end"); return; } sx_assert(!threw, "a positive tolerance is accepted"); double d = a - b; bool gt = d > m * e, lt = -d > m * e;
  sx_assert(r == (k == 0 ? !(gt || lt) : k == 1 ? gt : lt), "documented definition"); sx_reach("end");
}
SX_ENTRY h_def_default() { // default tolerance is the type's precision
  double a = sx_double("a"), b = sx_double("b"); sx_assume(a <= 1e12 && a >= -1e12 && b <= 1e12 && b >= -1e12); double e = std::numeric_limits<double>::epsilon(); sx_assert(sm::approximatelyEqual(a, b) == sm::approximatelyEqual(a, b, e), "default tolerance (equal)"); sx_assert(sm::definitelyGreaterThan(a, b) == sm::definitelyGreaterThan(a, b, e), "default tolerance (greater)"); sx_assert(sm::definitelyLessThan(a, b) == sm::definitelyLessThan(a, b, e), "default tolerance (less)"); sx_reach("end"); }
// ---- bit-precise: every pair of finite numbers is exactly one of less, equal, greater
template <class T> static void trio(T a, T b, T e, int order) {
  T A = std::fabs(a), B = std::fabs(b); if (order == 0) { sx_assume(A < B); sx_assume(!(B < A)); } else if (order == 1) { sx_assume(B < A); sx_assume(!(A < B)); } else { sx_assume(A == B); sx_assume(!(A < B)); sx_assume(!(B < A)); }
  bool q = sm::approximatelyEqual(a, b, e), g = sm::definitelyGreaterThan(a, b, e), l = sm::definitelyLessThan(a, b, e);
  sx_assert(q + g + l == 1, "exactly one of approximately equal, greater, less"); sx_assert(sm::approximatelyEqual(b, a, e) == q, "approximate equality is symmetric"); sx_assert(sm::definitelyLessThan(b, a, e) == g, "less mirrors greater"); sx_assert(!g | (a > b), "greater implies larger"); sx_assert(!l | (a < b), "less implies smaller"); sx_assert(q | (a != b), "equal numbers are approximately equal"); sx_reach("end");
}
SX_ENTRY h_trio_f() { static const float E[4] = {1.1920929e-07f, 0.01f, 1.0f, 3e38f}; float a = sx_float("a"), b = sx_float("b"); sx_assume(std::isfinite(a) & std::isfinite(b)); trio(a, b, E[sx_param(0)], sx_param(1)); }
SX_ENTRY h_trio_d() { static const double E[4] = {2.220446049250313e-16, 0.01, 1.0, 1e308}; double a = sx_double("a"), b = sx_double("b"); sx_assume(std::isfinite(a) & std::isfinite(b)); trio(a, b, E[sx_param(0)], sx_param(1)); }
// ---- rounding
template <class T> static void rnd(T x) { T r = sm::round(x); sx_assert(std::trunc(r) == r, "result is an integer"); T d = r - x, D = d < 0 ? -d : d; sx_assert(D <= T(0.5), "nearest integer"); sx_assert(!(D == T(0.5)) | (std::fabs(r) > std::fabs(x)), "halves are rounded away from zero"); sx_reach("end"); }
SX_ENTRY h_round_d() { double x = sx_double("x"); sx_assume(std::isfinite(x)); rnd(x); }
SX_ENTRY h_round_f() { float x = sx_float("x"); sx_assume(std::isfinite(x)); rnd(x); }
SX_ENTRY h_rint_d() { double x = sx_double("x"); sx_assume((x <= 2147483647.0) & (x >= -2147483648.0)); sx_assert((double)sm::rint(x) == std::round(x), "int result"); sx_reach("end"); }
SX_ENTRY h_rint_f() { float x = sx_float("x"); sx_assume((x <= 2147483520.0f) & (x >= -2147483648.0f)); sx_assert((float)sm::rint(x) == std::round(x), "int result"); sx_reach("end"); }
SX_ENTRY h_lrint_d() { double x = sx_double("x"); sx_assume((x <= 9223372036854774784.0) & (x >= -9223372036854775808.0)); sx_assert((double)sm::lrint(x) == std::round(x), "long result"); sx_reach("end"); }
SX_ENTRY h_lrint_f() { float x = sx_float("x"); sx_assume((x <= 9223371487098961920.0f) & (x >= -9223372036854775808.0f)); sx_assert((float)sm::lrint(x) == std::round(x), "long result"); sx_reach("end"); }
// ---- sign
SX_ENTRY h_sgn() {
  int i = (int)sx_u32("i"); sx_assert(sm::sgn(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "int"); int64_t l = (int64_t)sx_u64("l"); sx_assert(sm::sgn(l) == (l > 0 ? 1 : l < 0 ? -1 : 0), "long"); uint32_t u = sx_u32("u"); sx_assert(sm::sgn(u) == (u ? 1 : 0), "unsigned"); int8_t c = (int8_t)sx_u8("c"); sx_assert(sm::sgn(c) == (c > 0 ? 1 : c < 0 ? -1 : 0), "char");
  double d = sx_double("d"); sx_assert(sm::sgn(d) == (d > 0 ? 1 : d < 0 ? -1 : 0), "double"); float f = sx_float("f"); sx_assert(sm::sgn(f) == (f > 0 ? 1 : f < 0 ? -1 : 0), "float"); sx_reach("end");
}
// ---- quadratics
SX_ENTRY h_quadratic() {
  double a = sx_double("a"), b = sx_double("b"), c = sx_double("c"); sx_assume((a >= 1e-3 || a <= -1e-3) && a <= 1e3 && a >= -1e3 && b >= -1e3 && b <= 1e3 && c >= -1e3 && c <= 1e3); int s = sx_param(0); if (s == 0) sx_assume(b * b - 4 * a * c < 0); else sx_assume(b * b - 4 * a * c >= 0);
  if (s == 2) { sx_assume(b == 0); sx_assume(c == 0); } else if (s == 1) sx_assume(!(b == 0) || !(c == 0)); bool threw = false; std::pair<double, double> r(0, 0); try { r = sm::solveQuadratic(a, b, c); } catch (const std::runtime_error&) { threw = true; }
  sx_assert(threw == (s == 0), "refused exactly when the roots are complex"); if (threw) { sx_reach("end"); return; }
  sx_assert_finite(r.first, "first root is a number"); sx_assert_finite(r.second, "second root is a number"); sx_assert_eq(a * (r.first + r.second), -b, "sum of the roots"); sx_assert_eq(a * r.first * r.second, c, "product of the roots"); sx_reach("end");
}
