#include "kin.h"
static const double PI = 3.14159265358979323846;
SX_ENTRY h_wrap() { // within half a turn and a whole number of turns away; natively the product with the number of turns is rounded
  double a = sx_double("a"); static const double B[] = {0, 100, 1e6, 1.4e10, 1e15}; int k_ = sx_param(0); sx_assume(std::fabs(a) >= B[k_] && std::fabs(a) <= B[k_ + 1]); double r = angleMod(a), t = sx_is_symbolic() ? 0 : std::fabs(a) * 4e-16; sx_assert(r >= -PI - 1e-9 - t && r <= PI + 1e-9 + t, "wrapped angle is within half a turn");
  double k = (a - r) / (2 * PI); sx_assert_near(k, std::floor(k + 0.5), sx_is_symbolic() ? 0 : 1e-9 + t, "differs by a whole number of turns"); sx_reach("end");
}
SX_ENTRY h_wrap_inside() { double a = sx_double("a"); sx_assume(a > -3.1415926 && a < 3.1415926); sx_assert_eq(angleMod(a), a, "an angle inside half a turn is unchanged"); sx_reach("end"); }
SX_ENTRY h_units() { // linear maps, mutually inverse; the library's constants carry 14 digits
  double a = sx_double("a"), b = sx_double("b"); sx_assert_near(rad2deg(deg2rad(1)), 1, 1e-13, "degrees to radians and back"); sx_assert_near(deg2rad(rad2deg(1)), 1, 1e-13, "radians to degrees and back");
  sx_assert_near(deg2rad(180), PI, 1e-12, "180 degrees"); sx_assert_near(rad2deg(PI), 180, 1e-10, "pi"); sx_assert_eq(deg2rad(a + b), deg2rad(a) + deg2rad(b), "linear"); sx_assert_eq(rad2deg(a + b), rad2deg(a) + rad2deg(b), "linear"); sx_assert_eq(deg2rad(a * b), a * deg2rad(b), "linear"); sx_assert_eq(rad2deg(a * b), a * rad2deg(b), "linear"); sx_reach("end");
}
