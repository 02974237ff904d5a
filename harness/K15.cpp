// Random rotations, transformations, points and vectors: valid whatever is drawn.
#include "kin.h"
#include <cstdlib>
#include <sm/kinematics/UncertainVector.hpp>
// the draws: the generator of sm_random is decided by R01; here each draw is any number of its range
static int g_draws = 0; static double g_least = 0; static double g_avoid = 2; static int g_side = 0; static int g_group = 99; // the first component of each group of draws keeps away from the value at which all of them together have no direction
static void away(int k, double u) { if (k % g_group == 0) { if (g_side) sx_assume(u >= g_avoid + 0.005); else sx_assume(u <= g_avoid - 0.005); } }
static double draw(double lo, double hi) { char n[8] = "d"; int k = g_draws++; n[1] = '0' + k / 10; n[2] = '0' + k % 10; n[3] = 0; double u = sx_double(n); sx_assume(u >= g_least); sx_assume(u < 1); return lo + (hi - lo) * u; }
namespace sm { namespace random { double randLU(double lo, double hi) { return draw(lo, hi); } double rand() { return draw(0, 1); } double uniform() { return draw(0, 1); } double g_norm() { return draw(-8, 8); } double normal() { return g_norm(); } double randn() { return g_norm(); } } }
#ifdef SX_SYMBOLIC
static double eig(double lo, double hi) { char n[8] = "e"; static int k; n[1] = '0' + k / 10; n[2] = '0' + k % 10; n[3] = 0; double u = sx_double(n); sx_assume(u >= 0); sx_assume(u <= 1); away(k++, u); return lo + (hi - lo) * u; }
extern "C" __attribute__((used, noinline)) double sxmodel__ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runERKdS4_(const double& x, const double& y) { return eig(x, y); }
extern "C" __attribute__((used, noinline)) double sxmodel__ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runEv() { return eig(-1, 1); }
#else
extern "C" int rand() { static int k; char n[8] = "e"; n[1] = '0' + k / 10; n[2] = '0' + k % 10; n[3] = 0; k++; double u = sx_double(n); return (int)(u * 2147483647.0 + 0.5); }
#endif
template <class M> static void symmetric(const M& U, const char* m) { for (int i = 0; i < U.rows(); i++) { sx_assert(U(i, i) >= 0, m); for (int j = 0; j < i; j++) sx_assert_eq(U(i, j), U(j, i), m); } }
// no variance of a sum or difference of two components is negative
template <class M> static void nonnegative(const M& U, const char* m) { int n = U.rows(), i = sx_choose(n, "i"), j = sx_choose(n, "j"); sx_assume(i < j); double p = U(i, i) + U(j, j), q = U(i, j) + U(j, i); sx_assert(p + q >= 0, m); sx_assert(p - q >= 0, m); }
static void valid(const Transformation& T) { V4d q = T.q(); sx_assert_eq(q.dot(q), 1, "a random rotation is a unit quaternion"); }
SX_ENTRY h_quat() { g_avoid = .75; g_side = sx_param(0); V4d q = quatRandom(); sx_assert_eq(q.dot(q), 1, "a random quaternion has unit norm"); sx_reach("end"); }
SX_ENTRY h_transformation() { g_avoid = .75; g_side = sx_param(0); Transformation T; T.setRandom(); valid(T); for (int i = 0; i < 3; i++) sx_assert(T.t()[i] >= -150 && T.t()[i] <= 150, "the translation is bounded"); sx_reach("end"); }
// not further and not rotated by more than asked for; params: 1 rotation, 0 translation; uncertain
SX_ENTRY h_bounded() {
  g_avoid = .75; g_side = sx_param(2); g_group = 3; if (sx_param(0)) g_least = 0.15; // from an angle where the exponential is in closed form
  double tm = sx_double("tm"), rm = sx_double("rm"); sx_assume(tm >= 1e-3); sx_assume(tm <= 1e6); sx_assume(rm >= 1e-3); sx_assume(rm <= 3);
  Transformation T; UncertainTransformation U; if (sx_param(1)) { U.setRandom(tm, rm); T = U.toTransformation(); } else T.setRandom(tm, rm);
  if (sx_param(0) == 0) { V3d t = T.t(); sx_assert(t.dot(t) <= tm * tm, "the translation is not longer than asked for"); }
  if (sx_param(0) == 1) { valid(T); }
  if (sx_param(0) == 2) { V3d v = T.q().head<3>(); sx_assert(v.dot(v) <= rm * rm / 4, "the rotation is not larger than asked for"); } // the sine of half the angle is at most half the largest angle
  sx_reach("end");
}
SX_ENTRY h_uncertain() { g_avoid = .75; g_side = sx_param(0); UncertainTransformation T; T.setRandom(); valid(T); symmetric(T.U(), "the covariance is symmetric with variances on the diagonal"); sx_reach("end"); }
SX_ENTRY h_points() { g_avoid = .5; g_side = sx_param(0); HomogeneousPoint p; p.setRandom(); V4d h = p.toHomogeneous(); sx_assert_eq(h.dot(h), 1, "a random point has unit norm"); sx_reach("end"); }
SX_ENTRY h_points2() { g_avoid = .5; g_side = sx_param(0); UncertainHomogeneousPoint u; u.setRandom(); V4d h = u.toHomogeneous(); sx_assert_eq(h.dot(h), 1, "a random uncertain point has unit norm"); symmetric(u.U4(), "its covariance is symmetric with variances on the diagonal"); sx_reach("end"); }
SX_ENTRY h_nonnegative() { int k = sx_param(0); g_avoid = .75; const char* m = "the covariance has no negative variance in any direction"; if (k == 0) { UncertainTransformation T; T.setRandom(); nonnegative(T.U(), m); } if (k == 1) { g_group = 3; g_least = 0.15; UncertainTransformation T; T.setRandom(1, 1); nonnegative(T.U(), m); } if (k == 2) { UncertainHomogeneousPoint u; u.setRandom(); nonnegative(u.U4(), m); } if (k == 3) { UncertainVector<3> v; v.setRandom(); nonnegative(v.covariance(), m); } sx_reach("end"); }
SX_ENTRY h_vectors() { UncertainVector<3> v; v.setRandom(); symmetric(v.covariance(), "a random vector's covariance is symmetric with variances on the diagonal"); UncertainVector<1> s; s.setRandom(); sx_assert(s.covariance() >= 0, "a random scalar's variance is not negative"); sx_reach("end"); }
