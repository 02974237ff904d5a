#include "kin.h"
#include <sm/kinematics/UncertainVector.hpp>
template <int N> struct H {
  typedef UncertainVector<N> UV; typedef Eigen::Matrix<double,N,1> V; typedef Eigen::Matrix<double,N,N> M;
  static V vec(const char* n) { V v; for (int i = 0; i < N; i++) v[i] = D(n, i); return v; }
  static void chk(const UV& u, const V& m, const M& E, const char* s) { eq(u.v(), m, s); eq(u.mean(), m, s); eq(u.E(), E, s); eq(u.covariance(), E, s); }
  static void access() { V a = vec("a"), b = vec("b"); M A = cov<N>("u"), B = cov<N>("w"), Z = M::Zero(); chk(UV(), V(V::Zero()), Z, "default"); chk(UV(a), a, Z, "certain"); UV u(a, A); chk(u, a, A, "constructor"); u.setMean(b); chk(u, b, A, "setMean"); u.setCovariance(B); chk(u, b, B, "setCovariance"); UV c(u), d; d = u; chk(c, b, B, "copy"); chk(d, b, B, "assign"); u.setZero(); chk(u, V(V::Zero()), Z, "setZero"); chk(c, b, B, "copies are independent"); }
  static void arith() {
    V a = vec("a"), b = vec("b"); M A = cov<N>("u"), B = cov<N>("w"), X; for (int i = 0; i < N * N; i++) X(i / N, i % N) = D("m", i); double s = sx_double("s"), r = sx_double("r"); UV u(a, A), w(b, B); UncertainVector<1> S(s, r);
    chk(u + w, a + b, A + B, "sum"); chk(u - w, a - b, A + B, "difference"); chk(u + b, a + b, A, "sum with a certain vector"); chk(u - b, a - b, A, "difference with a certain vector"); chk(u * s, a * s, A * (s * s), "scaling"); chk(X * u, X * a, X * A * X.transpose(), "linear map");
    M P = A * (s * s) + a * a.transpose() * r; chk(u * S, a * s, P, "product with an uncertain scalar"); chk(S * u, a * s, P, "product with an uncertain scalar, scalar first"); chk(S * a, a * s, a * a.transpose() * r, "uncertain scalar times certain vector"); chk(u, a, A, "operands unchanged"); chk(w, b, B, "operands unchanged");
  }
  static void dot() {
    V a = vec("a"), b = vec("b"); M A = cov<N>("u"), B = cov<N>("w"); UV u(a, A), w(b, B); double ab = 0, e1 = 0, e2 = 0; for (int i = 0; i < N; i++) { ab += a[i] * b[i]; for (int j = 0; j < N; j++) { e1 += b[i] * A(i, j) * b[j]; e2 += a[i] * B(i, j) * a[j]; } }
    UncertainVector<1> d = u.dot(w), c = u.dot(b); sx_assert_eq(d.v(), ab, "dot mean"); sx_assert_eq(d.E(), e1 + e2, "dot covariance"); sx_assert_eq(c.v(), ab, "dot mean"); sx_assert_eq(c.E(), e1, "dot covariance, certain operand");
  }
  static void normal() {
    V a = vec("a"); M A = cov<N>("u"); sx_assume(a.squaredNorm() >= 1e-6); double n = std::sqrt(a.squaredNorm()); V y = a / n; M J = (M::Identity() - y * y.transpose()) / n; UV u(a, A); UV v = u.normalized(); eq(v.v(), y, "normalised mean"); eq(v.E(), M(J * A * J.transpose()), "normalised covariance"); chk(u, a, A, "operand unchanged"); u.normalize(); chk(u, v.v(), v.E(), "in place");
  }
  static void equal() { V a = vec("a"); M A = cov<N>("u"); UV u(a, A), v(u); sx_assert(u.isBinaryEqual(v), "copies are equal"); int i = sx_choose(N + N * N, "i"); if (i < N) { a[i] += 0.25; v.setMean(a); } else { A((i - N) / N, (i - N) % N) += 0.25; v.setCovariance(A); } sx_assert(!u.isBinaryEqual(v), "a differing coefficient makes them unequal"); }
};
#define ENT(f) SX_ENTRY h_##f() { switch (sx_param(0)) { case 2: H<2>::f(); break; case 3: H<3>::f(); break; default: H<4>::f(); } sx_reach("end"); }
ENT(access) ENT(arith) ENT(dot) ENT(normal) ENT(equal)
SX_ENTRY h_scalar() {
  double a = sx_double("a"), b = sx_double("b"), A = sx_double("u"), B = sx_double("w"), s = sx_double("s"); typedef UncertainVector<1> U1; U1 x(a, A), y(b, B); int k = sx_param(0);
  auto chk = [](const U1& u, double v, double e, const char* m) { sx_assert_eq(u.v(), v, m); sx_assert_eq(u.mean(), v, m); sx_assert_eq(u.E(), e, m); sx_assert_eq(u.covariance(), e, m); };
  if (k == 0) { chk(U1(), 0, 0, "default"); chk(U1(a), a, 0, "certain"); chk(x, a, A, "constructor"); U1 z(x); z.setMean(b); chk(z, b, A, "setMean"); z.setCovariance(B); chk(z, b, B, "setCovariance"); z = x; chk(z, a, A, "assign"); z.setZero(); chk(z, 0, 0, "setZero"); }
  if (k == 1) { chk(x + y, a + b, A + B, "sum"); chk(x - y, a - b, A + B, "difference"); chk(x + s, a + s, A, "plus certain"); chk(x - s, a - s, A, "minus certain"); double P = b * b * A + a * a * B; chk(x * y, a * b, P, "product"); chk(x.dot(y), a * b, P, "dot"); chk(x * s, a * s, s * s * A, "times certain"); chk(x.dot(s), a * s, s * s * A, "dot certain"); }
  if (k == 2) { sx_assume(b >= 1e-3 || b <= -1e-3); chk(x / y, a / b, A / (b * b) + a * a / (b * b * b * b) * B, "quotient"); chk(x / b, a / b, A / (b * b), "divided by certain"); U1 q = (x / b) * b; chk(q, a, A, "dividing and multiplying back"); }
  if (k == 3) { U1 c(x); sx_assert(x.isBinaryEqual(c), "copies are equal"); if (sx_choose(2, "i")) c.setMean(a + 0.25); else c.setCovariance(A + 0.25); sx_assert(!x.isBinaryEqual(c), "a difference makes them unequal"); }
  sx_reach("end");
}
