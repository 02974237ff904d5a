// Objects of the library through an archive, and the field-wise comparison.
#include "sx.h"
#include "sxk.h"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/Id.hpp>
#include <sm/hash_id.hpp>
#include <sm/serialization_macros.hpp>
#include <boost/make_shared.hpp>
#include "memarchive.h"
#ifdef SX_SYMBOLIC
extern "C" int sx_opaque_numbers;
#define SX_OPAQUE sx_opaque_numbers = 1
#else
#define SX_OPAQUE (void)0
#endif
SM_DEFINE_ID(TestId);
using namespace sm::kinematics;
namespace {
double any() { uint64_t u = sx_u64("d"); double d; memcpy(&d, &u, 8); return d; }
// an object as the list of its numbers
struct Nums { double v[60]; int n = 0; template <class M> void m(const M& a) { for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) v[n++] = a(i, j); } };
template <class M> M take(const double*& p) { M m; for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) m(i, j) = *p++; return m; }
template <int D> struct UV { typedef UncertainVector<D> T; enum { N = D + D * D }; static void set(T& t, const double* p) { Eigen::Matrix<double, D, 1> v = take<Eigen::Matrix<double, D, 1>>(p); t.setMean(v); t.setCovariance(take<Eigen::Matrix<double, D, D>>(p)); } static void get(const T& t, Nums& n) { n.m(t.v()); n.m(t.E()); } };
template <> struct UV<1> { typedef UncertainVector<1> T; enum { N = 2 }; static void set(T& t, const double* p) { t.setMean(p[0]); t.setCovariance(p[1]); } static void get(const T& t, Nums& n) { n.v[n.n++] = t.v(); n.v[n.n++] = t.E(); } };
struct TF { typedef Transformation T; enum { N = 7 }; static void set(T& t, const double* p) { for (int i = 0; i < 4; i++) t.qptr()[i] = *p++; for (int i = 0; i < 3; i++) t.tptr()[i] = *p++; } static void get(const T& t, Nums& n) { n.m(t.q()); n.m(t.t()); } };
struct UT { typedef UncertainTransformation T; enum { N = 43 }; static void set(T& t, const double* p) { TF::set(t, p); p += 7; t.setU(take<Eigen::Matrix<double, 6, 6>>(p)); } static void get(const T& t, Nums& n) { TF::get(t, n); n.m(t.U()); } };
struct HP { typedef HomogeneousPoint T; enum { N = 4 }; static void set(T& t, const double* p) { for (int i = 0; i < 4; i++) t.pptr()[i] = *p++; } static void get(const T& t, Nums& n) { n.m(t.toHomogeneous()); } };
struct UH { typedef UncertainHomogeneousPoint T; enum { N = 20 }; static void set(T& t, const double* p) { HP::set(t, p); p += 4; t.setU(take<Eigen::Matrix4d>(p)); } static void get(const T& t, Nums& n) { HP::get(t, n); n.m(t.U4()); } };
bool bits(const Nums& a, const double* b, int n) { bool ok = a.n == n; for (int i = 0; i < n; i++) { uint64_t x, y; memcpy(&x, a.v + i, 8); memcpy(&y, b + i, 8); ok = ok & (x == y); } return ok; }
bool bytes(const MemStore& a, const MemStore& b) { if (a.n != b.n) return false; bool ok = true; for (size_t i = 0; i < a.n; i++) ok = ok & (a.b[i] == b.b[i]); return ok; }
template <class X> void round() {
  typedef typename X::T T; double v[X::N]; for (int i = 0; i < X::N; i++) v[i] = any(); T a, b; X::set(a, v); Nums na, nb; X::get(a, na); sx_assert(bits(na, v, X::N), "the object holds what it was given");
  MemStore s; { MemOut o(s); const T& c = a; o << c; o << 4711; } Nums n2; X::get(a, n2); sx_assert(bits(n2, v, X::N), "saving changes nothing");
  MemIn in(s); in >> b; int tail = 0; in >> tail; X::get(b, nb); sx_assert(bits(nb, v, X::N), "every number of the object is restored"); sx_assert(tail == 4711 && s.r == s.n, "as much is read as was written");
  MemStore z; { MemOut o(z); const T& c = b; o << c; o << 4711; } s.r = 0; sx_assert(bytes(s, z), "saving the restored object gives the same archive"); sx_reach("end");
}
template <class X> void newer() { // an archive of a newer version
  SX_OPAQUE;
  typedef typename X::T T; double v[X::N]; for (int i = 0; i < X::N; i++) v[i] = i + 0.5; T a, b; X::set(a, v); MemStore s; MemOut o(s); const T& c = a; o << c; unsigned ver = sx_u32("version"); sx_assume(ver < 0x7fffffffu); int got = 0;
  try { MemIn in(s, ver); in >> b; } catch (const std::runtime_error&) { got = 1; } sx_assert((ver > (unsigned)T::CLASS_SERIALIZATION_VERSION) == (got == 1), "exactly the archives of a newer version are refused"); if (!got) { Nums n; X::get(b, n); sx_assert(bits(n, v, X::N), "every number of the object is restored"); } sx_reach("end");
}
template <class X> void equal(int k) { // two objects that agree but for number k (-1: none)
  typedef typename X::T T; double v[X::N], w[X::N]; for (int i = 0; i < X::N; i++) v[i] = w[i] = i - 2.25; double d = any(), e = any(); if (k >= 0) { v[k] = d; w[k] = e; } T a, b; X::set(a, v); X::set(b, w); bool q = a.isBinaryEqual(b), r = b.isBinaryEqual(a); bool want = k < 0 || d == e;
  sx_assert(q == want, "two objects are equal exactly when all their numbers are"); sx_assert(r == want, "comparison is symmetric"); sx_assert(SM_CHECKSAME(a, b) == want, "the checking macro agrees with the comparison");
  T *pa = &a, *pb = &b, *nul = nullptr; sx_assert(SM_CHECKSAME(pa, pb) == want && !SM_CHECKSAME(pa, nul) && !SM_CHECKSAME(nul, pb) && SM_CHECKSAME(nul, nul), "pointers are compared by what they point to"); sx_reach("end");
}
template <class F> void each(int k, F f) { switch (k) { case 0: f(UV<1>()); break; case 1: f(UV<2>()); break; case 2: f(UV<3>()); break; case 3: f(UV<4>()); break; case 4: f(TF()); break; case 5: f(HP()); break; case 6: f(UH()); break; case 7: f(UT()); break; case 8: f(UV<6>()); break; } }
}
SX_ENTRY h_round() { each(sx_param(0), [](auto x) { round<decltype(x)>(); }); }
SX_ENTRY h_newer() { each(sx_param(0), [](auto x) { newer<decltype(x)>(); }); }
SX_ENTRY h_equal() { int k = sx_param(1); each(sx_param(0), [=](auto x) { equal<decltype(x)>(k); }); }
SX_ENTRY h_id() { uint64_t v = sx_u64("id"); TestId a(v), b; MemStore s; MemOut o(s); const TestId& c = a; o << c; MemIn in(s); in >> b; sx_assert(b.getId() == v && a == b && s.r == s.n, "an identifier is restored"); sx_reach("end"); }
// the checking macros on plain values, pointers and members
struct Rec { int a; double b; boost::shared_ptr<int> c; int* d; std::string e; bool isBinaryEqual(const Rec& rhs) const { return SM_CHECKMEMBERSSAME(rhs, a) && SM_CHECKMEMBERSSAME(rhs, b) && SM_CHECKMEMBERSSAME(rhs, c) && SM_CHECKMEMBERSSAME(rhs, d) && SM_CHECKMEMBERSSAME(rhs, e); } };
SX_ENTRY h_members() {
  Rec x, y; int i = sx_u32("i"), j = sx_u32("j"); x.a = sx_u32("a"); y.a = sx_u32("a2"); x.b = any(); y.b = any(); int p = sx_param(0); if (p & 1) x.c = boost::make_shared<int>(i); if (p & 2) y.c = boost::make_shared<int>(j); x.d = p & 4 ? &i : nullptr; y.d = p & 8 ? &j : nullptr; x.e = std::string(1, (char)sx_u8("e")); y.e = std::string(1 + sx_param(1), (char)sx_u8("e2"));
  bool pc = !x.c == !y.c && (!x.c || i == j), pd = !x.d == !y.d && (!x.d || i == j); bool want = (x.a == y.a) & (x.b == y.b) & pc & pd & (x.e.size() == y.e.size() && x.e[0] == y.e[0]);
  sx_assert(x.isBinaryEqual(y) == want, "members are compared by value, pointers by what they point to"); sx_assert(SM_CHECKSAME(x, y) == want, "the checking macro agrees with the comparison"); boost::shared_ptr<Rec> u = boost::make_shared<Rec>(x), v = boost::make_shared<Rec>(y), n; sx_assert(SM_CHECKSAME(u, v) == want && !SM_CHECKSAME(u, n) && !SM_CHECKSAME(n, v) && SM_CHECKSAME(n, n), "pointers are compared by what they point to");
  sx_assert(SM_CHECKSAME(x.a, y.a) == (x.a == y.a) && SM_CHECKSAME(x.e, y.e) == (x.e == y.e), "plain values are compared by value"); sx_reach("end");
}
