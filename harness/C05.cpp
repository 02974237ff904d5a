#include "sx.h"
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <sm/serialization_macros.hpp>
#include <sm/is_binary_equal.hpp>
#include <Eigen/Core>
#ifdef SX_SYMBOLIC
extern "C" int sx_opaque_numbers;
#define SX_OPAQUE sx_opaque_numbers = 1
#else
#define SX_OPAQUE (void)0
#endif
namespace {
struct Plain { int a, b; bool operator==(const Plain& o) const { return a == o.a && b == o.b; } };   // compared by ==, cannot be printed
struct Shown { int a; bool operator==(const Shown& o) const { return a == o.a; } };                   // compared by ==, can be printed
std::ostream& operator<<(std::ostream& o, const Shown& s) { return o << s.a; }
struct Own {                                                                                           // has its own comparison; == would say the opposite
  int a, b; Own(int a_ = 0, int b_ = 0) : a(a_), b(b_) {}
  bool isBinaryEqual(const Own& o) const { return SM_CHECKMEMBERSSAME(o, a) && SM_CHECKMEMBERSSAME(o, b); }
  bool operator==(const Own& o) const { return !(a == o.a && b == o.b); }
};
struct OwnV { int a, b; OwnV(int a_ = 0, int b_ = 0) : a(a_), b(b_) {} bool isBinaryEqual(const OwnV& o) const { return SM_CHECKMEMBERSSAME(o, a, true) && SM_CHECKMEMBERSSAME(o, b, false); } };
int I(const char* n) { return (int)sx_u32(n); }
template <class T> struct Gen;
template <> struct Gen<int> { static int make(const char* n) { return I(n); } static bool same(int a, int b) { return a == b; } };
template <> struct Gen<double> { static double make(const char* n) { return sx_double(n); } static bool same(double a, double b) { return a == b; } };
template <> struct Gen<Plain> { static Plain make(const char* n) { Plain p = {I(n), I(n)}; return p; } static bool same(const Plain& a, const Plain& b) { return (a.a == b.a) & (a.b == b.b); } };
template <> struct Gen<Shown> { static Shown make(const char* n) { Shown p = {I(n)}; return p; } static bool same(const Shown& a, const Shown& b) { return a.a == b.a; } };
template <> struct Gen<Own> { static Own make(const char* n) { return Own(I(n), I(n)); } static bool same(const Own& a, const Own& b) { return (a.a == b.a) & (a.b == b.b); } };
template <> struct Gen<OwnV> { static OwnV make(const char* n) { return OwnV(I(n), I(n)); } static bool same(const OwnV& a, const OwnV& b) { return (a.a == b.a) & (a.b == b.b); } };
// macros applied to variables named like the compared things, silent and verbose
template <class T> bool cs(const T& x, const T& y) { return SM_CHECKSAME(x, y); }
template <class T> bool csv(const T& x, const T& y, bool v) { return SM_CHECKSAME(x, y, v); }
template <class T> struct Box { T m; explicit Box(const T& t) : m(t) {} bool isBinaryEqual(const Box& o) const { return SM_CHECKMEMBERSSAME(o, m); } };
template <class T> struct BoxV { T m; bool v; BoxV(const T& t, bool v_) : m(t), v(v_) {} bool isBinaryEqual(const BoxV& o) const { return SM_CHECKMEMBERSSAME(o, m, v); } };
template <class T> void ways(const T& x, const T& y, bool want) { // every way of comparing x and y
  bool v = sx_param(2) != 0; SET_CHECKSAME_VERBOSITY(v);
  sx_assert(cs<T>(x, y) == want, "compares contents"); sx_assert(cs<T>(y, x) == want, "symmetric");
  sx_assert(csv<T>(x, y, true) == want, "compares contents, verbose"); sx_assert(csv<T>(x, y, false) == want, "compares contents, silent");
  Box<T> bx(x), by(y); sx_assert(cs(bx, by) == want, "object: its member decides"); sx_assert(bx.isBinaryEqual(by) == want, "own comparison");
  BoxV<T> vx(x, v), vy(y, !v); sx_assert(vx.isBinaryEqual(vy) == want, "member, given verbosity"); sx_assert(vy.isBinaryEqual(vx) == want, "symmetric, given verbosity");
  T x2(x); T& rx = x2; sx_assert(SM_CHECKSAME(rx, y) == want, "through a reference"); const T& cx = x; sx_assert(SM_CHECKSAME(y, cx) == want, "through a constant reference");
  const T kx(x); sx_assert(SM_CHECKSAME(y, kx) == want, "constant object");
}
template <class T> void values() {
  T x = Gen<T>::make("x"), y = Gen<T>::make("y"); ways<T>(x, y, Gen<T>::same(x, y)); if (Gen<T>::same(x, x)) { ways<T>(x, x, true); } sx_reach("end");
}
template <class T> void pointers() { // null, own, common pointee
  T x = Gen<T>::make("x"), y = Gen<T>::make("y"); unsigned a = sx_choose(3, "a"), b = sx_choose(3, "b"); T *p = a == 0 ? nullptr : &x, *q = b == 0 ? nullptr : b == 1 ? &y : &x; if (a == 2) p = &y;
  bool want = !p || !q ? !p && !q : Gen<T>::same(*p, *q); ways<T*>(p, q, want); const T *cp = p, *cq = q; ways<const T*>(cp, cq, want); sx_assert(sm::isBinaryEqual(cp, cq) == want, "deprecated helper"); sx_reach("end");
}
template <class T> void shared() {
  typedef boost::shared_ptr<T> P; typedef boost::shared_ptr<const T> C; P x(new T(Gen<T>::make("x"))), y(new T(Gen<T>::make("y")));
  unsigned a = sx_choose(3, "a"), b = sx_choose(3, "b"); P p = a == 0 ? P() : a == 1 ? x : y, q = b == 0 ? P() : b == 1 ? y : x;
  bool want = !p || !q ? !p && !q : Gen<T>::same(*p, *q); ways<P>(p, q, want); C cp(p), cq(q); ways<C>(cp, cq, want); sx_assert(sm::isBinaryEqual(p, q) == want, "deprecated helper"); sx_reach("end");
}
struct Deep { // everything at once
  int i; double d; Own o; Own* po; boost::shared_ptr<Own> so; Shown* ps; boost::shared_ptr<const Plain> sp; std::vector<int> v; std::string s; Eigen::Vector2d e; Box<Own*> n;
  Deep() : i(1), d(2), o(3, 4), po(nullptr), ps(nullptr), v(2, 5), s("text"), e(1, 2), n(nullptr) {}
  bool isBinaryEqual(const Deep& x) const {
    return SM_CHECKMEMBERSSAME(x, i) && SM_CHECKMEMBERSSAME(x, d) && SM_CHECKMEMBERSSAME(x, o) && SM_CHECKMEMBERSSAME(x, po) && SM_CHECKMEMBERSSAME(x, so) && SM_CHECKMEMBERSSAME(x, ps) && SM_CHECKMEMBERSSAME(x, sp)
        && SM_CHECKMEMBERSSAME(x, v) && SM_CHECKMEMBERSSAME(x, s) && SM_CHECKMEMBERSSAME(x, e) && SM_CHECKMEMBERSSAME(x, n);
  }
};
}
SX_ENTRY h_value() { SX_OPAQUE; switch (sx_param(0)) { case 0: return values<int>(); case 1: return values<double>(); case 2: return values<Plain>(); case 3: return values<Shown>(); case 4: return values<Own>(); default: return values<OwnV>(); } }
SX_ENTRY h_pointer() { SX_OPAQUE; switch (sx_param(0)) { case 0: return pointers<int>(); case 1: return pointers<double>(); case 3: return pointers<Shown>(); case 4: return pointers<Own>(); default: return pointers<OwnV>(); } }
SX_ENTRY h_shared() { SX_OPAQUE; switch (sx_param(0)) { case 0: return shared<int>(); case 1: return shared<double>(); case 3: return shared<Shown>(); case 4: return shared<Own>(); default: return shared<OwnV>(); } }
SX_ENTRY h_deep() { SX_OPAQUE; // exactly one member may differ
  Deep x, y; Own o1(1, 2), o2(I("oa"), I("ob")); Shown s1 = {7}, s2 = {I("sa")}; int k = sx_param(0); bool want = true; int f = I("f"); SET_CHECKSAME_VERBOSITY(sx_param(1) != 0);
  switch (k) { case 0: y.i = f; want = f == 1; break; case 1: y.d = sx_double("d"); want = y.d == 2; break; case 2: y.o.b = f; want = f == 4; break;
    case 3: x.po = &o1; y.po = sx_bool("z") ? &o2 : nullptr; want = y.po && (o2.a == 1) & (o2.b == 2); break; case 4: x.so.reset(new Own(1, 2)); if (sx_bool("z")) y.so.reset(new Own(o2)); want = y.so && (o2.a == 1) & (o2.b == 2); break;
    case 5: x.ps = sx_bool("z") ? &s1 : nullptr; y.ps = &s2; want = x.ps && s2.a == 7; break; case 6: x.sp.reset(new Plain{1, 2}); y.sp.reset(new Plain{1, f}); want = f == 2; break; case 7: y.v[1] = f; want = f == 5; break;
    case 8: y.s[3] = (char)f; want = (char)f == 't'; break; case 9: y.e(1) = sx_double("d"); want = y.e(1) == 2; break; case 10: x.n.m = &o1; y.n.m = sx_bool("z") ? &o2 : nullptr; want = y.n.m && (o2.a == 1) & (o2.b == 2); break; case 11: y.v.push_back(f); want = false; break; }
  sx_assert(SM_CHECKSAME(x, y) == want, "one differing member decides"); sx_assert(SM_CHECKSAME(y, x) == want, "symmetric"); sx_assert(SM_CHECKSAME(x, x) && SM_CHECKSAME(x, x, true), "reflexive"); Deep *px = &x, *py = &y; sx_assert(SM_CHECKSAME(px, py) == want, "through pointers"); sx_reach("end");
}
SX_ENTRY h_verbosity() { SX_OPAQUE; // the switch and its query
  bool a = sx_bool("a"), b = sx_bool("b"); sx_assert(SET_CHECKSAME_VERBOSITY(a), "always true"); sx_assert(IS_CHECKSAME_CURRENTLY_VERBOSE == a, "query"); int x = I("x"), y = I("y"); sx_assert(SM_CHECKSAME(x, y, b) == (x == y), "result"); sx_assert(IS_CHECKSAME_CURRENTLY_VERBOSE == b, "argument switches verbosity"); SET_CHECKSAME_SILENT; sx_assert(!IS_CHECKSAME_CURRENTLY_VERBOSE, "silent"); SET_CHECKSAME_VERBOSE; sx_assert(IS_CHECKSAME_CURRENTLY_VERBOSE, "verbose"); sx_reach("end");
}
