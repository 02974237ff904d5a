#include "sx.h"
#include <string>
#include <cstring>
#include <cmath>
#include <stdexcept>
#include <sm/assert_macros.hpp>
#ifdef SX_SYMBOLIC
extern "C" int sx_opaque_numbers;
#define SX_OPAQUE sx_opaque_numbers = 1
#else
#define SX_OPAQUE (void)0
#endif
namespace c04 { // one namespace per variant: the macros differ
namespace NS {
using std::isfinite; using std::isnan;
SM_DEFINE_EXCEPTION(Boom, std::runtime_error);
static std::string num(int v) { char b[12]; int p = 12; do { b[--p] = '0' + v % 10; v /= 10; } while (v); return std::string(b + p, 12 - p); }
static void where(const char* w, int line, const char* fn) { std::string s(w); sx_assert(s.find(std::string(FILE_ ":") + num(line) + ": " + fn + "()") != std::string::npos, "message names file, line and function"); sx_assert(s.find("Boom") != std::string::npos, "message names the exception"); sx_assert(s.size() >= 4 && s.compare(s.size() - 4, 4, "note") == 0, "message ends with the user's text"); }
#define CK(name, cond, ...) { bool want = !(cond), th = false, other = false; try { name(Boom, __VA_ARGS__, "no" << "te"); } catch (const Boom& e) { th = true; where(e.what(), __LINE__, __FUNCTION__); } catch (...) { other = true; } sx_assert(!other, #name " throws only the requested type"); sx_assert(th == (want && ACTIVE), #name " throws exactly when its condition fails"); }
template <class T> static void order(T v, T a, T b) {
  CK(M(SM_ASSERT_LT), v < a, v, a) CK(M(SM_ASSERT_LE), v <= a, v, a) CK(M(SM_ASSERT_GT), v > a, v, a) CK(M(SM_ASSERT_GE), v >= a, v, a)
  CK(M(SM_ASSERT_GE_LT), v >= a && v < b, v, a, b) CK(M(SM_ASSERT_GT_LE), v > a && v <= b, v, a, b) CK(M(SM_ASSERT_GE_LE), v >= a && v <= b, v, a, b)
}
template <class T> static void equal(T v, T a) { CK(M(SM_ASSERT_EQ), v == a, v, a) CK(M(SM_ASSERT_NE), v != a, v, a) }
template <class T> static void sign(T v) { CK(M(SM_ASSERT_POSITIVE), v > 0, v) CK(M(SM_ASSERT_NONNEGATIVE), v >= 0, v) CK(M(SM_ASSERT_NEGATIVE), v < 0, v) CK(M(SM_ASSERT_NONPOSITIVE), v <= 0, v) CK(M(SM_ASSERT_ZERO), v == 0, v) }
template <class T> static void run(T v, T a, T b) { int k = sx_param(1); if (k == 0) order<T>(v, a, b); else if (k == 1) equal<T>(v, a); else sign<T>(v); }
static void all() {
  SX_OPAQUE; int k = sx_param(0);
  if (k == 0) { int v = (int)sx_u32("v"), a = (int)sx_u32("a"), b = (int)sx_u32("b"); if (sx_param(1) == 2) sx_assume((v < 4) & (v > -4)); run<int>(v, a, b); }
  else if (k == 1) { unsigned v = sx_u32("v"), a = sx_u32("a"), b = sx_u32("b"); if (sx_param(1) == 2) sx_assume(v < 4); run<unsigned>(v, a, b); }
  else if (k == 2) { double v = sx_double("v"), a = sx_double("a"), b = sx_double("b"); if (sx_param(1) != 1) sx_assume((v == v) & (a == a) & (b == b)); run<double>(v, a, b); }
  else if (k == 3) { float v = sx_float("v"), a = sx_float("a"), b = sx_float("b"); if (sx_param(1) != 1) sx_assume((v == v) & (a == a) & (b == b)); run<float>(v, a, b); }
  else if (k == 4) { bool c = sx_bool("c"); CK(M(SM_ASSERT_TRUE), c, c) CK(M(SM_ASSERT_FALSE), !c, c) int x = 3; int* p = c ? &x : nullptr; CK(M(SM_ASSERT_NOTNULL), c, p) }
  else if (k == 5) { double v = sx_double("v"); bool nan = v != v, inf = std::fabs(v) > 1.7976931348623157e308; CK(M(SM_ASSERT_FINITE), !nan && !inf, v) CK(M(SM_ASSERT_NOTNAN), !nan, v) float f = sx_float("f"); CK(M(SM_ASSERT_NOTNAN), f == f, f) CK(M(SM_ASSERT_FINITE), std::fabs(f) <= 3.4028234663852886e38f, f) }
  else if (k == 6) { double v = sx_double("v"), t = sx_double("t"), e = sx_double("e"); CK(M(SM_ASSERT_NEAR), std::fabs(t - v) <= std::fabs(e), v, t, e) }
  else { int n = 0; bool c = sx_bool("c"); try { M(SM_ASSERT_TRUE)(Boom, (n++, c), "") M(SM_ASSERT_GE)(Boom, (n++, 1), 0, "") } catch (const Boom&) {} sx_assert(n == (ACTIVE ? c ? 2 : 1 : 0), "operands are evaluated once when checked and not at all otherwise"); bool t = false; try { THROW_(Boom, "no" << "te"); } catch (const Boom& e) { t = true; } catch (...) { } sx_assert(t == (THROWS), "unconditional throw"); }
  sx_reach("end");
}
} }
