// Random numbers: ranges, seeding, vectors of draws.
#include "sx.h"
#include "sxk.h"
#include <sm/random.hpp>
#include <sm/eigen/random.hpp>
#include <vector>
#include <cmath>
namespace sr = sm::random;
struct D { uint32_t s, n, v; };
static std::vector<D> g_tab; static int g_kind = 0; static uint32_t g_layer = 0, g_step = 0;
extern "C" uint32_t sxr_draw(uint32_t s, uint32_t n) {
  for (size_t i = 0; i < g_tab.size(); i++) if ((g_tab[i].s == s) & (g_tab[i].n == n)) return g_tab[i].v;
  D d; d.s = s; d.n = n;
  if (g_kind == 0) d.v = sx_u32("draw"); else if (g_kind == 1) d.v = (uint32_t)n * g_step; else if (g_kind == 2) { uint32_t x = (uint32_t)(g_tab.size() + 1) * 2654435761u + g_layer * 40503u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; d.v = (x & ~255u) | ((x + g_layer) & 255); } else d.v = g_layer;
  g_tab.push_back(d); return d.v;
}
static const char* const RNG = "a draw lies in the half-open range it was asked for";
SX_ENTRY h_uniform() { if (sx_param(1)) sr::seed(sx_u64("seed")); double u; for (int i = 0; i < 2; i++) { u = sx_param(0) ? sr::rand() : sr::uniform(); sx_assert(u >= 0.0, RNG); sx_assert(u < 1.0, RNG); } sx_reach("end"); }
static const double LU[][2] = {{0, 1}, {-1, 1}, {1, 2}, {1, 1.0000000000000002}, {1, 1.0000000000000009}, {-1.0000000000000002, -1}, {1e16, 10000000000000002.0}, {1e9, 1e9 + 1}, {0, 5e-324}, {0, 1e-300}, {-1e300, 1e300}, {-5, -3}, {0.1, 0.3}, {-0.7, 0.1}, {0, 1e308}, {3, 3}, {-1e16, 1}, {1000000, 1000000.0000000002}};
SX_ENTRY h_lu() { int k = sx_param(0); double l = LU[k][0], u = LU[k][1]; double v = sr::randLU(l, u); sx_assert(v >= l, RNG); if (l < u) sx_assert(v < u, RNG); else sx_assert(v == l, "an empty range gives its bound"); sx_reach("end"); }
SX_ENTRY h_lu_grid() { static const double L[6] = {0, 1, -1, 1048576.5, -123.456, 1e-310}, W[4] = {1, 0.1, 1e-9, 1e6}; double l = L[sx_param(0)], u = l + W[sx_param(1)]; double v = sr::randLU(l, u); sx_assert((v >= l) & (v < u), RNG); sx_reach("end"); }
static const int32_t UI[][2] = {{0, 1}, {0, 2}, {0, 10}, {-5, 5}, {-3, -1}, {0, 2147483647}, {-2147483647 - 1, 0}, {-2147483647 - 1, 2147483647}, {-2, 2147483647}, {-2147483647 - 1, -2147483647}, {2147483646, 2147483647}, {5, 1000003}, {-1073741825, 1073741825}};
SX_ENTRY h_lui() { int k = sx_param(0); int v = sr::randLUi(UI[k][0], UI[k][1]); sx_assert((v >= UI[k][0]) & (v < UI[k][1]), RNG); sx_reach("end"); }
SX_ENTRY h_lui_grid() { static const int L[6] = {0, 1, -1, -2147483647 - 1, -17, 1000000000}; static const unsigned W[4] = {1, 6, 1000, 1147483000}; int l = L[sx_param(0)], u = (int)((unsigned)l + W[sx_param(1)]); int v = sr::randLUi(l, u); sx_assert((v >= l) & (v < u), RNG); sx_reach("end"); }
// every value of a small range is attained, and the draws spread over the range
SX_ENTRY h_attain() {
  g_kind = 1; int R = sx_param(0), lb = sx_param(1); g_step = 0x02000000u; sr::seed(1); unsigned seen = 0; double lo = 1e9, hi = -1e9; 
  for (int i = 0; i < 128; i++) seen |= 1u << (sr::randLUi(lb, lb + R) - lb);
  sx_assert(seen == (1u << R) - 1, "every integer of the range can be drawn"); sr::seed(1);
  for (int i = 0; i < 128; i++) { double v = sr::randLU(lb, lb + R); lo = v < lo ? v : lo; hi = v > hi ? v : hi; } sx_assert((lo < lb + 0.02 * R) & (hi > lb + 0.98 * R), "draws spread over the whole range"); sr::seed(1); lo = 1; hi = 0;
  for (int i = 0; i < 128; i++) { double v = sr::uniform(); lo = v < lo ? v : lo; hi = v > hi ? v : hi; } sx_assert((lo < 0.02) & (hi > 0.98), "draws spread over the whole range"); sx_reach("end");
}
// a seed determines the sequence whatever was drawn before
static double call(int k) { switch (k) { case 0: return sr::uniform(); case 1: return sr::rand(); case 2: return sr::randLU(-2, 3); case 3: return sr::randLUi(-7, 9); case 4: return sr::normal(); default: return sr::randn(); } }
SX_ENTRY h_seed() {
  int a = sx_param(0), b = sx_param(1), c = sx_param(2); bool nrm = (a > 3) | (b > 3) | (c > 3); if (nrm | ((a | b | c) > 1)) { g_kind = 2; g_layer = sx_param(3); } uint64_t s = sx_u32("seed"); int pre = sx_choose(3, "pre"); uint64_t s0 = sx_u32("first"); if (pre == 2) sr::seed(s0);
  if (pre) { int h = sx_choose(2, "h"); double p = h ? call(c) : call(0); (void)p; }
  sr::seed(s); double x = call(a), y = call(b), z = call(c); if (pre == 1) { (void)call(0); } if (pre == 2) sr::seed(s0);
  sr::seed(s); double x2 = call(a), y2 = call(b), z2 = call(c);
  sx_assert((x == x2) & (y == y2) & (z == z2), "the same seed gives the same sequence"); sx_reach("end");
}
// the seed matters, and successive draws are different ones
SX_ENTRY h_advance() { int a = sx_param(0); uint32_t s = sx_u32("seed"), t = sx_u32("other"); sx_assume(s != t); D d[4] = {{s, 0, 0x10000000u}, {s, 1, 0x20000000u}, {t, 0, 0x30000000u}, {t, 1, 0x40000000u}}; g_tab.assign(d, d + 4); sr::seed(s); double x = call(a), y = call(a); sr::seed(t); double z = call(a), w = call(a); sx_assert((x < y) & (y < z) & (z < w), "successive draws and different seeds use different numbers of the generator"); sx_reach("end"); }
SX_ENTRY h_normal() { g_kind = 2; g_layer = sx_param(0); sr::seed(3); double v = sr::normal(); sx_assert((v > -20) & (v < 20), "a normal draw is a finite number"); sr::seed(3); sx_assert(sr::randn() == v, "the two names draw from the same distribution"); sx_reach("end"); }
SX_ENTRY h_vec() { g_kind = 2; g_layer = sx_param(1); int n = sx_param(0); sr::seed(3); Eigen::VectorXd v = sm::eigen::randn(n); sx_assert(v.size() == n, "a random vector has the requested size"); sr::seed(3); for (int i = 0; i < n; i++) sx_assert(v[i] == sr::randn(), "each entry is one normal draw"); sx_reach("end"); }
