#include "sxk.h"
#include <iostream>
#include <algorithm>
#include <sm/timing/TimestampCorrector.hpp>
using namespace sm::timing;
typedef TimestampCorrector<double> C; static const int MAXN = 8; static double X[MAXN], Y[MAXN];
static bool tle(double a, double b) { return sx_is_symbolic() ? a <= b : a <= b + 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
static bool teq(double a, double b) { return sx_is_symbolic() ? a == b : std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
// remote times: pattern 0 is fully symbolic (gaps at least 1/1000), the others are fixed grids
static double gap(int pat, int i) { static const double G[4][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 4, 8, 16, 32, 64, 128}, {64, 8, 1, 0.125, 1, 8, 64, 1}, {1, 10, 1, 10, 1, 10, 1, 10}}; if (!pat) { double g = sxk::D("g", i); sx_assume(g >= 1e-3); return g; } return G[pat - 1][i]; }
// the line reported by the corrector is the lower-hull segment at the middle of samples lo..hi
static void check(const C& c, int lo, int hi, double ret) {
  int n = hi - lo + 1; if (n < 2) { sx_assert(c.convexHullSize() == (size_t)n, "hull of fewer than two samples"); if (n) sx_assert(ret == Y[hi], "first sample is returned as is"); sx_assert_eq(c.span(), 0, "no span yet"); return; }
  size_t h = c.convexHullSize(); sx_assert(h >= 2 && h <= (size_t)n, "hull size"); double L[MAXN];
  for (int i = lo; i <= hi; i++) { L[i] = c.getLocalTime(X[i]); sx_assert(tle(L[i], Y[i]), "no sample lies below the estimated line"); }
  double mid = X[lo] + (X[hi] - X[lo]) / 2; bool left = false, right = false;
  for (int i = lo; i <= hi; i++) { bool on = teq(L[i], Y[i]); left = left | (on & (X[i] <= mid)); right = right | (on & (X[i] >= mid)); }
  sx_assert(left & right, "the estimated line touches a sample on each side of the middle");
  if (h > 2) { sx_assert_eq(ret, L[hi], "corrected time is the line's value"); sx_assert_eq(c.span(), Y[hi] - Y[lo], "span"); } else { sx_assert_eq(ret, Y[hi], "two hull points: the sample itself"); sx_assert_eq(c.span(), 0, "no span yet"); }
  sx_assert(tle(ret, Y[hi]), "never later than the sampled local time");
  double q = sx_double("q"); sx_assert_eq(c.getSlope() * q + c.getOffset(), c.getLocalTime(q), "slope and offset describe the same line");
}
static void samples(int n, int pat) { X[0] = pat ? 0 : sx_double("x0"); for (int i = 1; i < n; i++) X[i] = X[i - 1] + gap(pat, i - 1); for (int i = 0; i < n; i++) Y[i] = sxk::D("y", i); }
SX_ENTRY h_hull() { int n = sx_param(0); samples(n, sx_param(1)); C c; double r = 0; for (int i = 0; i < n; i++) { r = c.correctTimestamp(X[i], Y[i]); if (i == n - 1) check(c, 0, i, r); } sx_reach("end"); }
SX_ENTRY h_empty() {
  C c; int n = sx_choose(3, "n"); samples(3, 1); for (int i = 0; i < n; i++) c.correctTimestamp(X[i], Y[i]); if (sx_choose(2, "reset")) { c.reset(); n = 0; } bool t1 = false, t2 = false, t3 = false; double q = sx_double("q");
  try { c.getLocalTime(q); } catch (const C::NotInitializedException&) { t1 = true; } try { c.getSlope(); } catch (const C::NotInitializedException&) { t2 = true; } try { c.getOffset(); } catch (const C::NotInitializedException&) { t3 = true; }
  sx_assert(t1 == (n < 2) && t2 == (n < 2) && t3 == (n < 2), "queries are refused before two samples are known"); sx_reach("end");
}
SX_ENTRY h_backwards() { // a sample that does not move forward is refused and changes nothing
  int n = sx_param(0); samples(n, 1); C c; double r = 0, x = sx_double("bx"), y = sx_double("by"); for (int i = 0; i < n; i++) r = c.correctTimestamp(X[i], Y[i]); sx_assume(x <= X[n - 1]); bool t = false; try { c.correctTimestamp(x, y); } catch (const C::TimeWentBackwardsException&) { t = true; }
  sx_assert(t, "time going backwards is refused"); check(c, 0, n - 1, r); sx_reach("end");
}
SX_ENTRY h_reset() { int n = sx_param(0); samples(n, 1); C c; int k = sx_choose(n, "k"); double r = 0; for (int i = 0; i < n; i++) { if (i == k) c.reset(); r = c.correctTimestamp(X[i], Y[i]); } check(c, k, n - 1, r); sx_reach("end"); }
SX_ENTRY h_periodic() { // the switching corrector: always the line of the samples since the last switch but one
  int n = sx_param(0); samples(n, sx_param(1)); double P = sx_double("P"); sx_assume(P >= 0); C c; int start = 0, pend = -1; C ref[MAXN];
  for (int i = 0; i < n; i++) {
    double r = c.correctTimestamp(X[i], Y[i], P); double e = 0; for (int k = start; k <= i; k++) if (k == start) e = ref[k].correctTimestamp(X[i], Y[i]); if (pend >= 0) ref[pend].correctTimestamp(X[i], Y[i]);
    sx_assert_eq(r, e, "the switching corrector reports the current window's estimate"); double sp = ref[start].span(); if (pend < 0 && sp > P / 2) { pend = i; ref[i].correctTimestamp(X[i], Y[i]); }
    if (sp > P) { start = pend; pend = -1; }
    sx_assert(c.convexHullSize() == ref[start].convexHullSize(), "window after switching");
  }
  sx_reach("end");
}
// ---- integer nanoseconds, bit-precise
typedef TimestampCorrector<int64_t> I;
static int64_t IX[MAXN], IY[MAXN]; static __int128 det(int a, int b, int p) { return (__int128)(IX[b] - IX[a]) * (IY[p] - IY[a]) - (__int128)(IY[b] - IY[a]) * (IX[p] - IX[a]); }
SX_ENTRY h_int() {
  static const int64_t G[5][5] = {{1, 1, 1, 1, 1}, {10000000, 10000000, 10000000, 10000000, 10000000}, {5000000000, 4000000000, 5000000000, 4000000000, 7000000000}, {1, 3600000000000, 1, 3600000000000, 1}, {86400000000000, 1000000, 1000000, 86400000000000, 5}};
  int n = sx_param(0), g = sx_param(1), bits = sx_param(2); int64_t x = 1700000000123456789L; for (int i = 0; i < n; i++) { IX[i] = x; if (i < 5) x += G[g][i]; char nm[4] = {'y', (char)('0' + i), 0}; uint64_t d = sx_u64(nm); sx_assume(d < (1ull << bits)); IY[i] = IX[i] + (int64_t)d; }
  I c; int h = 0; int st[MAXN]; // reference hull in 128-bit arithmetic, no three samples in line
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int p = b + 1; p < n; p++) sx_assume(det(a, b, p) != 0);
  for (int i = 0; i < n; i++) { if (h >= 2 && det(st[h - 2], st[h - 1], i) < 0) while (h >= 2 && det(st[h - 2], i, st[h - 1]) >= 0) h--; st[h++] = i; int64_t r = c.correctTimestamp(IX[i], IY[i]); if (h < 3) sx_assert(r == IY[i], "two hull points: the sample itself"); }
  sx_assert(c.convexHullSize() == (size_t)h, "hull of integer timestamps"); sx_assert(c.span() == (h > 2 ? IY[n - 1] - IY[0] : 0), "span"); sx_reach("end");
}
SX_ENTRY h_int_line() { // estimate for a few concrete clock rates and one late sample: bit-precise result
  static const int64_t R[3] = {0, 1000, -20000}; int64_t d = (int64_t)sx_u64("d"), rate = R[sx_choose(3, "r")], x0 = 1700000000123456789L; sx_assume(d > 0 && d < 1000000000L); I c; int late = sx_choose(4, "late"); bool big = sx_choose(2, "big"); int64_t S = big ? 3600000000000L : 10000000L;
  int64_t r = 0; for (int i = 0; i < 4; i++) { int64_t x = x0 + i * S, y = x + rate * i + 5000000000L; bool l = i == late && i != 0; if (l) y += d; r = c.correctTimestamp(x, y); int64_t line = x + rate * i + 5000000000L; if (i == 3 && !l && late == 0) { sx_assert(r - line <= 1024 && line - r <= 1024, "samples on a line are returned within double resolution"); } }
  if (late == 1 || late == 2) { int64_t q = c.getLocalTime(x0 + S), e = x0 + S + rate + 5000000000L; sx_assert(q - e <= 1024 && e - q <= 1024, "a late sample does not move the estimate"); } sx_reach("end");
}
