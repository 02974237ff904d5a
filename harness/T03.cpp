#include "sxk.h"
#include <sstream>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <map>
#include <vector>
#include <unordered_map>
#include <boost/thread/mutex.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <sys/time.h>
#include <time.h>
#define private public
#include <sm/timing/Timer.hpp>
#undef private
using namespace sm::timing;
// the clock: readings come from the harness (microseconds since an arbitrary instant)
static int64_t g_base = 1700000000; static int64_t g_now = 0; static bool g_split = false; static int64_t g_sec = 0, g_usec = 0; static int g_reads = 0;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { g_reads++; if (g_split) { tv->tv_sec = g_base + g_sec; tv->tv_usec = g_usec; return 0; } tv->tv_sec = g_base + g_now / 1000000; tv->tv_usec = g_now % 1000000; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept { g_reads++; if (g_split) { ts->tv_sec = g_base + g_sec; ts->tv_nsec = g_usec * 1000; return 0; } ts->tv_sec = g_base + g_now / 1000000; ts->tv_nsec = g_now % 1000000 * 1000; return 0; }
static struct tm* civil(const time_t* t, struct tm* r) noexcept { // UTC
  int64_t d = *t / 86400, s = *t % 86400; memset(r, 0, sizeof *r); r->tm_hour = (int)(s / 3600); r->tm_min = (int)(s / 60 % 60); r->tm_sec = (int)(s % 60);
  d += 719468; int64_t era = d / 146097; unsigned doe = (unsigned)(d - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; r->tm_mday = doy - (153 * mp + 2) / 5 + 1; int m = mp < 10 ? mp + 3 : mp - 9; r->tm_mon = m - 1; r->tm_year = (int)(y + (m <= 2)) - 1900; return r; }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* r) noexcept { return civil(t, r); }
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept { return civil(t, r); }
// formatted output: numbers handed to the formatter
static int64_t f_i[4]; static double f_d[4]; static int f_ni = 0, f_nd = 0;
static int capture(char* b, const char* f, va_list ap) { f_ni = f_nd = 0; for (; *f; f++) if (*f == '%') { f++; int lng = 0; while (*f && !strchr("difeg%s", *f)) { if (*f == 'l') lng = 1; f++; } if (*f == '%') continue; if (strchr("di", *f)) { int64_t v = lng ? va_arg(ap, long) : va_arg(ap, int); if (f_ni < 4) f_i[f_ni] = v; f_ni++; } else if (strchr("feg", *f)) { double v = va_arg(ap, double); if (f_nd < 4) f_d[f_nd] = v; f_nd++; } else { f_ni = 99; return 0; } } b[0] = 'x'; b[1] = 0; return 1; }
#ifdef SX_SYMBOLIC
extern "C" int sprintf(char* b, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = capture(b, f, ap); va_end(ap); return r; }
extern "C" int snprintf(char* b, size_t, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = capture(b, f, ap); va_end(ap); return r; }
#endif
static const char* TAG[4] = {"a", "bb", "a ", ""};
SX_ENTRY h_handles() { // same tag <-> same handle
  int n = sx_param(0); size_t H[8]; int T[8]; for (int i = 0; i < n; i++) { T[i] = sx_choose(4, "t"); H[i] = Timing::getHandle(TAG[T[i]]); for (int j = 0; j < i; j++) sx_assert((H[i] == H[j]) == (T[i] == T[j]), "handles identify tags"); }
  for (int i = 0; i < n; i++) { sx_assert(Timing::getTag(H[i]) == TAG[T[i]], "handle maps back to its tag"); sx_assert(Timing::getNumSamples(H[i]) == 0, "no samples yet"); }
  bool t = false; try { Timing::getTag(n + 3); } catch (const TimerException&) { t = true; } sx_assert(t, "unknown handle is refused"); sx_reach("end");
}
SX_ENTRY h_bad_handle() {
  Timing::getHandle("x"); static const size_t HS[4] = {1, 2, 1ull << 32, ~0ull}; size_t h = HS[sx_choose(4, "h")]; int k = sx_choose(9, "k"); bool t = false;
  try { switch (k) { case 0: Timing::getTotalSeconds(h); break; case 1: Timing::getMeanSeconds(h); break; case 2: Timing::getNumSamples(h); break; case 3: Timing::getVarianceSeconds(h); break; case 4: Timing::getMinSeconds(h); break; case 5: Timing::getMaxSeconds(h); break; case 6: Timing::getHz(h); break; case 7: Timing::reset(h); break; default: { Timer x(h); } } } catch (const TimerException&) { t = true; }
  sx_assert(t, "a handle that was never issued is refused"); sx_assert(Timing::getNumSamples("x") == 0, "nothing recorded"); sx_reach("end");
}
// statistics of arbitrary intervals over two tags, in any interleaving
SX_ENTRY h_stats() {
  int n = sx_param(0), mask = sx_param(1), which = sx_param(2); size_t h[2] = {Timing::getHandle("p"), Timing::getHandle("q")}; std::vector<double> V[2];
  for (int i = 0; i < n; i++) { double d = sxk::D("d", i); sx_assume(d >= 0 && d <= 1e12); int t = mask >> i & 1; Timing::instance().addTime(h[t], d); V[t].push_back(d); }
  if (which) { int r = which - 1; if (r) Timing::reset(r ? "q" : "p"); else Timing::reset(h[r]); V[r].clear(); sx_assert(Timing::getHandle("p") == h[0] && Timing::getHandle("q") == h[1], "handles survive a reset"); double d = sx_double("e"); sx_assume(d >= 0 && d <= 1e12); Timing::instance().addTime(h[r], d); V[r].push_back(d); }
  for (int t = 0; t < 2; t++) {
    size_t c = V[t].size(); const char* nm = t ? "q" : "p"; sx_assert(Timing::getNumSamples(h[t]) == c && Timing::getNumSamples(nm) == c, "number of samples"); double s = 0, q = 0; for (double d : V[t]) { s += d; q += d * d; }
    sx_assert_eq(Timing::getTotalSeconds(h[t]), s, "total"); sx_assert_eq(Timing::getTotalSeconds(nm), s, "total by tag"); if (!c) continue;
    sx_assert_eq(Timing::getMeanSeconds(h[t]), s / c, "mean"); sx_assert_eq(Timing::getMeanSeconds(nm), s / c, "mean by tag"); sx_assert_eq(Timing::getVarianceSeconds(h[t]), q / c - (s / c) * (s / c), "variance"); sx_assert_eq(Timing::getVarianceSeconds(nm), q / c - (s / c) * (s / c), "variance by tag");
    double mn = Timing::getMinSeconds(h[t]), mx = Timing::getMaxSeconds(h[t]); bool a = false, b = false; for (double d : V[t]) { sx_assert(mn <= d && d <= mx, "minimum and maximum bound the samples"); a = a | (mn == d); b = b | (mx == d); } sx_assert(a & b, "minimum and maximum are samples"); sx_assert_eq(Timing::getMinSeconds(nm), mn, "minimum by tag"); sx_assert_eq(Timing::getMaxSeconds(nm), mx, "maximum by tag");
    if (c < 50) { sx_assume(s >= 1e-6); sx_assert_eq(Timing::getHz(h[t]), c / s, "rate"); sx_assert_eq(Timing::getHz(nm), c / s, "rate by tag"); }
  }
  sx_reach("end");
}
SX_ENTRY h_rolling() { // the rate is taken over the latest 50 intervals
  size_t h = Timing::getHandle("p"); double s = 0; int n = sx_param(0); double x = sx_double("x"); sx_assume(x >= 4 && x <= 1000); for (int i = 0; i < n; i++) { double d = i == sx_param(1) ? x : 1 + i % 3; Timing::instance().addTime(h, d); if (i >= n - 50) s += d; }
  sx_assert_eq(Timing::getHz(h), (n < 50 ? n : 50) / s, "rate over the latest 50"); sx_assert(Timing::getNumSamples(h) == (size_t)n, "number of samples"); sx_reach("end");
}
// histories of one timer object
SX_ENTRY h_history() {
  int n = sx_param(0); size_t h = Timing::getHandle("p"), o = Timing::getHandle("q"); bool stopped = sx_choose(2, "stopped"); bool byTag = sx_choose(2, "bytag"); size_t cnt = 0; int64_t since = 0, total = 0; double exp = 0; bool run = !stopped; (void)total; g_now = 999000; since = g_now;
  { Timer t = byTag ? Timer(std::string("p"), stopped) : Timer(h, stopped);
    for (int i = 0; i < n; i++) {
      g_now += 1000 + 700 * i; int op = sx_choose(3, "op"); bool thrown = false; sx_assert(t.isTiming() == run, "running flag");
      try { if (op == 0) t.start(); else if (op == 1) t.stop(); } catch (const TimerException&) { thrown = true; }
      if (op == 0) { sx_assert(thrown == run, "starting a running timer is refused"); if (!run) { run = true; since = g_now; } }
      if (op == 1) { sx_assert(thrown == !run, "stopping a stopped timer is refused"); if (run) { run = false; cnt++; exp += (double)((g_now - since) * 1000) * 1e-9; } }
      sx_assert(Timing::getNumSamples(h) == cnt && Timing::getTotalSeconds(h) == exp, "one interval per stop");
    }
    g_now += 5000000; if (run) { cnt++; exp += (double)((g_now - since) * 1000) * 1e-9; } }
  sx_assert(Timing::getNumSamples(h) == cnt && Timing::getTotalSeconds(h) == exp, "a running timer is recorded when it goes away, a stopped one is not"); sx_assert(Timing::getNumSamples(o) == 0, "other tags are untouched"); sx_reach("end");
}
static double g_dt[4]; static size_t g_h[4]; static int g_n = 0; // executor only: what the timer hands to the accumulator
extern "C" __attribute__((used)) void sxonly_h_elapsed__ZN2sm6timing6Timing7addTimeEmd(void*, size_t h, double d) { if (g_n < 4) { g_dt[g_n] = d; g_h[g_n] = h; } g_n++; }
static double last(size_t h) { if (!sx_is_symbolic()) { g_n = Timing::getNumSamples(h); return Timing::getMaxSeconds(h); } sx_assert(g_h[g_n - 1] == h, "recorded under the timer's tag"); return g_dt[g_n - 1]; }
SX_ENTRY h_elapsed() { // the interval recorded is the difference of the two clock readings, whatever they are
  static const int64_t S0[5] = {0, 3599, 86399, 0, 5}, S1[5] = {0, 3600, 86400, 2678400, 6}; int i = sx_param(0); g_split = true; int64_t u0 = sx_u32("u0"), u1 = sx_u32("u1"); sx_assume(u0 < 1000000 && u1 < 1000000); sx_assume(i || u1 >= u0);
  Timing::getHandle("o"); size_t h = Timing::getHandle("p"); { Timer t("p", true); g_sec = S0[i]; g_usec = u0; t.start(); g_sec = S1[i]; g_usec = u1; if (sx_param(1)) t.stop(); else t.~Timer(); double s = last(h), e = (double)(((S1[i] - S0[i]) * 1000000 + u1 - u0) * 1000) * 1e-9; sx_assert(g_n == 1, "one interval"); sx_assert(s == e, "elapsed time"); if (!sx_param(1)) new (&t) Timer("p", true); } sx_assert(g_n == 1, "no further interval"); sx_reach("end");
}
SX_ENTRY h_nested() { // two timers on one tag and one on another
  size_t h = Timing::getHandle("p"), o = Timing::getHandle("q"); int ord = sx_choose(4, "ord"); g_now = 10; { Timer a("p"); g_now += 1000; Timer b(h); g_now += 20000; Timer c("q"); g_now += 300000; if (ord & 1) a.stop(); g_now += 4000000; if (ord & 2) b.stop(); g_now += 50000000; }
  double ea = ord & 1 ? .321 : 54.321, eb = ord & 2 ? 4.32 : 54.32, ec = 54.3; auto nr = [](double x, double y) { return x - y < 1e-9 && y - x < 1e-9; };
  sx_assert(Timing::getNumSamples(h) == 2 && nr(Timing::getTotalSeconds(h), ea + eb) && nr(Timing::getMaxSeconds(h), ea > eb ? ea : eb) && nr(Timing::getMinSeconds(h), ea > eb ? eb : ea), "two timers on one tag"); sx_assert(Timing::getNumSamples(o) == 1 && nr(Timing::getTotalSeconds(o), ec), "timer on another tag"); sx_reach("end");
}
SX_ENTRY h_string() { // hours, minutes and seconds add up
  static const double B[6] = {0, 59.5, 3599, 86399, 359990, 3599999}; double s = sx_double("s"), lo = B[sx_param(0)]; sx_assume(s >= lo && s < lo + sx_param(1)); std::string r = Timing::secondsToTimeString(s); int64_t H, M; double S;
  if (sx_is_symbolic()) { sx_assert(f_ni == 2 && f_nd == 1, "three numbers"); H = f_i[0]; M = f_i[1]; S = f_d[0]; } else { int a, b; if (sscanf(r.c_str(), "%d:%d:%lf", &a, &b, &S) != 3) { sx_assert(false, "three numbers"); return; } H = a; M = b; }
  sx_assert(S >= 0 && (S < 60 || (!sx_is_symbolic() && S == 60 /* printed to six digits */)) && M >= 0 && M < 60 && H >= 0, "each part is in range"); sx_assert_eq(H * 3600 + M * 60 + S, s, "hours, minutes and seconds add up"); sx_reach("end");
}
