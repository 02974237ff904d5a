#include "sx.h"
#include <sm/timing/NsecTimeUtilities.hpp>
#include <cmath>
#include <limits>
using namespace sm::timing;
SX_ENTRY h_chrono() {
  NsecTime t = (NsecTime)sx_u64("t"); auto tp = nsecToChrono(t); sx_assert(chronoToNsec(tp) == t, "nanoseconds -> clock -> nanoseconds"); sx_assert(std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count() == t, "time point is the instant");
  std::chrono::system_clock::time_point p{std::chrono::system_clock::duration((long)sx_u64("d"))}; sx_assert(nsecToChrono(chronoToNsec(p)) == p, "clock -> nanoseconds -> clock"); NsecTime u = (NsecTime)sx_u64("u"); sx_assert((nsecToChrono(u) < tp) == (u < t), "order is preserved"); sx_reach("end");
}
SX_ENTRY h_valid() { NsecTime t = (NsecTime)sx_u64("t"); sx_assert(isValid(t) == (t != getInvalidTime()), "valid exactly when it is not the marker"); sx_assert(getInvalidTime() == std::numeric_limits<NsecTime>::min(), "marker"); sx_assert(!isValid(getInvalidTime()), "the marker is invalid"); sx_assert(isValid(0), "the epoch is valid"); sx_reach("end"); }
SX_ENTRY h_sec() { // a window of 2^k counts starting at a base
  static const long B[] = {0, 1000000000L, 3600000000000L, 9007199254740992L - 40000, 1400000000000000000L, 1700000000123456789L, 4102444800000000000L, 9223372036854775807L - 70000};
  long b = B[sx_param(0)], k = sx_param(1); bool neg = sx_param(2); uint64_t d = sx_u64("d"); sx_assume(d < (1ull << k)); NsecTime t = b + (long)d; if (neg) t = -t; double s = nsecToSec(t); NsecTime r = secToNsec(s); long e = r - t; long lim = 1 + (b >> 51);
  sx_assert(e <= lim && e >= -lim, "seconds and back within the resolution of a double"); sx_reach("end");
}
SX_ENTRY h_sec_exact() { // whole seconds and halves are exact: windows of 2^10 seconds
  static const uint32_t B[] = {0, 1000000, 1400000000, 1700000000, 1999990000}; uint32_t d = sx_u32("n"), n = B[sx_param(0)] + d; bool half = sx_bool("h"), neg = sx_bool("g"); sx_assume(d < 1024u); double s = (double)n + (half ? 0.5 : 0); NsecTime e = (NsecTime)n * 1000000000L + (half ? 500000000L : 0); if (neg) { s = -s; e = -e; } sx_assert(secToNsec(s) == e, "whole and half seconds convert exactly"); sx_reach("end");
}
SX_ENTRY h_scale() { static const double S[] = {1e-9, 1.0 / 1024, 1.0 / 3, 1000.1}; uint64_t k = sx_u64("k"); sx_assume(k < 100); double s = (double)(long)k * S[sx_param(0)]; NsecTime r = secToNsec(s); double x = s * 1e9; sx_assert((double)r - x <= 1.0 && x - (double)r <= 1.0, "seconds are scaled by 1e9"); NsecTime m = secToNsec(-s); sx_assert(m + r <= 1 && m + r >= -1, "symmetric about zero"); sx_reach("end"); }
SX_ENTRY h_now() { NsecTime a = nsecNow(); sx_assert(isValid(a), "now is valid"); sx_reach("end"); }
