#include "sx.h"
#include "sxk.h"
#include <sm/boost/ptime.hpp>
using namespace boost::posix_time; using namespace boost::gregorian;
// day: days since 1970-01-01; the time of day in two parts
static void check(const ptime& t, int64_t sec, int64_t us) { timeval v = sm::ptimeToTimeval(t); sx_assert(v.tv_sec == sec, "the seconds since the epoch"); sx_assert(v.tv_usec == us, "the microseconds within the second"); }
SX_ENTRY h_us() { static const int64_t S[8] = {0, 1, 59, 86399, 86400, 951782400, 2147483647ll, 4102444800ll}; int64_t s = S[sx_param(0)]; int64_t us = sx_u32("us") & 0xfffff; sx_assume(us < 1000000); check(ptime(date(1970, 1, 1)) + seconds(s) + microseconds(us), s, us); sx_reach("end"); }
SX_ENTRY h_sec() { int64_t s = 337 * (int64_t)sx_u8("s"); int64_t d = sx_param(0); check(ptime(date(1970, 1, 1) + days(d), seconds(s) + microseconds(sx_param(1))), d * 86400 + s, sx_param(1)); sx_reach("end"); }
struct Date { int y, m, d; int64_t days; };
SX_ENTRY h_date() { static const Date D[] = {{1970, 1, 1, 0}, {1970, 12, 31, 364}, {1972, 2, 29, 789}, {2000, 2, 29, 11016}, {2000, 3, 1, 11017}, {2038, 1, 19, 24855}, {2100, 3, 1, 47541}}; for (const Date& d : D) { int64_t us = sx_u8("us"); check(ptime(date(d.y, d.m, d.d), hours(23) + minutes(59) + seconds(58) + microseconds(us * 3906)), d.days * 86400 + 86398, us * 3906); } sx_reach("end"); }
