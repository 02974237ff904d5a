// Statements below the compile-time threshold disappear; the others stay.
#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_WARN
#include "L01.h"
SX_ENTRY h_compiled_out() {
  static boost::shared_ptr<Cap> c; c.reset(new Cap); setLogger(c); setLevel(levels::All); int n = 0; (void)n; bool t = true; (void)t;
  SM_ALL_STREAM(++n); SM_FINEST_STREAM(++n); SM_VERBOSE_STREAM(++n); SM_FINER_STREAM(++n); SM_TRACE_STREAM(++n); SM_FINE_STREAM(++n); SM_DEBUG_STREAM(++n); SM_INFO_STREAM(++n);
  SM_INFO("%d", ++n); SM_INFO_COND(t, "%d", ++n); SM_INFO_STREAM_ONCE(++n); SM_INFO_THROTTLE(0.0, "%d", ++n); SM_DEBUG_STREAM_NAMED("a", ++n);
  sx_assert(n == 0 && c->ev.empty(), "statements below the compile-time threshold do nothing");
  SM_WARN_STREAM(++n); SM_ERROR_STREAM(++n); SM_FATAL_STREAM(++n); SM_WARN("%d", ++n); sx_assert(n == 4 && c->ev.size() == 4, "statements at or above the compile-time threshold remain"); sx_reach("end");
}
