// Logging assertions: disabled build.
#include "L01.h"
#ifndef NDEBUG
#define NDEBUG
#endif
#include <sm/logging/assert.h>
static int hits;
#undef SM_ISSUE_BREAK
#define SM_ISSUE_BREAK() hits++;
SX_ENTRY h_assert_disabled() {
  static boost::shared_ptr<Cap> c; c.reset(new Cap); setLogger(c); setLevel(levels::All); int n = 0; (void)n; bool a = sx_bool("a"); (void)a; hits = 0;
  SM_ASSERT(++n && a); SM_ASSERT_MSG(++n && a, "x"); SM_ASSERT_CMD(++n && a, n++); SM_BREAK(); if (a) SM_BREAK();
  sx_assert(n == 0 && hits == 0 && c->ev.empty(), "disabled assertions do nothing"); sx_reach("end");
}
