// Logging assertions: enabled build.
#include "L01.h"
#include <sm/logging/assert.h>
static int hits;
#undef SM_ISSUE_BREAK
#define SM_ISSUE_BREAK() hits++;
static int evals; static bool ev(bool b) { evals++; return b; }
static int cmds; static void cmd(int k) { cmds += k; }
// params: form, does the logger show fatal messages
SX_ENTRY h_assert() {
  static boost::shared_ptr<Cap> c; c.reset(new Cap); setLogger(c); Level lev = (Level)(sx_u8("level") % 12); setLevel(lev); bool shown = (int)lev <= (int)levels::Fatal;
  bool a = sx_bool("a"), b = sx_bool("b"); hits = evals = cmds = 0; int x = (int)sx_u32("x"), line = 0; bool holds = true, text = false; std::string cond, user; size_t n = 1;
  switch (sx_param(0)) {
    case 0: line = __LINE__; SM_ASSERT(ev(a)); holds = a; cond = "ev(a)"; break;
    case 1: line = __LINE__; SM_ASSERT(ev(a) || b); holds = a | b; cond = "ev(a) || b"; break;
    case 2: line = __LINE__; SM_ASSERT(x > 3 && ev(b)); holds = (x > 3) & b; if (!(x > 3)) evals = 1; cond = "x > 3 && ev(b)"; break;
    case 3: line = __LINE__; SM_ASSERT_MSG(ev(a), "note %s %d", "here", 42); holds = a; cond = "ev(a)"; user = "note here 42"; n = 3; break;
    case 4: line = __LINE__; SM_ASSERT_MSG(ev(a) || b, "plain"); holds = a | b; cond = "ev(a) || b"; user = "plain"; n = 3; break;
    case 5: SM_ASSERT_CMD(ev(a), cmd(1)); holds = a; text = true; break;
    case 6: SM_ASSERT_CMD(ev(a) || b, cmd(1)); holds = a | b; text = true; break;
    case 7: SM_ASSERT_CMD(ev(true) && x > 3, cmd(1)); holds = x > 3; text = true; break;
    case 8: SM_ASSERT_CMD(x == 5 ? ev(a) : ev(b), cmd(1)); holds = x == 5 ? a : b; text = true; break;
    case 9: line = __LINE__; SM_BREAK(); holds = false; evals = 1; cond = "BREAKPOINT"; break;
    case 10: if (ev(a)) SM_ASSERT(b); else SM_BREAK(); line = __LINE__; holds = a & b; cond = a ? "b" : "BREAKPOINT"; break;
    default: if (ev(a)) SM_ASSERT_CMD(b, cmd(1)); else cmd(1); holds = a & b; text = true; break; }
  sx_assert(evals == 1, "the condition is evaluated once");
  if (text) { sx_assert(hits == 0 && cmds == (holds ? 0 : 1) && c->ev.empty(), "the command runs exactly when the condition does not hold"); sx_reach("end"); return; }
  sx_assert(cmds == 0 && hits == (holds ? 0 : 1), "execution stops exactly when the condition does not hold");
  if (holds || !shown) { sx_assert(c->ev.empty(), "nothing is logged when the condition holds"); sx_reach("end"); return; }
  sx_assert(c->ev.size() == n, "the failure is logged"); std::string all; char num[12]; int k = 11; num[k] = 0; do num[--k] = '0' + line % 10; while (line /= 10);
  for (auto& e : c->ev) { sx_assert(e.level == levels::Fatal, "as a fatal message"); all += e.message; }
  sx_assert(all.find(cond) != std::string::npos && all.find("L01a.cpp") != std::string::npos && all.find(num + k) != std::string::npos && all.find(user) != std::string::npos, "the message names the condition, the place and the text given"); sx_reach("end");
}
