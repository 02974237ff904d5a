// Logging: which messages reach the logger.
#include <cstdlib>
extern "C" char* getenv(const char*) noexcept { return nullptr; }
#include "L01.h"
extern "C" int sxth_spurious = 0;
static boost::shared_ptr<Cap> cap;
static int nargs, nconds; static bool condv; static double rate;
static int arg() { return ++nargs; }
static bool cnd() { ++nconds; return condv; }
static const char* self(const char* f) { return f; }
void Cap::logImplementation(const LoggingEvent& e) {
  ++inside; sx_assert(inside == 1, "messages are handed to the logger one at a time");
  Ev x; x.level = e.level; x.stream = e.streamName; x.message = e.message; x.file = e.file; x.function = e.function; x.line = e.line; x.time = e.timestring; ev.push_back(x);
  sx_yield();
  if (mode == 3) { mode = 0; SM_FATAL_STREAM("inner"); }
  --inside;
  if (mode == 1) throw std::runtime_error("logger"); if (mode == 2) throw 7;
}
#define SITES(P, N) static void site##N(int k) { switch (k) { \
  case 0: SM_##P("m%d", arg()); break; case 1: SM_##P##_STREAM("m" << arg()); break; \
  case 2: SM_##P##_NAMED("a", "m%d", arg()); break; case 3: SM_##P##_STREAM_NAMED("a", "m" << arg()); break; \
  case 4: SM_##P##_COND(cnd(), "m%d", arg()); break; case 5: SM_##P##_STREAM_COND(cnd(), "m" << arg()); break; \
  case 6: SM_##P##_COND_NAMED(cnd(), "a", "m%d", arg()); break; case 7: SM_##P##_STREAM_COND_NAMED(cnd(), "a", "m" << arg()); break; \
  case 8: SM_##P##_ONCE("m%d", arg()); break; case 9: SM_##P##_STREAM_ONCE("m" << arg()); break; \
  case 10: SM_##P##_ONCE_NAMED("a", "m%d", arg()); break; case 11: SM_##P##_STREAM_ONCE_NAMED("a", "m" << arg()); break; \
  case 12: SM_##P##_THROTTLE(rate, "m%d", arg()); break; case 13: SM_##P##_STREAM_THROTTLE(rate, "m" << arg()); break; \
  case 14: SM_##P##_THROTTLE_NAMED(rate, "a", "m%d", arg()); break; default: SM_##P##_STREAM_THROTTLE_NAMED(rate, "a", "m" << arg()); break; } }
SITES(ALL, 0) SITES(FINEST, 1) SITES(VERBOSE, 2) SITES(FINER, 3) SITES(TRACE, 4) SITES(FINE, 5) SITES(DEBUG, 6) SITES(INFO, 7) SITES(WARN, 8) SITES(ERROR, 9) SITES(FATAL, 10)
typedef void (*Site)(int);
static const Site sites[11] = {site0, site1, site2, site3, site4, site5, site6, site7, site8, site9, site10};
static bool namedForm(int k) { return k & 2; }
// reference
static int mLevel; static bool mSm, mA, mB;
static void setup() { cap.reset(new Cap); setLogger(cap); sx_assert(getLogger().get() == cap.get(), "the logger that was set is used"); sx_assert(getLevel() == levels::Info, "the initial level is Info"); mLevel = levels::Info; mSm = true; mA = mB = false; nargs = nconds = 0; condv = true; rate = 0.5; }
static void change(int op) {
  switch (op) {
    case 0: mLevel = (int)(sx_u8("level") % 16); sx_assume(mLevel <= 11); setLevel((Level)mLevel); sx_assert((int)getLevel() == mLevel, "the level that was set is reported"); break;
    case 1: mSm = true; enableNamedStream("sm"); break; case 2: mSm = false; disableNamedStream("sm"); break;
    case 3: mA = true; enableNamedStream(sx_choose(2, "prefixed") ? "sm.a" : "a"); break; case 4: mA = false; disableNamedStream(sx_choose(2, "prefixed") ? "sm.a" : "a"); break;
    case 5: mB = true; enableNamedStream("b"); break; case 6: mB = false; disableNamedStream("b"); break; default: break; }
  sx_assert(isNamedStreamEnabled("sm") == mSm && isNamedStreamEnabled("a") == mA && isNamedStreamEnabled("sm.a") == mA && isNamedStreamEnabled("b") == mB && !isNamedStreamEnabled("c"), "enabling or disabling a stream affects exactly that stream");
}
static void num(char* b, int v) { char t[12]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); b[0] = 'm'; int i = 1; while (n) b[i++] = t[--n]; b[i] = 0; }
static size_t seen;
static void checkCall(bool expect, int level, bool named) {
  sx_assert((cap->ev.size() == seen + 1) == expect && cap->ev.size() <= seen + 1, "a message is handed to the logger exactly when its level and stream are enabled");
  if (cap->ev.size() > seen) { const Ev& e = cap->ev.back(); char m[16]; num(m, nargs);
    sx_assert(e.level == level, "the event carries the level of the call"); sx_assert(e.stream == (named ? "sm.a" : "sm"), "the event carries the stream of the call");
    sx_assert(e.message == m, "the event carries the message"); sx_assert(e.file == __FILE__, "the event names the file"); sx_assert(e.function.find("site") != std::string::npos, "the event names the function"); sx_assert(e.line > 0, "the event has a line"); }
  seen = cap->ev.size();
}
// params: level, form, number of changes
SX_ENTRY h_site() {
  setup(); int L = sx_param(0), k = sx_param(1), n = sx_param(2); seen = 0; bool hit = false; if (sx_param(3)) { sites[L](k); bool en = (L >= mLevel) & (namedForm(k) ? mA : mSm); hit = en; checkCall(en, L, namedForm(k)); }
  for (int i = 0; i < n; i++) {
    change(sx_choose(8, "op")); condv = (k >= 4 && k < 8) ? sx_bool("cond") : true; int a0 = nargs, c0 = nconds; if (k >= 12) cap->us += 500000;
    sites[L](k);
    bool en = (L >= mLevel) & (namedForm(k) ? mA : mSm), ex = en; if (k >= 4 && k < 8) ex = ex & condv; if (k >= 8 && k < 12) { ex = ex & !hit; hit = hit | en; }
    checkCall(ex, L, namedForm(k)); sx_assert((nargs == a0 + 1) == ex, "the message is computed only when it is logged"); if (k >= 4 && k < 8) sx_assert((nconds == c0 + 1) == en && nconds <= c0 + 1, "the condition is evaluated only when the statement is enabled");
  }
  sx_reach("end");
}
// throttled messages: times and rate arbitrary (the conversion of the clock reading is decided in L02)
static double g_now;
static __attribute__((noinline)) void setClock(double t) { if (sx_is_symbolic()) { g_now = t; return; } cap->us = (int64_t)(t * 1e6 + 0.5); g_now = (double)cap->us / 1e6; asm volatile(""); }
#ifdef SX_SYMBOLIC
extern "C" double sxonly_h_throttle__ZNK2sm7logging6Logger21currentTimeSecondsUtcEv(const Logger*) { return g_now; }
#endif
SX_ENTRY h_throttle() {
  setup(); int k = sx_param(0), n = sx_param(1); seen = 0; setLevel((Level)sx_param(2)); mLevel = sx_param(2); enableNamedStream("a"); int L = 7;
  double r = sx_double("rate"); sx_assume(r >= 0 && r <= 1e6); rate = r;
  double t = 2e6, last = 0; bool any = false;
  for (int i = 0; i < n; i++) { double d = sx_double("dt"); sx_assume(d >= 0 && d <= 1e7); t = t + d; setClock(t);
    bool on = sx_param(3) ? sx_choose(2, "on") : true; if (!on) { disableNamedStream("sm"); disableNamedStream("a"); }
    sites[L](k);
    if (!on) { enableNamedStream("sm"); enableNamedStream("a"); }
    bool ex = on && L >= mLevel && (!any || last + r <= g_now);
    checkCall(ex, L, namedForm(k)); if (ex) { last = g_now; any = true; } }
  sx_reach("end");
}
// one call site used with changing levels
static void dynamic(int l) { SM_LOG_STREAM((Level)l, std::string("sm"), "m" << arg()); }
SX_ENTRY h_dynamic() {
  setup(); seen = 0; change(0); for (int i = 0; i < sx_param(0); i++) { int l = sx_u8("l"); sx_assume(l <= 10); size_t b = cap->ev.size(); dynamic(l); bool ex = l >= mLevel; sx_assert((cap->ev.size() == b + 1) == ex, "a call with a changing level is judged by its current level"); if (cap->ev.size() > b) sx_assert(cap->ev.back().level == l, "the event carries the current level"); }
  sx_reach("end");
}
// a statement compiled out entirely lives in L01m.cpp
// several sites of different streams and levels share the globals
static void other(int k) { if (k == 0) SM_WARN_STREAM_NAMED("b", "m" << arg()); else if (k == 1) SM_DEBUG_STREAM("m" << arg()); else SM_LOG_STREAM_NAME(std::string("sm.b"), levels::Error, "m" << arg()); }
SX_ENTRY h_sites() {
  setup(); seen = 0; int k = sx_param(0); static const int lv[3] = {8, 6, 9};
  for (int i = 0; i < sx_param(1); i++) { change(sx_choose(8, "op")); size_t b = cap->ev.size(); site7(1); bool ex = (7 >= mLevel) & mSm; sx_assert((cap->ev.size() == b + 1) == ex, "each site is judged by its own stream and level"); b = cap->ev.size(); other(k); bool en = (lv[k] >= mLevel) & (k == 1 ? mSm : mB); sx_assert((cap->ev.size() == b + 1) == en, "each site is judged by its own stream and level"); if (cap->ev.size() > b) sx_assert(cap->ev.back().level == lv[k] && cap->ev.back().stream == (k == 1 ? "sm" : "sm.b"), "each event carries its own stream and level"); }
  sx_reach("end");
}
SX_ENTRY h_shutdown() { setup(); g_logging_globals.shutdown(); change(0); site10(0); site10(1); sx_assert(cap->ev.empty(), "nothing is logged after shutdown"); sx_reach("end"); }
SX_ENTRY h_null_logger() { setup(); setLogger(boost::shared_ptr<Logger>()); sx_assert(getLogger().get() == cap.get(), "setting no logger keeps the current one"); site10(1); sx_assert(cap->ev.size() == 1, "setting no logger keeps the current one"); boost::shared_ptr<Cap> c2(new Cap); setLogger(c2); site10(1); sx_assert(cap->ev.size() == 1 && c2->ev.size() == 1, "a new logger receives the following messages"); sx_reach("end"); }
// a logger that throws or logs itself
SX_ENTRY h_logger_throws() {
  setup(); int how = sx_param(0), k = sx_param(1); cap->mode = how; bool threw = false;
  try { site10(k); } catch (int) { threw = true; } catch (std::exception&) { threw = true; }
  sx_assert(how != 1 || !threw, "an exception of the logger does not reach the caller"); cap->mode = 0; cap->inside = 0; size_t n = cap->ev.size(); sx_assert(n == 1, "a message logged from inside the logger is dropped");
  site10(k); sx_assert(cap->ev.size() == n + 1, "later messages are still delivered after the logger failed or logged itself"); sx_reach("end");
}
// level names
SX_ENTRY h_names() {
  setup(); int n = sx_param(0); std::string t; for (int i = 0; i < n; i++) { uint8_t c = sx_u8("c"); sx_assume(c != 0 && c < 128); t.push_back((char)c); }
  Level l = levels::fromString(t); int want = -1;
  for (int i = 0; i < 11; i++) if (strlen(NAMES[i]) == (size_t)n) { bool eq = true; for (int j = 0; j < n; j++) { char c = t[j]; char d = NAMES[i][j]; eq = eq & ((c == d) | (c == d - 32)); } if (eq) want = i; }
  sx_assert((int)l == (want < 0 ? 7 : want), "a level name parses to the level it names, anything else to Info"); sx_assert(cap->ev.size() == (want < 0 ? 1u : 0u), "an unknown level name is reported"); sx_reach("end");
}
// stream names: "x" and "sm.x" name one stream, every other pair of names two
static std::string streamName(const char* what, int k, int n) { static const char* const P[] = {"", "s", "sm", "sm.", "sm.sm", "sma"}; std::string t = P[k]; for (int i = 0; i < n; i++) t.push_back((char)sx_u8(what)); return t; }
static std::string full(const std::string& t) { bool pre = t.size() >= 3; if (pre) pre = (t[0] == 's') & (t[1] == 'm') & (t[2] == '.'); bool def = t.size() == 2; if (def) def = (t[0] == 's') & (t[1] == 'm'); return pre || def ? t : "sm." + t; }
SX_ENTRY h_streams() {
  setup(); std::string u = streamName("u", sx_param(0), sx_param(1)), v = streamName("v", sx_param(2), sx_param(3)), fu = full(u), fv = full(v); bool same = fu == fv, def = fv == "sm";
  enableNamedStream(u); sx_assert(isNamedStreamEnabled(u), "an enabled stream is enabled"); sx_assert(isNamedStreamEnabled(v) == (same | def), "and only that one");
  SM_INFO_NAMED("sma", "x"); SM_WARN_STREAM_NAMED("small", "x"); sx_assert(cap->ev.size() == (size_t)(fu == "sm.sma") + (fu == "sm.small"), "its statements are logged, those of other streams not");
  disableNamedStream(v); sx_assert(!isNamedStreamEnabled(v), "a disabled stream is disabled"); sx_assert(isNamedStreamEnabled(u) == !same, "and only that one"); sx_reach("end");
}
// message text
SX_ENTRY h_text() {
  setup(); int n = sx_param(0), k = sx_param(1); std::string t; for (int i = 0; i < n; i++) { uint8_t c = sx_u8("c"); sx_assume(c != 0); t.push_back((char)c); }
  if (k == 0) SM_INFO_STREAM(t); else if (k == 1) SM_INFO("%s", t.c_str()); else if (k == 2) SM_INFO_STREAM("a" << t << 'b'); else SM_INFO("a%sb%%", t.c_str());
  sx_assert(cap->ev.size() == 1, "the message is logged"); std::string w = k < 2 ? t : k == 2 ? "a" + t + "b" : "a" + t + "b%"; sx_assert(cap->ev[0].message == w, "the text arrives unchanged"); sx_reach("end");
}
// two threads
static int done_;
static void t_use(int k) { site7(1); if (k) site7(3); ++done_; }
static void t_change(int k) { if (k == 0) enableNamedStream("a"); else if (k == 1) disableNamedStream("sm"); else if (k == 2) setLevel(levels::Fatal); else { enableNamedStream("a"); disableNamedStream("a"); } ++done_; }
SX_ENTRY h_threads() {
  setup(); int k = sx_param(0), first = sx_param(1), both = sx_param(2); done_ = 0; if (first) { site7(1); site7(3); }
  { boost::thread a(boost::bind(&t_use, both)); boost::thread b(boost::bind(&t_change, k)); a.join(); b.join(); }
  sx_assert(done_ == 2, "every thread finishes");
  bool sm = k != 1 && k != 2, a = k == 0; size_t n = cap->ev.size(); site7(1); sx_assert((cap->ev.size() == n + 1) == sm, "after concurrent changes every site is judged by the current level and streams"); n = cap->ev.size(); site7(3); sx_assert((cap->ev.size() == n + 1) == a, "after concurrent changes every site is judged by the current level and streams");
  sx_reach("end");
}
SX_ENTRY h_threads_change() {
  setup(); int k = sx_param(0), m = sx_param(1); done_ = 0; site7(1); site7(3);
  { boost::thread a(boost::bind(&t_change, k)); boost::thread b(boost::bind(&t_change, m)); a.join(); b.join(); }
  bool sm = k != 1 && k != 2 && m != 1 && m != 2; size_t n = cap->ev.size(); site7(1); sx_assert((cap->ev.size() == n + 1) == sm, "after concurrent changes every site is judged by the current level and streams");
  n = cap->ev.size(); site7(3); bool en = isNamedStreamEnabled("a") && k != 2 && m != 2; sx_assert((cap->ev.size() == n + 1) == en, "after concurrent changes every site is judged by the current level and streams"); sx_reach("end");
}
static void t_print(int k) { site10(k); site9(k); ++done_; }
SX_ENTRY h_threads_print() {
  setup(); done_ = 0; { boost::thread a(boost::bind(&t_print, sx_param(0))); boost::thread b(boost::bind(&t_print, sx_param(1))); a.join(); b.join(); }
  int f = 0, e = 0; for (size_t i = 0; i < cap->ev.size(); i++) { f += cap->ev[i].level == 10; e += cap->ev[i].level == 9; }
  sx_assert(f == 2 && e == 2, "no message is lost when two threads log"); sx_reach("end");
}
