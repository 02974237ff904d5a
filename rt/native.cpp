// Native implementation of the harness interface: replays one concrete assignment on the real code.
// usage: prog ENTRY VALUES [param...]; exit 0 = all assertions passed, 10 = an assertion failed,
// 3 = an assumption does not hold (assignment not applicable), other = crash/exception.
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <vector>
static std::map<std::string, std::string> vals; static std::map<std::string, int> cnt; static std::vector<long> params;
static const std::string* look(const char* n) { int c = cnt[n]++; std::string k = n; if (c) k += "#" + std::to_string(c); auto it = vals.find(k); return it == vals.end() ? nullptr : &it->second; }
static uint64_t u(const char* n) { const std::string* s = look(n); if (!s) return 0; return strtoull(s->c_str(), nullptr, 0); }
static bool isReal(const std::string& s) { return s[0] == 'd'; }
[[noreturn]] static void fail(const char* m) { printf("REPLAY-FAIL %s\n", m); fflush(stdout); _Exit(10); }
static void term() {
  if (std::exception_ptr p = std::current_exception()) { try { std::rethrow_exception(p); } catch (std::exception& e) { printf("REPLAY-FAIL uncaught exception %s: %s\n", typeid(e).name(), e.what()); } catch (...) { printf("REPLAY-FAIL uncaught exception\n"); } fflush(stdout); _Exit(11); }
  printf("REPLAY-FAIL terminate\n"); fflush(stdout); _Exit(12);
}
extern "C" {
uint8_t sx_u8(const char* n) { return u(n); } uint16_t sx_u16(const char* n) { return u(n); } uint32_t sx_u32(const char* n) { return u(n); } uint64_t sx_u64(const char* n) { return u(n); }
bool sx_bool(const char* n) { return u(n) & 1; }
double sx_double(const char* n) { const std::string* s = look(n); if (!s) return 0; if (isReal(*s)) return strtod(s->c_str() + 1, nullptr); uint64_t b = strtoull(s->c_str(), nullptr, 0); double d; memcpy(&d, &b, 8); return d; }
float sx_float(const char* n) { const std::string* s = look(n); if (!s) return 0; if (isReal(*s)) return strtof(s->c_str() + 1, nullptr); uint32_t b = strtoull(s->c_str(), nullptr, 0); float d; memcpy(&d, &b, 4); return d; }
void sx_assume(bool b) { if (!b) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(3); } }
void sx_assume_eq(double a, double b) { double s = std::fmax(1, std::fmax(std::fabs(a), std::fabs(b))); sx_assume(a == b || std::fabs(a - b) <= 1e-8 * s); }
void sx_assert(bool b, const char* m) { if (!b) fail(m); }
static bool exactEq() { static int e = getenv("SX_EXACT") ? 1 : 0; return e; }
void sx_assert_eq(double a, double b, const char* m) { if (exactEq() ? a == b : (a == b || std::fabs(a - b) <= 1e-6 * std::fmax(1, std::fmax(std::fabs(a), std::fabs(b))))) return; printf("  %.17g vs %.17g\n", a, b); fail(m); }
void sx_assert_near(double a, double b, double t, const char* m) { if (a == b || std::fabs(a - b) <= t * 1.001 + 4e-15 * std::fmax(std::fabs(a), std::fabs(b))) return; printf("  %.17g vs %.17g tolerance %g\n", a, b, t); fail(m); }
void sx_assert_finite(double a, const char* m) { if (!std::isfinite(a)) fail(m); }
unsigned sx_choose(unsigned n, const char* nm) { unsigned v = u(nm); if (v >= n) { printf("REPLAY-ASSUME choose\n"); _Exit(3); } return v; }
void sx_reach(const char*) {} long sx_param(int i) { return i < (int)params.size() ? params[i] : 0; } uint64_t sx_concrete(uint64_t v) { return v; }
int sx_is_symbolic() { return 0; } void sx_end() { fflush(stdout); _Exit(0); } void sx_hang_ok() {}
double sx_d(double, double) { return 0; }
void sx_trace(const char*, uint64_t) {}
void sx_fail(const char* m) { fail(m); }
// --- cooperative threads following the recorded schedule
struct Th { ucontext_t c; bool done = false, blocked = false; const void* key = nullptr; void (*fn)(void*); void* arg; };
static std::vector<Th*> th; static int cur = 0; static std::vector<int> sched; static size_t schedPos = 0;
static void initTh() { if (th.empty()) th.push_back(new Th()); }
static void switchTo(int t) { if (t == cur) return; int o = cur; cur = t; swapcontext(&th[o]->c, &th[t]->c); }
static void pick(bool must) {
  initTh(); bool r[64] = {}; int first = -1; // no memory is requested here: a harness may replace operator new
  for (int i = (int)th.size(); i-- > 0;) if (i < 64 && !th[i]->done && !th[i]->blocked) { r[i] = true; first = i; }
  if (first < 0) { fail("deadlock: every thread is blocked"); }
  int t = -1;
  if (!must && th.size() < 2) return;
  while (schedPos < sched.size()) { int c = sched[schedPos++]; if (c >= 0 && c < 64 && r[c]) { t = c; break; } }
  if (t < 0) t = (cur < 64 && r[cur] && !must) ? cur : first;
  switchTo(t);
}
static void tramp(unsigned lo, unsigned hi) { Th* t = (Th*)(((uintptr_t)hi << 32) | lo); t->fn(t->arg); t->done = true; pick(true); }
int sx_thread_create(void (*f)(void*), void* a) { initTh(); Th* t = new Th(); t->fn = f; t->arg = a; getcontext(&t->c); size_t ss = 1 << 20; t->c.uc_stack.ss_sp = malloc(ss); t->c.uc_stack.ss_size = ss; t->c.uc_link = nullptr; makecontext(&t->c, (void (*)())tramp, 2, (unsigned)(uintptr_t)t, (unsigned)((uintptr_t)t >> 32)); th.push_back(t); return th.size() - 1; }
void sx_yield() { initTh(); if (th.size() < 2) return; pick(false); } int sx_tid() { return cur; } int sx_thread_done(int i) { initTh(); return i < (int)th.size() && th[i]->done; }
void sx_block(const void* k) { initTh(); th[cur]->blocked = true; th[cur]->key = k; pick(true); }
void sx_wake_all(const void* k) { for (auto t : th) if (t->blocked && t->key == k) t->blocked = false; }
void sx_wake_one(const void* k) { if (schedPos < sched.size() && sched[schedPos] >= 100) { unsigned i = sched[schedPos++] - 100; if (i < th.size() && th[i]->blocked && th[i]->key == k) { th[i]->blocked = false; return; } } for (auto t : th) if (t->blocked && t->key == k) { t->blocked = false; return; } }
void sx_watch(const void*, uint64_t) {}
}
// stack memory nobody wrote holds junk, not zeros
__attribute__((noinline, no_sanitize("address"))) static void junk(size_t n) { volatile char* p = (volatile char*)__builtin_alloca(n); for (size_t i = 0; i < n; i++) p[i] = (char)0xFE; }
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::set_terminate(term);
  std::ifstream f(argv[2]); std::string line;
  while (std::getline(f, line)) { size_t t = line.find('\t'); if (t == std::string::npos) continue; vals[line.substr(0, t)] = line.substr(t + 1); }
  if (vals.count("__sched")) { std::stringstream ss(vals["__sched"]); std::string x; while (std::getline(ss, x, ',')) sched.push_back(atoi(x.c_str())); }
  for (int i = 3; i < argc; i++) params.push_back(atol(argv[i]));
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  junk(1 << 20); fn();
  return 0;
}
