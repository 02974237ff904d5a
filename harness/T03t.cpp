// Timers used by several threads: tags and handles, samples.
#include "sx.h"
#include <cstdlib>
#include <new>
#include <string>
#include <vector>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#define private public
#include <sm/timing/Timer.hpp>
#undef private
using namespace sm::timing;
extern "C" int sxth_spurious = 0;
// another thread may run whenever memory is requested, also in the middle of a registration
static bool code_[4]; // only while the code under test runs
static void turn() { int i = sx_tid(); if (i < 0 || i > 3 || !code_[i]) return; code_[i] = false; sx_yield(); code_[i] = true; }
#ifdef SX_SYMBOLIC
extern "C" void* sxmodel__Znwm(size_t n) { turn(); return malloc(n); }
#else
void* operator new(size_t n) { turn(); void* p = malloc(n); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif
static const char* const TG[3] = {"a", "b", "a longer tag than the others"};
static size_t H[2][2]; static int done_;
static size_t handle(const char* t) { std::string n(t); int i = sx_tid(); code_[i] = true; size_t h = Timing::getHandle(n); code_[i] = false; return h; }
static void measure(Timer& t) { int i = sx_tid(); code_[i] = true; t.start(); t.stop(); code_[i] = false; }
static void use(int who, int first, int second) { H[who][0] = handle(TG[first]); { Timer t(H[who][0], true); measure(t); } if (second >= 0) { H[who][1] = handle(TG[second]); Timer t(TG[second], true); measure(t); } ++done_; }
// params: tags of the first thread, of the second, known before
SX_ENTRY h_threads() {
  int a0 = sx_param(0) % 3, a1 = sx_param(0) / 3 - 1, b0 = sx_param(1) % 3, b1 = sx_param(1) / 3 - 1; if (sx_param(2)) Timing::getHandle(TG[1]); done_ = 0;
  { boost::thread a(boost::bind(&use, 0, a0, a1)); boost::thread b(boost::bind(&use, 1, b0, b1)); a.join(); b.join(); }
  sx_assert(done_ == 2, "every thread finishes"); int n[3] = {}, T[4], k = 0; size_t G[4]; T[k] = a0; G[k++] = H[0][0]; if (a1 >= 0) { T[k] = a1; G[k++] = H[0][1]; } T[k] = b0; G[k++] = H[1][0]; if (b1 >= 0) { T[k] = b1; G[k++] = H[1][1]; }
  for (int i = 0; i < k; i++) { n[T[i]]++; sx_assert(Timing::getHandle(TG[T[i]]) == G[i] && Timing::getTag(G[i]) == TG[T[i]], "every thread gets the handle of its tag"); for (int j = 0; j < i; j++) sx_assert((G[i] == G[j]) == (T[i] == T[j]), "handles identify tags"); }
  size_t known = 0; for (int i = 0; i < 3; i++) if (n[i] || (i == 1 && sx_param(2))) { known++; sx_assert(Timing::getNumSamples(TG[i]) == (size_t)n[i], "no interval is lost"); } sx_assert(Timing::instance().m_tagMap.size() == known, "one timer for each tag"); sx_reach("end");
}
