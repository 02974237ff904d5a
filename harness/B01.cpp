// JobQueue on cooperative threads: every interleaving up to the preemption bound.
#include "sx.h"
#include <sm/boost/JobQueue.hpp>
extern "C" int sxth_spurious = 0;
static int ran[4], order_[8], norder, active, peak; static bool ended;
static void job(int i) { sx_assert(!ended, "no job runs after the queue is gone"); ran[i]++; sx_assert(ran[i] == 1, "no job runs twice"); order_[norder++] = i; if (++active > peak) peak = active; sx_yield(); --active; }
static void resetAll() { for (int i = 0; i < 4; i++) ran[i] = 0; norder = active = peak = 0; ended = false; }
static int payload[3];
static void payloads() { payload[0] = (int)sx_u32("p0"); payload[1] = (int)sx_u32("p1"); payload[2] = (int)sx_u32("p2"); }
static int value(int i) { job(i); return payload[i] + i; }
static int thrower(int i) { job(i); throw payload[i]; }
// params: workers, jobs, spurious wake-ups, how it ends (0 wait+join, 1 wait+destroy)
SX_ENTRY h_all_run() {
  resetAll(); int w = sx_param(0), n = sx_param(1), end = sx_param(3); sxth_spurious = sx_param(2);
  { sm::JobQueue q; sx_assert(q.empty(), "a new queue is empty");
    bool late = sx_choose(2, "late");
    if (!late) q.start(w);
    for (int i = 0; i < n; i++) q.scheduleWork(boost::bind(&job, i));
    if (late) { sx_assert(q.empty() == (n == 0), "jobs are kept until the queue is started"); sx_assert(norder == 0, "nothing runs before start"); q.start(w); }
    q.waitForEmptyQueue();
    for (int i = 0; i < n; i++) sx_assert(ran[i] == 1, "waiting for an empty queue returns after every job has run");
    sx_assert(active == 0, "waiting for an empty queue returns after every job has finished");
    sx_assert(q.empty(), "the queue is empty after waiting for it");
    sx_assert(peak <= w, "no more jobs at once than workers");
    if (end == 0) q.join();
  }
  ended = true; sx_reach("end");
}
// one worker runs the jobs in the order they were scheduled
SX_ENTRY h_order() {
  resetAll(); int n = sx_param(0);
  { sm::JobQueue q; q.start(1); for (int i = 0; i < n; i++) q.scheduleWork(boost::bind(&job, i)); q.waitForEmptyQueue();
    for (int i = 0; i < n; i++) sx_assert(order_[i] == i, "a single worker runs jobs in the order they were scheduled"); }
  ended = true; sx_reach("end");
}
// stopping early: join and the destructor always return; what started has finished; what did not start is not run
SX_ENTRY h_stop() {
  resetAll(); int w = sx_param(0), n = sx_param(1), how = sx_param(2); sxth_spurious = sx_param(3);
  { sm::JobQueue q; q.start(w); for (int i = 0; i < n; i++) q.scheduleWork(boost::bind(&job, i));
    if (how == 0) q.join(); else if (how == 1) { q.stop(); q.join(); } else if (how == 2) q.stop();
    if (how < 2) { sx_assert(active == 0, "join returns after running jobs have finished"); int k = norder; sx_yield(); sx_assert(norder == k, "no job starts after join"); if (how == 1) q.join(); }
  }
  sx_assert(active == 0, "a destroyed queue has no running job");
  ended = true; sx_yield(); sx_reach("end");
}
// a queue that was never started
SX_ENTRY h_unstarted() {
  resetAll(); int how = sx_param(0);
  { sm::JobQueue q; q.scheduleWork(boost::bind(&job, 0)); if (how == 1) q.stop(); if (how == 2) q.join(); if (how == 3) { q.start(0); q.join(); } }
  sx_assert(norder == 0, "a queue without workers runs nothing"); sx_reach("end");
}
// futures deliver the result, the exception, or the fact that the job was abandoned
SX_ENTRY h_future() {
  resetAll(); int w = sx_param(0), n = sx_param(1), bad = sx_param(2);
  payloads(); boost::unique_future<int> f[3];
  { sm::JobQueue q; q.start(w);
    for (int i = 0; i < n; i++) q.scheduleFuture<int>(boost::bind(i == bad ? &thrower : &value, i), f[i]);
    for (int i = n - 1; i >= 0; i--) { bool threw = false; int v = 0; try { v = f[i].get(); } catch (int e) { threw = e == payload[i]; }
      sx_assert(ran[i] == 1, "a future becomes ready when its job has run"); sx_assert(threw == (i == bad), "a future passes on the exception of its job"); sx_assert(threw || v == payload[i] + i, "a future delivers its own job's result"); }
    q.join(); }
  ended = true; sx_reach("end");
}
SX_ENTRY h_future_abandoned() {
  resetAll(); int w = sx_param(0), n = sx_param(1);
  payloads(); boost::unique_future<int> f[3];
  { sm::JobQueue q; q.start(w); for (int i = 0; i < n; i++) q.scheduleFuture<int>(boost::bind(&value, i), f[i]); q.stop(); }
  ended = true;
  for (int i = 0; i < n; i++) { bool broken = false; int v = 0; try { v = f[i].get(); } catch (boost::broken_promise&) { broken = true; }
    sx_assert(broken == (ran[i] == 0), "the future of a job that never ran reports it, the others deliver"); sx_assert(broken || v == payload[i] + i, "the result of a job that ran is delivered even after the queue is gone"); }
  sx_reach("end");
}
// jobs that schedule jobs
static sm::JobQueue* Q;
static void parent(int i) { job(i); Q->scheduleWork(boost::bind(&job, i + 1)); }
SX_ENTRY h_nested() {
  resetAll(); { sm::JobQueue q; Q = &q; q.start(sx_param(0)); q.scheduleWork(boost::bind(&parent, 0)); q.waitForEmptyQueue(); sx_assert(ran[0] == 1 && ran[1] == 1, "jobs scheduled by a running job are waited for as well"); q.join(); }
  ended = true; sx_reach("end");
}
// several threads schedule and wait
static int waitersDone;
static void producer(int i) { Q->scheduleWork(boost::bind(&job, i)); Q->waitForEmptyQueue(); sx_assert(ran[i] == 1, "waiting from another thread returns after that thread's job has run"); waitersDone++; }
SX_ENTRY h_producers() {
  resetAll(); waitersDone = 0; { sm::JobQueue q; Q = &q; q.start(sx_param(0)); boost::thread a(boost::bind(&producer, 0)); if (sx_param(1)) { boost::thread b(boost::bind(&producer, 1)); b.join(); } a.join(); sx_assert(waitersDone == 1 + (sx_param(1) != 0), "every waiting thread is released"); q.join(); }
  ended = true; sx_reach("end");
}
// starting twice keeps the first pool; a queue can be joined twice
SX_ENTRY h_start_twice() {
  resetAll(); { sm::JobQueue q; q.start(1); q.start(2); q.scheduleWork(boost::bind(&job, 0)); q.scheduleWork(boost::bind(&job, 1)); q.waitForEmptyQueue(); sx_assert(peak == 1, "a second start does not add workers"); q.join(); q.join(); }
  ended = true; sx_reach("end");
}
