// Stand-in for Boost.Thread on the checker's cooperative threads: same interface (the parts the
// repository uses), every blocking or releasing operation is a scheduling point.
#pragma once
#include "sx.h"
#include <deque>
#include <ostream>
#include <sstream>
#include <vector>
#include <map>
#include <string>
#include <exception>
#include <stdexcept>
#include <set>
#include <list>
#include <memory>
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/noncopyable.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
// operations in flight that a destructor must not overtake
extern "C" int sxth_spurious;            // remaining spurious wake-ups
namespace boost {
struct thread_exception : std::runtime_error { thread_exception(const char* w = "boost::thread_exception") : std::runtime_error(w) {} };
struct lock_error : thread_exception { lock_error() : thread_exception("boost::lock_error") {} };
struct broken_promise : std::logic_error { broken_promise() : std::logic_error("boost::broken_promise") {} };
struct future_uninitialized : std::logic_error { future_uninitialized() : std::logic_error("boost::future_uninitialized") {} };
struct defer_lock_t {}; struct adopt_lock_t {}; struct try_to_lock_t {};
static const defer_lock_t defer_lock = defer_lock_t(); static const adopt_lock_t adopt_lock = adopt_lock_t(); static const try_to_lock_t try_to_lock = try_to_lock_t();
template <class M> class unique_lock {
  M* m_; bool own_;
public:
  typedef M mutex_type;
  unique_lock() : m_(0), own_(false) {}
  explicit unique_lock(M& m) : m_(&m), own_(false) { lock(); }
  unique_lock(M& m, defer_lock_t) : m_(&m), own_(false) {}
  unique_lock(M& m, adopt_lock_t) : m_(&m), own_(true) {}
  unique_lock(M& m, try_to_lock_t) : m_(&m), own_(false) { try_lock(); }
  unique_lock(const unique_lock&) = delete; unique_lock& operator=(const unique_lock&) = delete;
  unique_lock(unique_lock&& o) : m_(o.m_), own_(o.own_) { o.m_ = 0; o.own_ = false; }
  ~unique_lock() { if (own_) m_->unlock(); }
  void lock() { if (own_) throw lock_error(); m_->lock(); own_ = true; }
  bool try_lock() { own_ = m_->try_lock(); return own_; }
  void unlock() { if (!own_) throw lock_error(); own_ = false; m_->unlock(); }
  void release_for_wait() { own_ = false; m_->release(); }
  bool owns_lock() const { return own_; }
  explicit operator bool() const { return own_; }
  M* mutex() const { return m_; }
  M* release() { M* r = m_; m_ = 0; own_ = false; return r; }
};
template <class M> class lock_guard {
  M& m_;
public:
  explicit lock_guard(M& m) : m_(m) { m_.lock(); }
  lock_guard(M& m, adopt_lock_t) : m_(m) {}
  lock_guard(const lock_guard&) = delete; lock_guard& operator=(const lock_guard&) = delete;
  ~lock_guard() { m_.unlock(); }
};
class mutex {
  int owner_, alive_;
public:
  typedef unique_lock<mutex> scoped_lock;
  typedef unique_lock<mutex> scoped_try_lock;
  mutex() : owner_(-1), alive_(0x5afe) {}
  mutex(const mutex&) = delete; mutex& operator=(const mutex&) = delete;
  ~mutex() { sx_assert(owner_ < 0, "no mutex is destroyed while it is locked"); alive_ = 0; }
  void lock() {
    sx_yield(); sx_assert(alive_ == 0x5afe, "no mutex is used after its destruction");
    while (owner_ >= 0) { sx_assert(owner_ != sx_tid(), "no thread locks a mutex it already holds"); sx_block(this); sx_assert(alive_ == 0x5afe, "no mutex is used after its destruction"); }
    owner_ = sx_tid();
  }
  bool try_lock() { sx_yield(); if (owner_ >= 0) return false; owner_ = sx_tid(); return true; }
  void unlock() { release(); sx_yield(); }
  void release() { sx_assert(owner_ == sx_tid(), "only the owner unlocks a mutex"); owner_ = -1; sx_wake_all(this); }
  bool held() const { return owner_ == sx_tid(); }
};
typedef mutex timed_mutex; typedef mutex try_mutex;
class recursive_mutex {
  int owner_, n_, alive_;
public:
  typedef unique_lock<recursive_mutex> scoped_lock;
  recursive_mutex() : owner_(-1), n_(0), alive_(0x5afe) {}
  recursive_mutex(const recursive_mutex&) = delete; recursive_mutex& operator=(const recursive_mutex&) = delete;
  ~recursive_mutex() { sx_assert(owner_ < 0, "no mutex is destroyed while it is locked"); alive_ = 0; }
  void lock() {
    sx_yield(); sx_assert(alive_ == 0x5afe, "no mutex is used after its destruction");
    if (owner_ == sx_tid()) { ++n_; return; }
    while (owner_ >= 0) sx_block(this);
    owner_ = sx_tid(); n_ = 1;
  }
  bool try_lock() { sx_yield(); if (owner_ >= 0 && owner_ != sx_tid()) return false; owner_ = sx_tid(); ++n_; return true; }
  void unlock() { sx_assert(owner_ == sx_tid(), "only the owner unlocks a mutex"); if (--n_ == 0) { owner_ = -1; sx_wake_all(this); sx_yield(); } }
};
class condition_variable_any {
  int waiting_, alive_; int tick_;
public:
  condition_variable_any() : waiting_(0), alive_(0x5afe), tick_(0) {}
  condition_variable_any(const condition_variable_any&) = delete; condition_variable_any& operator=(const condition_variable_any&) = delete;
  ~condition_variable_any() { sx_assert(waiting_ == 0, "no condition variable is destroyed while a thread waits on it"); alive_ = 0; }
  template <class L> void wait(L& l) {
    sx_assert(alive_ == 0x5afe, "no condition variable is used after its destruction");
    sx_assert(l.owns_lock(), "a thread waits with the mutex locked");
    if (sxth_spurious > 0 && sx_choose(2, "spurious")) { --sxth_spurious; l.unlock(); l.lock(); return; }
    sx_yield(); ++waiting_; int my = tick_;
    l.release_for_wait();
    sx_block(this);
    if (my == tick_ && waiting_ > 0) --waiting_;      // woken by notify_one
    l.lock();
  }
  template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
  template <class L, class T> bool timed_wait(L& l, T const&) { l.unlock(); sx_yield(); l.lock(); return false; }
  void notify_all() { sx_yield(); sx_assert(alive_ == 0x5afe, "no condition variable is used after its destruction"); waiting_ = 0; ++tick_; sx_wake_all(this); }
  void notify_one() { sx_yield(); sx_assert(alive_ == 0x5afe, "no condition variable is used after its destruction"); sx_wake_one(this); }
};
typedef condition_variable_any condition_variable; typedef condition_variable_any condition;
class thread {
  struct data { boost::function<void()> f; int tid; bool done; };
  boost::shared_ptr<data> d_;
  static void run(void* p) { boost::shared_ptr<data> d = *(boost::shared_ptr<data>*)p; delete (boost::shared_ptr<data>*)p; d->f(); d->f.clear(); d->done = true; sx_wake_all(d.get()); }
public:
  class id {
    int t_;
  public:
    id() : t_(-1) {}
    explicit id(int t) : t_(t) {}
    bool operator==(const id& o) const { return t_ == o.t_; }
    bool operator!=(const id& o) const { return t_ != o.t_; }
    bool operator<(const id& o) const { return t_ < o.t_; }
    int num() const { return t_; }
    friend std::ostream& operator<<(std::ostream& o, const id& i) { return i.t_ < 0 ? o << "{Not-any-thread}" : o << i.t_; }
  };
  thread() {}
  template <class F> explicit thread(F f) : d_(new data) { d_->f = f; d_->tid = -1; d_->done = false; d_->tid = sx_thread_create(&run, new boost::shared_ptr<data>(d_)); sx_yield(); }
  thread(const thread&) = delete; thread& operator=(const thread&) = delete;
  thread(thread&& o) : d_(o.d_) { o.d_.reset(); }
  thread& operator=(thread&& o) { d_ = o.d_; o.d_.reset(); return *this; }
  bool joinable() const { return (bool)d_; }
  void join() { sx_yield(); if (!d_) throw thread_exception("boost thread: trying joining itself"); while (!d_->done) sx_block(d_.get()); d_.reset(); }
  void detach() { d_.reset(); }
  id get_id() const { return d_ ? id(d_->tid) : id(); }
  static unsigned hardware_concurrency() { return 2; }
};
namespace this_thread {
inline thread::id get_id() { return thread::id(sx_tid()); }
inline void yield() { sx_yield(); }
template <class T> void sleep(T const&) { sx_yield(); }
}
class thread_group {
  std::list<boost::thread*> l_;
public:
  thread_group() {}
  thread_group(const thread_group&) = delete; thread_group& operator=(const thread_group&) = delete;
  ~thread_group() { for (std::list<boost::thread*>::iterator i = l_.begin(); i != l_.end(); ++i) delete *i; }
  template <class F> boost::thread* create_thread(F f) { boost::thread* t = new boost::thread(f); l_.push_back(t); return t; }
  void add_thread(boost::thread* t) { l_.push_back(t); }
  void join_all() { for (std::list<boost::thread*>::iterator i = l_.begin(); i != l_.end(); ++i) if ((*i)->joinable()) (*i)->join(); }
  size_t size() const { return l_.size(); }
};
namespace sxdetail {
struct fstate_base { bool done, failed, broken; int what; fstate_base() : done(false), failed(false), broken(false), what(0) {}
  void finish() { done = true; sx_wake_all(this); }
  void await() { sx_yield(); while (!done) sx_block(this); if (broken) throw broken_promise(); if (failed) throw what; } };
template <class R> struct fstate : fstate_base { R v; fstate() : v() {} void call(boost::function<R()>& f) { v = f(); } R get() { await(); return v; } };
template <> struct fstate<void> : fstate_base { void call(boost::function<void()>& f) { f(); } void get() { await(); } };
}
template <class R> class unique_future {
  boost::shared_ptr<sxdetail::fstate<R> > s_;
public:
  unique_future() {}
  explicit unique_future(boost::shared_ptr<sxdetail::fstate<R> > s) : s_(s) {}
  unique_future(const unique_future&) = delete; unique_future& operator=(const unique_future&) = delete;
  unique_future(unique_future&& o) : s_(o.s_) { o.s_.reset(); }
  unique_future& operator=(unique_future&& o) { s_ = o.s_; o.s_.reset(); return *this; }
  R get() { if (!s_) throw future_uninitialized(); return s_->get(); }
  bool is_ready() const { return s_ && s_->done; }
  void wait() const { if (!s_) throw future_uninitialized(); sx_yield(); while (!s_->done) sx_block(s_.get()); }
  bool valid() const { return (bool)s_; }
};
// exceptions of type int are delivered by value; other exceptions are not modelled
template <class R> class packaged_task {
  boost::shared_ptr<sxdetail::fstate<R> > s_; boost::function<R()> f_;
public:
  packaged_task() {}
  template <class F> explicit packaged_task(F const& f) : s_(new sxdetail::fstate<R>), f_(f) {}
  packaged_task(const packaged_task&) = delete; packaged_task& operator=(const packaged_task&) = delete;
  packaged_task(packaged_task&& o) : s_(o.s_), f_(o.f_) { o.s_.reset(); }
  ~packaged_task() { if (s_ && !s_->done) { s_->broken = true; s_->finish(); } }
  unique_future<R> get_future() { return unique_future<R>(s_); }
  void operator()() { sx_assert(!s_->done, "no task is run twice"); try { s_->call(f_); } catch (int e) { s_->failed = true; s_->what = e; } s_->finish(); }
};
namespace sxdetail { inline void keep_posix_time() {} }
}
