// A stand-in for absl::Mutex under the control of the harness (verif::Sched):
// of the threads of a test case one runs at a time, and at each operation on a
// mutex the harness decides which one goes on.  As with the real one, the
// conditions of waiting threads are looked at when the mutex is released.
#ifndef VERIF_SCHED_PRELUDE_H_
#define VERIF_SCHED_PRELUDE_H_

#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/functional/any_invocable.h"
#include "absl/functional/bind_front.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/synchronization/barrier.h"
#include "absl/synchronization/blocking_counter.h"
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "absl/types/span.h"

namespace verif {

class Sched {
 public:
  struct Abort {};
  using Pick = std::function<size_t(const std::vector<int>&)>;
  using Catch = std::function<void(const std::function<void()>&)>;

  // The scheduler of the test case that is running, if any.
  static Sched*& Current() {
    static Sched* current = nullptr;
    return current;
  }

  explicit Sched(Pick pick) : pick_(std::move(pick)) { Current() = this; }
  ~Sched() { Current() = nullptr; }

  void Add(std::function<void()> body) {
    threads_.push_back(std::make_unique<Thread>());
    threads_.back()->body = std::move(body);
  }

  // Runs the threads until all have ended.  False: none of them can go on.
  // `guard` runs the bodies, and catches what they throw but Abort; when it
  // returns false, the other threads are ended.
  template <typename Guard>
  bool Run(Guard guard) {
    for (size_t i = 0; i < threads_.size(); i++) {
      Thread* t = threads_[i].get();
      t->thread = std::thread([this, t, i, &guard]() {
        {
          std::unique_lock<std::mutex> l(m_);
          t->cv.wait(l, [&]() { return turn_ == static_cast<int>(i); });
        }
        if (!abort_) {
          try {
            if (!guard(t->body)) abort_ = true;
          } catch (Abort&) {
          }
        }
        t->done = true;
        GiveTo(-1);
      });
    }
    bool stuck = false;
    while (true) {
      std::vector<int> ready, left;
      for (size_t i = 0; i < threads_.size(); i++) {
        Thread* t = threads_[i].get();
        if (t->done) continue;
        left.push_back(i);
        if (!t->ready || t->ready()) ready.push_back(i);
      }
      if (left.empty()) break;
      if (ready.empty() && !abort_) {
        stuck = true;
        abort_ = true;
      }
      int next = abort_ ? left[0] : ready.size() == 1 ? ready[0] : ready[pick_(ready)];
      GiveTo(next);
      std::unique_lock<std::mutex> l(m_);
      main_.wait(l, [&]() { return turn_ == -1; });
    }
    for (auto& t : threads_) t->thread.join();
    return !stuck;
  }

  // Waits until the harness lets this thread go on; it may do so if `ready`.
  void Yield(std::function<bool()> ready = nullptr) {
    if (turn_ < 0) return;  // Not one of the threads.
    if (abort_) {
      if (std::uncaught_exceptions() > 0) return;
      throw Abort();
    }
    int me = turn_;
    Thread* t = threads_[me].get();
    t->ready = std::move(ready);
    GiveTo(-1);
    {
      std::unique_lock<std::mutex> l(m_);
      t->cv.wait(l, [&]() { return turn_ == me; });
    }
    t->ready = nullptr;
    if (abort_ && std::uncaught_exceptions() == 0) throw Abort();
  }
  bool aborted() const { return abort_; }
  int turn() const { return turn_; }

 private:
  struct Thread {
    std::function<void()> body;
    std::thread thread;
    std::condition_variable cv;
    std::function<bool()> ready;  // Null: can go on.
    bool done = false;
  };
  void GiveTo(int next) {
    std::lock_guard<std::mutex> l(m_);
    turn_ = next;
    (next < 0 ? main_ : threads_[next]->cv).notify_one();
  }
  Pick pick_;
  std::vector<std::unique_ptr<Thread>> threads_;
  std::mutex m_;
  std::condition_variable main_;
  int turn_ = -1;
  bool abort_ = false;
};

inline void Yield(std::function<bool()> ready = nullptr) {
  if (Sched::Current() != nullptr) Sched::Current()->Yield(std::move(ready));
}

}  // namespace verif

namespace absl {

class VerifCondition {
 public:
  template <typename T, typename = decltype(static_cast<bool>((*static_cast<const T*>(nullptr))()))>
  explicit VerifCondition(const T* functor) : f_([functor]() -> bool { return (*functor)(); }) {}
  explicit VerifCondition(const bool* flag) : f_([flag]() { return *flag; }) {}
  template <typename T>
  VerifCondition(bool (*f)(T*), T* arg) : f_([f, arg]() { return f(arg); }) {}
  template <typename T>
  VerifCondition(T* object, bool (T::*method)()) : f_([object, method]() { return (object->*method)(); }) {}
  template <typename T>
  VerifCondition(const T* object, bool (T::*method)() const)
      : f_([object, method]() { return (object->*method)(); }) {}
  bool Eval() const { return f_(); }

 private:
  std::function<bool()> f_;
};

class VerifMutex {
 public:
  VerifMutex() = default;
  VerifMutex(const VerifMutex&) = delete;
  VerifMutex& operator=(const VerifMutex&) = delete;

  void Lock() { Acquire(nullptr); }
  void lock() { Lock(); }
  void Unlock() {
    Release();
    Step();
  }
  void unlock() { Unlock(); }
  bool TryLock() {
    Step();
    if (held_) return false;
    held_ = true;
    return true;
  }
  void LockWhen(const VerifCondition& c) { Acquire(&c); }
  void Await(const VerifCondition& c) {
    if (c.Eval()) return;
    Release();
    Acquire(&c, false);
  }
  bool AwaitWithTimeout(const VerifCondition& c, absl::Duration) { return Await(c), true; }
  bool LockWhenWithTimeout(const VerifCondition& c, absl::Duration) { return LockWhen(c), true; }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void ReaderLockWhen(const VerifCondition& c) { LockWhen(c); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void WriterLockWhen(const VerifCondition& c) { LockWhen(c); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
  void AssertNotHeld() const {}
  void ForgetDeadlockInfo() {}
  void EnableInvariantDebugging(void (*)(void*), void*) {}
  void EnableDebugLog(const char*) {}
  bool held() const { return held_; }

 private:
  friend class VerifCondVar;
  struct Waiter {
    const VerifCondition* condition;
    bool due;
  };
  static void Step() {
    auto* s = verif::Sched::Current();
    if (s != nullptr && !s->aborted()) s->Yield();
  }
  void Acquire(const VerifCondition* c, bool step = true) {
    if (step && verif::Sched::Current() != nullptr) verif::Sched::Current()->Yield();
    if (!held_ && (c == nullptr || c->Eval())) {
      held_ = true;
      return;
    }
    Waiter w{c, c == nullptr};
    waiters_.push_back(&w);
    struct Leave {
      VerifMutex* m;
      Waiter* w;
      ~Leave() {
        for (size_t i = 0; i < m->waiters_.size(); i++) {
          if (m->waiters_[i] == w) m->waiters_.erase(m->waiters_.begin() + i--);
        }
      }
    } leave{this, &w};
    do {
      verif::Yield([this, &w]() { return !held_ && w.due; });
      w.due = c == nullptr;
    } while (held_ || (c != nullptr && !c->Eval()));
    held_ = true;
  }
  void Release() {
    held_ = false;
    for (Waiter* w : waiters_) {
      if (!w->due) w->due = w->condition->Eval();
    }
  }
  bool held_ = false;
  std::vector<Waiter*> waiters_;
};

class VerifMutexLock {
 public:
  explicit VerifMutexLock(VerifMutex* mu) : mu_(mu) { mu_->Lock(); }
  explicit VerifMutexLock(VerifMutex& mu) : VerifMutexLock(&mu) {}
  VerifMutexLock(VerifMutex* mu, const VerifCondition& c) : mu_(mu) { mu_->LockWhen(c); }
  VerifMutexLock(VerifMutex& mu, const VerifCondition& c) : VerifMutexLock(&mu, c) {}
  ~VerifMutexLock() noexcept(false) { mu_->Unlock(); }
  VerifMutexLock(const VerifMutexLock&) = delete;
  VerifMutexLock& operator=(const VerifMutexLock&) = delete;

 private:
  VerifMutex* mu_;
};
using VerifWriterMutexLock = VerifMutexLock;
using VerifReaderMutexLock = VerifMutexLock;

class VerifReleasableMutexLock {
 public:
  explicit VerifReleasableMutexLock(VerifMutex* mu) : mu_(mu) { mu_->Lock(); }
  explicit VerifReleasableMutexLock(VerifMutex& mu) : VerifReleasableMutexLock(&mu) {}
  VerifReleasableMutexLock(VerifMutex* mu, const VerifCondition& c) : mu_(mu) { mu_->LockWhen(c); }
  ~VerifReleasableMutexLock() noexcept(false) {
    if (mu_ != nullptr) mu_->Unlock();
  }
  void Release() {
    mu_->Unlock();
    mu_ = nullptr;
  }

 private:
  VerifMutex* mu_;
};

class VerifCondVar {
 public:
  void Wait(VerifMutex* mu) {
    mu->Release();
    int me = next_++;
    verif::Yield([this, me]() { return me < woken_; });
    mu->Acquire(nullptr, false);
  }
  void Signal() {
    if (woken_ < next_) woken_++;
  }
  void SignalAll() { woken_ = next_; }

 private:
  int next_ = 0, woken_ = 0;
};

}  // namespace absl

#define Condition VerifCondition
#define Mutex VerifMutex
#define MutexLock VerifMutexLock
#define WriterMutexLock VerifWriterMutexLock
#define ReaderMutexLock VerifReaderMutexLock
#define ReleasableMutexLock VerifReleasableMutexLock
#define CondVar VerifCondVar

#endif  // VERIF_SCHED_PRELUDE_H_
