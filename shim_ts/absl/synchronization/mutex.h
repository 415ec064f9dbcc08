// Stand-in for absl::Mutex in ThreadSanitizer builds: the installed library is not
// instrumented, so its locks would be invisible to the race detector. Built on
// std::mutex; at every lock operation the harness may delay the thread.
#ifndef VERIF_SHIM_TS_ABSL_SYNCHRONIZATION_MUTEX_H_
#define VERIF_SHIM_TS_ABSL_SYNCHRONIZATION_MUTEX_H_
#include_next "absl/synchronization/mutex.h"

#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <type_traits>
#include <utility>

#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"

void VhSchedulePoint();  // defined by the harness

// The repository's code says absl::Mutex inside namespace mpact and finds these first;
// absl's own headers keep the real one.
namespace mpact {
namespace absl {
using namespace ::absl;
using ::absl::Duration;
using ::absl::Time;
class Condition {
 public:
  Condition(bool (*f)(void*), void* a) : f_([f, a] { return f(a); }) {}
  template <typename T>
  Condition(bool (*f)(T*), std::common_type_t<T*> a) : f_([f, a] { return f(a); }) {}
  template <typename T>
  Condition(T* o, bool (std::common_type_t<T>::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <typename T>
  Condition(const T* o, bool (std::common_type_t<T>::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  explicit Condition(const bool* b) : f_([b] { return *b; }) {}
  template <typename T, typename = std::enable_if_t<!std::is_same_v<std::remove_cv_t<T>, bool>>>
  explicit Condition(const T* o) : f_([o] { return (*o)(); }) {}
  bool Eval() const { return f_(); }

 private:
  std::function<bool()> f_;
};

class Mutex {
 public:
  Mutex() = default;
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;
  void Lock() { VhSchedulePoint(); m_.lock(); }
  void Unlock() { m_.unlock(); cv_.notify_all(); VhSchedulePoint(); }
  bool TryLock() { VhSchedulePoint(); return m_.try_lock(); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
  void Await(const Condition& c) { Wait(c); }
  void LockWhen(const Condition& c) { Lock(); Wait(c); }
  void ReaderLockWhen(const Condition& c) { LockWhen(c); }
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
  bool AwaitWithTimeout(const Condition& c, Duration d) {
    std::unique_lock<std::mutex> l(m_, std::adopt_lock);
    cv_.notify_all();
    bool r = cv_.wait_for(l, ToChronoNanoseconds(d), [&] { return c.Eval(); });
    l.release();
    return r;
  }
  bool AwaitWithDeadline(const Condition& c, Time t) { return AwaitWithTimeout(c, t - Now()); }
  bool LockWhenWithTimeout(const Condition& c, Duration d) { Lock(); return AwaitWithTimeout(c, d); }
  bool LockWhenWithDeadline(const Condition& c, Time t) { Lock(); return AwaitWithDeadline(c, t); }

 private:
  friend class CondVar;
  void Wait(const Condition& c) {
    std::unique_lock<std::mutex> l(m_, std::adopt_lock);
    while (!c.Eval()) {
      cv_.notify_all();
      cv_.wait(l);
    }
    l.release();
  }
  std::mutex m_;
  std::condition_variable cv_;
};

class CondVar {
 public:
  void Wait(Mutex* m) {
    std::unique_lock<std::mutex> l(m->m_, std::adopt_lock);
    m->cv_.notify_all();
    cv_.wait(l);
    l.release();
  }
  bool WaitWithTimeout(Mutex* m, Duration d) {
    std::unique_lock<std::mutex> l(m->m_, std::adopt_lock);
    m->cv_.notify_all();
    bool r = cv_.wait_for(l, ToChronoNanoseconds(d)) == std::cv_status::timeout;
    l.release();
    return r;
  }
  void Signal() { cv_.notify_one(); }
  void SignalAll() { cv_.notify_all(); }

 private:
  std::condition_variable cv_;
};

class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) : MutexLock(&m) {}
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  MutexLock& operator=(const MutexLock&) = delete;
  ~MutexLock() { m_->Unlock(); }

 private:
  Mutex* m_;
};
using ReaderMutexLock = MutexLock;
using WriterMutexLock = MutexLock;
class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  ReleasableMutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  ~ReleasableMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }

 private:
  Mutex* m_;
};
}  // namespace absl
}  // namespace mpact
#endif
