// Threads under control of the harness: only one runs at a time, and who runs
// next is decided at every operation on a mutex or condition variable and at
// every call of vhs::yield(). Stand-ins for std::mutex, std::shared_mutex and
// std::condition_variable are put in place of the real ones by macros, so the
// real code is compiled unchanged. Include all other headers before this one.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <vector>

namespace vhs {
struct Abandoned {};  // thrown in blocked threads after a deadlock
struct Thread {
  bool done = false;
  const void* blockedOn = nullptr;  // a mutex or condition variable
  bool inCondition = false;
  std::condition_variable cv;
};
struct Sched {
  std::mutex m;
  std::vector<std::unique_ptr<Thread>> threads;
  int current = -1;
  bool free = false;     // threads run on their own
  bool stuck = false;    // deadlock
  long steps = 0;
  std::condition_variable main, any;
  std::function<int(const std::vector<int>&, int)> pick;  // (who can run, who ran)
  int spurious = 0;      // chance in percent of a spurious wakeup at a step
  std::function<bool(int)> chance;
};
inline Sched*& sched() {
  static Sched* s = nullptr;
  return s;
}
inline int& me() {
  static thread_local int i = -1;
  return i;
}
inline bool& uncontrolled() {  // set once if control turned out to be impossible
  static bool b = false;
  return b;
}
inline bool controlled() { return sched() && me() >= 0 && !sched()->free; }

// Decides who runs next. Called with the lock held.
inline void next(Sched& s) {
  s.steps++;
  std::vector<int> can;
  bool open = false;
  for (size_t i = 0; i < s.threads.size(); i++) {
    auto& t = *s.threads[i];
    if (t.done) continue;
    open = true;
    if (t.blockedOn && t.inCondition && s.spurious && s.chance(s.spurious)) {
      t.blockedOn = nullptr, t.inCondition = false;
    }
    if (!t.blockedOn) can.push_back(i);
  }
  if (can.empty()) {
    s.current = -1;
    if (open) {
      s.stuck = true;
      s.free = true;
      for (auto& t : s.threads) t->cv.notify_all();
      s.any.notify_all();
    }
    s.main.notify_all();
    return;
  }
  int n = s.pick(can, s.current);
  bool ok = false;
  for (int i : can) ok |= i == n;
  s.current = ok ? n : can[0];
  s.threads[s.current]->cv.notify_all();
}
inline void waitTurn(Sched& s, std::unique_lock<std::mutex>& l) {
  int i = me();
  s.threads[i]->cv.wait(l, [&] { return s.free || s.current == i; });
  if (s.stuck) throw Abandoned{};
}
inline void yield() {
  if (!controlled()) return;
  auto& s = *sched();
  std::unique_lock<std::mutex> l(s.m);
  if (s.free) return;
  next(s);
  waitTurn(s, l);
}
// Blocks the running thread until it is woken or the run is set free.
inline void block(Sched& s, std::unique_lock<std::mutex>& l, const void* on, bool condition) {
  if (s.stuck) throw Abandoned{};
  if (s.free || me() < 0) {
    s.any.wait_for(l, std::chrono::milliseconds(5));
    if (s.stuck) throw Abandoned{};
    return;
  }
  auto& t = *s.threads[me()];
  t.blockedOn = on;
  t.inCondition = condition;
  next(s);
  waitTurn(s, l);
}
inline void wake(Sched& s, const void* on, bool all = true) {
  for (auto& t : s.threads) {
    if (t->blockedOn == on) {
      t->blockedOn = nullptr;
      t->inCondition = false;
      if (!all) break;
    }
  }
  s.any.notify_all();
}
// Threads of the current run that wait at a condition variable.
inline std::vector<int> waiting() {
  std::vector<int> v;
  if (!controlled()) return v;
  auto& s = *sched();
  std::lock_guard<std::mutex> l(s.m);
  for (size_t i = 0; i < s.threads.size(); i++) {
    if (s.threads[i]->blockedOn && s.threads[i]->inCondition) v.push_back(i);
  }
  return v;
}
inline Sched& always() {  // for use outside of runs
  static Sched s;
  return sched() ? *sched() : s;
}
struct SharedMutex {
  int readers = 0;
  bool held = false;
  void lock() {
    yield();
    auto& s = always();
    std::unique_lock<std::mutex> l(s.m);
    while (held || readers) block(s, l, this, false);
    held = true;
  }
  bool try_lock() {
    yield();
    std::unique_lock<std::mutex> l(always().m);
    if (held || readers) return false;
    return held = true;
  }
  void unlock() {
    {
      auto& s = always();
      std::unique_lock<std::mutex> l(s.m);
      held = false;
      wake(s, this);
    }
    quietYield();
  }
  void lock_shared() {
    yield();
    auto& s = always();
    std::unique_lock<std::mutex> l(s.m);
    while (held) block(s, l, this, false);
    readers++;
  }
  bool try_lock_shared() {
    yield();
    std::unique_lock<std::mutex> l(always().m);
    if (held) return false;
    readers++;
    return true;
  }
  void unlock_shared() {
    {
      auto& s = always();
      std::unique_lock<std::mutex> l(s.m);
      readers--;
      wake(s, this);
    }
    quietYield();
  }
  static void quietYield() {  // destructors release locks and must not throw
    try {
      yield();
    } catch (const Abandoned&) {
    }
  }
};
struct Mutex : private SharedMutex {
  using SharedMutex::lock;
  using SharedMutex::try_lock;
  using SharedMutex::unlock;
};
struct Condition {
  template <typename L>
  void wait(L& lock) {
    auto& s = always();
    auto* m = reinterpret_cast<SharedMutex*>(lock.mutex());
    {
      std::unique_lock<std::mutex> l(s.m);
      m->held = false;
      wake(s, m);
      try {
        block(s, l, this, true);
      } catch (const Abandoned&) {
        m->held = true;  // released by the owner of the lock
        throw;
      }
      while (m->held) block(s, l, m, false);
      m->held = true;
    }
  }
  template <typename L, typename P>
  void wait(L& lock, P p) {
    while (!p()) wait(lock);
  }
  template <typename L, typename D>
  std::cv_status wait_for(L& lock, const D&) {
    wait(lock);
    return std::cv_status::no_timeout;
  }
  template <typename L, typename D, typename P>
  bool wait_for(L& lock, const D&, P p) {
    wait(lock, p);
    return true;
  }
  void notify_all() noexcept { notify(true); }
  void notify_one() noexcept { notify(false); }
  void notify(bool all) {
    {
      auto& s = always();
      std::unique_lock<std::mutex> l(s.m);
      wake(s, this, all);
    }
    SharedMutex::quietYield();
  }
};
// Runs the functions in one thread each under the given policy. Returns false
// for a deadlock.
inline bool run(Sched& s, const std::vector<std::function<void()>>& fs) {
  s.free = uncontrolled();
  for (size_t i = 0; i < fs.size(); i++) s.threads.push_back(std::make_unique<Thread>());
  sched() = &s;
  std::vector<std::thread> ts;
  for (size_t i = 0; i < fs.size(); i++) {
    ts.emplace_back([&s, &fs, i] {
      me() = i;
      {
        std::unique_lock<std::mutex> l(s.m);
        s.threads[i]->cv.wait(l, [&] { return s.free || s.current == (int)i; });
      }
      try {
        fs[i]();
      } catch (const Abandoned&) {
      }
      std::unique_lock<std::mutex> l(s.m);
      s.threads[i]->done = true;
      if (!s.free) next(s);
      s.main.notify_all();
    });
  }
  {
    std::unique_lock<std::mutex> l(s.m);
    if (!s.free) next(s);
    long seen = -1;
    auto finished = [&] {
      for (auto& t : s.threads)
        if (!t->done) return false;
      return true;
    };
    while (!finished()) {
      if (s.main.wait_for(l, std::chrono::seconds(5), finished)) break;
      if (s.steps == seen && !s.free) {  // waits at something not under control
        uncontrolled() = true;
        s.free = true;
        for (auto& t : s.threads) t->cv.notify_all();
        s.any.notify_all();
      }
      seen = s.steps;
    }
  }
  for (auto& t : ts) t.join();
  sched() = nullptr;
  return !s.stuck;
}
}  // namespace vhs
#ifndef __SANITIZE_THREAD__
namespace std {
using vhs_mutex = vhs::Mutex;
using vhs_shared_mutex = vhs::SharedMutex;
using vhs_condition_variable = vhs::Condition;
}  // namespace std
#define mutex vhs_mutex
#define shared_mutex vhs_shared_mutex
#define condition_variable vhs_condition_variable
#define condition_variable_any vhs_condition_variable
#endif
