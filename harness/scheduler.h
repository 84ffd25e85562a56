// Deterministic scheduler: the threads of a case run one at a time, and the
// choices of the case decide who goes on at each operation on a file.
#pragma once
#include "vf.h"
#include "joedb/journal/Abstract_File.h"
#include "joedb/error/Exception.h"
#include <algorithm>
#include <condition_variable>
#include <cstring>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace sched
{
 struct Stop {};
 struct Died {};

 class Sched
 {
  struct Task
  {
   std::thread th;
   std::condition_variable cv;
   std::function<bool()> ready;
   bool done = false;
  };
  vf::Ctx &c;
  std::mutex m;
  std::condition_variable main_cv;
  std::vector<std::unique_ptr<Task>> tasks;
  int current = -1;
  std::exception_ptr error;
  bool finished = false;

  bool can_run(Task &t) {return !t.done && (stopping || !t.ready || t.ready());}

  // m is held; chooses who runs
  void next(bool may_stay)
  {
   std::vector<int> r;
   const int n = int(tasks.size());
   bool all_done = true;
   for (int k = 0; k < n; k++)
   {
    const int i = (std::max(current, 0) + k) % n;
    if (!tasks[size_t(i)]->done) all_done = false;
    if (can_run(*tasks[size_t(i)])) r.push_back(i);
   }
   if (r.empty())
   {
    if (all_done) {finished = true; current = -1; main_cv.notify_all(); return;}
    if (!error) error = std::make_exception_ptr(vf::Fail("every client waits: a lock was not released, or two clients wait for each other"));
    stopping = true;
    next(false);
    return;
   }
   int to = r[0];
   if (!stopping && r.size() > 1)
   {
    if (may_stay && r[0] == current)
    {
     if (c.chance(1, switch_den)) to = r[1 + c.below(r.size() - 1)];
    }
    else to = r[c.below(r.size())];
   }
   if (to != current) switches++;
   current = to;
   tasks[size_t(to)]->cv.notify_all();
  }

  void wait_turn(std::unique_lock<std::mutex> &l, int me)
  {
   tasks[size_t(me)]->cv.wait(l, [&] {return current == me;});
  }

 public:
  bool stopping = false;
  int switch_den = 4;
  uint64_t clock = 0; // logical time
  uint64_t switches = 0;

  Sched(vf::Ctx &c): c(c) {}
  int running() const {return current;}

  void spawn(std::function<void()> f)
  {
   std::unique_lock<std::mutex> spawning(m);
   const int me = int(tasks.size());
   tasks.push_back(std::make_unique<Task>());
   tasks.back()->th = std::thread([this, me, f]
   {
    {
     std::unique_lock<std::mutex> l(m);
     wait_turn(l, me);
    }
    try {if (!stopping) f();}
    catch (const Stop &) {}
    catch (...) {if (!error) error = std::current_exception(); stopping = true;}
    std::unique_lock<std::mutex> l(m);
    tasks[size_t(me)]->done = true;
    next(false);
   });
  }

  // a point where another client may go on
  void yield()
  {
   clock++;
   if (current < 0) return; // not scheduled
   if (stopping) return;
   std::unique_lock<std::mutex> l(m);
   const int me = current;
   next(true);
   wait_turn(l, me);
  }

  void wait_until(std::function<bool()> ready)
  {
   if (current < 0) {if (!ready()) throw vf::Fail("a single client waits for itself"); return;}
   if (stopping || ready()) return;
   std::unique_lock<std::mutex> l(m);
   const int me = current;
   tasks[size_t(me)]->ready = std::move(ready);
   next(false);
   wait_turn(l, me);
   tasks[size_t(me)]->ready = nullptr;
  }

  void run()
  {
   {
    std::unique_lock<std::mutex> l(m);
    current = 0;
    tasks[0]->cv.notify_all();
    main_cv.wait(l, [&] {return finished;});
   }
   for (auto &t: tasks) t->th.join();
   tasks.clear();
   current = -1;
   finished = false;
   if (error) {auto e = error; error = nullptr; std::rethrow_exception(e);}
  }
 };

 class Handle;
 struct Lock {const Handle *owner; int64_t start, size; bool exclusive;};
 struct Disk
 {
  std::string data;
  std::vector<Lock> locks;
 };

 // One opening of a shared file, with locks like those of an open file
 // description. It can die at any of its operations.
 class Handle: public joedb::Abstract_File
 {
  vf::Ctx &c;
  Sched &s;
  Disk &d;
  bool split;
  mutable int64_t life; // operations before death, -1: forever

  void op() const
  {
   if (s.stopping && !dead) {if (std::uncaught_exceptions()) return; throw Stop();}
   if (dead) {if (std::uncaught_exceptions()) return; throw Died();}
   if (life > 0 && --life == 0)
   {
    die();
    throw Died();
   }
   s.yield();
   if (s.stopping) {if (std::uncaught_exceptions()) return; throw Stop();}
  }
  bool conflict(int64_t start, int64_t size, bool exclusive) const
  {
   for (auto &l: d.locks)
    if (l.owner != this && (exclusive || l.exclusive) && uint64_t(start) < uint64_t(l.start) + uint64_t(l.size) && uint64_t(l.start) < uint64_t(start) + uint64_t(size)) return true;
   return false;
  }
  void take(int64_t start, int64_t size, bool exclusive)
  {
   op();
   if (dead) return;
   if (conflict(start, size, exclusive)) waits++;
   s.wait_until([this, start, size, exclusive] {return !conflict(start, size, exclusive);});
   if (s.stopping) {if (std::uncaught_exceptions()) return; throw Stop();}
   drop(start, size);
   d.locks.push_back({this, start, size, exclusive});
  }
  void drop(int64_t start, int64_t size) const
  {
   d.locks.erase(std::remove_if(d.locks.begin(), d.locks.end(), [&](const Lock &l) {return l.owner == this && l.start == start && l.size == size;}), d.locks.end());
  }

 public:
  mutable bool dead = false;
  int waits = 0;

  Handle(vf::Ctx &c, Sched &s, Disk &d, joedb::Open_Mode mode, int64_t life = -1, bool split = true): Abstract_File(mode), c(c), s(s), d(d), split(split), life(life) {}
  ~Handle() {die();}
  void die() const
  {
   dead = true;
   d.locks.erase(std::remove_if(d.locks.begin(), d.locks.end(), [&](const Lock &l) {return l.owner == this;}), d.locks.end());
  }
  void set_life(int64_t n) {life = n;}

  int64_t get_size() const override {op(); return int64_t(d.data.size());}
  size_t pread(char *buffer, size_t size, int64_t offset) const override
  {
   op();
   if (dead) return 0;
   if (offset < 0) throw joedb::Exception("negative offset");
   if (size_t(offset) >= d.data.size()) return 0;
   const size_t n = std::min(size, d.data.size() - size_t(offset));
   size_t a = n;
   if (split && n > 1 && s.running() >= 0 && c.chance(1, 8))
   {
    a = 1 + size_t(c.below(n - 1));
    std::memcpy(buffer, d.data.data() + offset, a);
    op();
    if (size_t(offset) + n > d.data.size()) return a; // cannot happen: files never shrink
   }
   else a = 0;
   std::memcpy(buffer + a, d.data.data() + offset + a, n - a);
   return n;
  }
  void pwrite(const char *buffer, size_t size, int64_t offset) override
  {
   op();
   if (dead || !size) return;
   if (offset < 0 || offset > (1 << 26)) throw joedb::Exception("bad offset");
   size_t a = 0;
   auto put = [&](size_t from, size_t until)
   {
    if (d.data.size() < size_t(offset) + until) d.data.resize(size_t(offset) + until);
    std::memcpy(&d.data[size_t(offset) + from], buffer + from, until - from);
   };
   if (split && size > 1 && s.running() >= 0 && c.chance(1, 4))
   {
    a = 1 + size_t(c.below(size - 1));
    put(0, a);
    if (offset < 41) s.yield(); // an atomic write for a crash, not for readers that do not lock
    else
    {
     op();
     if (dead) return;
    }
   }
   put(a, size);
  }
  void sync() override {op();}
  void shared_lock(int64_t start, int64_t size) override {take(start, size, false);}
  void exclusive_lock(int64_t start, int64_t size) override {take(start, size, true);}
  void unlock(int64_t start, int64_t size) noexcept override
  {
   if (dead) return;
   drop(start, size);
  }
 };
}
