// Scenarios that check the model checker itself (used by tools/selftest.py and the unit check of the framework).
#include "mc.h"
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>

static std::string ok(const mc::Trace&) { return ""; }

// two counters, atomics only
MC_SCENARIO(st_atomics, "", 0, "") {
   std::atomic<int> x{0}, y{0};
   int r1 = 0, r2 = 0;
   mc::begin();
   std::thread a([&] { x = 1; r1 = y; });
   std::thread b([&] { y = 1; r2 = x; });
   a.join(); b.join();
   mc::event(1, r1, r2);
}
MC_ORACLE(st_atomics) { return tr.first(1)->a + tr.first(1)->b == 0 ? "sc: both zero" : ""; }

MC_SCENARIO(st_lost_update, "", 0, "") {
   std::atomic<int> x{0};
   mc::begin();
   std::thread a([&] { int v = x; x = v + 1; });
   std::thread b([&] { int v = x; x = v + 1; });
   a.join(); b.join();
   mc::event(1, x);
}
MC_ORACLE(st_lost_update) { return tr.first(1)->a != 2 ? "lost: update lost" : ""; }

MC_SCENARIO(st_mutex, "", 0, "") {
   std::mutex m;
   int x = 0;
   mc::begin();
   auto f = [&](int id) { for (int i = 0; i < 2; i++) { std::lock_guard<std::mutex> l(m); mc::event(2, id, x++); } };
   std::thread a(f, 1), b(f, 2), c(f, 3);
   a.join(); b.join(); c.join();
   mc::event(1, x);
}
MC_ORACLE(st_mutex) { return tr.first(1)->a != 6 ? "lost: update lost" : ""; }

MC_SCENARIO(st_race, "", 0, "") {
   int x = 0;
   mc::begin();
   std::thread a([&] { x++; });
   std::thread b([&] { x++; });
   a.join(); b.join();
}
MC_ORACLE(st_race) { return ok(tr); }

MC_SCENARIO(st_uaf, "", 0, "") {
   auto* p = new std::atomic<int>{0};
   std::atomic<bool> done{false};
   mc::begin();
   std::thread a([&] { if (!done) (*p)++; });
   done = true;
   delete p;
   a.join();
}
MC_ORACLE(st_uaf) { return ok(tr); }

MC_SCENARIO(st_deadlock, "", 0, "") {
   std::mutex m, n;
   mc::begin();
   std::thread a([&] { std::lock_guard<std::mutex> l(m); std::lock_guard<std::mutex> k(n); });
   std::thread b([&] { std::lock_guard<std::mutex> l(n); std::lock_guard<std::mutex> k(m); });
   a.join(); b.join();
}
MC_ORACLE(st_deadlock) { return ok(tr); }

// lost wake-up: flag set without the lock
MC_SCENARIO(st_lost_wakeup, "", 0, "") {
   std::mutex m;
   std::condition_variable c;
   std::atomic<bool> f{false};
   mc::begin();
   std::thread a([&] { std::unique_lock<std::mutex> l(m); while (!f) c.wait(l); });
   f = true;
   c.notify_one();
   a.join();
}
MC_ORACLE(st_lost_wakeup) { return ok(tr); }

// spurious wake-up not handled
MC_SCENARIO(st_spurious, "", 0, "") {
   mc::allow_spurious(1);
   std::mutex m;
   std::condition_variable c;
   bool f = false;
   mc::begin();
   std::thread a([&] { std::unique_lock<std::mutex> l(m); if (!f) c.wait(l); mc::event(1, f); });
   { std::lock_guard<std::mutex> l(m); f = true; }
   c.notify_one();
   a.join();
}
MC_ORACLE(st_spurious) { return tr.first(1)->a ? "" : "spurious: woke without the flag"; }

MC_SCENARIO(st_queue, "", 0, "") {
   std::mutex m;
   std::condition_variable c;
   std::queue<int> q;
   auto push = [&](int v) { { std::lock_guard<std::mutex> l(m); q.push(v); } c.notify_one(); };
   auto pop = [&] { std::unique_lock<std::mutex> l(m); while (q.empty()) c.wait(l); int v = q.front(); q.pop(); return v; };
   mc::begin();
   std::thread a([&] { push(1); });
   std::thread b([&] { push(2); });
   std::thread d([&] { mc::event(1, pop()); });
   mc::event(2, pop());
   a.join(); b.join(); d.join();
}
MC_ORACLE(st_queue) { return tr.first(1)->a + tr.first(2)->a == 3 ? "" : "queue: bad"; }

MC_SCENARIO(st_future, "", 0, "") {
   mc::begin();
   std::promise<std::string> p;
   auto f = p.get_future();
   std::thread a([&] { p.set_value("hello world, this is a long string on the heap"); });
   std::string s = f.get();
   mc::event(1, s.size());
   a.join();
   auto sp = std::make_shared<int>(3);
   std::thread b([sp] { mc::event(3, *sp); });
   int v = *sp;
   sp.reset();
   b.join();
   mc::event(2, v);
}
MC_ORACLE(st_future) { return tr.first(1)->a == 46 ? "" : "future: bad"; }

static int compute() { static int v = [] { mc::event(7); return 42; }(); return v; }
MC_SCENARIO(st_static, "", 0, "") {
   mc::begin();
   std::thread a([] { mc::event(1, compute()); });
   std::thread b([] { mc::event(1, compute()); });
   a.join(); b.join();
   std::once_flag o;
   std::thread d([&] { std::call_once(o, [] { mc::event(8); }); });
   std::call_once(o, [] { mc::event(8); });
   d.join();
}
MC_ORACLE(st_static) { return tr.count(7) == 1 && tr.count(8) == 1 && tr.count(1, 42) == 2 ? "" : "static: bad"; }

MC_SCENARIO(st_choose, "", 0, "") {
   std::atomic<int> x{0};
   mc::begin();
   std::thread a([&] { if (mc::choose(3) == 1) x = 5; });
   int k = mc::choose(2);
   int v = x;
   a.join();
   mc::event(1, k, v);
}
MC_ORACLE(st_choose) { return ok(tr); }

MC_SCENARIO(st_sleep, "", 0, "") {
   std::atomic<bool> f{false};
   std::atomic<int> z{0};
   mc::begin();
   std::thread a([&] { z++; f = true; });
   while (!f) std::this_thread::sleep_for(std::chrono::seconds(1));
   z++;
   a.join();
}
MC_ORACLE(st_sleep) { return ok(tr); }

MC_SCENARIO(st_three, "", 0, "") {
   std::atomic<int> x{0}, y{0}, z{0};
   mc::begin();
   std::thread a([&] { x++; y = 1; mc::event(1, z); });
   std::thread b([&] { y = 2; z = 2; mc::event(1, x); });
   std::thread c([&] { z = 3; x++; mc::event(1, y); });
   a.join(); b.join(); c.join();
   mc::event(2, y, z);
}
MC_ORACLE(st_three) { return ok(tr); }

// a sleep is no synchronisation
MC_SCENARIO(st_sleep_sync, "", 0, "") {
   std::atomic<int> z{0};
   mc::begin();
   std::thread a([&] { z = 1; });
   std::this_thread::sleep_for(std::chrono::milliseconds(500));
   mc::event(1, z);
   a.join();
}
MC_ORACLE(st_sleep_sync) { return tr.first(1)->a ? "" : "slept: and the other thread was not done"; }

MC_SCENARIO(st_timed, "", 0, "") {
   std::promise<int> p;
   auto f = p.get_future();
   mc::begin();
   std::thread a([&] { p.set_value(4); });
   auto r = f.wait_for(std::chrono::seconds(5));
   mc::event(1, r == std::future_status::ready);
   a.join();
}
MC_ORACLE(st_timed) { return tr.first(1)->a ? "" : "timeout: value not there in time"; }

MC_SCENARIO(st_timed_cv, "", 0, "") {
   std::mutex m;
   std::condition_variable c;
   bool f = false;
   mc::begin();
   std::thread a([&] { { std::lock_guard<std::mutex> l(m); f = true; } c.notify_one(); });
   {
      std::unique_lock<std::mutex> l(m);
      bool r = c.wait_for(l, std::chrono::seconds(1), [&] { return f; });
      mc::event(1, r);
   }
   a.join();
}
MC_ORACLE(st_timed_cv) { return tr.first(1)->a ? "" : "timeout: value not there in time"; }
