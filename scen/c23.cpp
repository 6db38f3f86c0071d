// C23 background tasks run once, in order, on one thread, and futures always resolve
#include "common.h"
#include <g3log/active.hpp>
#include <g3log/future.hpp>
using kjellkod::Active;
// LOGGING/LOGGED a=thread b=k: before/after the send; ENTER/LEAVE a=job: the job runs
static long jid(int t, int k) { return t * 10 + k; }
static void job(int t, int k) {
   mc::event(ENTER, jid(t, k));
   mc::point(500);
   mc::event(LEAVE, jid(t, k));
}
static void send(Active& a, int t, int k) {
   mc::event(LOGGING, t, k);
   a.send([=] { job(t, k); });
   mc::event(LOGGED, t, k);
}
static void spawn(Active& a, int t, int k) {
   mc::event(LOGGING, t, k);
   auto f = g3::spawn_task([=] { job(t, k); return 7 * k; }, &a);
   mc::event(LOGGED, t, k);
   mc::event(RESULT, jid(t, k), f.get() == 7 * k);
}
static void destroy(std::unique_ptr<Active>& a) {
   mc::event(MARK, 1);
   a.reset();
   mc::event(MARK, 2);
}
static std::string judge(const mc::Trace& tr) {
   auto *d0 = find_ev(tr, MARK, 1, 0), *d1 = find_ev(tr, MARK, 2, 0);
   REQUIRE(d0 && d1, "harness", "no destruction");
   int thread = -1;
   const mc::Ev* last = nullptr;
   std::map<long, const mc::Ev*> ran;
   for (auto& e : tr.ev) {
      if (e.code == ENTER) {
         REQUIRE(!last || last->code == LEAVE, "overlap", "job " + num(e.a) + " started inside another one");
         REQUIRE(thread < 0 || thread == e.tid, "thread", "job " + num(e.a) + " ran on another thread");
         REQUIRE(!ran.count(e.a), "twice", "job " + num(e.a) + " ran twice");
         if (last) REQUIRE(mc::Trace::hb(*last, e), "visible", "job " + num(e.a) + " does not see the effects of the previous one");
         thread = e.tid;
         ran[e.a] = &e;
         last = &e;
      }
      if (e.code == LEAVE) { REQUIRE(last && last->a == e.a, "overlap", "end of " + num(e.a)); last = &e; }
   }
   for (auto& e : tr.ev) if (e.code == ENTER || e.code == LEAVE) REQUIRE(mc::Trace::hb(e, *d1), "after-destruction", "job " + num(e.a) + " ran while or after the destruction returned");
   for (auto* s : tr.with(LOGGED)) {
      if (mc::Trace::hb(*s, *d0)) REQUIRE(ran.count(jid(s->a, s->b)), "lost", "job " + num(jid(s->a, s->b)) + " did not run");
   }
   for (auto* x : tr.with(LOGGED))
      for (auto* y : tr.with(LOGGING)) {
         if (!mc::Trace::hb(*x, *y)) continue;
         auto a = ran.find(jid(x->a, x->b)), b = ran.find(jid(y->a, y->b));
         if (b == ran.end()) continue;
         REQUIRE(a != ran.end() && pos(tr, a->second) < pos(tr, b->second), "order", "job " + num(b->first) + " before " + num(jid(x->a, x->b)));
      }
   for (auto* r : tr.with(RESULT)) REQUIRE(r->b == 1, "future", "future of job " + num(r->a));
   return "";
}
MC_SCENARIO(active_two_senders, "C23", 0, "q=dpor:30000,pb2:9000 t=dpor:1000000,pb3:1000000") {
   auto a = Active::createActive();
   mc::begin();
   std::thread t([&] { send(*a, 1, 0); send(*a, 1, 1); });
   send(*a, 0, 0);
   send(*a, 0, 1);
   t.join();
   send(*a, 0, 2);
   destroy(a);
}
MC_ORACLE(active_two_senders) { REQUIRE(tr.count(ENTER) == 5, "lost", "jobs"); return judge(tr); }
MC_SCENARIO(active_create_destroy, "C23", 0, "q=dpor:8000,pb3:9000 t=dpor:1000000,pb5:1000000") {
   int n = mc::choose(4);
   mc::begin();
   auto a = Active::createActive();
   for (int k = 0; k < n; k++) send(*a, 0, k);
   destroy(a);
   mc::event(VALUE, n);
}
MC_ORACLE(active_create_destroy) { REQUIRE(tr.count(ENTER) == tr.first(VALUE)->a, "lost", "jobs"); return judge(tr); }
// several workers side by side
MC_SCENARIO(active_two_workers, "C23", 0, "q=pb1:9000 t=pb2:1000000") {
   auto a = Active::createActive(), b = Active::createActive();
   mc::begin();
   std::thread t([&] { send(*a, 1, 0); b->send([] { mc::event(CALLED, 1); }); });
   b->send([] { mc::event(CALLED, 2); });
   send(*a, 0, 0);
   t.join();
   destroy(a);
   b.reset();
   mc::event(VALUE, 0);
}
MC_ORACLE(active_two_workers) { REQUIRE(tr.count(CALLED) == 2 && tr.count(CALLED, 1) == 1, "lost", "jobs of the second worker"); return judge(tr); }
// jobs that send jobs, also while the worker is being destroyed
MC_SCENARIO(active_nested_send, "C23", 0, "q=dpor:8000,pb2:9000 t=dpor:1000000,pb3:1000000") {
   auto a = Active::createActive();
   Active* p = a.get();
   mc::begin();
   mc::event(LOGGING, 0, 0);
   p->send([p] {
      mc::event(ENTER, jid(0, 0));
      send(*p, 1, 0);
      send(*p, 1, 1);
      mc::event(LEAVE, jid(0, 0));
   });
   mc::event(LOGGED, 0, 0);
   send(*p, 0, 1);
   if (mc::choose(2)) spawn(*p, 0, 2);
   destroy(a);
}
MC_ORACLE(active_nested_send) { return judge(tr); }
MC_SCENARIO(active_tasks, "C23", 0, "q=dpor:4000,pb2:30000 t=dpor:1000000,pb3:1000000") {
   auto a = Active::createActive();
   mc::begin();
   std::thread t([&] { spawn(*a, 1, 0); send(*a, 1, 1); spawn(*a, 1, 2); });
   send(*a, 0, 0);
   spawn(*a, 0, 1);
   t.join();
   destroy(a);
}
MC_ORACLE(active_tasks) { REQUIRE(tr.count(RESULT) == 3, "future", "unresolved"); return judge(tr); }
// a job under way while the worker is destroyed sends a task; its future resolves (value or error) in either case
MC_SCENARIO(active_late_task, "C23", 0, "q=dpor:8000,pb2:9000 t=dpor:1000000,pb3:1000000") {
   auto a = Active::createActive();
   Active* p = a.get();
   auto late = std::make_shared<std::promise<std::future<int>>>();
   auto got = late->get_future();
   mc::begin();
   mc::event(LOGGING, 0, 0);
   p->send([p, late] {
      mc::event(ENTER, jid(0, 0));
      late->set_value(g3::spawn_task([] { mc::event(CALLED, 1); return 5; }, p));
      mc::event(LEAVE, jid(0, 0));
   });
   mc::event(LOGGED, 0, 0);
   std::thread t([&] {
      auto f = got.get();
      int r = 0;
      try { r = f.get(); } catch (const std::future_error& e) { r = -1; }
      mc::event(VALUE, r);
   });
   destroy(a);
   t.join();
}
MC_ORACLE(active_late_task) {
   REQUIRE(tr.first(VALUE), "future", "unresolved");
   long v = tr.first(VALUE)->a;
   REQUIRE((v == 5 && tr.count(CALLED) == 1) || (v == -1 && tr.count(CALLED) == 0), "future", "value " + num(v) + ", ran " + num(tr.count(CALLED)));
   return judge(tr);
}
// all kinds of results and functors
struct MoveOnly {
   std::unique_ptr<long> v;
   std::unique_ptr<long> operator()() { mc::event(CALLED, *v); return std::move(v); }
};
static long plain() { mc::event(CALLED, 3); return 33; }
MC_SCENARIO(active_results, "C23", 0, "q=dpor:8000,pb2:9000 t=dpor:1000000,pb3:1000000") {
   auto a = Active::createActive();
   int kind = mc::choose(9);
   bool dead = mc::choose(2);  // the worker is destroyed before the future is asked
   mc::begin();
   mc::event(LOGGING, 0, 0);
   auto ask = [&](auto f, auto good) {
      mc::event(LOGGED, 0, 0);
      if (dead) a.reset();
      bool v = f.valid(), ok = false;
      try { ok = good(f); } catch (...) { ok = false; }
      mc::event(RESULT, kind, v && ok);
   };
   auto boom = [](auto& f, auto chk) { try { f.get(); } catch (const std::runtime_error& e) { return std::string(e.what()) == chk; } catch (int i) { return std::to_string(i) == chk; } return false; };
   switch (kind) {
   case 0: ask(g3::spawn_task([] { mc::event(CALLED, 0); return std::string(100, 'r'); }, a.get()), [](auto& f) { return f.get() == std::string(100, 'r'); }); break;
   case 1: ask(g3::spawn_task([] { mc::event(CALLED, 1); }, a.get()), [](auto& f) { f.get(); return true; }); break;
   case 2: ask(g3::spawn_task(MoveOnly{std::make_unique<long>(2)}, a.get()), [](auto& f) { auto p = f.get(); return p && *p == 2; }); break;
   case 3: ask(g3::spawn_task(&plain, a.get()), [](auto& f) { return f.get() == 33; }); break;
   case 4: ask(g3::spawn_task([]() -> int { mc::event(CALLED, 4); throw std::runtime_error("bad"); }, a.get()), [&](auto& f) { return boom(f, "bad"); }); break;
   case 5: ask(g3::spawn_task([]() { mc::event(CALLED, 5); throw 17; }, a.get()), [&](auto& f) { return boom(f, "17"); }); break;
   case 6: { static long cell; cell = 0; ask(g3::spawn_task([]() -> long& { mc::event(CALLED, 6); cell = 6; return cell; }, a.get()), [](auto& f) { return &f.get() == &cell && cell == 6; }); break; }
   case 7: { kjellkod::Active* none = nullptr; ask(g3::spawn_task([]() { mc::event(MARK, 66); return 1; }, none), [&](auto& f) { try { f.get(); } catch (const std::exception&) { mc::event(CALLED, 7); return true; } return false; }); break; }
   case 8: { kjellkod::Active* none = nullptr; ask(g3::spawn_task([]() { mc::event(MARK, 66); }, none), [&](auto& f) { try { f.get(); } catch (const std::exception&) { mc::event(CALLED, 8); return true; } return false; }); break; }
   }
   a.reset();
   mc::event(VALUE, kind);
}
MC_ORACLE(active_results) {
   REQUIRE(tr.first(RESULT) && tr.first(RESULT)->b == 1, "future", "kind " + num(tr.first(VALUE)->a));
   REQUIRE(tr.count(CALLED) == 1 && tr.first(CALLED)->a == tr.first(VALUE)->a, "twice", "ran " + num(tr.count(CALLED)));
   REQUIRE(!find_ev(tr, MARK, 66, 0), "ran", "ran without a worker");
   return "";
}
// futures that nobody waits for; the functor is destroyed exactly once
struct Probe {
   std::shared_ptr<int> alive;
   long operator()() const { mc::event(ENTER, 1); mc::event(LEAVE, 1); return 1; }
};
MC_SCENARIO(active_dropped_future, "C23", 0, "q=dpor:8000,pb2:9000 t=dpor:1000000,pb3:1000000") {
   auto a = Active::createActive();
   auto alive = std::make_shared<int>(1);
   mc::begin();
   mc::event(LOGGING, 0, 1);
   { auto f = g3::spawn_task(Probe{alive}, a.get()); }
   mc::event(LOGGED, 0, 1);
   destroy(a);
   mc::event(VALUE, alive.use_count());
}
MC_ORACLE(active_dropped_future) {
   REQUIRE(tr.first(VALUE)->a == 1, "leak", "functor still held: " + num(tr.first(VALUE)->a));
   REQUIRE(tr.count(ENTER) == 1, "lost", "ran " + num(tr.count(ENTER)));
   return judge(tr);
}
