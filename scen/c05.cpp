// C05 code of one sink is never concurrent with itself
#include "common.h"
struct ExSink {
   int id;
   long state = 0;        // plain data: concurrent use is a data race, lost effects show in the count
   std::vector<int> hist; // visible effects
   explicit ExSink(int i) : id(i) {}
   void body(int kind, long v) {
      mc::event(ENTER, id, kind);
      long s = state;
      mc::point(700 + id);
      state = s + 1;
      hist.push_back(v);
      mc::event(LEAVE, id, v);
   }
   ~ExSink() {
      mc::event(ENTER, id, 9);
      mc::event(VALUE, id, state);
      mc::event(LEAVE, id, 9);
   }
   void receive(g3::LogMessageMover m) { mc::event(RECV, id, 0, m.get().message()); body(0, -1); }
   void op(int v) { body(1, v); }
   long value(int v) { body(1, v); return state; }
   void thrower(int v) { body(1, v); throw std::runtime_error("x"); }
};
static std::string judge(const mc::Trace& tr, int nsinks) {
   for (int s = 0; s < nsinks; s++) {
      int in = -1;
      long n = 0;
      for (auto& e : tr.ev) {
         if (e.a != s) continue;
         if (e.code == ENTER) {
            REQUIRE(in < 0, "overlap", "two functions of sink " + num(s) + " at the same time (T" + num(in) + ", T" + num(e.tid) + ")");
            in = e.tid;
         }
         if (e.code == LEAVE) { in = -1; if (e.b != 9) n++; }
      }
      for (auto* x : tr.with(LEAVE))
         for (auto* y : tr.with(ENTER))
            if (x->a == s && y->a == s && pos(tr, x) < pos(tr, y)) REQUIRE(mc::Trace::hb(*x, *y), "visibility", "invocations of sink " + num(s) + " not ordered");
      auto* d = tr.first(VALUE);
      for (auto* v : tr.with(VALUE)) if (v->a == s) { d = v; REQUIRE(v->b == n, "lost", "effects of sink " + num(s) + ": " + num(v->b) + " of " + num(n)); }
      REQUIRE(d, "dtor", "not destroyed");
      // handle calls: issue order = STEP events (a=sink, b=argument) ordered by synchronisation
      std::vector<long> ran;
      for (auto* e : tr.with(LEAVE)) if (e->a == s && e->b >= 0 && e->b != 9) ran.push_back(e->b);
      for (auto* x : tr.with(CALLED))
         for (auto* y : tr.with(STEP)) {
            if (x->a != s || y->a != s || x->b == y->b || !mc::Trace::hb(*x, *y)) continue;
            int i = -1, j = -1;
            for (int k = 0; k < (int)ran.size(); k++) { if (ran[k] == x->b) i = k; if (ran[k] == y->b) j = k; }
            REQUIRE(i < 0 || j < 0 || i < j, "order", "call " + num(y->b) + " ran before call " + num(x->b));
         }
      for (auto* x : tr.with(CALLED)) if (x->a == s) {
         int k = 0;
         for (long v : ran) k += v == x->b;
         REQUIRE(k == 1, "count", "call " + num(x->b) + " ran " + num(k) + " times");
      }
   }
   return "";
}
using H = g3::SinkHandle<ExSink>;
static void call(H& h, int s, int v) {
   mc::event(STEP, s, v);
   h.call(&ExSink::op, v);
   mc::event(CALLED, s, v);
}
MC_SCENARIO(excl_call_log, "C05", 0, "q=pb2:9000 t=dpor:1500000,pb3:600000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   std::thread a([&] { call(*h, 0, 10); call(*h, 0, 11); });
   logm(0, 0);
   a.join();
   mc::stop();
   w.reset();
}
MC_ORACLE(excl_call_log) { return judge(tr, 1); }
MC_SCENARIO(excl_two_callers, "C05", 0, "q=pb2:9000 t=dpor:1500000,pb3:600000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   mc::begin();
   std::thread a([&] { call(*h, 0, 10); });
   call(*h, 0, 20);
   call(*h, 0, 21);
   a.join();
   mc::stop();
   w.reset();
}
MC_ORACLE(excl_two_callers) { return judge(tr, 1); }
MC_SCENARIO(excl_handoff, "C05", 0, "q=pb2:9000 t=dpor:1500000,pb3:600000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   std::promise<void> p;
   auto f = p.get_future();
   mc::begin();
   std::thread a([&] { call(*h, 0, 10); p.set_value(); call(*h, 0, 11); });
   f.wait();
   call(*h, 0, 20);
   a.join();
   mc::stop();
   w.reset();
}
MC_ORACLE(excl_handoff) { return judge(tr, 1); }
MC_SCENARIO(excl_destroy, "C05", 0, "q=pb2:9000 t=dpor:1500000,pb3:600000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   call(*h, 0, 10);
   logm(0, 0);
   w.reset();
}
MC_ORACLE(excl_destroy) { return judge(tr, 1); }
// removal / destruction while another thread is calling: exclusion still holds (the call may fail)
MC_SCENARIO(excl_remove_race, "C05 C06", 0, "q=pb1:9000,db2:30000 t=dpor:1500000,pb3:600000,db3:300000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   g3::initializeLogging(w.get());
   auto mine = std::make_unique<H>(*h);
   mc::begin();
   std::thread a([&] {
      auto f = mine->call(&ExSink::value, 10);
      try { f.get(); mc::event(RESULT, 0, 1); } catch (...) { mc::event(RESULT, 0, 0); }
   });
   logm(0, 0);
   w->removeSink(std::move(h));
   a.join();
   mc::stop();
   w.reset();
}
MC_ORACLE(excl_remove_race) {
   auto e = judge(tr, 1);
   if (!e.empty()) return e;
   int ran = 0;
   for (auto* l : tr.with(LEAVE)) ran += l->b == 10;
   REQUIRE(ran == (int)tr.first(RESULT)->b, "future", "future and execution disagree");
   return "";
}
MC_SCENARIO(excl_two_sinks, "C05", 0, "q=pb1:9000 t=pb2:300000,pb3:600000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   auto g = w->addSink(std::make_unique<ExSink>(1), &ExSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   std::thread a([&] { call(*h, 0, 10); call(*g, 1, 11); });
   logm(0, 0);
   call(*g, 1, 20);
   a.join();
   mc::stop();
   w.reset();
}
MC_ORACLE(excl_two_sinks) { return judge(tr, 2); }
// a call that throws leaves the sink usable, and long call sequences stay ordered
MC_SCENARIO(excl_throw, "C05 C06", 0, "q=pb1:4000 t=pb2:200000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   auto f = h->call(&ExSink::thrower, 30);
   logm(0, 0);
   call(*h, 0, 31);
   bool thrown = false;
   try { f.get(); } catch (const std::runtime_error& e) { thrown = std::string(e.what()) == "x"; }
   mc::event(RESULT, thrown);
   mc::stop();
   w.reset();
}
MC_ORACLE(excl_throw) {
   REQUIRE(tr.first(RESULT)->a == 1, "exception", "not passed on");
   auto e = exactly_once(tr, {0});
   return e.empty() ? judge(tr, 1) : e;
}
MC_SCENARIO(excl_long, "C05 C06", 0, "q=pb0:2000 t=pb1:20000") {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<ExSink>(0), &ExSink::receive);
   g3::initializeLogging(w.get());
   if (mc::choose(2)) mc::begin();
   for (int i = 0; i < 40; i++) { call(*h, 0, 100 + i); if (i % 5 == 0) logm(0, i); }
   mc::begin();
   call(*h, 0, 10);
   w.reset();
}
MC_ORACLE(excl_long) { auto e = exactly_once(tr, {0}); return e.empty() ? judge(tr, 1) : e; }
