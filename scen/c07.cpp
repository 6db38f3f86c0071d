// C07 shutdown drains everything, later logging is a harmless no-op
#include "common.h"

// destruction with messages in flight: delivered before the destructor returns
MC_SCENARIO(down_drain, "C07", 0, "q=pb2:9000 t=dpor:1500000,pb3:600000") {
   World w(1);
   mc::begin();
   logm(0, 0);
   logm(0, 1);
   w.destroy();
   mc::event(LOGGING, 5, 0, "after");
   LOG(INFO) << "after";
   mc::event(STEP, 1);
}
static std::string drained(const mc::Trace& tr, int nsinks, long mark = 99) {
   auto* end = find_ev(tr, MARK, mark, 0);
   REQUIRE(end, "stuck", "destructor did not return");
   for (int s = 0; s < nsinks; s++) {
      auto r = received(tr, s);
      for (auto* e : tr.with(LOGGED)) REQUIRE(count_of(r, e->text) == 1, "lost", "sink " + num(s) + " without " + e->text + " " + joined(r));
      for (auto* e : tr.with(RECV)) REQUIRE(mc::Trace::hb(*e, *end), "late", "delivery not ordered before the end of the destructor");
      auto* d = find_ev(tr, DTOR, s, 0);
      REQUIRE(d && tr.count(DTOR, s) == 1 && mc::Trace::hb(*d, *end), "dtor", "sink not destroyed when the destructor returned");
      REQUIRE(count_of(r, "after") == 0, "zombie", "message after shutdown delivered");
   }
   return "";
}
MC_ORACLE(down_drain) { REQUIRE(tr.first(STEP), "stuck", "LOG after shutdown did not return"); return drained(tr, 1); }
MC_SCENARIO(down_drain_s2, "C07", 0, "q=pb1:9000 t=pb2:300000,pb3:600000") {
   World w(2);
   mc::begin();
   logm(0, 0);
   logm(0, 1);
   w.destroy();
}
MC_ORACLE(down_drain_s2) { return drained(tr, 2); }
MC_SCENARIO(down_drain_threads, "C07", 0, "q=pb1:9000 t=pb2:300000,pb3:600000") {
   World w(1);
   mc::begin();
   std::thread a([] { logm(1, 0); logm(1, 1); });
   logm(0, 0);
   a.join();
   w.destroy();
}
MC_ORACLE(down_drain_threads) { return drained(tr, 1); }
MC_SCENARIO(down_drain_long, "C07", 0, "q=pb0:2000 t=pb1:20000") {
   World w(2);
   if (mc::choose(2)) mc::begin();
   for (int k = 0; k < 60; k++) logm(0, k);
   mc::begin();
   w.destroy();
}
MC_ORACLE(down_drain_long) { return drained(tr, 2); }

// LOG concurrent with shutDownLogging: returns, message complete or discarded, memory safe
static void log_and_mark(int t, int k) {
   mc::event(LOGGING, t, k, mname(t, k));
   LOG(INFO) << "t" << t << "m" << k;
   mc::event(STEP, t, k);  // returned
}
static std::string complete_or_discarded(const mc::Trace& tr, int nsinks) {
   for (auto* y : tr.with(LOGGING)) {
      REQUIRE(find_ev(tr, STEP, y->a, y->b), "stuck", y->text + " did not return");
      for (int s = 0; s < nsinks; s++) {
         int n = count_of(received(tr, s), y->text), n0 = count_of(received(tr, 0), y->text);
         REQUIRE(n <= 1, "count", y->text);
         REQUIRE(n == n0, "partial", y->text + " is in one sink but not in another");
      }
   }
   for (int s = 0; s < nsinks; s++)
      for (auto& m : received(tr, s)) {
         bool known = m.find("not the one that is active") != std::string::npos;
         for (auto* y : tr.with(LOGGING)) known |= y->text == m;
         REQUIRE(known, "corrupt", m);
      }
   return "";
}
MC_SCENARIO(down_log_vs_shutdown, "C07", 0, "q=pb2:9000 t=dpor:1000000,pb3:600000") {
   World w(1);
   mc::begin();
   std::thread a([] { log_and_mark(1, 0); log_and_mark(1, 1); });
   g3::internal::shutDownLogging();
   mc::event(MARK, 1);
   log_and_mark(0, 0);
   a.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(down_log_vs_shutdown) {
   auto e = complete_or_discarded(tr, 1);
   if (!e.empty()) return e;
   REQUIRE(count_of(received(tr, 0), "t0m0") == 0, "zombie", "delivered after shutdown");
   return "";
}
MC_SCENARIO(down_log_vs_shutdown_active, "C07", 0, "q=pb2:9000 t=dpor:1000000,pb3:600000") {
   World w(2);
   mc::begin();
   std::thread a([] { log_and_mark(1, 0); });
   bool r = g3::internal::shutDownLoggingForActiveOnly(w.worker.get());
   mc::event(VALUE, r);
   log_and_mark(0, 0);
   a.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(down_log_vs_shutdown_active) {
   REQUIRE(tr.first(VALUE)->a == 1, "refused", "shutdown of the active worker refused");
   REQUIRE(count_of(received(tr, 0), "t0m0") == 0, "zombie", "delivered after shutdown");
   return complete_or_discarded(tr, 2);
}
MC_SCENARIO(down_two_shutdowns, "C07", 0, "q=pb2:9000 t=dpor:1000000") {
   World w(1);
   mc::begin();
   std::thread a([] { log_and_mark(1, 0); g3::internal::shutDownLogging(); });
   g3::internal::shutDownLogging();
   log_and_mark(0, 0);
   a.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(down_two_shutdowns) { return complete_or_discarded(tr, 1); }

// another (never initialised) worker is destroyed while threads log through the initialised one
MC_SCENARIO(down_other_worker, "C07", 0, "q=db2:30000 t=pb2:300000,pb3:600000,db3:300000") {
   World w(1);
   auto other = g3::LogWorker::createLogWorker();
   auto h = other->addSink(std::make_unique<RecSink>(1), &RecSink::receive);
   mc::begin();
   std::thread a([] { logm(1, 0); });
   if (mc::choose(2)) { bool r = g3::internal::shutDownLoggingForActiveOnly(other.get()); mc::event(VALUE, r); }
   other.reset();
   mc::event(MARK, 3);
   logm(0, 0);
   a.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(down_other_worker) {
   if (auto* v = tr.first(VALUE)) REQUIRE(v->a == 0, "refused", "shutdown through a worker that is not active");
   auto r = received(tr, 0);
   REQUIRE(count_of(r, "t1m0") == 1 && count_of(r, "t0m0") == 1, "lost", joined(r));
   for (auto& m : received(tr, 1)) return fail("crosstalk", m);
   auto* d = find_ev(tr, DTOR, 1, 0);
   REQUIRE(d && mc::Trace::hb(*d, *find_ev(tr, MARK, 3, 0)), "dtor", "sink of the other worker alive");
   return "";
}

// all sequences of life-cycle operations with up to 3 workers against a reference model
static void life(int depth, bool sched) {
   struct W { std::unique_ptr<g3::LogWorker> w; int sink; };
   std::vector<W> ws;
   int next = 0, active = -1, n = 0;
   bool pre = mc::choose(2);  // start from an initialised worker instead of from nothing
   auto create = [&] {
      W x{g3::LogWorker::createLogWorker(), next++};
      x.w->addSink(std::make_unique<RecSink>(x.sink), &RecSink::receive);
      ws.push_back(std::move(x));
   };
   if (pre) { create(); g3::initializeLogging(ws[0].w.get()); active = 0; }
   if (sched) mc::begin();
   for (int i = 0; i < depth; i++) {
      int op = mc::choose(6), k = op >= 1 && op <= 3 && ws.size() > 1 ? mc::choose(2) : 0;
      if (k == 1) k = (int)ws.size() - 1;
      switch (op) {
      case 0: if (ws.size() < 3) create(); break;
      case 1: if (ws.empty() || active >= 0) break; g3::initializeLogging(ws[k].w.get()); active = ws[k].sink; mc::event(STEP, 1, active); break;
      case 2: {
         if (ws.empty()) break;
         int s = ws[k].sink;
         mc::event(STEP, 2, s);
         ws[k].w.reset();
         mc::event(STEP, 3, s);
         ws.erase(ws.begin() + k);
         if (s == active) active = -1;
         break;
      }
      case 3: {
         if (ws.empty()) break;
         bool r = g3::internal::shutDownLoggingForActiveOnly(ws[k].w.get()), want = active < 0 || active == ws[k].sink;
         if (r != want) mc::event(MARK, 66, r);
         if (want) active = -1;
         break;
      }
      case 4: g3::internal::shutDownLogging(); active = -1; break;
      case 5: {
         if (g3::internal::isLoggingInitialized() != (active >= 0)) mc::event(MARK, 67);
         std::string t = mname(7, n++);
         LOG(INFO) << t;
         mc::event(LOGGED, active, 0, t);
         break;
      }
      }
   }
   while (!ws.empty()) { int s = ws.back().sink; mc::event(STEP, 2, s); ws.pop_back(); mc::event(STEP, 3, s); }
   mc::event(VALUE, next);
}
static std::string life_judge(const mc::Trace& tr) {
   REQUIRE(!find_ev(tr, MARK, 66, 0) && !find_ev(tr, MARK, 66, 1), "refused", "shutDownLoggingForActiveOnly");
   REQUIRE(!find_ev(tr, MARK, 67, 0), "initialized", "isLoggingInitialized");
   bool ever = find_ev(tr, STEP, 1, 0) || find_ev(tr, STEP, 1, 1) || find_ev(tr, STEP, 1, 2);
   for (int s = 0; s < tr.first(VALUE)->a; s++) {
      std::vector<std::string> want;
      for (auto* e : tr.with(LOGGED)) if (e->a == s) want.push_back(e->text);
      auto got = received(tr, s);
      std::vector<std::string> g2;
      for (auto& m : got) if (m.find("NOT INITIALIZED") == std::string::npos && m.find("not the one that is active") == std::string::npos) g2.push_back(m);
      REQUIRE(joined(g2) == joined(want), "content", "worker " + num(s) + " got " + joined(got) + " instead of " + joined(want));
      auto* end = find_ev(tr, STEP, 3, s);
      for (auto* e : tr.with(RECV)) if (e->a == s) REQUIRE(mc::Trace::hb(*e, *end), "late", "");
      auto* d = find_ev(tr, DTOR, s, 0);
      REQUIRE(d && tr.count(DTOR, s) == 1 && mc::Trace::hb(*d, *end), "dtor", "");
   }
   (void)ever;
   return "";
}
MC_SCENARIO(life_seq5, "C07", 0, "q=pb0:20000 t=pb0:20000 shards=2") { life(5, false); }
MC_ORACLE(life_seq5) { return life_judge(tr); }
MC_SCENARIO(life_seq3, "C07", 0, "q=db1:20000 t=db2:200000,pb1:200000 shards=2") { life(3, true); }
MC_ORACLE(life_seq3) { return life_judge(tr); }
MC_SCENARIO(life_seq7, "C07", 0, "q=none t=pb0:2000000 shards=2") { life(7, false); }
MC_ORACLE(life_seq7) { return life_judge(tr); }
