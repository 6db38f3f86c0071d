// C01 exactly once, C02 order
#include "common.h"

static void run(int NT, int NM, int NS, bool teardown) {
   World w(NS);
   mc::begin();
   std::vector<std::thread> th;
   for (int t = 1; t < NT; t++) th.emplace_back([=] { for (int k = 0; k < NM; k++) logm(t, k); });
   for (int k = 0; k < NM; k++) logm(0, k);
   for (auto& t : th) t.join();
   if (!teardown) mc::stop();
   w.destroy();
}
static std::vector<int> upto(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); return v; }
static std::string judge(const mc::Trace& tr, int NT, int NM, int NS) {
   REQUIRE(tr.count(LOGGED) == NT * NM, "lost-thread", "a log statement did not return");
   auto e = exactly_once(tr, upto(NS));
   if (e.empty()) e = in_order(tr, upto(NS));
   if (!e.empty()) return e;
   for (int s = 0; s < NS; s++) {
      auto* d = find_ev(tr, DTOR, s, 0);
      REQUIRE(d && tr.count(DTOR, s) == 1, "dtor", "sink " + num(s) + " not destroyed exactly once");
      for (auto* r : tr.with(RECV)) REQUIRE(r->a != s || pos(tr, r) < pos(tr, d), "late", "received after the sink was destroyed");
   }
   return "";
}
#define CASE(NAME, OPTS, NT, NM, NS, TD)                                   \
   MC_SCENARIO(NAME, "C01 C02", 0, OPTS) { run(NT, NM, NS, TD); }          \
   MC_ORACLE(NAME) { return judge(tr, NT, NM, NS); }
CASE(once_t1m1s1, "q=dpor t=dpor", 1, 1, 1, true)
CASE(once_t1m1s2, "q=dpor t=dpor", 1, 1, 2, true)
CASE(once_t1m2s1, "q=dpor:7000 t=dpor", 1, 2, 1, true)
CASE(once_t1m3s1, "q=pb2:4000 t=dpor:1000000,pb3:200000", 1, 3, 1, true)
CASE(once_t1m2s2, "q=pb1:6000 t=dpor:1000000,pb3:500000", 1, 2, 2, true)
CASE(once_t2m1s1, "q=pb2:8000 t=dpor:1500000,pb3:500000", 2, 1, 1, true)
CASE(once_t2m1s1_live, "q=dpor:12000,pb2:6000 t=dpor:1500000", 2, 1, 1, false)
CASE(once_t2m1s2, "q=pb1:6000 t=pb2:200000,pb3:800000", 2, 1, 2, true)
CASE(once_t2m2s1, "q=pb1:6000 t=pb2:200000,pb3:800000", 2, 2, 1, true)
CASE(once_t3m1s1, "q=pb1:6000 t=pb2:400000,pb3:800000", 3, 1, 1, false)
CASE(once_t1m1s3, "q=pb1:6000 t=pb2:400000,pb3:400000", 1, 1, 3, true)
CASE(once_t2m2s2, "q=pb0:6000 t=pb1:100000,pb2:1000000", 2, 2, 2, true)
CASE(once_t3m2s2, "q=pb0:6000 t=pb1:200000,pb2:400000", 3, 2, 2, true)

// synchronisation-ordered statements of different threads, and messages of every accepted kind
MC_SCENARIO(once_handoff, "C01 C02", 0, "q=pb2:9000 t=dpor:1000000,pb3:500000") {
   World w(1);
   std::promise<void> p;
   auto f = p.get_future();
   mc::begin();
   std::thread a([&] { logm(1, 0); p.set_value(); });
   f.wait();
   logm(0, 0);
   a.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(once_handoff) { return judge(tr, 2, 1, 1); }

MC_SCENARIO(once_handoff_s2, "C01 C02", 0, "q=pb1:9000 t=pb2:400000,pb3:500000") {
   World w(2);
   std::promise<void> p;
   auto f = p.get_future();
   mc::begin();
   std::thread a([&] { logm(1, 0); p.set_value(); logm(1, 1); });
   f.wait();
   logm(0, 0);
   logm(0, 1);
   a.join();
   w.destroy();
}
MC_ORACLE(once_handoff_s2) { return judge(tr, 2, 2, 2); }

// parameter sweep on one default schedule and all schedules with one preemption of the tail:
// many messages, many sinks, every kind of statement, equal texts
MC_SCENARIO(once_kinds, "C01 C02", 0, "q=pb0:6000 t=pb1:60000") {
   int ns = mc::choose(4);
   World w(ns);
   mc::begin();
   int kind = mc::choose(8), n = 0;
   for (int k = 0; k < 3; k++) {
      std::string id = mname(0, k);
      mc::event(LOGGING, 0, k, id);
      bool accepted = true;
      switch (kind) {
      case 0: LOG(DEBUG) << id; break;
      case 1: LOGF(WARNING, "%s", id.c_str()); break;
      case 2: LOG_IF(INFO, k != 1) << id; accepted = k != 1; break;
      case 3: LOGF_IF(INFO, k == 1, "t0m%d", k); accepted = k == 1; break;
      case 4: LOG(G3LOG_DEBUG) << "t" << 0 << 'm' << k; break;
      case 5: LOG(WARNING) << std::string(id); break;
      case 6: { static const LEVELS own{123, {"OWN"}}; LOG(own) << id; break; }
      case 7: CHECK(k >= 0) << "never"; CHECK_F(k >= 0, "never"); LOG(INFO) << id; break;
      }
      if (accepted) { mc::event(LOGGED, 0, k, id); n++; }
   }
   mc::event(VALUE, ns, n);
   w.destroy();
}
MC_ORACLE(once_kinds) {
   int ns = tr.first(VALUE)->a;
   auto e = exactly_once(tr, upto(ns));
   return e.empty() ? in_order(tr, upto(ns)) : e;
}
MC_SCENARIO(once_equal_texts, "C01", 0, "q=pb1:6000 t=pb2:60000") {
   World w(2);
   mc::begin();
   for (int k = 0; k < 3; k++) LOG(INFO) << "same";
   for (int k = 0; k < 2; k++) LOG(INFO) << "";
   w.destroy();
}
MC_ORACLE(once_equal_texts) {
   for (int s = 0; s < 2; s++)
      REQUIRE(joined(received(tr, s)) == joined({"same", "same", "same", "", ""}), "count", joined(received(tr, s)));
   return "";
}

// long histories: the first N messages are logged deterministically while the sinks may or may not run
static void longrun(int N, int NS) {
   World w(NS);
   if (mc::choose(2)) mc::begin();
   for (int k = 0; k < N; k++) logm(0, k);
   mc::begin();
   std::thread a([] { logm(1, 0); });
   logm(0, N);
   a.join();
   w.destroy();
}
MC_SCENARIO(once_long, "C01 C02", 0, "q=pb0:500 t=pb1:4000") { longrun(60, 2); }
MC_ORACLE(once_long) { auto e = exactly_once(tr, upto(2)); return e.empty() ? in_order(tr, upto(2)) : e; }
MC_SCENARIO(once_long_s4, "C01 C02", 0, "q=db1:9000 t=pb1:2000,db3:300000") { longrun(12, 4); }
MC_ORACLE(once_long_s4) { auto e = exactly_once(tr, upto(4)); return e.empty() ? in_order(tr, upto(4)) : e; }
