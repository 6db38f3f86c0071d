// C08 logging before initialisation
#include "common.h"
static void early(int t, int k) {
   mc::event(LOGGING, t, k, mname(t, k));
   LOG(INFO) << "t" << t << "m" << k;
   mc::event(STEP, t, k);
}
// `sinks` got exactly one message that quotes an early statement, first; then the later ones
static std::string judge(const mc::Trace& tr, const std::vector<int>& sinks, bool single) {
   std::string quoted;
   for (auto* y : tr.with(LOGGING)) if (y->a < 5) REQUIRE(find_ev(tr, STEP, y->a, y->b), "stuck", y->text);
   for (int s : sinks) {
      auto r = received(tr, s);
      auto late = tr.with(LOGGED);
      REQUIRE(r.size() == late.size() + 1, "count", joined(r));
      int n = 0;
      for (auto* y : tr.with(LOGGING)) {
         if (y->a >= 5) continue;
         if (r[0].find(y->text) != std::string::npos && r[0] != y->text) { n++; quoted = y->text; }
         for (size_t i = 1; i < r.size(); i++) REQUIRE(r[i].find(y->text) == std::string::npos, "twice", joined(r));
      }
      REQUIRE(n == 1, "quote", "first message is not one early message wrapped in a warning: " + joined(r));
      REQUIRE(r[0].find("NOT INITIALIZED") != std::string::npos, "warning", r[0]);
      REQUIRE(r[0].size() < 200, "quote", r[0]);
      if (single) REQUIRE(quoted == tr.with(LOGGING)[0]->text, "first", "not the first early message: " + r[0]);
      for (size_t i = 0; i < late.size(); i++) REQUIRE(r[i + 1] == late[i]->text, "order", joined(r));
   }
   return "";
}
static void run(int NT, int NM, int NS, bool at_init) {
   if (at_init) mc::event(MARK, 1);
   World w(NS, false);
   mc::begin();
   std::vector<std::thread> th;
   for (int t = 1; t < NT; t++) th.emplace_back([=] { for (int k = 0; k < NM; k++) early(t, k); });
   for (int k = 0; k < NM; k++) early(0, k);
   for (auto& t : th) t.join();
   mc::event(MARK, 2);
   g3::initializeLogging(w.worker.get());
   logm(6, 0);
   logm(6, 1);
   mc::stop();
   w.destroy();
}
#define CASE(NAME, OPTS, NT, NM, NS)                                  \
   MC_SCENARIO(NAME, "C08", 0, OPTS) { run(NT, NM, NS, false); }      \
   MC_ORACLE(NAME) { std::vector<int> s; for (int i = 0; i < NS; i++) s.push_back(i); return judge_early(tr, s, NT == 1); }
static std::string judge_early(const mc::Trace& tr, const std::vector<int>& sinks, bool single);
CASE(early_t1m1s1, "q=dpor:9000 t=dpor", 1, 1, 1)
CASE(early_t1m3s2, "q=pb1:9000 t=pb2:200000", 1, 3, 2)
CASE(early_t2m1s1, "q=pb2:9000 t=dpor:1000000,pb3:300000", 2, 1, 1)
CASE(early_t2m2s1, "q=pb2:9000 t=dpor:1000000,pb3:300000", 2, 2, 1)
CASE(early_t3m1s1, "q=pb2:9000 t=dpor:1000000,pb3:300000", 3, 1, 1)
CASE(early_t4m1s2, "q=pb1:9000 t=pb2:300000", 4, 1, 2)
static std::string judge_early(const mc::Trace& tr, const std::vector<int>& sinks, bool single) {
   // early statements are the LOGGING events of slots < 5; slot 6 are the later ones
   return judge(tr, sinks, single);
}

// all sequences over {log, create + initialise, shut down, destroy} from the very beginning
static void seq(int depth) {
   std::unique_ptr<g3::LogWorker> w;
   bool active = false, ever = false;
   int gen = 0, n = 0;
   std::string first;
   for (int i = 0; i < depth; i++) {
      switch (mc::choose(6)) {
      case 0: {
         std::string t = mname(3, n++);
         LOG(INFO) << t;
         mc::event(VALUE, active ? gen : -1, ever, t);
         break;
      }
      case 1: {
         std::string t = mname(3, n++);
         LOGF(WARNING, "%s", t.c_str());
         mc::event(VALUE, active ? gen : -1, ever, t);
         break;
      }
      case 2:  // a worker with one sink, initialised
         if (w) break;
         w = g3::LogWorker::createLogWorker();
         gen++;
         w->addSink(std::make_unique<RecSink>(gen), &RecSink::receive);
         g3::initializeLogging(w.get());
         active = ever = true;
         break;
      case 3: if (w && !active) { g3::initializeLogging(w.get()); active = true; } break;
      case 4: if (w) { g3::internal::shutDownLogging(); active = false; } break;
      case 5: if (w) { w.reset(); active = false; } break;
      }
   }
   w.reset();
   mc::event(MARK, 50, gen);
}
static std::string seq_judge(const mc::Trace& tr) {
   int gens = tr.first(MARK)->b;
   std::string first;
   for (auto* v : tr.with(VALUE)) if (v->b == 0 && first.empty()) first = v->text;
   for (int g = 1; g <= gens; g++) {
      auto r = received(tr, g);
      std::vector<std::string> want;
      if (g == 1 && !first.empty()) want.push_back("<early>");
      for (auto* v : tr.with(VALUE)) if (v->a == g) want.push_back(v->text);
      REQUIRE(r.size() == want.size(), "content", "worker " + num(g) + " got " + joined(r) + " instead of " + joined(want));
      for (size_t i = 0; i < r.size(); i++) {
         if (want[i] == "<early>") REQUIRE(r[i].find(first) != std::string::npos && r[i] != first && r[i].find("NOT INITIALIZED") != std::string::npos, "early", r[i]);
         else REQUIRE(r[i] == want[i], "content", joined(r));
      }
   }
   return "";
}
MC_SCENARIO(early_seq6, "C08", 0, "q=pb0:20000 t=pb0:20000 shards=6") { seq(6); }
MC_ORACLE(early_seq6) { return seq_judge(tr); }
MC_SCENARIO(early_seq8, "C08", 0, "q=none t=pb0:600000 shards=6") { seq(8); }
MC_ORACLE(early_seq8) { return seq_judge(tr); }
// initialisation without any sink, sinks added later: the early message must not crash
MC_SCENARIO(early_no_sink, "C08", 0, "q=pb1:3000 t=pb2:100000") {
   early(0, 0);
   World w(0, false);
   mc::begin();
   g3::initializeLogging(w.worker.get());
   auto h = w.worker->addSink(std::make_unique<RecSink>(0), &RecSink::receive);
   logm(6, 0);
   w.destroy();
}
MC_ORACLE(early_no_sink) { REQUIRE(count_of(received(tr, 0), "t6m0") == 1, "lost", joined(received(tr, 0))); return ""; }
// another thread logs as soon as logging is initialised: the early message still comes first
MC_SCENARIO(early_poll, "C08", 0, "q=pb1:9000,db2:30000 t=pb2:300000,db3:300000") {
   early(0, 0);
   World w(2, false);
   mc::begin();
   std::thread t([] {
      for (int k = 0; k < 2; k++) {
         if (!g3::internal::isLoggingInitialized()) continue;
         mc::event(LOGGED, 7, k, mname(7, k));
         LOG(INFO) << mname(7, k);
      }
   });
   g3::initializeLogging(w.worker.get());
   logm(6, 0);
   t.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(early_poll) {
   for (int s : {0, 1}) {
      auto r = received(tr, s);
      REQUIRE((int)r.size() == tr.count(LOGGED) + 1, "count", joined(r));
      REQUIRE(r[0].find("t0m0") != std::string::npos && r[0] != "t0m0" && r[0].find("NOT INITIALIZED") != std::string::npos, "first", "the early message does not come first: " + joined(r));
      for (auto* l : tr.with(LOGGED)) REQUIRE(count_of(r, l->text) == 1, "lost", l->text + ": " + joined(r));
   }
   return "";
}
