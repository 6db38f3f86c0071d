// C09 a fatal event flushes everything, then ends the process with its signal
#include "fatal.h"
// every kind of fatal event in the main thread, messages in flight
MC_SCENARIO(fatal_kinds, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:8000 t=pb2:400000 shards=15") {
   int kind = mc::choose(K_KINDS);
   FWorld w(2);
   mc::begin();
   logm(0, 0);
   logm(0, 1);
   die(kind, "cause");
}
MC_ORACLE(fatal_kinds) { return judge_fatal(tr, 2); }
static const int kSome[] = {K_LOG, K_SEGV};
// fatal event in another thread while the main thread logs
MC_SCENARIO(fatal_vs_log, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:9000,db2:30000 t=pb3:600000,db3:300000 shards=2") {
   int kind = kSome[mc::choose(2)];
   FWorld w(1);
   logm(0, 0);
   mc::begin();
   std::thread a([=] { logm(1, 0); die(kind, "cause"); });
   logm(0, 1);
   logm(0, 2);
   a.join();
   mc::unreachable("thread survived");
}
MC_ORACLE(fatal_vs_log) { return judge_fatal(tr, 1); }
// fatal event in the main thread while two threads log
MC_SCENARIO(fatal_vs_loggers, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=db2:30000 t=pb2:600000,db3:300000 shards=2") {
   int kind = kSome[mc::choose(2)];
   FWorld w(2);
   mc::begin();
   std::thread a([] { logm(1, 0); logm(1, 1); }), b([] { logm(2, 0); });
   logm(0, 0);
   die(kind, "cause");
}
MC_ORACLE(fatal_vs_loggers) { return judge_fatal(tr, 2); }
// default file sink with buffered entries
static const int kFile[] = {K_LOG, K_CHECK, K_SEGV, K_TERM, K_ABORT};
MC_SCENARIO(fatal_file, "C09", mc::CAN_DIE | mc::CAN_BLOCK | mc::SCRATCH, "q=pb1:2500 t=pb2:100000 shards=5") {
   int kind = kFile[mc::choose(5)];
   FWorld w(1, false);
   auto fs = w.worker->addSink(std::make_unique<g3::FileSink>("flog", mc::scratch(), "id", 100), &g3::FileSink::fileWrite);
   g3::initializeLogging(w.worker.get());
   mc::begin();
   logm(0, 0);
   logm(0, 1);
   logm(0, 2);
   die(kind, "cause");
}
static std::string judge_file(const mc::Trace& tr, int nsinks) {
   auto e = judge_fatal(tr, nsinks);
   if (!e.empty()) return e;
   auto files = tr.files();
   REQUIRE(files.size() == 1, "files", num(files.size()));
   std::string c = tr.read(files[0]);
   int kind = (int)tr.first(STAMP)->a;
   size_t at = 0;
   auto next = [&](const std::string& s) { auto p = c.find(s, at); if (p == std::string::npos) return false; at = p + s.size(); return true; };
   for (auto* l : tr.with(LOGGED)) if (mc::Trace::hb(*l, *tr.first(STAMP)))
      REQUIRE(next("]\t" + l->text + "\n"), "file", l->text + " not in the file (or not in order):\n" + c);
   for (auto* l : tr.with(LOGGING)) {
      auto p = c.find("]\t" + l->text + "\n");
      if (p != std::string::npos) REQUIRE(c.find("]\t" + l->text + "\n", p + 1) == std::string::npos, "file", "twice: " + c);
   }
   if (kind_signal(kind) == SIGABRT && kind != K_ABORT) REQUIRE(next("cause"), "file", "fatal text not in the file:\n" + c);
   else REQUIRE(next("FATAL SIGNAL RECEIVED") && next(kind_reason(kind)), "file", "fatal text not in the file:\n" + c);
   if (kind == K_CHECK) REQUIRE(c.find("broken Contract: CHECK(no())") != std::string::npos, "file", c);
   if (kind == K_LOG) REQUIRE(c.find("EXIT trigger caused by LOG(FATAL) entry: ") != std::string::npos, "file", c);
   REQUIRE(next("Log content flushed successfully to sink"), "file", c);
   REQUIRE(next("shutdown at"), "file", "file sink not shut down in order:\n" + c);
   REQUIRE(c.find("]\t", at) == std::string::npos, "file", "entries after the shutdown line");
   return "";
}
MC_ORACLE(fatal_file) { return judge_file(tr, 1); }
// slow sink: blocked until the fatal event is being handled
static std::atomic<int> gate;
struct SlowSink {
   int id;
   explicit SlowSink(int i) : id(i) {}
   ~SlowSink() { mc::event(DTOR, id); }
   void receive(g3::LogMessageMover m) {
      while (!gate.load()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
      if (is_fatal(m.get())) mc::event(HOOK, id, 0, shorten(m.get()));
      else mc::event(RECV, id, 0, m.get().message());
   }
};
MC_SCENARIO(fatal_slow_sink, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:6000 t=pb2:300000 shards=2") {
   int kind = kSome[mc::choose(2)];
   gate = 0;
   auto w = g3::LogWorker::createLogWorker();
   auto s0 = w->addSink(std::make_unique<SlowSink>(0), &SlowSink::receive);
   auto s1 = w->addSink(std::make_unique<FSink>(1), &FSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   logm(0, 0);
   std::thread a([] { std::this_thread::sleep_for(std::chrono::milliseconds(20)); gate = 1; });
   logm(0, 1);
   die(kind, "cause");
}
MC_ORACLE(fatal_slow_sink) { return judge_fatal(tr, 2); }
// long history
MC_SCENARIO(fatal_long, "C09", mc::CAN_DIE | mc::CAN_BLOCK | mc::SCRATCH, "q=pb0:200 t=pb0:200 shards=5") {
   int kind = kFile[mc::choose(5)];
   int n = mc::choose(2) ? 230 : 101;
   FWorld w(1, false);
   auto fs = w.worker->addSink(std::make_unique<g3::FileSink>("flog", mc::scratch(), "id", 100), &g3::FileSink::fileWrite);
   g3::initializeLogging(w.worker.get());
   for (int k = 0; k < n; k++) logm(0, k);
   mc::begin();
   die(kind, "cause");
}
MC_ORACLE(fatal_long) { return judge_file(tr, 1); }
// sinks are added / removed by another thread meanwhile
MC_SCENARIO(fatal_vs_add, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb0:9000,db2:30000 t=pb3:400000,db3:300000 shards=2") {
   int kind = kSome[mc::choose(2)];
   FWorld w(1);
   mc::begin();
   std::thread a([&] {
      mc::event(ENTER, 5);
      auto h = w.worker->addSink(std::make_unique<FSink>(5), &FSink::receive);
      mc::event(LEAVE, 5);
      mc::event(MARK, 5);
      logm(1, 0);
   });
   logm(0, 0);
   die(kind, "cause");
}
MC_ORACLE(fatal_vs_add) {
   auto e = judge_fatal(tr, 1);
   if (!e.empty()) return e;
   auto* m = find_ev(tr, MARK, 5, 0);
   if (m && mc::Trace::hb(*m, *tr.first(STAMP))) { REQUIRE(!fatal_texts(tr, 5).empty() && tr.count(DTOR, 5) == 1, "nofatal", "added sink"); }
   if (!fatal_texts(tr, 5).empty()) REQUIRE(tr.count(DTOR, 5) == 1, in_progress(tr, 5) ? "tempref" : "dtor", "added sink not destroyed before the process ended");
   return "";
}
MC_SCENARIO(fatal_vs_remove, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:9000,db2:30000 t=pb3:400000,db3:300000 shards=2") {
   int kind = kSome[mc::choose(2)];
   FWorld w(2);
   mc::begin();
   std::thread a([&] { w.worker->removeSink(std::move(w.sinks[1])); });
   logm(0, 0);
   die(kind, "cause");
}
MC_ORACLE(fatal_vs_remove) {
   auto e = judge_fatal(tr, 1);
   if (!e.empty()) return e;
   REQUIRE(tr.count(DTOR, 1) == 1, "dtor", "removed sink alive");
   return "";
}
// levels around FATAL: what is fatal and what is not
MC_SCENARIO(fatal_levels, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb0:50 t=pb1:2000") {
   static const int v[] = {0, 1, 99, 100, 299, 300, 301, 499, 500, 501, 998, 999, 1000, 1001, 1500, 1999, 2001 + 1000, -1, 2147483647};
   int i = mc::choose(sizeof v / sizeof *v);
   LEVELS l{v[i], {"LEVEL"}};
   FWorld w(1);
   mc::begin();
   logm(0, 0);
   mc::event(VALUE, v[i]);
   LOG(l) << "text";
   mc::event(MARK, 1);
   w.worker.reset();
}
MC_ORACLE(fatal_levels) {
   long v = tr.first(VALUE)->a;
   auto r = received(tr, 0);
   REQUIRE(count_of(r, "t0m0") == 1 && tr.count(DTOR, 0) == 1, "lost", joined(r));
   if (v < 1000) {
      REQUIRE(tr.end == mc::DONE && find_ev(tr, MARK, 1, 0), "died", "level " + num(v));
      REQUIRE(r.size() == 2 && r[1] == "text", "lost", joined(r));
   } else {
      REQUIRE(tr.end == mc::SIGNALED && tr.value == SIGABRT && !find_ev(tr, MARK, 1, 0), "alive", "level " + num(v));
      REQUIRE(tr.count(HOOK, 0) == 1 && tr.first(HOOK)->text.find("text") != std::string::npos, "nofatal", fatal_texts(tr, 0));
   }
   return "";
}

// handle calls of another thread meanwhile
MC_SCENARIO(fatal_vs_call, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=db2:30000 t=pb2:400000,db3:300000 shards=2") {
   int kind = kSome[mc::choose(2)];
   FWorld w(2);
   mc::begin();
   std::thread a([&] {
      for (int i = 0; i < 2; i++) {
         mc::event(ENTER, 1);
         auto f = w.sinks[1]->call(&FSink::twice, i);
         mc::event(LEAVE, 1);
         int r = -1;
         try { r = f.get(); } catch (const std::exception&) {}
         mc::event(RESULT, i, r);
      }
   });
   logm(0, 0);
   die(kind, "cause");
}
MC_ORACLE(fatal_vs_call) {
   auto e = judge_fatal(tr, 2);
   if (!e.empty()) return e;
   for (auto* r : tr.with(RESULT)) REQUIRE(r->b == 2 * r->a || r->b == -1, "result", num(r->b));
   return "";
}
// a sink that takes (virtual) minutes for each message: nobody gives up waiting for the flush
struct LazySink {
   int id, seconds;
   LazySink(int i, int s) : id(i), seconds(s) {}
   ~LazySink() { mc::event(DTOR, id); }
   void receive(g3::LogMessageMover m) {
      std::this_thread::sleep_for(std::chrono::seconds(seconds));
      if (is_fatal(m.get())) mc::event(HOOK, id, 0, shorten(m.get()));
      else mc::event(RECV, id, 0, m.get().message());
   }
};
static const int kSeconds[] = {2, 15, 100};
MC_SCENARIO(fatal_lazy_sink, "C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb0:3000,db1:9000 t=pb1:300000 shards=6") {
   int c = mc::choose(6);
   auto w = g3::LogWorker::createLogWorker();
   auto s0 = w->addSink(std::make_unique<LazySink>(0, kSeconds[c / 2]), &LazySink::receive);
   auto s1 = w->addSink(std::make_unique<FSink>(1), &FSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   logm(0, 0);
   logm(0, 1);
   die(kSome[c % 2], "cause");
}
MC_ORACLE(fatal_lazy_sink) { return judge_fatal(tr, 2); }
