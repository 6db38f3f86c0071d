// C10 concurrent or nested fatal events still flush once and end the process
#include "fatal.h"
static bool is_signal(int k) { return k >= K_ABORT; }
// every fatal event of the trace may decide how the process ends; content logged before all of them is flushed
static std::string judge_many(const mc::Trace& tr, int nsinks, bool nested = false) {
   auto f = tr.with(STAMP);
   REQUIRE(!f.empty(), "harness", "");
   REQUIRE(tr.end != mc::DEADLOCK && tr.end != mc::HANG && tr.end != mc::LIVELOCK && tr.end != mc::REALHANG, "hang", "the process does not end");
   REQUIRE(tr.end == mc::SIGNALED, "alive", "the process ended normally (" + num(tr.value) + ")");
   bool ok = false;
   for (auto* x : f) ok |= tr.value == kind_signal((int)x->a);
   REQUIRE(ok, "signal", "ended with signal " + num(tr.value));
   std::string first;
   for (int s = 0; s < nsinks; s++) {
      auto r = received(tr, s);
      for (auto* e : tr.with(LOGGED)) {
         int n = count_of(r, e->text);
         REQUIRE(n <= 1, "count", e->text);
         bool before = true;
         for (auto* x : f) before &= mc::Trace::hb(*e, *x);
         if (before) REQUIRE(n == 1, "lost", "sink " + num(s) + " without " + e->text + " which was logged before the fatal events: " + joined(r));
      }
      int nf = 0;
      const mc::Ev *last = nullptr, *d = nullptr, *h = nullptr;
      for (auto& e : tr.ev) {
         if (e.a != s) continue;
         if (e.code == RECV || e.code == HOOK) last = &e;
         if (e.code == HOOK) { nf++; h = &e; }
         if (e.code == DTOR) d = &e;
      }
      REQUIRE(nf > 0, "nofatal", "sink " + num(s) + " did not get a fatal message");
      REQUIRE(nf == 1, "twice", fatal_texts(tr, s));
      REQUIRE(last == h, "notlast", "message after the fatal message");
      bool named = false;
      for (auto* x : f) named |= names_cause(h->text, (int)x->a, x->text);
      REQUIRE(named, "cause", h->text);
      // the fatal message that was handled is the one whose signal ends the process
      bool match = false;
      for (auto* x : f) match |= names_cause(h->text, (int)x->a, x->text) && kind_signal((int)x->a) == tr.value;
      // unless a signal of another thread hits after the handlers were given back at the very end
      for (auto* x : f) match |= is_signal((int)x->a) && kind_signal((int)x->a) == tr.value && f.size() > 1;
      REQUIRE(match, "signal", "fatal message " + h->text + " but signal " + num(tr.value));
      REQUIRE(tr.count(DTOR, s) == 1 && pos(tr, h) < pos(tr, d), "dtor", "sink " + num(s) + " not destroyed after the fatal message");
      if (s == 0) first = h->text;
      else REQUIRE(first == h->text, "differ", first + " / " + h->text);
      (void)nested;
   }
   return "";
}
static const int kPair[][2] = {{K_LOG, K_LOG}, {K_LOG, K_SEGV}, {K_SEGV, K_FPE}, {K_CHECK, K_TERM}, {K_SEGV, K_SEGV}, {K_TERM, K_LOGF}};
MC_SCENARIO(two_fatals, "C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:5000,db2:20000 t=pb3:400000,db3:300000 shards=6") {
   auto* p = kPair[mc::choose(6)];
   FWorld w(1);
   logm(0, 0);
   mc::begin();
   std::thread a([=] { die(p[0], "causeA"); });
   die(p[1], "causeB");
}
MC_ORACLE(two_fatals) { return judge_many(tr, 1); }
MC_SCENARIO(two_fatals_s2, "C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=db2:20000 t=pb2:400000,db3:300000 shards=6") {
   auto* p = kPair[mc::choose(6)];
   FWorld w(2);
   mc::begin();
   logm(0, 0);
   logm(0, 1);
   std::thread a([=] { logm(1, 0); die(p[0], "causeA"); });
   die(p[1], "causeB");
}
MC_ORACLE(two_fatals_s2) { return judge_many(tr, 2); }
MC_SCENARIO(three_fatals, "C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=db2:20000 t=pb2:400000,db3:300000 shards=3") {
   static const int k[3][3] = {{K_LOG, K_CHECK, K_SEGV}, {K_SEGV, K_FPE, K_ILL}, {K_LOG, K_LOGF, K_CUSTOM}};
   auto* p = k[mc::choose(3)];
   FWorld w(1);
   mc::begin();
   logm(0, 0);
   std::thread a([=] { die(p[0], "causeA"); }), b([=] { die(p[1], "causeB"); });
   die(p[2], "causeC");
}
MC_ORACLE(three_fatals) { return judge_many(tr, 1); }
// file sink: nothing buffered is lost
MC_SCENARIO(two_fatals_file, "C10", mc::CAN_DIE | mc::CAN_BLOCK | mc::SCRATCH, "q=pb1:4000,db2:20000 t=pb3:200000,db3:300000 shards=3") {
   auto* p = kPair[mc::choose(3)];
   FWorld w(1, false);
   auto fs = w.worker->addSink(std::make_unique<g3::FileSink>("flog", mc::scratch(), "id", 100), &g3::FileSink::fileWrite);
   g3::initializeLogging(w.worker.get());
   logm(0, 0);
   mc::begin();
   std::thread a([=] { die(p[0], "causeA"); });
   die(p[1], "causeB");
}
MC_ORACLE(two_fatals_file) {
   auto e = judge_many(tr, 1);
   if (!e.empty()) return e;
   auto fl = tr.files();
   REQUIRE(fl.size() == 1, "files", "");
   auto c = tr.read(fl[0]);
   auto p0 = c.find("]\tt0m0\n"), p1 = c.find("Log content flushed successfully to sink"), p2 = c.find("shutdown at");
   REQUIRE(p0 != std::string::npos && p1 != std::string::npos && p2 != std::string::npos && p0 < p1 && p1 < p2, "file", c);
   return "";
}
// a fatal event in the operand of a log statement, an operand of a fatal one
static std::string nested_log(int k) { die(k, "inner"); return "x"; }
MC_SCENARIO(nested_operand, "C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:3000 t=pb2:100000 shards=3") {
   static const int in[] = {K_LOG, K_SEGV, K_CHECKF};
   int k = in[mc::choose(3)], outer = mc::choose(3);
   FWorld w(2);
   mc::begin();
   logm(0, 0);
   if (outer == 0) LOG(INFO) << nested_log(k);
   else if (outer == 1) LOG(FATAL) << nested_log(k);
   else CHECK(no()) << nested_log(k);
   mc::unreachable("code after a fatal statement ran");
}
MC_ORACLE(nested_operand) { return judge_many(tr, 2); }
// a fatal event inside the fatal hook
static bool same_signal(int a, int b) { return is_signal(a) && is_signal(b) && kind_signal(a) == kind_signal(b); }
MC_SCENARIO(nested_hook, "C10 C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=db2:20000 t=pb2:100000,db3:300000 shards=6") {
   static const int k[] = {K_LOG, K_CHECKF, K_SEGV, K_ABRT, K_NULL, K_FPE};
   int outer = k[mc::choose(6)], inner = k[mc::choose(6)];
   if (same_signal(outer, inner)) { mc::event(MARK, 8); return; }
   FWorld w(2);
   g3::setFatalPreLoggingHook([inner] { mc::event(MARK, 7); die(inner, "inner"); });
   mc::begin();
   logm(0, 0);
   die(outer, "outer");
}
MC_ORACLE(nested_hook) {
   if (find_ev(tr, MARK, 8, 0)) return "";
   auto e = judge_many(tr, 2, true);
   if (!e.empty()) return e;
   REQUIRE(tr.count(MARK, 7) == 1, "hook", "hook ran " + num(tr.count(MARK, 7)) + " times");
   return "";
}
// ... by the very signal that is being handled (it is blocked in the signal handler)
MC_SCENARIO(nested_hook_same_signal, "C10 C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb0:50 t=pb1:10000 shards=2") {
   int inner = mc::choose(2) ? K_NULL : K_SEGV;
   FWorld w(1);
   g3::setFatalPreLoggingHook([inner] {
      mc::event(STAMP, inner, 0, "inner");
      volatile int* np = nullptr;
      if (inner == K_NULL) *np = 0; else raise(SIGSEGV);
      mc::event(MARK, 9);
   });
   mc::begin();
   logm(0, 0);
   die(K_SEGV, "outer");
}
MC_ORACLE(nested_hook_same_signal) {
   REQUIRE(tr.end == mc::SIGNALED && tr.value == SIGSEGV, "signal", "end " + num(tr.end));
   auto r = received(tr, 0);
   if (tr.with(STAMP)[1]->a == K_SEGV) {
      REQUIRE(count_of(r, "t0m0") == 1 && tr.count(HOOK, 0) == 1 && tr.count(DTOR, 0) == 1, "lost", joined(r));
      REQUIRE(!find_ev(tr, MARK, 9, 0), "blocked", "code after raise(SIGSEGV) in the hook ran");
   } else
      REQUIRE(count_of(r, "t0m0") == 1 && tr.count(HOOK, 0) == 1 && tr.count(DTOR, 0) == 1, "unflushed", joined(r));
   return "";
}
// fatal events when no worker is active (never, or no longer)
MC_SCENARIO(fatal_inactive, "C10 C09", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:1500 t=pb2:100000 shards=5") {
   static const int k[] = {K_LOG, K_CHECK, K_SEGV, K_TERM, K_ABORT};
   int kind = k[mc::choose(5)];
   bool before = mc::choose(2);
   if (!before) { FWorld w(1); logm(0, 0); }
   mc::begin();
   die(kind, "cause");
}
MC_ORACLE(fatal_inactive) {
   int kind = (int)tr.first(STAMP)->a;
   REQUIRE(tr.end == mc::SIGNALED && tr.value == kind_signal(kind), "signal", std::string(kind_name(kind)) + ": end " + num(tr.end) + " " + num(tr.value));
   return "";
}
MC_SCENARIO(two_inactive, "C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb2:3000 t=dpor:300000,pb4:200000 shards=4") {
   auto* p = kPair[mc::choose(4)];
   { FWorld w(1); logm(0, 0); }
   mc::begin();
   std::thread a([=] { die(p[0], "causeA"); });
   die(p[1], "causeB");
}
MC_ORACLE(two_inactive) {
   REQUIRE(tr.end == mc::SIGNALED, "alive", "ended " + num(tr.end) + " " + num(tr.value));
   bool ok = false;
   for (auto* x : tr.with(STAMP)) ok |= tr.value == kind_signal((int)x->a);
   REQUIRE(ok, "signal", num(tr.value));
   return "";
}
// a fatal event on a thread of the logger itself
struct DyingSink {
   int where;
   explicit DyingSink(int w) : where(w) {}
   ~DyingSink() { mc::event(DTOR, 0); if (where == 1) die(K_LOG, "indtor"); if (where == 3) die(K_SEGV, "indtor"); }
   void receive(g3::LogMessageMover m) {
      if (is_fatal(m.get())) { mc::event(HOOK, 0, 0, shorten(m.get())); if (where == 2) die(K_LOG, "infatal"); if (where == 4) die(K_SEGV, "infatal"); }
      else { mc::event(RECV, 0, 0, m.get().message()); if (where == 0) die(K_LOG, "inreceive"); if (where == 5) die(K_SEGV, "inreceive"); }
   }
};
static std::string ends(const mc::Trace& tr) {
   REQUIRE(tr.end == mc::SIGNALED, "hang", "the process does not end by a signal: end " + num(tr.end));
   bool ok = false;
   for (auto* x : tr.with(STAMP)) ok |= tr.value == kind_signal((int)x->a);
   REQUIRE(ok, "signal", num(tr.value));
   return "";
}
static void dying(int where) {
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<DyingSink>(where), &DyingSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   logm(0, 0);
   die(K_LOG, "outer");
}
// in the sink while the fatal message is flushed: the process must not hang
MC_SCENARIO(fatal_in_flush, "C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:1500 t=pb2:100000 shards=4") { dying(1 + mc::choose(4)); }
MC_ORACLE(fatal_in_flush) { return ends(tr); }
// in the sink before any other fatal event
MC_SCENARIO(fatal_in_sink, "C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:1500 t=pb2:100000 shards=2") { dying(mc::choose(2) ? 5 : 0); }
MC_ORACLE(fatal_in_sink) { return ends(tr); }
