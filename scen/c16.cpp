// C16 no background thread touches memory of the logging thread; time stamps lie within the statement
#include "fatal.h"
static long stamp_of(const g3::LogMessage& m) { return (long)std::chrono::duration_cast<std::chrono::nanoseconds>(m._timestamp.time_since_epoch()).count(); }
static long now() { return (long)std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(); }
struct TimeSink {
   ~TimeSink() { mc::event(DTOR, 0); }
   void receive(g3::LogMessageMover mv) {
      auto& m = mv.get();
      mc::event(VALUE, stamp_of(m), 0, m.message().substr(0, 40));
      std::string f = m.toString(&g3::LogMessage::FullLogDetailsToString);
      size_t p = f.find('[');
      mc::event(RECV, 0, 0, m.level() + (p == std::string::npos ? f : f.substr(p)).substr(0, 120));
   }
};
struct World1 {
   std::unique_ptr<g3::LogWorker> worker = g3::LogWorker::createLogWorker();
   World1() {
      worker->addSink(std::make_unique<TimeSink>(), &TimeSink::receive);
      g3::initializeLogging(worker.get());
   }
};
enum { STYLES = 7 };
static void statement(int style, int k) {
   auto* s = new std::string("message from the heap, number " + num(k));
   auto* L = new LEVELS(703, "custom level on the heap");
   auto *file = new std::string("/d/plugin.cpp"), *fn = new std::string("a_function");
   long t0 = now();
   switch (style) {
   case 0: LOG(*L) << *s; break;
   case 1: LOGF(*L, "%s", s->c_str()); break;
   case 2: LOG_IF(*L, !s->empty()) << s->c_str(); break;
   case 3: LOGF_IF(*L, true, s->c_str()); break;
   case 4: { LogCapture c(file->c_str(), 7, fn->c_str(), *L); c.stream() << *s; break; }
   case 5: g3::internal::saveMessage(s->c_str(), file->c_str(), 7, fn->c_str(), *L, fn->c_str(), SIGABRT, ""); break;
   case 6: LOG(*L) << std::string(*s).c_str(); break;
   }
   mc::event(STEP, t0, now(), *s);
   std::fill(s->begin(), s->end(), '#');
   std::fill(L->text.begin(), L->text.end(), '#');
   L->value = 1;
   std::fill(file->begin(), file->end(), '#');
   std::fill(fn->begin(), fn->end(), '#');
   delete s; delete L; delete file; delete fn;
}
static std::string judge(const mc::Trace& tr) {
   REQUIRE(tr.count(STEP) == tr.count(VALUE) && tr.count(STEP) == tr.count(RECV), "count", num(tr.count(VALUE)));
   for (auto* s : tr.with(STEP)) {
      const mc::Ev* v = find_text(tr, VALUE, s->text.substr(0, 40));
      REQUIRE(v, "text", s->text);
      REQUIRE(v->a >= s->a && v->a <= s->b, "time", "time stamp " + num(v->a) + " outside " + num(s->a) + ".." + num(s->b));
   }
   for (auto* r : tr.with(RECV)) REQUIRE(r->text.find("custom level on the heap[") == 0 && r->text.find('#') == std::string::npos && r->text.find("]\tmessage from the heap, number ") != std::string::npos, "content", r->text);
   return "";
}
MC_SCENARIO(content_memory, "C16", 0, "q=pb2:4000 t=dpor:500000,pb3:500000 shards=7") {
   int style = mc::choose(STYLES);
   World1 w;
   mc::begin();
   statement(style, 0);
   statement((style + 3) % STYLES, 1);
   w.worker.reset();
}
MC_ORACLE(content_memory) { return judge(tr); }
MC_SCENARIO(content_two_threads, "C16", 0, "q=pb1:4000 t=pb2:500000 shards=7") {
   int style = mc::choose(STYLES);
   World1 w;
   mc::begin();
   std::thread t([=] { statement(style, 0); });
   statement(1, 1);
   t.join();
   w.worker.reset();
}
MC_ORACLE(content_two_threads) { return judge(tr); }
// the clock moves (another thread's sleep ends) at any moment of the statement and of the delivery
MC_SCENARIO(content_time, "C16", 0, "q=pb1:9000,db2:30000 t=pb3:500000,db3:300000") {
   World1 w;
   mc::begin();
   std::thread t([] { std::this_thread::sleep_for(std::chrono::milliseconds(5)); });
   statement(0, 0);
   statement(1, 1);
   t.join();
   w.worker.reset();
}
MC_ORACLE(content_time) { return judge(tr); }
// two threads format printf-like texts at the same time
MC_SCENARIO(content_printf_two, "C16 C17 C25", 0, "q=pb1:9000,db2:30000 t=dpor:500000,pb3:500000,db3:300000") {
   World1 w;
   mc::begin();
   std::thread t([] { statement(1, 0); statement(3, 2); });
   statement(3, 1);
   t.join();
   w.worker.reset();
}
MC_ORACLE(content_printf_two) { return judge(tr); }
// fatal messages: the caller's memory is read only by the calling thread
MC_SCENARIO(content_fatal_memory, "C16", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:4000 t=pb2:300000 shards=4") {
   int k = mc::choose(4);
   FWorld w(1);
   mc::begin();
   g3::setFatalPreLoggingHook([] {});
   std::thread t([k] {
      auto* s = new std::string("the cause");
      mc::event(STAMP, k == 0 ? K_LOG : k == 1 ? K_LOGF : k == 2 ? K_CHECK : K_CHECKF, 0, *s);
      switch (k) {
      case 0: LOG(FATAL) << *s; break;
      case 1: LOGF(FATAL, "%s", s->c_str()); break;
      case 2: CHECK(no()) << *s; break;
      case 3: CHECKF(no(), "%s", s->c_str()); break;
      }
      mc::unreachable("after a fatal statement");
   });
   logm(0, 0);
   t.join();
}
MC_ORACLE(content_fatal_memory) { return judge_fatal(tr, 1); }
