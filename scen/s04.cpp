// C04 (C06): every sequence of sink operations against an exact model of the attached sinks, including stale handles and
// strong references that the application holds
#include "lib.h"
struct Log { std::vector<std::string> got; bool dead = false; int calls = 0; };
struct S {
   Log* l;
   explicit S(Log* p) : l(p) {}
   ~S() { l->dead = true; }
   void receive(g3::LogMessageMover m) { l->got.push_back(m.get().message()); }
   int ask(int x) { l->calls++; return x + 1; }
};
using Handle = std::unique_ptr<g3::SinkHandle<S>>;
struct M {  // the model of one sink
   Handle handle;
   std::shared_ptr<g3::internal::Sink<S>> strong;
   bool attached = true;
   std::vector<std::string> want;
   int calls = 0;
};
static void sequence(int depth) {
   std::vector<std::unique_ptr<Log>> logs;
   std::vector<std::unique_ptr<M>> sinks;
   auto w = g3::LogWorker::createLogWorker();
   g3::initializeLogging(w.get());
   std::string hist;
   auto check = [&](size_t i, const char* when) {
      M& m = *sinks[i];
      Log& l = *logs[i];
      if (!m.attached && !m.strong) {
         EXPECT(l.dead, "alive", "sink " + std::to_string(i) + " not destroyed " + when + " after:" + hist);
         EXPECT(l.got == m.want, l.got.size() < m.want.size() ? "lost" : "extra", "sink " + std::to_string(i) + " got " + std::to_string(l.got.size()) + " messages, expected " + std::to_string(m.want.size()) + " " + when + " after:" + hist);
         EXPECT(l.calls == m.calls, "calls", "sink " + std::to_string(i) + " ran " + std::to_string(l.calls) + " calls, expected " + std::to_string(m.calls) + " after:" + hist);
      } else EXPECT(!l.dead, "dead", "sink " + std::to_string(i) + " destroyed although " + (m.attached ? "attached" : "held by the application") + " after:" + hist);
   };
   auto target = [&](int which) -> int {  // 0: the oldest sink with a handle, 1: the newest
      for (size_t k = 0; k < sinks.size(); k++) {
         size_t i = which ? sinks.size() - 1 - k : k;
         if (sinks[i]->handle) return (int)i;
      }
      return -1;
   };
   for (int step = 0; step < depth; step++) {
      int op = seq::choose(10), i;
      seq::step();
      hist += " " + std::to_string(op);
      switch (op) {
      case 0: {
         logs.push_back(std::make_unique<Log>());
         sinks.push_back(std::make_unique<M>());
         sinks.back()->handle = w->addSink(std::make_unique<S>(logs.back().get()), &S::receive);
         break;
      }
      case 1: case 2:  // remove the oldest / newest (perhaps already removed by removeAllSinks)
         if ((i = target(op - 1)) < 0) break;
         w->removeSink(std::move(sinks[i]->handle));
         sinks[i]->attached = false;
         check(i, "when removeSink returned");
         break;
      case 3:
         w->removeAllSinks();
         for (auto& m : sinks) m->attached = false;
         for (size_t k = 0; k < sinks.size(); k++) check(k, "when removeAllSinks returned");
         break;
      case 4: {
         std::string t = "m" + std::to_string(step);
         LOG(INFO) << t;
         for (auto& m : sinks) if (m->attached) m->want.push_back(t);
         break;
      }
      case 5:  // the application takes a strong reference
         if ((i = target(0)) >= 0 && !sinks[i]->strong) {
            sinks[i]->strong = sinks[i]->handle->sink().lock();
            EXPECT(!!sinks[i]->strong == sinks[i]->attached, "lock", "sink().lock() of sink " + std::to_string(i) + " after:" + hist);
         }
         break;
      case 6:  // ... and releases all of them
         for (size_t k = 0; k < sinks.size(); k++) if (sinks[k]->strong) { sinks[k]->strong.reset(); check(k, "when released"); }
         break;
      case 7:  // removal through a copy of the handle, the handle itself is kept (and goes stale)
         if ((i = target(1)) < 0) break;
         w->removeSink(std::make_unique<g3::SinkHandle<S>>(*sinks[i]->handle));
         sinks[i]->attached = false;
         check(i, "when removeSink returned");
         break;
      case 8:  // a call
         if ((i = target(0)) < 0) break;
         {
            auto f = sinks[i]->handle->call(&S::ask, step);
            EXPECT(f.valid() && f.wait_for(std::chrono::seconds(20)) == std::future_status::ready, "stuck", "the future of a call does not resolve after:" + hist);
            if (sinks[i]->attached || sinks[i]->strong) {
               sinks[i]->calls++;
               EXPECT(f.get() == step + 1, "value", "wrong result of a call after:" + hist);
            } else {
               bool err = false;
               try { f.get(); } catch (const std::exception&) { err = true; }
               EXPECT(err, "noerror", "a call after removal does not report an error after:" + hist);
            }
         }
         break;
      case 9: w->removeSink(Handle{}); break;
      }
      std::string st;
      for (auto& m : sinks) st += std::to_string(m->attached * 4 + !!m->strong * 2 + !!m->handle) + ":" + std::to_string(m->want.size()) + ",";
      seq::state(st);
      for (size_t k = 0; k < sinks.size(); k++) if (sinks[k]->attached) check(k, "in between");
   }
   w.reset();
   for (auto& m : sinks) m->attached = false;
   for (size_t k = 0; k < sinks.size(); k++) { sinks[k]->strong.reset(); check(k, "when the worker was destroyed"); }
   seq::note("operations" + hist);
}
SEQ(sinkops4, "C04 C06", 0, 20000, 20000) { sequence(4); }
SEQ(sinkops5, "C04", 0, 200000, 200000) { sequence(5); }
SEQ(sinkops6, "C04", 0, 0, 3000000) { sequence(6); }
SEQ_MAIN
