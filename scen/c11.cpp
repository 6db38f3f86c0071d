// C11 the fatal hook and a custom fatal exit handler run exactly as configured
#include "fatal.h"
static void hook(int id) { mc::event(MARK, 100 + id, mc::tid()); }
static std::string judge_hook(const mc::Trace& tr, int expected, int nsinks) {
   auto e = judge_fatal(tr, nsinks);
   if (!e.empty()) return e;
   auto* f = tr.first(STAMP);
   int n = 0;
   for (auto* m : tr.with(MARK)) if (m->a >= 100 && m->a < 200) {
      n++;
      REQUIRE(m->a == 100 + expected, "wrong", "hook " + num(m->a - 100) + " ran instead of " + num(expected));
      REQUIRE(m->tid == f->tid, "thread", "hook ran in another thread");
      for (auto* h : tr.with(HOOK)) REQUIRE(mc::Trace::hb(*m, *h), "order", "hook not before the fatal message was handed to the sinks");
   }
   REQUIRE(n == (expected >= 0), "count", "hook ran " + num(n) + " times");
   return "";
}
// every kind x {no hook, one hook, replaced hook, hook that logs, hook set before the initialisation}
MC_SCENARIO(hook_kinds, "C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:3000 t=pb2:200000 shards=15") {
   int kind = mc::choose(K_KINDS), mode = mc::choose(5);
   FWorld w(1, false);
   if (mode == 4) g3::setFatalPreLoggingHook([] { hook(0); });
   g3::initializeLogging(w.worker.get());
   mc::event(VALUE, mode == 0 || mode == 4 ? -1 : mode == 2 ? 1 : 0);
   if (mode == 1 || mode == 2) g3::setFatalPreLoggingHook([] { hook(0); });
   if (mode == 2) g3::setFatalPreLoggingHook([] { hook(1); });
   if (mode == 3) g3::setFatalPreLoggingHook([] { hook(0); logm(4, 0); });
   mc::begin();
   logm(0, 0);
   die(kind, "cause");
}
MC_ORACLE(hook_kinds) {
   auto e = judge_hook(tr, (int)tr.first(VALUE)->a, 1);
   if (!e.empty()) return e;
   if (tr.first(LOGGED) && find_text(tr, LOGGED, "t4m0")) REQUIRE(count_of(received(tr, 0), "t4m0") == 1, "lost", "message logged in the hook");
   return "";
}
// fatal events of two threads: exactly one runs the hook
MC_SCENARIO(hook_two_fatals, "C11 C10", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:5000,db2:20000 t=dpor:400000,pb3:400000,db3:300000 shards=4") {
   static const int k[][2] = {{K_LOG, K_LOGF}, {K_LOG, K_SEGV}, {K_CHECK, K_FPE}, {K_SEGV, K_FPE}};
   auto* p = k[mc::choose(4)];
   FWorld w(1);
   g3::setFatalPreLoggingHook([] { hook(0); });
   mc::begin();
   std::thread a([=] { die(p[0], "causeA"); });
   die(p[1], "causeB");
}
MC_ORACLE(hook_two_fatals) {
   REQUIRE(tr.end == mc::SIGNALED, "alive", "end " + num(tr.end));
   // the first event in the logger runs the hook; the other one may be handled first and end the process before the hook is done
   REQUIRE(tr.count(MARK, 100) <= 1, "count", "hook ran " + num(tr.count(MARK, 100)) + " times");
   REQUIRE(tr.count(HOOK, 0) == 1 && tr.count(DTOR, 0) == 1, "nofatal", fatal_texts(tr, 0));
   return "";
}
// setting the hook while another thread dies: the old or the new one runs, once
MC_SCENARIO(hook_set_vs_fatal, "C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=dpor:5000,pb2:5000 t=dpor:400000,pb3:400000") {
   FWorld w(1);
   g3::setFatalPreLoggingHook([] { hook(0); });
   mc::begin();
   std::thread a([=] { g3::setFatalPreLoggingHook([] { hook(1); }); });
   die(K_LOG, "cause");
}
MC_ORACLE(hook_set_vs_fatal) {
   auto e = judge_fatal(tr, 1);
   if (!e.empty()) return e;
   REQUIRE(tr.count(MARK, 100) + tr.count(MARK, 101) == 1, "count", "hooks ran " + num(tr.count(MARK, 100)) + " " + num(tr.count(MARK, 101)));
   return "";
}
// custom exit handler
static void custom(int id) {
   g3::setFatalExitHandler([id](g3::FatalMessagePtr m) {
      mc::event(CALLED, id, mc::tid(), shorten(*m.get()) + "#" + m.get()->reason() + "#" + num(m.get()->_signal_id));
   });
}
static void soft_fatal(int kind, const std::string& text) {
   mc::event(STAMP, kind, mc::tid(), text);
   switch (kind) {
   case K_LOG: LOG(FATAL) << text; break;
   case K_LOGF: LOGF(FATAL, "%s", text.c_str()); break;
   case K_CHECK: CHECK(no()) << text; break;
   case K_CHECKF: CHECKF(no(), "%s", text.c_str()); break;
   case K_LOGIF: LOG_IF(FATAL, !no()) << text; break;
   case K_LOGFIF: LOGF_IF(FATAL, !no(), "%s", text.c_str()); break;
   case K_CUSTOM: LOG(DEADLY) << text; break;
   default: raise(kind_signal(kind)); break;
   }
   mc::event(STEP, kind);
}
static std::string judge_custom(const mc::Trace& tr, int id) {
   REQUIRE(tr.end == mc::DONE, "died", "the default exit ran: end " + num(tr.end) + " " + num(tr.value));
   auto st = tr.with(STAMP), ca = tr.with(CALLED);
   REQUIRE(st.size() == ca.size(), "count", num(ca.size()) + " calls for " + num(st.size()) + " fatal events");
   for (auto* x : st) {
      int n = 0;
      for (auto* c : ca) {
         int kind = (int)x->a;
         auto has = [&](const std::string& s) { return c->text.find(s) != std::string::npos; };
         bool named = has(std::string("#") + kind_reason(kind) + "#" + num(kind_signal(kind)));
         if (kind >= K_ABORT) named &= has(std::string("Received fatal signal: ") + kind_reason(kind)) && has("F|FATAL_SIGNAL|");
         else named &= has("|" + x->text + "|");
         if (kind == K_CHECK || kind == K_CHECKF) named &= has("|no()|");
         if (named) { n++; REQUIRE(c->a == id, "wrong", "handler " + num(c->a)); REQUIRE(c->tid == x->tid, "thread", ""); }
      }
      REQUIRE(n == 1, "message", std::string(kind_name((int)x->a)) + " reported " + num(n) + " times: " + (ca.empty() ? "" : ca[0]->text));
   }
   REQUIRE(tr.count(HOOK) == 0, "default", "fatal message in a sink");
   auto r = received(tr, 0);
   for (auto* l : tr.with(LOGGED)) REQUIRE(count_of(r, l->text) == 1, "lost", l->text);
   REQUIRE((int)r.size() == tr.count(LOGGED), "invented", joined(r));
   return "";
}
MC_SCENARIO(exit_handler_kinds, "C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:600 t=pb2:200000 shards=13") {
   static const int k[] = {K_LOG, K_LOGF, K_CHECK, K_CHECKF, K_LOGIF, K_LOGFIF, K_CUSTOM, K_FPE, K_ILL, K_SEGV, K_TERM, K_ABRT, K_LOG};
   int i = mc::choose(13), mode = mc::choose(3);
   FWorld w(1);
   custom(0);
   if (mode == 1) custom(1);
   mc::event(VALUE, mode == 1, mode == 2);
   if (mode == 2) g3::setFatalPreLoggingHook([] { hook(0); });
   mc::begin();
   logm(0, 0);
   soft_fatal(k[i], "one");
   logm(0, 1);
   if (i < 7) { soft_fatal(K_LOGF, "two"); soft_fatal(K_CHECK, "three"); }
   logm(0, 2);
   mc::stop();
   w.worker.reset();
}
MC_ORACLE(exit_handler_kinds) {
   auto* v = tr.first(VALUE);
   auto e = judge_custom(tr, (int)v->a);
   if (!e.empty()) return e;
   REQUIRE(tr.count(MARK, 100) == v->b, "hook", "hook ran " + num(tr.count(MARK, 100)) + " times");
   if (v->b) REQUIRE(mc::Trace::hb(*find_ev(tr, MARK, 100, 0), *tr.first(CALLED)), "order", "hook after the handler");
   return "";
}
MC_SCENARIO(exit_handler_threads, "C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:5000,db2:30000 t=dpor:400000,pb3:400000,db3:300000") {
   FWorld w(1);
   custom(0);
   g3::setFatalPreLoggingHook([] { hook(0); });
   mc::begin();
   std::thread a([] { soft_fatal(K_LOG, "one"); logm(1, 0); });
   logm(0, 0);
   soft_fatal(K_CHECKF, "two");
   a.join();
   mc::stop();
   w.worker.reset();
}
MC_ORACLE(exit_handler_threads) {
   auto e = judge_custom(tr, 0);
   if (!e.empty()) return e;
   REQUIRE(tr.count(MARK, 100) == 1, "hook", "hook ran " + num(tr.count(MARK, 100)) + " times");
   return "";
}
// the handler throws: the exception reaches the fatal statement; the default handler can be put back
MC_SCENARIO(exit_handler_throws, "C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb1:2000 t=pb2:200000 shards=3") {
   static const int k[] = {K_LOG, K_CHECKF, K_CUSTOM};
   int kind = k[mc::choose(3)], back = mc::choose(2);
   FWorld w(1);
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { mc::event(CALLED, 0, 0, shorten(*m.get())); throw std::runtime_error("custom"); });
   mc::begin();
   for (int i = 0; i < 2; i++) {
      try { soft_fatal(kind, "soft" + num(i)); } catch (const std::runtime_error& e) { mc::event(RESULT, i, 0, e.what()); }
      logm(0, i);
   }
   if (back) {
      g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger);
      mc::event(MARK, 1);
      LOG(FATAL) << "cause";
      mc::unreachable("code after a fatal statement ran");
   }
   w.worker.reset();
}
MC_ORACLE(exit_handler_throws) {
   REQUIRE(tr.count(CALLED) == 2 && tr.count(RESULT) == 2 && tr.count(STEP) == 0, "count", num(tr.count(CALLED)) + " " + num(tr.count(RESULT)));
   for (int i = 0; i < 2; i++) REQUIRE(tr.with(CALLED)[i]->text.find("|soft" + num(i) + "|") != std::string::npos && tr.with(RESULT)[i]->text == "custom", "message", tr.with(CALLED)[i]->text);
   auto r = received(tr, 0);
   REQUIRE(joined(r) == "[t0m0,t0m1]", "lost", joined(r));
   REQUIRE(tr.count(DTOR, 0) == 1, "dtor", "");
   if (find_ev(tr, MARK, 1, 0)) REQUIRE(tr.end == mc::SIGNALED && tr.value == SIGABRT && tr.count(HOOK, 0) == 1 && tr.first(HOOK)->text.find("|cause|") != std::string::npos, "default", "end " + num(tr.end) + fatal_texts(tr, 0));
   else REQUIRE(tr.end == mc::DONE && tr.count(HOOK, 0) == 0, "default", "end " + num(tr.end));
   return "";
}
// re-initialisation resets the hook; a hook fires once per setting
MC_SCENARIO(hook_reinit, "C11", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb0:100 t=pb1:100000") {
   int mode = mc::choose(4);
   auto set = [](int id) { g3::setFatalPreLoggingHook([id] { hook(id); }); };
   { FWorld w(1); set(0); if (mode == 3) { custom(0); soft_fatal(K_LOG, "first"); } }
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<FSink>(1), &FSink::receive);
   g3::initializeLogging(w.get());
   custom(1);
   if (mode == 1) set(1);
   mc::begin();
   mc::event(VALUE, mode);
   soft_fatal(K_LOG, "one");
   if (mode == 2) set(2);
   soft_fatal(K_LOG, "two");
   soft_fatal(K_LOG, "three");
   w.reset();
}
MC_ORACLE(hook_reinit) {
   int mode = (int)tr.first(VALUE)->a;
   REQUIRE(tr.end == mc::DONE, "died", "");
   REQUIRE(tr.count(MARK, 100) == (mode == 3), "reset", "hook of the first worker ran " + num(tr.count(MARK, 100)));
   REQUIRE(tr.count(MARK, 101) == (mode == 1), "count", "");
   REQUIRE(tr.count(MARK, 102) == (mode == 2), "count", "");
   REQUIRE(tr.count(CALLED, 1) == 3 && tr.count(CALLED, 0) == (mode == 3), "count", "");
   for (auto* c : tr.with(CALLED)) if (c->a == 1 && find_text(tr, STAMP, "one")) {
      // the recursion mark: only while another fatal event is being handled
      if (c == tr.with(CALLED)[mode == 3]) REQUIRE(c->text.find("recursive") == std::string::npos, "recursive", c->text);
   }
   return "";
}
