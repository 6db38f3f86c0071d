#pragma once
#include "common.h"
#include <fstream>
#include <sys/resource.h>
// kinds of fatal events
enum Kind { K_LOG, K_LOGF, K_CHECK, K_CHECKF, K_LOGIF, K_LOGFIF, K_CUSTOM, K_ABORT, K_ABRT, K_FPE, K_ILL, K_SEGV, K_TERM, K_NULL, K_THROW, K_KINDS };
inline const char* kind_name(int k) {
   static const char* n[] = {"LOG(FATAL)", "LOGF(FATAL)", "CHECK", "CHECKF", "LOG_IF(FATAL)", "LOGF_IF(FATAL)", "LOG(custom fatal)", "abort()", "SIGABRT", "SIGFPE", "SIGILL", "SIGSEGV", "SIGTERM", "null dereference", "uncaught exception"};
   return n[k];
}
inline int kind_signal(int k) {
   switch (k) {
   case K_FPE: return SIGFPE;
   case K_ILL: return SIGILL;
   case K_SEGV: case K_NULL: return SIGSEGV;
   case K_TERM: return SIGTERM;
   default: return SIGABRT;
   }
}
inline const char* kind_reason(int k) {
   switch (kind_signal(k)) {
   case SIGFPE: return "SIGFPE";
   case SIGILL: return "SIGILL";
   case SIGSEGV: return "SIGSEGV";
   case SIGTERM: return "SIGTERM";
   default: return "SIGABRT";
   }
}
const LEVELS DEADLY{FATAL.value + 1, {"DEADLY"}};
inline bool no() { return false; }
inline void die(int kind, const std::string& text) {
   mc::event(STAMP, kind, 0, text);
   int zero = 0;
   volatile int* np = nullptr;
   switch (kind) {
   case K_LOG: LOG(FATAL) << text; break;
   case K_LOGF: LOGF(FATAL, "%s", text.c_str()); break;
   case K_CHECK: CHECK(no()) << text; break;
   case K_CHECKF: CHECKF(no(), "%s", text.c_str()); break;
   case K_LOGIF: LOG_IF(FATAL, !no()) << text; break;
   case K_LOGFIF: LOGF_IF(FATAL, !no(), "%s", text.c_str()); break;
   case K_CUSTOM: LOG(DEADLY) << text; break;
   case K_ABORT: abort();
   case K_ABRT: raise(SIGABRT); break;
   case K_FPE: raise(SIGFPE); break;
   case K_ILL: raise(SIGILL); break;
   case K_SEGV: raise(SIGSEGV); break;
   case K_TERM: raise(SIGTERM); break;
   case K_NULL: *np = zero; break;
   case K_THROW: [&]() noexcept { throw std::runtime_error(text); }(); break;
   }
   mc::unreachable("code after a fatal statement ran");
}
// a fatal message, shortened for the trace
inline bool is_fatal(const g3::LogMessage& m) { return m.wasFatal(); }
inline std::string shorten(const g3::LogMessage& m) {
   std::string s = m.message(), e = m.expression();
   auto has = [&](const char* x) { return s.find(x) != std::string::npos; };
   std::string r = "F|" + m.level() + "|" + e + "|" + s.substr(0, std::min<size_t>(s.find_first_of("\n\t"), 60)) + "|";
   for (const char* x : {"SIGABRT", "SIGFPE", "SIGILL", "SIGSEGV", "SIGTERM"}) if (s.find(std::string("Fatal type:  ") + x) != std::string::npos) r += x;
   if (has("recursive crash")) r += "|recursive";
   return r;
}
struct FSink {
   int id;
   explicit FSink(int i) : id(i) {}
   ~FSink() { mc::event(DTOR, id); }
   void receive(g3::LogMessageMover m) {
      if (is_fatal(m.get())) mc::event(HOOK, id, 0, shorten(m.get()));
      else mc::event(RECV, id, 0, m.get().message());
   }
   int twice(int v) { return 2 * v; }
};
struct FWorld {
   std::unique_ptr<g3::LogWorker> worker;
   std::vector<std::unique_ptr<g3::SinkHandle<FSink>>> sinks;
   explicit FWorld(int n, bool init = true) : worker(g3::LogWorker::createLogWorker()) {
      for (int i = 0; i < n; i++) sinks.push_back(worker->addSink(std::make_unique<FSink>(i), &FSink::receive));
      if (init) g3::initializeLogging(worker.get());
   }
};
inline std::string fatal_texts(const mc::Trace& tr, int sink) {
   std::string r;
   for (auto* e : tr.with(HOOK)) if (e->a == sink) r += "{" + e->text + "}";
   return r;
}
inline bool names_cause(const std::string& t, int kind, const std::string& text) {
   auto has = [&](const std::string& x) { return t.find(x) != std::string::npos; };
   if (!has(kind_reason(kind))) return false;
   switch (kind) {
   case K_LOG: case K_LOGF: case K_LOGIF: case K_LOGFIF: return has("F|FATAL|") && has(text);
   case K_CUSTOM: return has("F|DEADLY|") && has(text);
   case K_CHECK: case K_CHECKF: return has("no()") && has(text);
   default: return has(std::string("Received fatal signal: ") + kind_reason(kind));
   }
}
// an operation of the user on sink s (ENTER .. LEAVE) that has not returned
inline bool in_progress(const mc::Trace& tr, int s) { return tr.count(ENTER, s) > tr.count(LEAVE, s); }
// the process died as it should, sinks got everything
inline std::string judge_fatal(const mc::Trace& tr, int nsinks, bool hooks = false) {
   auto* f = tr.first(STAMP);
   REQUIRE(f, "harness", "no fatal event");
   int kind = (int)f->a;
   std::string k = kind_name(kind);
   REQUIRE(tr.end != mc::DEADLOCK && tr.end != mc::HANG && tr.end != mc::LIVELOCK && tr.end != mc::REALHANG, "hang", "the process does not end after " + k);
   REQUIRE(tr.end == mc::SIGNALED, "alive", "the process ended normally (" + num(tr.value) + ") after " + k);
   REQUIRE(tr.value == kind_signal(kind), "signal", k + " ended with signal " + num(tr.value));
   for (int s = 0; s < nsinks; s++) {
      auto r = received(tr, s);
      // a temporary reference held by a handle call or addSink in another thread keeps the sink alive (known finding)
      REQUIRE(tr.count(DTOR, s) || !in_progress(tr, s), "tempref", "sink " + num(s) + " not flushed and destroyed before the process ended by " + k + ", got " + joined(r) + fatal_texts(tr, s));
      for (auto* e : tr.with(LOGGED)) {
         int n = count_of(r, e->text);
         REQUIRE(n <= 1, "count", e->text);
         if (mc::Trace::hb(*e, *f)) REQUIRE(n == 1, "lost", "sink " + num(s) + " without " + e->text + " which was logged before the " + k + ": " + joined(r));
      }
      for (auto& m : r) REQUIRE(find_text(tr, LOGGING, m), "corrupt", m);
      const mc::Ev *last = nullptr, *d = nullptr;
      int nf = 0, nd = 0;
      for (auto& e : tr.ev) {
         if (e.a != s) continue;
         if (e.code == RECV || e.code == HOOK) last = &e;
         if (e.code == HOOK) nf++;
         if (e.code == DTOR) { nd++; d = &e; }
      }
      REQUIRE(nf > 0, "nofatal", "sink " + num(s) + " did not get the fatal message of " + k);
      REQUIRE(nf == 1, "twice", "sink " + num(s) + ": " + fatal_texts(tr, s));
      REQUIRE(last->code == HOOK, "notlast", "message after the fatal message");
      REQUIRE(names_cause(last->text, kind, f->text), "cause", k + ": " + last->text);
      if (!hooks) REQUIRE(last->text.find("recursive") == std::string::npos, "recursive", last->text);
      REQUIRE(nd == 1, "dtor", "sink " + num(s) + " not destroyed before the process ended by " + k);
      REQUIRE(pos(tr, last) < pos(tr, d), "dtor", "sink destroyed before it got the fatal message");
   }
   return in_order(tr, [&] { std::vector<int> v; for (int i = 0; i < nsinks; i++) v.push_back(i); return v; }());
}
