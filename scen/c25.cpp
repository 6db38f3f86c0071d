// C25 every pair of public operations that may run concurrently is free of races, use-after-free and deadlock
#include "common.h"
#include <g3log/time.hpp>
namespace ll = g3::log_levels;
using FH = g3::SinkHandle<g3::FileSink>;
using RH = g3::SinkHandle<RecSink>;
static const LEVELS MINE{301, {"MINE"}};
enum Op { O_LOG, O_LOGF, O_LOG_IF, O_LOG_OFF, O_CHECK, O_ADD, O_REMOVE, O_REMOVE_ALL, O_CALL, O_CALL_DROP, O_HANDLE_COPY, O_LOCK, O_LEVEL_SET, O_LEVEL_ALL, O_LEVEL_GET, O_LEVEL_LIST,
          O_SHUTDOWN, O_INITIALIZED, O_HOOK, O_F_CHANGE, O_F_CHANGE_BAD, O_F_NAME, O_F_DETAILS, O_F_MUTE, O_FORMAT, O_TIME, O_DESTROY, LIGHT, O_ADD_CALL = LIGHT, O_SECOND_WORKER, NOPS };
static bool logs(int o) { return o == O_LOG || o == O_LOGF || o == O_LOG_IF || o == O_LOG_OFF; }
static bool second_op(int o) { return o == O_REMOVE || o == O_CALL || o == O_CALL_DROP || o == O_REMOVE_ALL; }
static bool file_op(int o) { return o >= O_F_CHANGE && o <= O_F_MUTE; }
// the worker is used by these (destroying a second worker logs a warning); its owner may not destroy it meanwhile
static bool uses_worker(int o) { return logs(o) || o == O_ADD || o == O_ADD_CALL || o == O_REMOVE || o == O_REMOVE_ALL || o == O_SECOND_WORKER || o == O_DESTROY; }
struct Ctx {
   std::unique_ptr<g3::LogWorker> w = g3::LogWorker::createLogWorker();
   std::unique_ptr<RH> h0;
   std::unique_ptr<RH> h1[3];
   std::unique_ptr<FH> file;
   g3::LogMessage msg{"file.cpp", 3, "fn", INFO};
   Ctx(bool with_file, bool with_second) {
      h0 = w->addSink(std::make_unique<RecSink>(0), &RecSink::receive);
      if (with_second) {
         mc::event(MARK, -1, -1);
         h1[0] = w->addSink(std::make_unique<RecSink>(1), &RecSink::receive);
         h1[1] = std::make_unique<RH>(*h1[0]);
         h1[2] = std::make_unique<RH>(*h1[0]);
      }
      if (with_file) file = w->addSink(std::make_unique<g3::FileSink>("log", mc::scratch(), "id"), &g3::FileSink::fileWrite);
      g3::initializeLogging(w.get());
      msg.write() = "kept";
   }
};
static void perform(Ctx& c, int t, int o) {
   auto gone = [](auto f) { try { f.get(); } catch (const std::exception&) { } };
   std::string dir = c.file ? mc::scratch() : "";
   switch (o) {
   case O_LOG: mc::event(LOGGING, t, 0, mname(t, 0)); LOG(INFO) << mname(t, 0); break;
   case O_LOGF: mc::event(LOGGING, t, 0, mname(t, 0)); LOGF(WARNING, "t%dm%d", t, 0); break;
   case O_LOG_IF: mc::event(LOGGING, t, 0, mname(t, 0)); LOG_IF(MINE, t < 9) << mname(t, 0); LOGF_IF(INFO, t > 9, "no %d", t); break;
   case O_LOG_OFF: LOG(G3LOG_DEBUG) << "debug " << t; LOG(LEVELS(999, "unregistered")) << "never"; break;
   case O_CHECK: CHECK(t >= 0) << "never"; CHECKF(t >= 0, "%s", "never"); break;
   case O_ADD: { auto h = c.w->addSink(std::make_unique<StrSink>(10 + t), &StrSink::receive); break; }
   case O_ADD_CALL: {
      auto h = c.w->addSink(std::make_unique<RecSink>(10 + t), &RecSink::receive);
      gone(h->call(&RecSink::twice, 4));
      c.w->removeSink(std::move(h));
      break;
   }
   case O_REMOVE: c.w->removeSink(std::move(c.h1[t])); break;
   case O_REMOVE_ALL: c.w->removeAllSinks(); break;
   case O_CALL: gone(c.h1[t]->call(&RecSink::twice, 3)); break;
   case O_CALL_DROP: c.h1[t]->call(&RecSink::note, 5); break;
   case O_HANDLE_COPY: { RH mine(*c.h0); RH other(mine); gone(other.call(&RecSink::twice, 6)); break; }
   case O_LOCK: { auto s = c.h0->sink(); mc::event(VALUE, s.expired()); if (auto p = s.lock()) mc::event(VALUE, 2); break; }
   case O_LEVEL_SET: ll::disable(INFO); ll::enable(INFO); break;
   case O_LEVEL_ALL: ll::setHighest(WARNING); ll::enableAll(); break;
   case O_LEVEL_GET: mc::event(VALUE, g3::logLevel(INFO)); mc::event(VALUE, ll::getStatus(MINE) == ll::status::Enabled); mc::event(VALUE, ll::getStatus(LEVELS(77, "absent")) == ll::status::Absent); break;
   case O_LEVEL_LIST: { auto m = ll::getAll(); auto s = ll::to_string(); auto k = ll::to_string(m); mc::event(VALUE, (long)m.size(), (long)s.size()); break; }
   case O_SHUTDOWN: g3::internal::shutDownLogging(); break;
   case O_INITIALIZED: mc::event(VALUE, g3::internal::isLoggingInitialized()); break;
   case O_HOOK: g3::setFatalPreLoggingHook([t] { (void)t; }); break;
   case O_F_CHANGE: gone(c.file->call(&g3::FileSink::changeLogFile, dir + "/", "new" + num(t))); break;
   case O_F_CHANGE_BAD: gone(c.file->call(&g3::FileSink::changeLogFile, dir + "/nowhere/", "")); break;
   case O_F_NAME: gone(c.file->call(&g3::FileSink::fileName)); break;
   case O_F_DETAILS: gone(c.file->call(&g3::FileSink::overrideLogDetails, &g3::LogMessage::FullLogDetailsToString)); break;
   case O_F_MUTE: gone(c.file->call(&g3::FileSink::overrideLogHeader, "header\n")); break;
   case O_FORMAT: { g3::LogMessage m(c.msg); std::string s = m.toString(), f = m.toString(&g3::LogMessage::FullLogDetailsToString); mc::event(VALUE, (long)s.size(), (long)(f.size() + m.threadID().size())); break; }
   case O_TIME: mc::event(VALUE, (long)g3::localtime_formatted(std::chrono::system_clock::now(), "%Y %f6 %f3").size()); mc::event(VALUE, (long)g3::localtime_formatted(g3::system_time_point{}, "%H").size()); break;
   case O_SECOND_WORKER: {
      auto w2 = g3::LogWorker::createLogWorker();
      auto h = w2->addSink(std::make_unique<RecSink>(20 + t), &RecSink::receive);
      h->call(&RecSink::note, 1);
      break;
   }
   case O_DESTROY: c.w.reset(); break;
   }
}
// may the pair run concurrently? (LogWorker's owner destroys it only when nobody uses it; at most one destruction)
static bool allowed(int a, int b) { return !(a == O_DESTROY && uses_worker(b)) && !(b == O_DESTROY && uses_worker(a)); }
static std::string judge(const mc::Trace& tr) {
   bool lossy = false;
   for (auto* m : tr.with(MARK)) for (long o : {m->a, m->b}) lossy |= o == O_SHUTDOWN || o == O_REMOVE_ALL || o == O_DESTROY || o == O_LEVEL_SET || o == O_LEVEL_ALL;
   auto r = received(tr, 0);
   for (auto* l : tr.with(LOGGING)) {
      int n = count_of(r, l->text);
      REQUIRE(n == 1 || (lossy && !n), "count", l->text + " delivered " + num(n) + " times: " + joined(r));
   }
   // the library's own warnings (second worker, second shutdown) are delivered as well
   for (auto& m : r) REQUIRE(m.find("debug ") == 0 || find_text(tr, LOGGING, m) || m.find("LogWorker") != std::string::npos || m.find("shut") != std::string::npos, "invented", m);
   for (int s : {0, 1}) REQUIRE(tr.count(DTOR, s) == (s == 0 || tr.count(MARK, -1) ? 1 : 0), "dtor", "sink " + num(s) + " destroyed " + num(tr.count(DTOR, s)) + " times");
   return "";
}
static void run(int a, int b, int c) {
   mc::event(MARK, a, b);
   if (c >= 0) mc::event(MARK, c, c);
   g3::only_change_at_initialization::addLogLevel(MINE, true);
   setenv("TZ", "UTC0", 1);
   tzset();
   auto any = [&](bool (*f)(int)) { return f(a) || f(b) || (c >= 0 && f(c)); };
   Ctx x(any(file_op), any(second_op));
   mc::begin();
   std::thread t([&] { perform(x, 1, a); }), u;
   if (c >= 0) u = std::thread([&] { perform(x, 2, c); });
   perform(x, 0, b);
   t.join();
   if (c >= 0) u.join();
   mc::stop();
   x.w.reset();
}
MC_SCENARIO(api_pairs, "C25", mc::SCRATCH, "q=db2:60000 t=db3:900000 shards=27") {
   int a = mc::choose(LIGHT), b = a + mc::choose(LIGHT - a);
   if (!allowed(a, b)) b = O_TIME;
   run(a, b, -1);
}
MC_ORACLE(api_pairs) { return judge(tr); }
// the longer operations with each of the others
MC_SCENARIO(api_pairs_long, "C25", mc::SCRATCH, "q=db1:60000 t=db2:900000,db3:900000 shards=29") {
   int a = mc::choose(NOPS), b = LIGHT + mc::choose(NOPS - LIGHT);
   if (!allowed(a, b)) a = O_TIME;
   run(a, b, -1);
}
MC_ORACLE(api_pairs_long) { return judge(tr); }
static const int kTriples[][3] = {
   {O_LOG, O_ADD, O_REMOVE}, {O_LOG, O_CALL, O_REMOVE}, {O_LOG, O_SHUTDOWN, O_LOGF}, {O_LOG_IF, O_LEVEL_SET, O_LEVEL_LIST}, {O_CALL, O_REMOVE, O_REMOVE_ALL}, {O_CALL, O_HANDLE_COPY, O_DESTROY},
   {O_LOG, O_F_CHANGE, O_F_NAME}, {O_F_CHANGE, O_F_DETAILS, O_LOGF}, {O_LOG, O_TIME, O_FORMAT}, {O_ADD_CALL, O_REMOVE, O_REMOVE_ALL}, {O_SHUTDOWN, O_LOG, O_SHUTDOWN}, {O_LOG, O_HOOK, O_INITIALIZED},
   {O_LOG, O_LOGF, O_SECOND_WORKER}, {O_CALL_DROP, O_LOCK, O_REMOVE}, {O_F_CHANGE, O_F_CHANGE_BAD, O_DESTROY}, {O_LEVEL_SET, O_LEVEL_ALL, O_LEVEL_GET}, {O_REMOVE, O_REMOVE, O_CALL_DROP}, {O_ADD, O_ADD, O_REMOVE_ALL}};
MC_SCENARIO(api_triples, "C25", mc::SCRATCH, "q=db2:60000 t=db3:900000 shards=18") {
   auto& k = kTriples[mc::choose(sizeof kTriples / sizeof *kTriples)];
   run(k[0], k[1], k[2]);
}
MC_ORACLE(api_triples) { return judge(tr); }
