// C24 each sink gets its own copy of every message
#include "fatal.h"
static std::string mine(const g3::LogMessage& m) { return "{" + m.level() + "}"; }
// what a sink does to its copies; RECV text = what the copy said on arrival
enum Deed { RECORD, REWRITE, CLEAR, REFORMAT, KEEP, MOVE, STRING, DEEDS };
struct Store {
   std::mutex m;
   std::vector<std::pair<int, g3::LogMessage>> kept;
};
static Store* store;
static std::string all(const g3::LogMessage& m) {
   return m.level() + "|" + m.file() + "|" + m.function() + "|" + m.expression() + "|" + m.message().substr(0, 40) + "|" + (g3::LogMessage::normalToString(m) == g3::LogMessage::DefaultLogDetailsToString(m) + m.message() + "\n" ? "default" : "other");
}
struct Deedful {
   int id, deed;
   Deedful(int i, int d) : id(i), deed(d) {}
   ~Deedful() { mc::event(DTOR, id); }
   void receive(g3::LogMessageMover mv) {
      g3::LogMessage& m = mv.get();
      mc::event(RECV, id, deed, all(m));
      switch (deed) {
      case REWRITE: m.write() = "rewritten by " + num(id); break;
      case CLEAR: m.write().clear(); m.setExpression("gone"); m._file = "nowhere"; m._level = LEVELS{1, {"nothing"}}; break;
      case REFORMAT: m.overrideLogDetailsFunc(&mine); m.toString(&mine); break;
      case KEEP: { std::lock_guard<std::mutex> l(store->m); store->kept.emplace_back(id, m); break; }
      case MOVE: { std::lock_guard<std::mutex> l(store->m); store->kept.emplace_back(id, std::move(m)); break; }
      default: break;
      }
      if (deed != MOVE) mc::event(VALUE, id, deed, all(m));
   }
   void receive_string(std::string s) {
      size_t p = s.find("]\t");
      mc::event(RECV, id, deed, p == std::string::npos ? s : s.substr(p + 2));
      s.assign("rewritten");
   }
};
static void add(g3::LogWorker* w, int id, int deed) {
   if (deed == STRING) w->addSink(std::make_unique<Deedful>(id, deed), &Deedful::receive_string);
   else w->addSink(std::make_unique<Deedful>(id, deed), &Deedful::receive);
}
static std::string judge(const mc::Trace& tr, int nsinks, int nmsg) {
   for (int s = 0; s < nsinks; s++) {
      int n = 0;
      for (auto* e : tr.with(RECV)) {
         if (e->a != s) continue;
         std::string t = "message number " + num(n++);
         if (e->b == STRING) REQUIRE(e->text == t + "\n", "copy", "sink " + num(s) + " (string) got " + e->text);
         else REQUIRE(e->text.compare(0, 5, "INFO|") == 0 && e->text.find("|c24.cpp|") != std::string::npos && e->text.find("||" + t + "|default") != std::string::npos, "copy",
                      "sink " + num(s) + " got " + e->text + " although only " + t + " was logged");
      }
      REQUIRE(n == nmsg, "count", "sink " + num(s) + " got " + num(n));
   }
   for (auto* e : tr.with(MARK)) if (e->a == 7) REQUIRE(e->text.find("message number") != std::string::npos && e->text.find("INFO|c24.cpp|") == 0, "kept", "a kept message became " + e->text);
   return "";
}
static void log2(int nmsg) { for (int i = 0; i < nmsg; i++) LOG(INFO) << "message number " << i; }
static void show_kept() { for (auto& k : store->kept) mc::event(MARK, 7, k.first, all(k.second)); }
// every pair of deeds, two messages
MC_SCENARIO(copies_two_sinks, "C24", 0, "q=pb1:20000 t=dpor:1000000,pb2:1000000 shards=7") {
   Store st;
   store = &st;
   int a = mc::choose(DEEDS), b = mc::choose(DEEDS);
   auto w = g3::LogWorker::createLogWorker();
   add(w.get(), 0, a);
   add(w.get(), 1, b);
   g3::initializeLogging(w.get());
   mc::begin();
   log2(2);
   w.reset();
   show_kept();
}
MC_ORACLE(copies_two_sinks) { return judge(tr, 2, 2); }
// every triple of deeds, one message, schedules with no preemption
MC_SCENARIO(copies_three_sinks, "C24", 0, "q=pb0:20000 t=pb2:1000000 shards=7") {
   Store st;
   store = &st;
   int a = mc::choose(DEEDS), b = mc::choose(DEEDS), c = mc::choose(DEEDS);
   auto w = g3::LogWorker::createLogWorker();
   add(w.get(), 0, a);
   add(w.get(), 1, b);
   add(w.get(), 2, c);
   g3::initializeLogging(w.get());
   mc::begin();
   log2(1);
   w.reset();
   show_kept();
}
MC_ORACLE(copies_three_sinks) { return judge(tr, 3, 1); }
// one sink: what it does to a message does not show in the next one
MC_SCENARIO(copies_one_sink, "C24", 0, "q=pb2:4000 t=dpor:1000000,pb3:1000000 shards=7") {
   Store st;
   store = &st;
   int a = mc::choose(DEEDS);
   auto w = g3::LogWorker::createLogWorker();
   add(w.get(), 0, a);
   g3::initializeLogging(w.get());
   mc::begin();
   log2(3);
   w.reset();
   show_kept();
}
MC_ORACLE(copies_one_sink) { return judge(tr, 1, 3); }
// sinks keep their copies while other threads use theirs
MC_SCENARIO(copies_kept, "C24", 0, "q=db2:20000 t=pb2:1000000,db3:300000") {
   Store st;
   store = &st;
   auto w = g3::LogWorker::createLogWorker();
   add(w.get(), 0, KEEP);
   add(w.get(), 1, MOVE);
   add(w.get(), 2, REWRITE);
   g3::initializeLogging(w.get());
   mc::begin();
   log2(1);
   std::thread t([&] { std::lock_guard<std::mutex> l(st.m); for (auto& k : st.kept) { k.second.write() += "!"; k.second.toString(&mine); } });
   LOG(INFO) << "message number 1";
   t.join();
   w.reset();
   show_kept();
}
MC_ORACLE(copies_kept) { return judge(tr, 3, 2); }
// the fatal message, too
MC_SCENARIO(copies_fatal, "C24", mc::CAN_DIE | mc::CAN_BLOCK, "q=pb0:9000 t=pb1:300000 shards=5") {
   Store st;
   store = &st;
   static const int kinds[] = {K_LOG, K_CHECK, K_SEGV, K_CUSTOM, K_LOGF};
   int kind = kinds[mc::choose(5)], a = mc::choose(DEEDS - 1), b = mc::choose(DEEDS - 1);
   auto w = g3::LogWorker::createLogWorker();
   add(w.get(), 0, a);
   add(w.get(), 1, b);
   g3::initializeLogging(w.get());
   mc::begin();
   LOG(INFO) << "message number 0";
   die(kind, "the cause");
}
MC_ORACLE(copies_fatal) {
   REQUIRE(tr.end == mc::SIGNALED, "alive", "did not die");
   std::vector<std::string> f;
   for (int s = 0; s < 2; s++) {
      int n = 0;
      for (auto* e : tr.with(RECV)) {
         if (e->a != s) continue;
         n++;
         if (n == 1) REQUIRE(e->text.find("|message number 0|default") != std::string::npos, "copy", "sink " + num(s) + " got " + e->text);
         if (n == 2) f.push_back(e->text);
      }
      REQUIRE(n == 2, "count", "sink " + num(s) + " got " + num(n));
   }
   REQUIRE(f[0] == f[1], "copy", "the sinks got different fatal messages: " + f[0] + " and " + f[1]);
   int kind = (int)tr.first(STAMP)->a;
   if (kind != K_SEGV) REQUIRE(f[0].find("|the cause") != std::string::npos, "copy", f[0]);
   else REQUIRE(f[0].find("Received fatal signal") != std::string::npos, "copy", f[0]);
   return "";
}
