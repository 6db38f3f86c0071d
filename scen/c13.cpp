// C13 (C04, C07, C25) a file sink driven through the log worker and its handle: every entry once, in order, in the right file
#include "common.h"
using FH = g3::SinkHandle<g3::FileSink>;
static std::string custom(const g3::LogMessage& m) { return "<" + m.level() + "> "; }
struct FWorld {
   std::unique_ptr<g3::LogWorker> w = g3::LogWorker::createLogWorker();
   std::unique_ptr<FH> h;
   explicit FWorld(size_t interval) {
      h = w->addSink(std::make_unique<g3::FileSink>("log", mc::scratch(), "id", interval), &g3::FileSink::fileWrite);
      g3::initializeLogging(w.get());
   }
};
static std::string base(const std::string& p) { auto k = p.rfind('/'); return k == std::string::npos ? p : p.substr(k + 1); }
// RESULT a=k, text: name returned; STEP a=k: change k begins
static void change(FH& h, int k, bool good) {
   mc::event(STEP, k, good);
   std::string n = h.call(&g3::FileSink::changeLogFile, std::string(mc::scratch()) + (good ? "/" : "/nowhere/"), "n" + num(k)).get();
   mc::event(RESULT, k, good, base(n));
}
static size_t find_entry(const std::string& c, const std::string& m) {
   for (size_t p = 0; (p = c.find(m + "\n", p)) != std::string::npos; p++)
      if (p > 0 && (c[p - 1] == '\t' || (p > 1 && c.compare(p - 2, 2, "> ") == 0))) return p;
   return std::string::npos;
}
static std::string judge(const mc::Trace& tr) {
   std::map<std::string, std::string> files;
   for (auto& f : tr.files()) files[f] = tr.read(f);
   for (auto* r : tr.with(RESULT)) {
      if (r->b) REQUIRE(files.count(r->text), "name", "no file of the returned name " + r->text);
      else REQUIRE(r->text.empty(), "name", "a failed change returned " + r->text);
   }
   for (auto* n : tr.with(VALUE)) REQUIRE(files.count(n->text), "name", "no file of the name " + n->text);
   std::map<std::string, std::pair<std::string, size_t>> at;
   for (auto* l : tr.with(LOGGING)) {
      int n = 0;
      for (auto& f : files)
         for (size_t p = find_entry(f.second, l->text); p != std::string::npos;) {
            n++;
            at[l->text] = {f.first, p};
            size_t q = find_entry(f.second.substr(p + 1), l->text);
            p = q == std::string::npos ? q : p + 1 + q;
         }
      const mc::Ev* done = find_text(tr, LOGGED, l->text);
      auto* gone = tr.first(MARK);  // removal or shutdown begins
      REQUIRE(n == 1 || (!n && gone && !(done && mc::Trace::hb(*done, *gone))), "count", l->text + " is written " + num(n) + " times");
   }
   for (auto* x : tr.with(LOGGED))
      for (auto* y : tr.with(LOGGING)) {
         if (!mc::Trace::hb(*x, *y) || !at.count(x->text) || !at.count(y->text)) continue;
         auto &a = at[x->text], &b = at[y->text];
         REQUIRE(a.first != b.first || a.second < b.second, "order", x->text + " after " + y->text + " in " + a.first);
         for (auto* r : tr.with(RESULT)) {  // never back to a file that was left
            if (!r->b) continue;
            REQUIRE(!(b.first != r->text && a.first == r->text && tr.count(RESULT) == 1), "order", y->text + " in " + b.first + ", but the earlier " + x->text + " in " + a.first);
         }
      }
   for (auto* r : tr.with(RESULT)) {
      if (!r->b) continue;
      for (auto* y : tr.with(LOGGING)) {
         bool last = true;
         for (auto* s : tr.with(RESULT)) if (s->b && s->a != r->a && !mc::Trace::hb(*s, *find_ev(tr, STEP, r->a, 1))) last = false;
         if (last && mc::Trace::hb(*r, *y) && at.count(y->text)) REQUIRE(at[y->text].first == r->text, "wrong-file", y->text + " logged after the change to " + r->text + " is in " + at[y->text].first);
      }
   }
   int down = 0;
   for (auto& f : files) {
      for (size_t p = 0; (p = f.second.find("g3log g3FileSink shutdown at: ", p)) != std::string::npos; p++) down++;
      // the header comes before the first entry of the first file
      for (auto& x : at) if (f.first.find("log.id.") == 0 && x.second.first == f.first) REQUIRE(f.second.find("\t\tg3log created log at: ") < x.second.second, "header", "entry before the header in " + f.first);
   }
   REQUIRE(down == 1, "shutdown", num(down) + " shutdown lines");
   return "";
}
static const int kInterval[] = {1, 2, 100};
MC_SCENARIO(file_change, "C13", mc::SCRATCH, "q=pb1:9000,db2:30000 t=pb2:300000,db3:300000 shards=3") {
   FWorld w(kInterval[mc::choose(3)]);
   bool good = mc::choose(2) == 0;
   mc::begin();
   std::thread t([] { logm(1, 0); logm(1, 1); logm(1, 2); });
   logm(0, 0);
   change(*w.h, 0, good);
   logm(0, 1);
   t.join();
   mc::stop();
   w.w.reset();
}
MC_ORACLE(file_change) { return judge(tr); }
MC_SCENARIO(file_two_changes, "C13 C25", mc::SCRATCH, "q=db2:30000 t=pb2:300000,db3:300000 shards=3") {
   FWorld w(kInterval[mc::choose(3)]);
   FH mine(*w.h);
   int second = mc::choose(4);
   mc::begin();
   std::thread t([&] {
      logm(1, 0);
      if (second < 2) change(mine, 1, second == 0);
      else if (second == 2) mc::event(VALUE, 0, 0, base(mine.call(&g3::FileSink::fileName).get()));
      else mine.call(&g3::FileSink::overrideLogDetails, &custom).get();
      logm(1, 1);
   });
   change(*w.h, 0, true);
   logm(0, 0);
   t.join();
   logm(0, 1);
   mc::event(VALUE, 0, 0, base(w.h->call(&g3::FileSink::fileName).get()));
   mc::stop();
   w.w.reset();
}
MC_ORACLE(file_two_changes) { return judge(tr); }
// the sink is removed, or the worker destroyed, while entries are still buffered and on their way
MC_SCENARIO(file_removed, "C13 C04 C07", mc::SCRATCH, "q=pb1:9000,db2:30000 t=pb2:300000,db3:300000 shards=3") {
   FWorld w(kInterval[mc::choose(3)]);
   int how = mc::choose(3);
   mc::begin();
   logm(0, 0);
   if (how < 2) {
      std::thread t([] { logm(1, 0); logm(1, 1); });
      logm(0, 1);
      mc::event(MARK, how);
      if (how == 0) w.w->removeSink(std::move(w.h));
      else w.w->removeAllSinks();
      std::string all;
      t.join();
   } else {
      std::thread t([&] { try { w.h->call(&g3::FileSink::fileName).get(); } catch (const std::exception&) {} });
      logm(0, 1);
      mc::event(MARK, how);
      w.w.reset();
      t.join();
   }
   mc::stop();
   w.w.reset();
}
MC_ORACLE(file_removed) { return judge(tr); }
