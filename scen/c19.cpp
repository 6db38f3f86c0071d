// C19 levels can be switched while other threads log (run-time levels)
#include "common.h"
namespace ll = g3::log_levels;
static const LEVELS MID{INFO.value + 1, {"MID"}}, ODD{42, {"ODD"}};
enum Op { DIS_INFO, EN_INFO, SET_MID_OFF, HIGHEST_WARN, HIGHEST_DEBUG, DIS_ALL, EN_ALL, NOPS };
static void op(int o) {
   switch (o) {
   case DIS_INFO: ll::disable(INFO); break;
   case EN_INFO: ll::enable(INFO); break;
   case SET_MID_OFF: ll::set(MID, false); break;
   case HIGHEST_WARN: ll::setHighest(WARNING); break;
   case HIGHEST_DEBUG: ll::setHighest(G3LOG_DEBUG); break;
   case DIS_ALL: ll::disableAll(); break;
   case EN_ALL: ll::enableAll(); break;
   }
}
// effect of an operation on the level INFO (1 on, 0 off, -1 none) / on MID
static int on_info(int o) { return o == DIS_INFO || o == HIGHEST_WARN || o == DIS_ALL ? 0 : o == SET_MID_OFF ? -1 : 1; }
static int on_mid(int o) { return o == SET_MID_OFF || o == HIGHEST_WARN || o == DIS_ALL ? 0 : o == DIS_INFO || o == EN_INFO ? -1 : 1; }
static void sw(int o) { mc::event(CALLED, o); op(o); mc::event(STEP, o); }
static void logi(int t, int k) { mc::event(LOGGING, t, k, mname(t, k)); LOG(INFO) << "t" << t << "m" << k; mc::event(LOGGED, t, k, mname(t, k)); }
static void logmid(int t, int k) { mc::event(LOGGING, t, k, mname(t, k)); LOGF(MID, "t%dm%d", t, k); mc::event(LOGGED, t, k, mname(t, k)); }
// every statement sees the initial state (on) or the state of a switch that is not overwritten before it began;
// a switch ordered before the statement and not overwritten is obeyed
static std::string judge(const mc::Trace& tr, bool mid) {
   auto r = received(tr, 0);
   auto eff = [&](long o) { return mid ? on_mid((int)o) : on_info((int)o); };
   for (auto* y : tr.with(LOGGING)) {
      const mc::Ev* done = find_ev(tr, LOGGED, y->a, y->b);
      int n = count_of(r, y->text);
      REQUIRE(n <= 1, "count", y->text);
      std::set<int> may;
      auto starts = tr.with(CALLED), ends = tr.with(STEP);
      bool init = true;
      for (size_t i = 0; i < ends.size(); i++) {
         auto* s = find_ev(tr, CALLED, ends[i]->a, 0);
         (void)s;
         if (eff(ends[i]->a) >= 0 && mc::Trace::hb(*ends[i], *y)) init = false;
      }
      if (init) may.insert(1);
      for (auto* s : starts) {
         if (eff(s->a) < 0) continue;
         const mc::Ev* e = nullptr;
         for (auto* x : ends) if (x->tid == s->tid && x->a == s->a && pos(tr, x) > pos(tr, s)) { e = x; break; }
         if (done && mc::Trace::hb(*done, *s)) continue;  // later
         bool over = false;
         if (e) for (auto* s2 : starts) {
            const mc::Ev* e2 = nullptr;
            for (auto* x : ends) if (x->tid == s2->tid && x->a == s2->a && pos(tr, x) > pos(tr, s2)) { e2 = x; break; }
            if (s2 != s && eff(s2->a) >= 0 && e2 && mc::Trace::hb(*e, *s2) && mc::Trace::hb(*e2, *y)) over = true;
         }
         if (!over) may.insert(eff(s->a));
      }
      REQUIRE(may.count(n), "state", y->text + (n ? " was logged" : " was not logged") + " although no state of the level allows it");
   }
   for (auto& m : r) REQUIRE(find_text(tr, LOGGING, m), "invented", m);
   return "";
}
MC_SCENARIO(level_switch, "C19", 0, "q=pb2:12000 t=dpor:100000,pb3:100000 shards=7") {
   int a = mc::choose(NOPS);
   g3::only_change_at_initialization::addLogLevel(MID, true);
   World w(1);
   mc::begin();
   std::thread t([=] { sw(a); });
   logi(0, 0);
   logi(0, 1);
   t.join();
   logi(0, 2);
   mc::stop();
   w.destroy();
}
MC_ORACLE(level_switch) { return judge(tr, false); }
MC_SCENARIO(level_switch_mid, "C19", 0, "q=pb2:12000 t=dpor:100000,pb3:100000 shards=7") {
   int a = mc::choose(NOPS);
   g3::only_change_at_initialization::addLogLevel(MID, true);
   World w(1);
   mc::begin();
   std::thread t([=] { logmid(1, 0); logmid(1, 1); });
   sw(a);
   logmid(0, 0);
   t.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(level_switch_mid) { return judge(tr, true); }
MC_SCENARIO(level_switch_seq, "C19", 0, "q=pb1:3000 t=pb2:60000,dpor:200000 shards=7") {
   int a = mc::choose(NOPS), b = mc::choose(NOPS);
   g3::only_change_at_initialization::addLogLevel(MID, true);
   World w(1);
   mc::begin();
   std::thread t([=] { logi(1, 0); });
   sw(a);
   sw(b);
   logi(0, 0);
   t.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(level_switch_seq) { return judge(tr, false); }
MC_SCENARIO(level_two_switches, "C19", 0, "q=pb2:12000 t=dpor:100000,pb3:100000 shards=7") {
   int a = mc::choose(NOPS), b = mc::choose(NOPS);
   g3::only_change_at_initialization::addLogLevel(MID, true);
   World w(1);
   mc::begin();
   std::thread t([=] { sw(a); });
   sw(b);
   logi(0, 0);
   t.join();
   logi(0, 1);
   logmid(0, 2);
   mc::stop();
   w.destroy();
}
MC_ORACLE(level_two_switches) {
   // the message of MID is judged on its own
   mc::Trace x = tr;
   std::string r;
   auto keep = [&](bool mid) {
      x.ev.clear();
      for (auto& e : tr.ev) if (!((e.code == LOGGING || e.code == LOGGED || e.code == RECV) && (e.text == "t0m2") != mid)) x.ev.push_back(e);
      return judge(x, mid);
   };
   r = keep(false);
   return r.empty() ? keep(true) : r;
}
// queries and listings meanwhile
MC_SCENARIO(level_queries, "C19 C25", 0, "q=dpor:9000,pb3:9000 t=dpor:200000,pb4:200000 shards=7") {
   int a = mc::choose(NOPS), q = mc::choose(5);
   g3::only_change_at_initialization::addLogLevel(MID, true);
   mc::begin();
   std::thread t([=] { op(a); });
   for (int i = 0; i < 2; i++) {
      if (q == 0) mc::event(VALUE, g3::logLevel(INFO), 0);
      if (q == 1) mc::event(VALUE, ll::getStatus(INFO) == ll::status::Enabled, 1);
      if (q == 2) { auto m = ll::getAll(); mc::event(VALUE, m.at(INFO.value).status.value(), m.size() == 5 ? 2 : 99); }
      if (q == 3) { auto s = ll::to_string(); mc::event(VALUE, s.find("name: INFO level: 300 status: 1") != std::string::npos, s.find("name: MID level: 301 status: ") != std::string::npos ? 3 : 99); }
      if (q == 4) { mc::event(VALUE, ll::getStatus(ODD) == ll::status::Absent && !g3::logLevel(ODD) && ll::getAll().size() == 5 ? 1 : 0, 4); }
   }
   t.join();
   mc::event(RESULT, a, g3::logLevel(INFO));
}
MC_ORACLE(level_queries) {
   long last = 1;
   auto* r = tr.first(RESULT);
   REQUIRE(r->b == (on_info((int)r->a) < 0 ? 1 : on_info((int)r->a)), "state", "after the switch");
   for (auto* v : tr.with(VALUE)) {
      REQUIRE(v->b != 99, "listing", "");
      if (v->b == 4) { REQUIRE(v->a == 1, "absent", "unknown level"); continue; }
      REQUIRE(v->a == last || (v->a == r->b && last == 1), "state", "query went back");
      last = v->a;
   }
   return "";
}
// levels nobody registered, logged and queried by several threads
MC_SCENARIO(level_unknown, "C19 C25", 0, "q=pb2:12000 t=dpor:200000,pb3:200000") {
   World w(1);
   mc::begin();
   std::thread t([] { LOG(ODD) << "odd1"; logi(1, 0); });
   LOG(ODD) << "odd0";
   LOGF(MID, "%s", "mid");
   logi(0, 0);
   t.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(level_unknown) {
   auto r = received(tr, 0);
   REQUIRE(r.size() == 2 && count_of(r, "t0m0") == 1 && count_of(r, "t1m0") == 1, "unknown", joined(r));
   return "";
}
