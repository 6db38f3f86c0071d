// C04 add / remove take effect exactly at the call
#include "common.h"
using Handle = std::unique_ptr<g3::SinkHandle<RecSink>>;
static Handle add(g3::LogWorker* w, int id) {
   auto h = w->addSink(std::make_unique<RecSink>(id), &RecSink::receive);
   mc::event(STEP, 1, id);  // added
   return h;
}
static void removing(int id) { mc::event(STEP, 2, id); }
static void removed(int id) { mc::event(STEP, 3, id); }
static void remove_(g3::LogWorker* w, Handle h, int id) {
   removing(id);
   w->removeSink(std::move(h));
   removed(id);
}
// the general judgement from the recorded history. `nsinks` sinks with ids 0.. (each added at most once)
static std::string judge(const mc::Trace& tr, int nsinks) {
   for (int s = 0; s < nsinks; s++) {
      auto* added = find_ev(tr, STEP, 1, s);
      auto* begin = find_ev(tr, STEP, 2, s);
      auto* end = find_ev(tr, STEP, 3, s);
      auto* dtor = find_ev(tr, DTOR, s, 0);
      auto r = received(tr, s);
      if (!added) { REQUIRE(r.empty(), "ghost", "sink never added"); continue; }
      for (auto* y : tr.with(LOGGING)) {
         auto* done = find_ev(tr, LOGGED, y->a, y->b);
         int n = count_of(r, y->text);
         REQUIRE(n <= 1, "count", "sink " + num(s) + " got " + y->text + " twice");
         bool after_add = mc::Trace::hb(*added, *y);
         bool before_remove = !begin || (done && mc::Trace::hb(*done, *begin));
         bool after_remove = end && mc::Trace::hb(*end, *y);
         if (after_add && before_remove) REQUIRE(n == 1, "missed", "sink " + num(s) + " did not get " + y->text + ": " + joined(r));
         if (after_remove) REQUIRE(n == 0, "removed", "sink " + num(s) + " got " + y->text + " although it was removed");
      }
      for (auto& m : r) REQUIRE(find_text(tr, LOGGING, m), "invented", m);
      REQUIRE(dtor && tr.count(DTOR, s) == 1, "dtor", "sink " + num(s) + " destroyed " + num(tr.count(DTOR, s)) + " times");
      for (auto* e : tr.with(RECV)) if (e->a == s) {
         REQUIRE(pos(tr, e) < pos(tr, dtor), "late", "sink called after its destructor");
         if (end) REQUIRE(mc::Trace::hb(*e, *end), "late", "delivery to sink " + num(s) + " not finished when removal returned");
      }
      if (end) REQUIRE(mc::Trace::hb(*dtor, *end), "alive", "sink " + num(s) + " not destroyed when removal returned");
   }
   std::vector<int> all;
   for (int i = 0; i < nsinks; i++) all.push_back(i);
   return in_order(tr, all);
}

// concurrent logging while a sink is added / removed
MC_SCENARIO(sinks_add_concurrent, "C04", 0, "q=pb1:9000,db2:30000 t=dpor:1500000,pb3:600000,db3:300000") {
   World w(1);
   mc::event(STEP, 1, 0);
   mc::begin();
   std::thread t([] { logm(1, 0); });
   auto h = add(w.worker.get(), 1);
   logm(0, 0);
   t.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(sinks_add_concurrent) { return judge(tr, 2); }

MC_SCENARIO(sinks_remove_concurrent, "C04", 0, "q=pb1:9000,db2:30000 t=dpor:1500000,pb3:600000,db3:300000") {
   World w(1);
   mc::event(STEP, 1, 0);
   logm(0, 8);
   mc::begin();
   std::thread t([] { logm(1, 0); });
   logm(0, 0);
   remove_(w.worker.get(), std::move(w.sinks[0]), 0);
   logm(0, 1);
   t.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(sinks_remove_concurrent) { return judge(tr, 1); }

MC_SCENARIO(sinks_remove_one_of_two, "C04", 0, "q=pb1:9000 t=pb2:300000,pb3:600000") {
   World w(2);
   mc::event(STEP, 1, 0);
   mc::event(STEP, 1, 1);
   int which = mc::choose(2);
   mc::begin();
   std::thread t([] { logm(1, 0); logm(1, 1); });
   remove_(w.worker.get(), std::move(w.sinks[which]), which);
   logm(0, 1);
   t.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(sinks_remove_one_of_two) { return judge(tr, 2); }

MC_SCENARIO(sinks_remove_all_concurrent, "C04", 0, "q=pb1:9000 t=pb2:300000,pb3:600000") {
   World w(2);
   mc::event(STEP, 1, 0);
   mc::event(STEP, 1, 1);
   mc::begin();
   std::thread t([] { logm(1, 0); });
   logm(0, 0);
   removing(0); removing(1);
   w.worker->removeAllSinks();
   removed(0); removed(1);
   t.join();
   auto h = add(w.worker.get(), 2);
   logm(0, 1);
   mc::stop();
   w.destroy();
}
MC_ORACLE(sinks_remove_all_concurrent) { return judge(tr, 3); }

// two threads administrate sinks at the same time; every kind of pair
static void admin(int op, World& w, Handle own, int own_id, int new_id) {
   switch (op) {
   case 0: { auto h = add(w.worker.get(), new_id); break; }
   case 1: remove_(w.worker.get(), std::move(own), own_id); break;
   case 2: mc::event(MARK, 5); w.worker->removeAllSinks(); mc::event(MARK, 6); break;
   case 3: { auto h = add(w.worker.get(), new_id); logm(new_id, 0); remove_(w.worker.get(), std::move(h), new_id); logm(new_id, 1); break; }
   }
}
#define PAIR(NAME, OPTS, A, B)                                                        \
   MC_SCENARIO(NAME, "C04", 0, OPTS) {                                                \
      int ns = (A == 1 || B != 0) ? 1 + (A == 1 && B != 2) : 0;                       \
      if (A == 2) ns = 2;                                                             \
      World w(ns);                                                                    \
      for (int s = 0; s < ns; s++) mc::event(STEP, 1, s);                             \
      w.sinks.resize(2);                                                              \
      if (A != 1 && B == 1) std::swap(w.sinks[0], w.sinks[1]);                        \
      mc::begin();                                                                    \
      std::thread t([&] { admin(B, w, std::move(w.sinks[1]), A != 1 ? 0 : 1, 3); });  \
      admin(A, w, std::move(w.sinks[0]), 0, 2);                                       \
      t.join();                                                                       \
      mc::stop();                                                                     \
      logm(0, 9);                                                                     \
      w.destroy();                                                                    \
   }                                                                                  \
   MC_ORACLE(NAME) { return judge_pair(tr); }
// with a removeAll about, only exactly-once, lateness and order can be required
static std::string judge_pair(const mc::Trace& tr) {
   if (!find_ev(tr, MARK, 5, 0)) return judge(tr, 4);
   for (int s = 0; s < 4; s++) {
      if (!find_ev(tr, STEP, 1, s)) continue;
      REQUIRE(tr.count(DTOR, s) == 1, "dtor", "sink " + num(s));
      auto r = received(tr, s);
      for (auto* y : tr.with(LOGGING)) REQUIRE(count_of(r, y->text) <= 1, "count", y->text);
      auto* all0 = find_ev(tr, MARK, 5, 0);
      auto* all1 = find_ev(tr, MARK, 6, 0);
      auto* added = find_ev(tr, STEP, 1, s);
      if (mc::Trace::hb(*added, *all0)) {
         auto* d = find_ev(tr, DTOR, s, 0);
         REQUIRE(mc::Trace::hb(*d, *all1), "alive", "sink " + num(s) + " alive after removeAllSinks");
         for (auto* e : tr.with(RECV)) if (e->a == s) REQUIRE(mc::Trace::hb(*e, *all1), "late", "delivery after removeAllSinks");
      }
      if (mc::Trace::hb(*all1, *added) && !find_ev(tr, STEP, 2, s))
         for (auto* y : tr.with(LOGGING)) if (mc::Trace::hb(*added, *y)) REQUIRE(count_of(r, y->text) == 1, "missed", y->text);
   }
   return "";
}
PAIR(sinks_pair_add_add, "q=pb1:9000 t=pb2:300000,pb3:300000", 0, 0)
PAIR(sinks_pair_add_rem, "q=pb1:9000 t=pb2:300000,pb3:300000", 0, 1)
PAIR(sinks_pair_rem_rem, "q=pb1:9000 t=pb2:300000,pb3:300000", 1, 1)
PAIR(sinks_pair_add_all, "q=pb1:9000 t=pb2:300000,pb3:300000", 0, 2)
PAIR(sinks_pair_rem_all, "q=pb1:9000 t=pb2:300000,pb3:300000", 1, 2)
PAIR(sinks_pair_all_all, "q=pb1:9000 t=pb2:300000,pb3:300000", 2, 2)
PAIR(sinks_pair_cycle_rem, "q=db2:30000 t=pb2:300000,db3:300000", 3, 1)

// every sequence of operations up to a depth on one schedule (plus one preemption when thorough): exact model
static void sequence(int depth, bool schedules) {
   World w(0);
   std::vector<std::pair<int, Handle>> live;
   int next = 0;
   if (schedules) mc::begin();
   for (int i = 0; i < depth; i++) {
      int op = mc::choose(6);
      switch (op) {
      case 0: live.emplace_back(next, add(w.worker.get(), next)); next++; break;
      case 1: if (live.empty()) break; remove_(w.worker.get(), std::move(live.front().second), live.front().first); live.erase(live.begin()); break;
      case 2: if (live.empty()) break; remove_(w.worker.get(), std::move(live.back().second), live.back().first); live.pop_back(); break;
      case 3:
         for (auto& l : live) removing(l.first);
         w.worker->removeAllSinks();
         for (auto& l : live) removed(l.first);
         live.clear();
         break;
      case 4: logm(0, i); break;
      case 5: if (live.size() < 2) break; { auto m = live.begin() + live.size() / 2; remove_(w.worker.get(), std::move(m->second), m->first); live.erase(m); } break;
      }
   }
   mc::event(VALUE, next);
   w.destroy();
}
MC_SCENARIO(sinks_seq3, "C04", 0, "q=pb0:5000 t=pb1:60000 shards=6") { sequence(3, true); }
MC_ORACLE(sinks_seq3) { return judge(tr, tr.first(VALUE)->a); }
MC_SCENARIO(sinks_seq5, "C04", 0, "q=pb0:40000 t=pb0:40000 shards=6") { sequence(5, false); }
MC_ORACLE(sinks_seq5) { return judge(tr, tr.first(VALUE)->a); }
MC_SCENARIO(sinks_seq7, "C04", 0, "q=none t=pb0:300000 shards=6") { sequence(7, false); }
MC_ORACLE(sinks_seq7) { return judge(tr, tr.first(VALUE)->a); }

// removing through handles that were already used up, an empty handle, handles that are kept after removeAll
MC_SCENARIO(sinks_stale_handle, "C04", 0, "q=pb1:4000 t=pb2:200000") {
   World w(2);
   mc::event(STEP, 1, 0);
   mc::event(STEP, 1, 1);
   int k = mc::choose(3);
   mc::begin();
   logm(0, 0);
   if (k == 0) { w.worker->removeSink(Handle{}); }
   if (k == 1) {
      removing(0); removing(1); w.worker->removeAllSinks(); removed(0); removed(1);
      w.worker->removeSink(std::move(w.sinks[0]));
   }
   if (k == 2) {
      Handle copy = std::make_unique<g3::SinkHandle<RecSink>>(*w.sinks[1]);
      remove_(w.worker.get(), std::move(w.sinks[1]), 1);
      w.worker->removeSink(std::move(copy));
   }
   logm(0, 1);
   w.destroy();
}
MC_ORACLE(sinks_stale_handle) { return judge(tr, 2); }
