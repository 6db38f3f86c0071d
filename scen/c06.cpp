// C06 handle calls run exactly once or report that the sink is gone
#include "common.h"
struct CallSink {
   int id;
   std::thread::id own{};
   bool first = true;
   explicit CallSink(int i) : id(i) {}
   ~CallSink() { mc::event(DTOR, id); }
   void receive(g3::LogMessageMover m) { mc::event(RECV, id, 0, m.get().message()); here(); }
   void here() {
      if (first) { own = std::this_thread::get_id(); first = false; }
      else if (own != std::this_thread::get_id()) mc::event(MARK, 77, id);
   }
   long twice(long v) { here(); mc::event(CALLED, id, v); return 2 * v; }
   void note(long v) { here(); mc::event(CALLED, id, v); }
   long boom(long v) { here(); mc::event(CALLED, id, v); throw std::runtime_error("boom" + num(v)); }
   void boomv(long v) { here(); mc::event(CALLED, id, v); throw 42; }
   std::string text(std::string a, const char* b, long v) { here(); mc::event(CALLED, id, v); return a + b; }
   std::unique_ptr<int> owner(long v) { here(); mc::event(CALLED, id, v); return std::make_unique<int>((int)v); }
   long peek(long v) const { return v; }
};
using H = g3::SinkHandle<CallSink>;
// RESULT a=v b: 1 value right, 2 its own exception, 3 reported as gone, 0 anything else
template <class F> static void settle(long v, F f) {
   int r = 0;
   try { r = f(); } catch (const std::runtime_error& e) { r = e.what() == "boom" + num(v) ? 2 : 3; } catch (int e) { r = e == 42 ? 2 : 0; } catch (const std::exception&) { r = 3; } catch (...) { r = 0; }
   mc::event(RESULT, v, r);
}
static void one(H& h, long v, int kind) {
   mc::event(STEP, v, kind);
   switch (kind) {
   case 0: { auto f = h.call(&CallSink::twice, v); mc::event(VALUE, v, f.valid()); settle(v, [&] { return f.get() == 2 * v ? 1 : 0; }); break; }
   case 1: { auto f = h.call(&CallSink::note, v); mc::event(VALUE, v, f.valid()); settle(v, [&] { f.get(); return 1; }); break; }
   case 2: { auto f = h.call(&CallSink::boom, v); mc::event(VALUE, v, f.valid()); settle(v, [&] { f.get(); return 0; }); break; }
   case 3: { auto f = h.call(&CallSink::boomv, v); mc::event(VALUE, v, f.valid()); settle(v, [&] { f.get(); return 0; }); break; }
   case 4: {
      std::string big(40, 'x');
      char* mem = new char[4]{'a', 'b', 'c', 0};
      auto f = h.call(&CallSink::text, big, std::string(mem).c_str() ? "lit" : "", v);
      big.assign(40, 'y');
      mem[0] = '!';
      delete[] mem;
      mc::event(VALUE, v, f.valid());
      settle(v, [&] { return f.get() == std::string(40, 'x') + "lit" ? 1 : 0; });
      break;
   }
   case 5: { auto f = h.call(&CallSink::owner, v); mc::event(VALUE, v, f.valid()); settle(v, [&] { auto p = f.get(); return p && *p == v ? 1 : 0; }); break; }
   case 6: { h.call(&CallSink::note, v); mc::event(VALUE, v, 1); mc::event(RESULT, v, 9); break; }  // future dropped
   }
}
// `gone`: event after which calls must be rejected; `from`..: calls ordered before must run
static std::string judge(const mc::Trace& tr, const mc::Ev* gone_begin, const mc::Ev* gone_end) {
   REQUIRE(!find_ev(tr, MARK, 77, 0), "thread", "not on the sink's own thread");
   for (auto* s : tr.with(STEP)) {
      long v = s->a;
      int ran = 0;
      for (auto* c : tr.with(CALLED)) ran += c->b == v;
      auto* r = (const mc::Ev*)nullptr;
      for (auto* x : tr.with(RESULT)) if (x->a == v) r = x;
      REQUIRE(r, "lost-future", "call " + num(v) + " has no result");
      bool throws = s->b == 2 || s->b == 3;
      REQUIRE(ran <= 1, "twice", "call " + num(v) + " ran " + num(ran) + " times");
      if (r->b == 9) continue;
      REQUIRE(ran ? r->b == (throws ? 2 : 1) : r->b == 3, "result", "call " + num(v) + " ran " + num(ran) + " times, result " + num(r->b));
      for (auto* x : tr.with(VALUE)) if (x->a == v) {
         if (!gone_begin || mc::Trace::hb(*x, *gone_begin)) REQUIRE(ran == 1, "rejected", "call " + num(v) + " on an attached sink did not run");
      }
      if (gone_end && mc::Trace::hb(*gone_end, *s)) REQUIRE(ran == 0, "zombie", "call " + num(v) + " ran although the sink was gone");
   }
   REQUIRE(tr.count(DTOR) == 1, "dtor", "sink not destroyed once");
   return "";
}

MC_SCENARIO(call_remove_race, "C06", 0, "q=pb1:9000 t=dpor:1500000,pb2:300000,pb3:600000") {
   World w(0);
   auto h = w.worker->addSink(std::make_unique<CallSink>(0), &CallSink::receive);
   auto mine = std::make_unique<H>(*h);
   int kind = mc::choose(3);
   mc::begin();
   std::thread a([&] { one(*mine, 1, kind); });
   mc::event(MARK, 1);
   w.worker->removeSink(std::move(h));
   mc::event(MARK, 2);
   a.join();
   one(*mine, 2, kind);
   mc::stop();
   w.destroy();
   one(*mine, 3, kind);
}
MC_ORACLE(call_remove_race) { return judge(tr, find_ev(tr, MARK, 1, 0), find_ev(tr, MARK, 2, 0)); }

MC_SCENARIO(call_destroy_race, "C06", 0, "q=pb1:9000 t=pb2:400000,pb3:600000") {
   World w(0);
   auto h = w.worker->addSink(std::make_unique<CallSink>(0), &CallSink::receive);
   int kind = mc::choose(3);
   mc::begin();
   std::thread a([&] { one(*h, 1, kind); one(*h, 4, 1); });
   mc::event(MARK, 1);
   w.destroy();
   mc::event(MARK, 2);
   a.join();
   one(*h, 2, kind);
}
MC_ORACLE(call_destroy_race) { return judge(tr, find_ev(tr, MARK, 1, 0), find_ev(tr, MARK, 2, 0)); }

MC_SCENARIO(call_removeall_race, "C06", 0, "q=pb1:9000 t=pb2:400000,pb3:600000") {
   World w(0);
   auto h = w.worker->addSink(std::make_unique<CallSink>(0), &CallSink::receive);
   mc::begin();
   std::thread a([&] { one(*h, 1, 0); });
   one(*h, 5, 6);
   mc::event(MARK, 1);
   w.worker->removeAllSinks();
   mc::event(MARK, 2);
   a.join();
   one(*h, 2, 1);
   mc::stop();
   w.destroy();
}
MC_ORACLE(call_removeall_race) { return judge(tr, find_ev(tr, MARK, 1, 0), find_ev(tr, MARK, 2, 0)); }

MC_SCENARIO(call_two_threads, "C06", 0, "q=pb2:9000 t=dpor:1000000,pb3:600000") {
   World w(0);
   auto h = w.worker->addSink(std::make_unique<CallSink>(0), &CallSink::receive);
   mc::begin();
   std::thread a([&] { one(*h, 1, 0); });
   one(*h, 2, 2);
   a.join();
   mc::stop();
   w.destroy();
}
MC_ORACLE(call_two_threads) { return judge(tr, nullptr, nullptr); }

MC_SCENARIO(call_with_log, "C06", 0, "q=pb1:9000 t=pb2:400000,pb3:600000") {
   World w(1);
   auto h = w.worker->addSink(std::make_unique<CallSink>(5), &CallSink::receive);
   int kind = mc::choose(7);
   mc::begin();
   logm(0, 0);
   one(*h, 1, kind);
   logm(0, 1);
   mc::stop();
   w.destroy();
   one(*h, 2, kind == 6 ? 0 : kind);
}
MC_ORACLE(call_with_log) {
   auto e = exactly_once(tr, {0, 5});
   if (!e.empty()) return e;
   REQUIRE(tr.count(DTOR, 5) == 1, "dtor", "");
   for (auto* s : tr.with(STEP)) {
      int ran = 0;
      long res = -1;
      for (auto* c : tr.with(CALLED)) ran += c->b == s->a;
      for (auto* r : tr.with(RESULT)) if (r->a == s->a) res = r->b;
      if (s->a == 1) REQUIRE(ran == 1 && (res == 9 || res == (s->b == 2 || s->b == 3 ? 2 : 1)), "result", "kind " + num(s->b) + " result " + num(res));
      else REQUIRE(ran == 0 && res == 3, "zombie", "kind " + num(s->b) + " result " + num(res));
   }
   return "";
}

// all sequences of calls of every kind, removal at any position, one schedule and all with one preemption
static void seq(int depth, bool sched) {
   World w(0);
   auto h = w.worker->addSink(std::make_unique<CallSink>(0), &CallSink::receive);
   auto mine = std::make_unique<H>(*h);
   if (sched) mc::begin();
   bool gone = false;
   for (int i = 1; i <= depth; i++) {
      int op = mc::choose(10);
      if (op < 7) one(*mine, i, op);
      else if (!gone) {
         gone = true;
         mc::event(MARK, 1);
         if (op == 7) w.worker->removeSink(std::move(h));
         if (op == 8) w.worker->removeAllSinks();
         if (op == 9) w.destroy();
         mc::event(MARK, 2);
      }
   }
   mc::stop();
   if (w.worker) w.destroy();
}
MC_SCENARIO(call_seq2, "C06", 0, "q=pb1:6000 t=pb2:200000 shards=10") { seq(2, true); }
MC_ORACLE(call_seq2) { return judge(tr, find_ev(tr, MARK, 1, 0), find_ev(tr, MARK, 2, 0)); }
MC_SCENARIO(call_seq4, "C06", 0, "q=pb0:2000 t=pb0:2000 shards=10") { seq(4, false); }
MC_ORACLE(call_seq4) { return judge(tr, find_ev(tr, MARK, 1, 0), find_ev(tr, MARK, 2, 0)); }
