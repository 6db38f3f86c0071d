// C03 logging never waits for a sink; a blocked sink delays no other sink
#include "common.h"

// receives like RecSink, but the k-th receive call of sink `blocked` waits for the gate
struct Gate {
   std::promise<void> p;
   std::shared_future<void> f{p.get_future().share()};
};
struct BlockSink {
   int id, n = 0, block_at, want;
   std::shared_future<void> gate;
   std::promise<void>* got_all;
   BlockSink(int id, int block_at, std::shared_future<void> g, int want, std::promise<void>* got) :
       id(id), block_at(block_at), want(want), gate(std::move(g)), got_all(got) {}
   ~BlockSink() { mc::event(DTOR, id); }
   void receive(g3::LogMessageMover m) {
      if (n == block_at) { mc::event(ENTER, id); gate.wait(); mc::event(LEAVE, id); }
      mc::event(RECV, id, 0, m.get().message());
      if (++n == want && got_all) got_all->set_value();
   }
   int poke(int v) { mc::event(CALLED, id, v); return v; }
};
using Handle = std::unique_ptr<g3::SinkHandle<BlockSink>>;

// NT threads log NM messages each while sink `blocked` is stuck in its `at`-th receive call; the gate opens only
// after all log statements have returned and all the other sinks have received everything
static void run(int NT, int NM, int NS, int blocked, int at, int pre, bool td) {
   Gate gate;
   std::vector<std::promise<void>> got(NS);
   auto w = g3::LogWorker::createLogWorker();
   std::vector<Handle> h;
   for (int s = 0; s < NS; s++)
      h.push_back(w->addSink(std::make_unique<BlockSink>(s, s == blocked ? at : -1, gate.f, NT * NM + pre, s == blocked ? nullptr : &got[s]), &BlockSink::receive));
   g3::initializeLogging(w.get());
   for (int k = 0; k < pre; k++) logm(9, k);
   mc::event(VALUE, blocked, NT * NM + pre);
   mc::begin();
   std::vector<std::thread> th;
   for (int t = 1; t < NT; t++) th.emplace_back([=] { for (int k = 0; k < NM; k++) logm(t, k); });
   for (int k = 0; k < NM; k++) logm(0, k);
   for (auto& t : th) t.join();
   auto f = h[blocked]->call(&BlockSink::poke, 7);  // must not wait either
   for (int s = 0; s < NS; s++) if (s != blocked) got[s].get_future().wait();
   mc::event(MARK, 1);
   if (!td) mc::stop();
   gate.p.set_value();
   w.reset();
   mc::event(RESULT, f.get());
}
static std::vector<int> upto(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); return v; }
static std::string judge(const mc::Trace& tr, int NS) {
   auto e = exactly_once(tr, upto(NS));
   if (e.empty()) e = in_order(tr, upto(NS));
   if (!e.empty()) return e;
   REQUIRE(tr.first(RESULT) && tr.first(RESULT)->a == 7 && tr.count(CALLED) == 1, "call", "handle call on the blocked sink");
   return "";
}
#define CASE(NAME, OPTS, NT, NM, NS, B, AT, PRE, TD)                        \
   MC_SCENARIO(NAME, "C03", 0, OPTS) { run(NT, NM, NS, B, AT, PRE, TD); }   \
   MC_ORACLE(NAME) { return judge(tr, NS); }
CASE(nowait_t1m1s1, "q=dpor:8000 t=dpor", 1, 1, 1, 0, 0, 0, false)
CASE(nowait_t1m2s1, "q=dpor:8000,pb2:8000 t=dpor", 1, 2, 1, 0, 0, 0, false)
CASE(nowait_t1m1s2, "q=dpor:8000,pb2:8000 t=dpor", 1, 1, 2, 0, 0, 0, false)
CASE(nowait_t1m1s2b, "q=pb1:6000,db2:30000 t=dpor:1500000,pb3:600000", 1, 1, 2, 1, 0, 0, true)
CASE(nowait_t1m2s2, "q=pb1:8000 t=dpor:1000000,pb3:600000", 1, 2, 2, 0, 0, 0, true)
CASE(nowait_t1m2s2_second, "q=pb1:8000 t=pb2:300000,pb3:600000", 1, 2, 2, 0, 1, 0, true)
CASE(nowait_t2m1s2, "q=pb1:8000 t=pb2:300000,pb3:600000", 2, 1, 2, 0, 0, 0, false)
CASE(nowait_t2m2s2, "q=pb1:8000 t=pb2:300000,pb3:600000", 2, 2, 2, 1, 0, 0, false)
CASE(nowait_t1m1s3, "q=pb1:8000 t=pb2:300000,pb3:600000", 1, 1, 3, 1, 0, 0, false)
// a long backlog behind the blocked sink
MC_SCENARIO(nowait_backlog, "C03", 0, "q=pb0:4000 t=pb1:20000") { run(1, 1, 2, mc::choose(2), mc::choose(2), 700, false); }
MC_ORACLE(nowait_backlog) { return judge(tr, 2); }
// a very long one: no queue on the way may be bounded
struct CountSink {
   int id, want;
   long n = 0, bad = 0;
   std::shared_future<void> gate;
   std::promise<void>* got;
   CountSink(int id, int want, std::shared_future<void> g, std::promise<void>* got) : id(id), want(want), gate(std::move(g)), got(got) {}
   ~CountSink() { mc::event(VALUE, id, n); mc::event(MARK, 60 + id, bad); }
   void receive(g3::LogMessageMover m) {
      if (gate.valid()) gate.wait();
      if (m.get().message() != num(n)) bad++;
      if (++n == want) got->set_value();
   }
};
MC_SCENARIO(nowait_long_backlog, "C03", 0, "q=pb0:4 t=pb0:20") {
   const int N = 9000;
   Gate gate;
   std::promise<void> got, late;
   auto w = g3::LogWorker::createLogWorker();
   w->addSink(std::make_unique<CountSink>(0, N, gate.f, &late), &CountSink::receive);
   w->addSink(std::make_unique<CountSink>(1, N, std::shared_future<void>(), &got), &CountSink::receive);
   g3::initializeLogging(w.get());
   for (int k = 0; k < N; k++) LOG(INFO) << k;
   got.get_future().wait();
   mc::event(RESULT, N);
   gate.p.set_value();
   w.reset();
}
MC_ORACLE(nowait_long_backlog) {
   for (int s : {0, 1}) REQUIRE(find_ev(tr, VALUE, s, tr.first(RESULT)->a) && find_ev(tr, MARK, 60 + s, 0), "backlog", "sink " + num(s) + " did not get every message in order");
   return "";
}
MC_SCENARIO(nowait_grid, "C03", 0, "q=pb0:6000 t=pb1:60000") {
   int ns = 1 + mc::choose(3), b = mc::choose(ns), at = mc::choose(3), pre = mc::choose(3);
   if (at >= pre + 2) at = 0;
   mc::event(MARK, 50, ns);
   run(1, 2, ns, b, at, pre, true);
}
MC_ORACLE(nowait_grid) { return judge(tr, tr.first(MARK)->b); }

// a sink that waits inside a function called through its handle
struct SlowCall {
   std::shared_future<void> gate;
   std::promise<void>* entered;
   void receive(g3::LogMessageMover m) { mc::event(RECV, 1, 0, m.get().message()); }
   void slow() { entered->set_value(); gate.wait(); }
};
MC_SCENARIO(nowait_handle, "C03", 0, "q=pb1:8000 t=dpor:500000,pb3:300000") {
   Gate gate;
   std::promise<void> entered, got;
   auto w = g3::LogWorker::createLogWorker();
   auto h = w->addSink(std::make_unique<SlowCall>(SlowCall{gate.f, &entered}), &SlowCall::receive);
   auto o = w->addSink(std::make_unique<BlockSink>(0, -1, gate.f, 2, &got), &BlockSink::receive);
   g3::initializeLogging(w.get());
   mc::begin();
   auto f = h->call(&SlowCall::slow);
   if (mc::choose(2)) entered.get_future().wait();
   logm(0, 0);
   logm(0, 1);
   got.get_future().wait();
   mc::stop();
   gate.p.set_value();
   f.get();
   w.reset();
}
MC_ORACLE(nowait_handle) { return exactly_once(tr, {0, 1}); }
