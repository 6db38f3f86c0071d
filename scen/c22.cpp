// C22 the message queue is a linearizable blocking FIFO
#include "common.h"
#include <deque>
#include <g3log/shared_queue.hpp>
// STEP a=op id, b=kind (invocation); RESULT a=op id, b=value (response)
enum Op { PUSH, TRY, WAIT, EMPTY, SIZE, NOPS };
struct Item {  // says when it is used after its end, or handed out twice
   std::unique_ptr<int> v;
   Item() = default;
   explicit Item(int x) : v(new int(x)) {}
};
template <class Q> static void exec(Q& q, int id, int kind) {
   mc::event(STEP, id, kind);
   long r = -1;
   switch (kind) {
   case PUSH: q.push(Item(id)); r = id; break;
   case TRY: { Item i; r = q.try_and_pop(i) ? (i.v ? *i.v : -3) : (i.v ? -2 : -1); break; }
   case WAIT: { Item i; q.wait_and_pop(i); r = i.v ? *i.v : -3; break; }
   case EMPTY: r = q.empty(); break;
   case SIZE: r = q.size(); break;
   }
   mc::event(RESULT, id, r);
}
struct Call { int kind; long res; size_t b, e; };
static bool linear(const std::vector<Call>& c, unsigned done, std::deque<long>& q, std::set<std::pair<unsigned, std::deque<long>>>& seen) {
   if (done + 1 == 1u << c.size()) return true;
   if (!seen.insert({done, q}).second) return false;
   for (size_t i = 0; i < c.size(); i++) {
      if (done >> i & 1) continue;
      bool min = true;
      for (size_t j = 0; j < c.size(); j++) if (!(done >> j & 1) && j != i && c[j].e < c[i].b) min = false;
      if (!min) continue;
      auto save = q;
      bool ok = true;
      switch (c[i].kind) {
      case PUSH: q.push_back(c[i].res); break;
      case TRY: if (c[i].res == -1) ok = q.empty(); else { ok = !q.empty() && q.front() == c[i].res; if (ok) q.pop_front(); } break;
      case WAIT: ok = !q.empty() && q.front() == c[i].res; if (ok) q.pop_front(); break;
      case EMPTY: ok = c[i].res == (long)q.empty(); break;
      case SIZE: ok = c[i].res == (long)q.size(); break;
      }
      if (ok && linear(c, done | 1u << i, q, seen)) return true;
      q = save;
   }
   return false;
}
static std::string judge(const mc::Trace& tr) {
   std::vector<Call> c;
   std::string text;
   for (auto* s : tr.with(STEP)) {
      const mc::Ev* r = nullptr;
      for (auto* x : tr.with(RESULT)) if (x->a == s->a) r = x;
      REQUIRE(r, "pending", "operation " + num(s->a) + " did not return");
      c.push_back({(int)s->b, r->b, (size_t)pos(tr, s), (size_t)pos(tr, r)});
      static const char* n[] = {"push", "try", "wait", "empty", "size"};
      text += std::string(n[s->b]) + "->" + num(r->b) + "@" + num(c.back().b) + ".." + num(c.back().e) + " ";
   }
   std::map<long, int> popped;
   for (auto& x : c) if ((x.kind == WAIT || x.kind == TRY) && x.res >= 0) REQUIRE(++popped[x.res] == 1, "twice", text);
   for (auto& x : c) REQUIRE(x.res >= -1, "moved", "an element without its value, or a failed pop with a side effect: " + text);
   std::deque<long> q;
   std::set<std::pair<unsigned, std::deque<long>>> seen;
   REQUIRE(linear(c, 0, q, seen), "linear", "not linearizable: " + text);
   return "";
}
using Q = shared_queue<Item>;
MC_SCENARIO(queue_mpsc, "C22", 0, "q=dpor:8000,pb2:8000 t=dpor:1000000,pb4:1000000") {
   Q q;
   mc::begin();
   std::thread a([&] { exec(q, 1, PUSH); exec(q, 2, PUSH); });
   std::thread b([&] { exec(q, 3, PUSH); exec(q, 4, SIZE); });
   for (int i = 5; i < 8; i++) exec(q, i, WAIT);
   a.join();
   b.join();
   exec(q, 8, EMPTY);
}
MC_ORACLE(queue_mpsc) { return judge(tr); }
MC_SCENARIO(queue_spmc, "C22", 0, "q=dpor:8000,pb2:8000 t=dpor:1000000,pb4:1000000") {
   Q q;
   mc::begin();
   std::thread a([&] { exec(q, 1, WAIT); exec(q, 2, WAIT); });
   std::thread b([&] { exec(q, 3, WAIT); });
   for (int i = 5; i < 8; i++) exec(q, i, PUSH);
   a.join();
   b.join();
   exec(q, 8, TRY);
}
MC_ORACLE(queue_spmc) { return judge(tr); }
// several waiting consumers, several producers: nobody stays behind
MC_SCENARIO(queue_mpmc, "C22", 0, "q=dpor:8000,pb2:9000 t=dpor:1000000,pb3:1000000") {
   Q q;
   mc::begin();
   std::thread a([&] { exec(q, 1, WAIT); });
   std::thread b([&] { exec(q, 2, WAIT); });
   std::thread c([&] { exec(q, 3, PUSH); });
   exec(q, 4, PUSH);
   a.join();
   b.join();
   c.join();
   exec(q, 8, SIZE);
}
MC_ORACLE(queue_mpmc) { return judge(tr); }
MC_SCENARIO(queue_three_waiting, "C22", 0, "q=pb1:9000 t=pb2:400000,pb3:1000000") {
   Q q;
   mc::begin();
   std::thread a([&] { exec(q, 1, WAIT); });
   std::thread b([&] { exec(q, 2, WAIT); });
   std::thread c([&] { exec(q, 3, WAIT); });
   for (int i = 4; i < 7; i++) exec(q, i, PUSH);
   a.join();
   b.join();
   c.join();
   exec(q, 8, EMPTY);
}
MC_ORACLE(queue_three_waiting) { return judge(tr); }
// spurious wake-ups
MC_SCENARIO(queue_spurious, "C22", 0, "q=pb1:9000 t=pb2:400000,pb3:1000000") {
   Q q;
   mc::allow_spurious(2);
   mc::begin();
   std::thread a([&] { exec(q, 1, WAIT); });
   std::thread b([&] { exec(q, 2, WAIT); });
   exec(q, 3, PUSH);
   exec(q, 4, PUSH);
   a.join();
   b.join();
   exec(q, 5, TRY);
}
MC_ORACLE(queue_spurious) { return judge(tr); }
// every pair of operation lists of two threads; main pushes what the waiting ones still need
MC_SCENARIO(queue_pairs, "C22", 0, "q=pb2:40000 t=dpor:2000000,pb3:1000000 shards=5") {
   Q q;
   int k[4];
   for (int& x : k) x = mc::choose(NOPS);
   exec(q, 1, PUSH);
   mc::begin();
   std::thread a([&] { exec(q, 2, k[0]); exec(q, 3, k[1]); });
   std::thread b([&] { exec(q, 4, k[2]); exec(q, 5, k[3]); });
   int waits = 0;
   for (int x : k) waits += x == WAIT || x == TRY;
   for (int i = 0; i < waits; i++) exec(q, 10 + i, PUSH);
   a.join();
   b.join();
   exec(q, 6, SIZE);
   exec(q, 7, TRY);
   exec(q, 8, EMPTY);
}
MC_ORACLE(queue_pairs) { return judge(tr); }
// three threads, one operation each, from every small filling of the queue
MC_SCENARIO(queue_triples, "C22", 0, "q=pb1:40000 t=dpor:2000000,pb3:1000000 shards=5") {
   Q q;
   int k[3];
   for (int& x : k) x = mc::choose(NOPS);
   int fill = mc::choose(3);
   for (int i = 0; i < fill; i++) exec(q, 20 + i, PUSH);
   mc::begin();
   std::thread a([&] { exec(q, 1, k[0]); });
   std::thread b([&] { exec(q, 2, k[1]); });
   std::thread c([&] { exec(q, 3, k[2]); });
   for (int i = 0; i < 2; i++) exec(q, 10 + i, PUSH);
   exec(q, 12, PUSH);
   a.join();
   b.join();
   c.join();
   exec(q, 8, SIZE);
}
MC_ORACLE(queue_triples) { return judge(tr); }
