#pragma once
#include "mc.h"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/loglevels.hpp>
#include <g3log/filesink.hpp>
#include <g3log/crashhandler.hpp>
#include <atomic>
#include <csignal>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

// event codes
enum { RECV = 1,    // a=sink, text=message text
       DTOR = 2,    // a=sink
       LOGGING = 3, // a=thread slot, b=k: before the statement
       LOGGED = 4,  // after the statement
       ENTER = 5, LEAVE = 6,  // code of a sink running
       CALLED = 7, RESULT = 8, STEP = 9, MARK = 10, VALUE = 11, TOSTR = 12, HOOK = 13, STAMP = 14 };

struct RecSink {
   int id;
   explicit RecSink(int i) : id(i) {}
   ~RecSink() { mc::event(DTOR, id); }
   void receive(g3::LogMessageMover m) { mc::event(RECV, id, 0, m.get().message()); }
   int twice(int v) { mc::event(CALLED, id, v); return 2 * v; }
   void note(int v) { mc::event(CALLED, id, v); }
   int boom(int v) { mc::event(CALLED, id, v); throw std::runtime_error("boom"); }
};
struct StrSink {
   int id;
   explicit StrSink(int i) : id(i) {}
   ~StrSink() { mc::event(DTOR, id); }
   void receive(std::string s) { mc::event(RECV, id, 1, s); }
};

struct World {
   std::unique_ptr<g3::LogWorker> worker;
   std::vector<std::unique_ptr<g3::SinkHandle<RecSink>>> sinks;
   explicit World(int nsinks, bool init = true) : worker(g3::LogWorker::createLogWorker()) {
      for (int i = 0; i < nsinks; i++) sinks.push_back(worker->addSink(std::make_unique<RecSink>(i), &RecSink::receive));
      if (init) g3::initializeLogging(worker.get());
   }
   void destroy() { worker.reset(); mc::event(MARK, 99); }
};

inline std::string num(long v) { return std::to_string(v); }
inline std::string fail(const std::string& sig, const std::string& what) { return sig + ": " + what; }
#define REQUIRE(cond, sig, what) do { if (!(cond)) return fail(sig, std::string(what)); } while (0)

// sequence of texts received by one sink
inline std::vector<std::string> received(const mc::Trace& tr, int sink) {
   std::vector<std::string> r;
   for (auto* e : tr.with(RECV)) if (e->a == sink) r.push_back(e->text);
   return r;
}
inline std::string joined(const std::vector<std::string>& v) {
   std::string s;
   for (auto& x : v) s += (s.empty() ? "" : ",") + x;
   return "[" + s + "]";
}
inline int count_of(const std::vector<std::string>& v, const std::string& s) {
   int n = 0;
   for (auto& x : v) n += x == s;
   return n;
}
inline int index_of(const std::vector<std::string>& v, const std::string& s) {
   for (size_t i = 0; i < v.size(); i++) if (v[i] == s) return i;
   return -1;
}

// one ordinary log statement of thread slot `t`, number `k`; its text is "t<t>m<k>"
inline std::string mname(int t, int k) { return "t" + num(t) + "m" + num(k); }
inline void logm(int t, int k) {
   mc::event(LOGGING, t, k, mname(t, k));
   LOG(INFO) << "t" << t << "m" << k;
   mc::event(LOGGED, t, k, mname(t, k));
}
inline const mc::Ev* find_ev(const mc::Trace& tr, int code, long a, long b) {
   for (auto& e : tr.ev) if (e.code == code && e.a == a && e.b == b) return &e;
   return nullptr;
}
inline const mc::Ev* find_text(const mc::Trace& tr, int code, const std::string& text) {
   for (auto& e : tr.ev) if (e.code == code && e.text == text) return &e;
   return nullptr;
}
inline long pos(const mc::Trace& tr, const mc::Ev* e) { return e ? e - &tr.ev[0] : -1; }
// every message of a LOGGED statement is in each of the sinks exactly once and there is nothing else
inline std::string exactly_once(const mc::Trace& tr, const std::vector<int>& sinks) {
   for (int s : sinks) {
      auto r = received(tr, s);
      std::map<std::string, int> n;
      for (auto& m : r) n[m]++;
      for (auto* e : tr.with(LOGGED))
         REQUIRE(n[e->text] == 1, "count", "sink " + num(s) + " got " + num(n[e->text]) + " copies of " + e->text + ": " + joined(r));
      REQUIRE((int)r.size() == tr.count(LOGGED), "invented", "sink " + num(s) + " got " + joined(r));
   }
   return "";
}
// statement x finished before statement y began (through the program's own synchronisation) => x delivered first,
// and every two sinks agree on the order of what they both received
inline std::string in_order(const mc::Trace& tr, const std::vector<int>& sinks) {
   std::vector<std::map<std::string, int>> at(sinks.size());
   for (size_t i = 0; i < sinks.size(); i++) {
      auto r = received(tr, sinks[i]);
      for (size_t k = 0; k < r.size(); k++) at[i].emplace(r[k], (int)k);
   }
   auto done = tr.with(LOGGED), start = tr.with(LOGGING);
   for (auto* x : done)
      for (auto* y : start) {
         if (!mc::Trace::hb(*x, *y) || x->text == y->text) continue;
         for (size_t i = 0; i < sinks.size(); i++) {
            auto a = at[i].find(x->text), b = at[i].find(y->text);
            REQUIRE(a == at[i].end() || b == at[i].end() || a->second < b->second, "order", "sink " + num(sinks[i]) + ": " + y->text + " before " + x->text + ": " + joined(received(tr, sinks[i])));
         }
      }
   for (size_t s = 0; s < sinks.size(); s++)
      for (size_t q = s + 1; q < sinks.size(); q++) {
         int last = -1;
         for (auto& m : received(tr, sinks[s])) {
            auto f = at[q].find(m);
            if (f == at[q].end()) continue;
            REQUIRE(f->second > last, "order", "sinks disagree: " + joined(received(tr, sinks[s])) + " " + joined(received(tr, sinks[q])));
            last = f->second;
         }
      }
   return "";
}
