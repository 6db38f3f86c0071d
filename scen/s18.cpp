// C18 run-time log levels behave like a map from level to status
#include "lib.h"
namespace only = g3::only_change_at_initialization;
namespace ll = g3::log_levels;
static const LEVELS MID{INFO.value + 1, {"MID"}}, HIGH{FATAL.value + 1, {"HIGH"}}, ODD{42, {"ODD"}}, NEG{-5, {"NEG"}}, TOP{3000, {"TOP"}};
static const LEVELS* const kLevels[] = {&G3LOG_DEBUG, &INFO, &MID, &WARNING, &FATAL, &HIGH, &ODD, &NEG, &TOP};
static constexpr int kN = 9;
struct Model {
   std::map<int, std::pair<bool, std::string>> m;
   Model() { reset(); }
   void reset() { m.clear(); for (auto* l : {&G3LOG_DEBUG, &INFO, &WARNING, &FATAL}) m[l->value] = {true, l->text}; }
   void add(const LEVELS& l, bool e) { m[l.value] = {e, l.text}; }
   void set(const LEVELS& l, bool e) { auto i = m.find(l.value); if (i != m.end()) i->second.first = e; }
   void highest(const LEVELS& l) { if (m.count(l.value)) for (auto& x : m) x.second.first = x.first >= l.value; }
   void all(bool e) { for (auto& x : m) x.second.first = e; }
   std::string str() const { std::string s; for (auto& x : m) s += x.second.second + "(" + std::to_string(x.first) + ")=" + (x.second.first ? "on " : "off "); return s; }
};
static std::string trace;
static void compare(const Model& M) {
   for (int round = 0; round < 2; round++) {  // the second round sees what the queries of the first one did
      for (auto* l : kLevels) {
         auto i = M.m.find(l->value);
         auto st = ll::getStatus(*l);
         auto want = i == M.m.end() ? ll::status::Absent : i->second.first ? ll::status::Enabled : ll::status::Disabled;
         EXPECT(st == want, "status", "after" + trace + ": status of " + l->text + " is " + std::to_string((int)st) + ", expected " + M.str());
         EXPECT(g3::logLevel(*l) == (want == ll::status::Enabled), "loggable", "after" + trace + ": logLevel(" + l->text + "), expected " + M.str());
      }
      auto all = ll::getAll();
      std::string got, text;
      for (auto& x : all) {
         got += x.second.level.text + "(" + std::to_string(x.first) + ")=" + (x.second.status.value() ? "on " : "off ");
         EXPECT(x.first == x.second.level.value, "listing", "after" + trace + ": key " + std::to_string(x.first) + " has level " + std::to_string(x.second.level.value));
      }
      EXPECT(got == M.str(), "listing", "after" + trace + ": listing " + got + ", expected " + M.str());
      for (auto& x : M.m) text += "name: " + x.second.second + " level: " + std::to_string(x.first) + " status: " + (x.second.first ? "1" : "0") + "\n";
      EXPECT(ll::to_string() == text && ll::to_string(all) == text, "listing", "after" + trace + ": to_string " + ll::to_string());
   }
}
static int alphabet() { return 5 * kN + 3; }
static void apply(Model& M, int op) {
   auto& l = *kLevels[op % kN];
   switch (op / kN) {
   case 0: trace += " add(" + l.text + ")"; only::addLogLevel(l); M.add(l, true); break;
   case 1: trace += " add(" + l.text + ",off)"; only::addLogLevel(l, false); M.add(l, false); break;
   case 2: trace += " enable(" + l.text + ")"; ll::enable(l); M.set(l, true); break;
   case 3: trace += " disable(" + l.text + ")"; ll::disable(l); M.set(l, false); break;
   case 4: trace += " setHighest(" + l.text + ")"; ll::setHighest(l); M.highest(l); break;
   default:
      if (op % kN == 0) { trace += " enableAll"; ll::enableAll(); M.all(true); }
      else if (op % kN == 1) { trace += " disableAll"; ll::disableAll(); M.all(false); }
      else { trace += " reset"; only::reset(); M.reset(); }
   }
   seq::step();
   seq::state(M.str());
}
static void run(int depth) {
   Model M;
   only::reset();
   trace.clear();
   for (int i = 0; i < depth; i++) {
      apply(M, seq::choose(alphabet()));
      compare(M);
   }
   seq::note(trace + " -> " + M.str());
}
SEQ(levels_depth3, "C18", 0, 200000, 0) { if (!seq::thorough()) run(3); }
SEQ(levels_depth4, "C18", 0, 0, 10000000) { if (seq::thorough()) run(4); }
// longer histories over a smaller alphabet
SEQ(levels_depth6, "C18", 0, 300000, 5000000) {
   static const int small[] = {2, 9 + 5, 18 + 2, 27 + 0, 27 + 2, 36 + 3, 36 + 2, 45, 46, 47, 36 + 6};
   Model M;
   only::reset();
   trace.clear();
   int d = seq::thorough() ? 6 : 5;
   for (int i = 0; i < d; i++) apply(M, small[seq::choose(11)]);
   compare(M);
   seq::note(trace + " -> " + M.str());
}
// same value, other name: one level
SEQ(levels_alias, "C18", 0, 1000, 1000) {
   static const LEVELS A{INFO.value, {"ALIAS"}};
   only::reset();
   trace.clear();
   int k = seq::choose(4);
   if (k == 0) ll::disable(A);
   if (k == 1) ll::set(A, false);
   if (k == 2) { ll::disable(INFO); ll::enable(A); }
   if (k == 3) ll::setHighest(A);
   seq::step();
   seq::state(k);
   bool on = k == 2 || k == 3;
   EXPECT(g3::logLevel(INFO) == on && g3::logLevel(A) == on, "alias", std::to_string(k));
   EXPECT(ll::getAll().size() == 4, "listing", std::to_string(ll::getAll().size()));
   EXPECT(g3::logLevel(G3LOG_DEBUG) == (k != 3) && g3::logLevel(WARNING), "alias", "other levels");
   only::reset();
}
// the log macros obey the map
static int ev;
static int once() { return ++ev; }
SEQ(levels_macros, "C18 C20", 0, 100000, 1000000) {
   Model M;
   only::reset();
   trace.clear();
   int d = seq::thorough() ? 2 : 1;
   for (int i = 0; i < d; i++) apply(M, seq::choose(alphabet()));
   static std::vector<std::string> fatals;
   fatals.clear();
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { fatals.push_back(m.get()->level()); });
   Logger l;
   std::vector<std::string> want, wantf;
   int evals = 0;
   for (auto* x : kLevels) {
      auto i = M.m.find(x->value);
      bool on = i != M.m.end() && i->second.first;
      for (int k = 0; k < 5; k++) {
         ev = 0;
         bool cond = true;
         if (k == 0) LOG(*x) << "s" << once();
         if (k == 1) LOGF(*x, "f%d", once());
         if (k == 2) LOG_IF(*x, once() == 1) << "i" << once();
         if (k == 3) LOGF_IF(*x, once() == 1, "j%d", once());
         if (k == 4) { LOG_IF(*x, once() == 2) << once(); cond = false; }
         int n = !on ? 0 : k == 2 || k == 3 ? 2 : 1;
         EXPECT(ev == n, "operands", "after" + trace + ": " + std::to_string(ev) + " operands evaluated for " + x->text + " (statement " + std::to_string(k) + ", " + M.str() + ")");
         if (on && cond) (x->value >= FATAL.value ? wantf : want).push_back(x->value >= FATAL.value ? x->text : x->text + "|" + "sfij"[k] + std::to_string(n));
         evals += n;
      }
   }
   CHECK(evals < 0) << "contract";  // contracts do not depend on the levels
   wantf.push_back("CONTRACT");
   auto& g = l.finish();
   std::vector<std::string> got;
   for (auto& k : g) got.push_back(k.level + "|" + k.text);
   EXPECT(got == want, "logged", "after" + trace + ": " + std::to_string(got.size()) + " messages instead of " + std::to_string(want.size()) + " with " + M.str());
   EXPECT(fatals == wantf, "fatal", "after" + trace + ": " + std::to_string(fatals.size()) + " fatal events instead of " + std::to_string(wantf.size()) + " with " + M.str());
   for (auto* x : kLevels) EXPECT(g3::internal::wasFatal(*x) == (x->value >= 1000), "wasfatal", x->text);
   EXPECT(g3::internal::wasFatal(g3::internal::CONTRACT) && g3::internal::wasFatal(g3::internal::FATAL_SIGNAL) && g3::internal::wasFatal(g3::internal::FATAL_EXCEPTION), "wasfatal", "");
   compare(M);
}
SEQ_MAIN
