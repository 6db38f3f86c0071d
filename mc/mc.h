// Stateless model checker for real multi-threaded C++ code: harness API.
//
// A scenario is a function run in a forked child under a controlled scheduler (one real thread runs at a
// time; scheduling points are the synchronisation operations and atomics), explored exhaustively by the
// explorer in the parent. See DESIGN.md.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <initializer_list>

namespace mc {
   constexpr int MAXT = 16;

   // ---- inside a scenario (child process)
   void begin();                        // end of set-up: let every other thread go quiescent, then explore
   void stop();                         // end of exploration: the rest runs deterministically
   void event(int code, long a = 0, long b = 0, const char* text = nullptr);
   inline void event(int code, long a, long b, const std::string& s) { event(code, a, b, s.c_str()); }
   int choose(int n);                   // nondeterministic choice in [0,n): all values are explored
   void fail(const std::string& what);  // violation now
   void unreachable(const char* what);  // violation if control gets here before the process died
   void point(int id);                  // explicit scheduling point: a write to harness object `id`
   void advance_ns(long ns);            // advance the virtual clock (only in single-threaded phases)
   void allow_spurious(int per_thread); // spurious wake-ups per thread (default 0)
   void interrupts(int signo, int victim_tid);  // signal may hit the victim at any of its points (once)
   long now_ns();                       // virtual clock
   int tid();
   const char* scratch();               // per-execution scratch directory (created on demand, emptied by the parent)
   void early_wakeups(int per_thread);  // how often a sleep / timed wait may end while others can run (default 1)
   bool replaying();

   // ---- inside an oracle (parent process)
   struct Ev {
      int tid, code;
      long a, b;
      std::string text;
      const uint32_t* vc;
   };
   enum End { DONE = 0, EXITED, SIGNALED, DEADLOCK, HANG, LIVELOCK, REALHANG, FAILED };
   struct Trace {
      End end;
      int value;  // exit code or signal number
      std::vector<Ev> ev;
      std::string err;  // captured stdout+stderr
      std::string scratch;
      // x happens-before y through the program's own synchronisation (x != y)
      static bool hb(const Ev& x, const Ev& y);
      std::vector<const Ev*> with(int code) const;
      const Ev* first(int code) const;
      int count(int code) const;
      int count(int code, long a) const;
      std::string read(const std::string& name) const;  // file in the scratch directory
      std::vector<std::string> files() const;
   };

   struct Scenario {
      const char* name;
      const char* props;  // space separated property ids that this scenario decides
      void (*run)();
      std::string (*check)(const Trace&);  // "" = fine, otherwise "signature: details"
      const char* opts;                    // "pb=2 max=..." etc, read by the driver
      int flags;
      Scenario* next;
      static Scenario*& head();
      Scenario(const char* n, const char* p, void (*r)(), std::string (*c)(const Trace&), const char* o, int fl) :
          name(n), props(p), run(r), check(c), opts(o), flags(fl), next(head()) { head() = this; }
   };
   enum Flags { CAN_DIE = 1,      // exit() / death by signal is judged by the oracle
                CAN_BLOCK = 2,    // deadlock / hang is judged by the oracle
                SCRATCH = 4 };
}  // namespace mc

#define MC_SCENARIO(NAME, PROPS, FLAGS, OPTS)                                        \
   static void mc_run_##NAME();                                                      \
   static std::string mc_check_##NAME(const mc::Trace& tr);                          \
   static mc::Scenario mc_reg_##NAME(#NAME, PROPS, mc_run_##NAME, mc_check_##NAME, OPTS, FLAGS); \
   static void mc_run_##NAME()
#define MC_ORACLE(NAME) static std::string mc_check_##NAME(const mc::Trace& tr)
