// C12 signal dispositions are taken, overridden and given back faithfully
#include "lib.h"
using seq::choose;
static void plain1(int s) { char b[] = "<app1>"; (void)!write(2, b, 6); (void)s; }
static void info2(int s, siginfo_t*, void*) { char b[] = "<app2>"; (void)!write(2, b, 6); (void)s; }
struct Disp {
   enum K { DFL, IGN, APP1, APP2, LOGGER } k = DFL;
   int flags = 0, mask = 0;  // of an application handler
   bool operator==(const Disp& o) const { return k == o.k && (k == LOGGER || (flags == o.flags && mask == o.mask)); }
   std::string str() const {
      static const char* n[] = {"default", "ignore", "app1", "app2", "logger"};
      return n[k] + (k == APP1 || k == APP2 ? "/" + std::to_string(flags) + "/" + std::to_string(mask) : std::string());
   }
};
static const int kFlags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK | SA_RESTART | (int)SA_RESETHAND | SA_NOCLDSTOP | SA_NOCLDWAIT;
static Disp disposition(int sig) {
   struct sigaction a;
   memset(&a, 0, sizeof a);
   sigaction(sig, nullptr, &a);
   Disp d;
   if (a.sa_flags & SA_SIGINFO) d.k = a.sa_sigaction == info2 ? Disp::APP2 : Disp::LOGGER;
   else d.k = a.sa_handler == SIG_DFL ? Disp::DFL : a.sa_handler == SIG_IGN ? Disp::IGN : a.sa_handler == plain1 ? Disp::APP1 : Disp::LOGGER;
   if (d.k == Disp::APP1 || d.k == Disp::APP2) {
      d.flags = a.sa_flags & kFlags;
      for (int s = 1; s < 32; s++) if (sigismember(&a.sa_mask, s)) d.mask |= 1 << s;
   }
   return d;
}
static void app_sets(int sig, const Disp& d) {
   struct sigaction a;
   memset(&a, 0, sizeof a);
   sigemptyset(&a.sa_mask);
   for (int s = 1; s < 32; s++) if (d.mask & (1 << s)) sigaddset(&a.sa_mask, s);
   a.sa_flags = d.flags;
   if (d.k == Disp::APP2) a.sa_sigaction = info2;
   else a.sa_handler = d.k == Disp::APP1 ? plain1 : d.k == Disp::IGN ? SIG_IGN : SIG_DFL;
   if (sigaction(sig, &a, nullptr)) { perror("sigaction"); _exit(97); }
}
using Set = std::map<int, std::string>;
static const Set kDefault = {{SIGABRT, "SIGABRT"}, {SIGFPE, "SIGFPE"}, {SIGILL, "SIGILL"}, {SIGSEGV, "SIGSEGV"}, {SIGTERM, "SIGTERM"}};
static const Set kNoTerm = {{SIGABRT, "SIGABRT"}, {SIGFPE, "SIGFPE"}, {SIGILL, "SIGILL"}, {SIGSEGV, "SIGSEGV"}};
static const Set kUsr = {{SIGUSR1, "SIGUSR1"}, {SIGABRT, "SIGABRT"}, {SIGKILL, "SIGKILL"}};
struct Model {
   std::map<int, Disp> now, before;  // before: what was there when the logger took the signal
   Set set = kDefault;
   bool taken_once = false, worker = false;
   void take() {
      for (auto& s : set) {
         if (s.first == SIGKILL) continue;
         if (now[s.first].k != Disp::LOGGER) before[s.first] = now[s.first];
         now[s.first] = Disp{Disp::LOGGER};
      }
   }
   void give_back(int s) {
      auto i = before.find(s);
      if (i == before.end()) return;
      now[s] = i->second;
      before.erase(i);
   }
   void override_(const Set& n) {
      for (auto& s : set) give_back(s.first);
      set = n;
      take();
   }
   void init() {
      worker = true;
      if (!taken_once) take();
      taken_once = true;
   }
   std::string str() const {
      std::string r = worker ? "w" : "-";
      for (auto& d : now) if (!(d.second == Disp{})) r += " " + std::to_string(d.first) + "=" + d.second.str();
      r += " |";
      for (auto& d : before) r += " " + std::to_string(d.first) + "=" + d.second.str();
      return r;
   }
};
static std::string trail;
static void compare(Model& m) {
   for (int s = 1; s < 32; s++) {
      if (s == SIGKILL || s == SIGSTOP) continue;
      Disp have = disposition(s), want = m.now[s];
      EXPECT(have == want, "disposition", "signal " + std::to_string(s) + " has disposition " + have.str() + " instead of " + want.str() + " after: " + trail);
   }
   seq::state(m.str());
   seq::step();
}
static auto& worker = *new std::unique_ptr<g3::LogWorker>;  // as if owned by main(): not destroyed by exit()
static std::vector<Kept> got;
struct EchoSink {
   void receive(g3::LogMessageMover m) {
      std::string t = "{" + m.get().message().substr(0, 60) + "}";
      (void)!write(2, t.data(), t.size());
   }
};
static void operations(Model& m, int depth) {
   static const char* names[] = {"initialise", "destroy-worker", "installCrashHandler", "override(default without TERM)", "override(USR1,ABRT,KILL)", "override()", "restoreFatalHandlingToDefault",
                                 "restore(TERM)", "restore(ABRT)", "restore(USR1)", "app:TERM=app1", "app:ABRT=default", "app:USR1=app2", "override(default)", "app:ABRT=ignore"};
   for (int i = 0; i < depth; i++) {
      // only the operations that are possible and make a difference as calls; 0 = stop
      std::vector<int> ops;
      for (int o = 0; o < 15; o++) if ((o != 0 || !m.worker) && (o != 1 || m.worker)) ops.push_back(o);
      int k = choose((int)ops.size() + 1);
      if (k == 0) break;
      int o = ops[k - 1];
      trail += std::string(i ? ", " : "") + names[o];
      switch (o) {
      case 0:
         worker = g3::LogWorker::createLogWorker();
         worker->addSink(std::make_unique<EchoSink>(), &EchoSink::receive);
         g3::initializeLogging(worker.get());
         m.init();
         break;
      case 1: worker.reset(); m.worker = false; break;
      case 2: g3::installCrashHandler(); m.take(); break;
      case 3: g3::overrideSetupSignals(kNoTerm); m.override_(kNoTerm); break;
      case 4: g3::overrideSetupSignals(kUsr); m.override_(kUsr); break;
      case 5: g3::overrideSetupSignals({}); m.override_({}); break;
      case 6: g3::internal::restoreFatalHandlingToDefault(); m.override_(kDefault); break;
      case 7: g3::restoreSignalHandler(SIGTERM); m.give_back(SIGTERM); break;
      case 8: g3::restoreSignalHandler(SIGABRT); m.give_back(SIGABRT); break;
      case 9: g3::restoreSignalHandler(SIGUSR1); m.give_back(SIGUSR1); break;
      case 10: case 11: case 12: case 14: {
         int s = o == 10 ? SIGTERM : o == 12 ? SIGUSR1 : SIGABRT;
         Disp d;
         if (o == 10) d = Disp{Disp::APP1, SA_RESTART, 1 << SIGINT};
         if (o == 12) d = Disp{Disp::APP2, SA_SIGINFO | SA_NODEFER, 0};
         if (o == 14) d = Disp{Disp::IGN};
         app_sets(s, d);
         m.now[s] = d;
         break;
      }
      case 13: g3::overrideSetupSignals(kDefault); m.override_(kDefault); break;
      }
      compare(m);
   }
}
static Model start(int pre) {
   Model m;
   trail.clear();
   for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP) app_sets(s, Disp{});
   auto set = [&](int s, Disp d) { app_sets(s, d); m.now[s] = d; trail += "app:" + std::to_string(s) + "=" + d.str() + " "; };
   if (pre == 1) {
      set(SIGTERM, Disp{Disp::APP2, SA_SIGINFO | SA_RESTART, 1 << SIGUSR1});
      set(SIGABRT, Disp{Disp::APP1, 0, 0});
      set(SIGUSR1, Disp{Disp::IGN});
   }
   if (pre == 2) {
      set(SIGTERM, Disp{Disp::IGN});
      set(SIGUSR1, Disp{Disp::APP1, SA_NODEFER, 1 << SIGTERM});
      set(SIGFPE, Disp{Disp::APP2, SA_SIGINFO | SA_ONSTACK, 1 << SIGINT | 1 << SIGHUP});
   }
   compare(m);
   return m;
}
SEQ(dispositions, "C12", seq::ISOLATED, 60000, 2000000) {
   Model m = start(choose(3));
   operations(m, seq::thorough() ? 5 : 4);
}
// how the process ends after a fatal event: everything in a child, the model's prediction in shared memory
struct Prediction {
   Disp d;
   bool worker;
   char trail[1000];
};
SEQ(endings, "C12", 0, 200000, 5000000) {
   static Prediction* p = (Prediction*)mmap(nullptr, sizeof(Prediction), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   static const int sigs[] = {SIGABRT, SIGABRT, SIGTERM, SIGUSR1, SIGSEGV, SIGFPE, SIGILL};
   int how = choose(7), pre = choose(3), s = sigs[how];
   memset((void*)p, 0, sizeof *p);
   seq::End r = seq::sub([&] {
      Model m = start(pre);
      operations(m, seq::thorough() ? 4 : 3);
      if (how && m.now[s].k != Disp::LOGGER) _exit(78);  // not the logger's business
      Model e = m;
      for (auto& x : e.set) e.give_back(x.first);
      p->d = e.now[s];
      p->worker = m.worker;
      snprintf(p->trail, sizeof p->trail, "%s", trail.c_str());
      if (how == 0) LOG(FATAL) << "the end";
      else raise(s);
      (void)!write(2, "<AFTER>", 7);
      _exit(77);
   }, 30);
   seq::step();
   if (!r.signaled && r.value == 78) return;
   std::string what = (how == 0 ? std::string("LOG(FATAL)") : "signal " + std::to_string(s)) + " after: " + p->trail;
   EXPECT(!r.hang, "end:hang", "the process did not end; " + what);
   int app1 = 0, app2 = 0;
   for (size_t q = 0; (q = r.err.find("<app1>", q)) != std::string::npos; q++) app1++;
   for (size_t q = 0; (q = r.err.find("<app2>", q)) != std::string::npos; q++) app2++;
   Disp d = p->d;
   EXPECT(app1 == (d.k == Disp::APP1) && app2 == (d.k == Disp::APP2), "end:handler", "the handler of the application ran " + std::to_string(app1 + app2) + " times, disposition " + d.str() + "; " + what);
   std::string how_ended = r.signaled ? "signal " + std::to_string(r.value) : "exit " + std::to_string(r.value);
   if (d.k == Disp::DFL) EXPECT(r.signaled && r.value == s, "end:signal", "ended by " + how_ended + " instead of signal " + std::to_string(s) + "; " + what + "; output " + seq::show(r.err, 600));
   // the disposition that was given back does not end the process: it exits, other threads may get going before that
   else EXPECT(r.signaled || r.value != 0, "end:exit", "ended by " + how_ended + "; " + what + "; output " + seq::show(r.err, 600));
   if (p->worker) EXPECT(r.err.find(how == 0 ? "{the end" : "{Received fatal signal: ") != std::string::npos, "end:message", "the sink did not get the fatal message; " + what + "; output " + seq::show(r.err, 600));
   seq::note(what + " -> " + how_ended);
}
SEQ_MAIN
