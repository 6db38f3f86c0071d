// The explorer: enumerates executions of one scenario. Runs in the parent process; each execution is a forked child.
// Modes: dpor (Flanagan-Godefroid dynamic partial-order reduction with sleep sets, unbounded),
//        pb   (iterative preemption bounding with happens-before state caching),
//        db   (the same, bounding the deviations from a deterministic default schedule: delay bounding),
//        full (all interleavings, no reduction; used by the self-test).
// No C++ library containers here (see runtime.cpp) except in the oracle glue at the end, compiled in oracle.cpp.
#include "shm.h"
#include "mc.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

void mc_parent_mode();
void mc_child(mc::Scenario*);
// oracle.cpp
void mc_oracle(mc::Scenario* sc, int end, int value, const char* err, int errlen, char* out, int outlen, u64* outcome, char* outcome_text, int otlen);

namespace mcx {
   int nshards = 1;
   template <typename X> struct Vec {
      X* d = nullptr;
      size_t n = 0, cap = 0;
      X& operator[](size_t i) { return d[i]; }
      void push(const X& x) {
         if (n == cap) { cap = cap ? cap * 2 : 64; d = (X*)realloc((void*)d, cap * sizeof(X)); if (!d) { fprintf(stderr, "oom\n"); _exit(97); } }
         memcpy((void*)&d[n++], &x, sizeof(X));
      }
      void resize(size_t k) { if (k < n) n = k; }
   };
   struct HSet {  // u64 -> u32
      u64* k = nullptr; u32* v = nullptr;
      size_t cap = 0, n = 0;
      void grow() {
         size_t oc = cap; u64* ok = k; u32* ov = v;
         cap = cap ? cap * 2 : 1 << 14;
         k = (u64*)calloc(cap, 8); v = (u32*)calloc(cap, 4);
         n = 0;
         for (size_t i = 0; i < oc; i++) if (ok[i]) *at(ok[i]) = ov[i];
         free(ok); free(ov);
      }
      u32* at(u64 key, bool* fresh = nullptr) {
         if (!key) key = 1;
         if (2 * (n + 1) > cap) grow();
         size_t i = key * 0x9E3779B97F4A7C15ull >> 20;
         for (;; i++) {
            i &= cap - 1;
            if (k[i] == key) { if (fresh) *fresh = false; return &v[i]; }
            if (!k[i]) { k[i] = key; n++; if (fresh) *fresh = true; return &v[i]; }
         }
      }
      void clear() { free(k); free(v); k = nullptr; v = nullptr; cap = n = 0; }
   };
   u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

   struct Node {
      u8 kind, chosen, cur, n;
      u32 enabled, done, backtrack, sleep, live;
      int used;   // preemptions used before this node
      u64 sig;    // for divergence detection
      Op op;
      Op pend[MC_MAXT];
      bool closed;
   };
   Vec<Node> stack;

   mc::Scenario* sc;
   int memfd = -1;
   double t_start;
   double now() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
   char* errbuf;
   int errlen;
   const int ERRCAP = 1 << 20;
   char scratch_dir[256];
   double real_limit = 20;

   // statistics
   u64 n_exec, n_complete, n_sleepblocked, n_steps, n_trans, n_choices, maxsteps;
   HSet states, outcomes;
   char sample_outcome[3][1500];
   int n_samples;

   void rm_scratch() {
      if (!scratch_dir[0]) return;
      DIR* d = opendir(scratch_dir);
      if (!d) return;
      while (dirent* e = readdir(d)) {
         if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
         char p[600];
         snprintf(p, sizeof p, "%s/%s", scratch_dir, e->d_name);
         if (unlink(p) && errno == EISDIR) rmdir(p);
      }
      closedir(d);
   }

   struct Outcome { int end, value; };
   // run one execution
   // The memory of dead children can be given back late under load: pause while little is free.
   void wait_for_memory() {
      for (int k = 0; k < 60; k++) {
         char b[512];
         int fd = open("/proc/meminfo", O_RDONLY | O_CLOEXEC);
         if (fd < 0) return;
         ssize_t n = read(fd, b, sizeof b - 1);
         close(fd);
         if (n <= 0) return;
         b[n] = 0;
         const char *t = strstr(b, "MemTotal:"), *a = strstr(b, "MemAvailable:");
         if (!t || !a || atol(a + 13) * 2 > atol(t + 9)) return;
         usleep(50000);
      }
   }
   Outcome execute(double limit) {
      g_shm->verdict = V_RUNNING;
      g_shm->msg[0] = 0;
      g_shm->nsteps = 0;
      g_shm->nev = 0;
      g_shm->ntext = 0;
      g_shm->end_live = 0;
      if (sc->flags & mc::SCRATCH) rm_scratch();
      if (ftruncate(memfd, 0)) {}
      lseek(memfd, 0, SEEK_SET);
      fflush(stdout);
      if (n_exec % 64 == 63) wait_for_memory();
      pid_t p = fork();
      if (p < 0) { perror("fork"); _exit(97); }
      if (p == 0) {
         prctl(PR_SET_PDEATHSIG, SIGKILL);
         setpgid(0, 0);
         prctl(78 /* PR_FUTEX_HASH */, 1 /* SET_SLOTS */, 0, 0, 0);  // resizing a private futex hash delays freeing the memory of dead children
         dup2(memfd, 1);
         dup2(memfd, 2);
         if (sc->flags & mc::SCRATCH) if (chdir(scratch_dir)) _exit(97);
         mc_child(sc);
         _exit(94);
      }
      int st = 0;
      bool killed = false;
      int pfd = syscall(SYS_pidfd_open, p, 0);
      if (pfd >= 0) {
         pollfd pf{pfd, POLLIN, 0};
         int r;
         while ((r = poll(&pf, 1, (int)(limit * 1000))) < 0 && errno == EINTR) {}
         if (r == 0) { kill(p, SIGKILL); killed = true; }
         close(pfd);
      }
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      errlen = pread(memfd, errbuf, ERRCAP - 1, 0);
      if (errlen < 0) errlen = 0;
      errbuf[errlen] = 0;
      n_exec++;
      n_steps += g_shm->nsteps;
      if ((u64)g_shm->nsteps > maxsteps) maxsteps = g_shm->nsteps;
      Outcome o{mc::DONE, 0};
      switch (g_shm->verdict) {
      case V_RUNNING:
         if (killed) o.end = mc::REALHANG;
         else if (WIFSIGNALED(st)) { o.end = mc::SIGNALED; o.value = WTERMSIG(st); }
         else { o.end = mc::EXITED; o.value = WEXITSTATUS(st); }
         break;
      case V_DONE: o.end = mc::DONE; break;
      case V_DEADLOCK: o.end = mc::DEADLOCK; break;
      case V_HANG: o.end = mc::HANG; break;
      case V_LIVELOCK: o.end = mc::LIVELOCK; break;
      default: o.end = mc::FAILED;
      }
      return o;
   }

   u64 retries;

   // judge one execution; returns true if it is a violation (text in buf)
   char vbuf[12000];
   bool judge(Outcome o, u64* oh, char* ot, int otn) {
      vbuf[0] = 0;
      switch (g_shm->verdict) {
      case V_RACE: case V_MEMORY: case V_FAIL:
         snprintf(vbuf, sizeof vbuf, "%s", g_shm->msg);
         return true;
      case V_SLEEPSET: return false;
      case V_DEADLOCK: case V_HANG: case V_LIVELOCK:
         if (!(sc->flags & mc::CAN_BLOCK)) { snprintf(vbuf, sizeof vbuf, "%s", g_shm->msg); return true; }
         break;
      default: break;
      }
      if (o.end == mc::REALHANG) { snprintf(vbuf, sizeof vbuf, "realhang: the execution did not reach a scheduling point within the time limit"); return true; }
      if ((o.end == mc::EXITED || o.end == mc::SIGNALED) && !(sc->flags & mc::CAN_DIE)) {
         snprintf(vbuf, sizeof vbuf, "died: process %s %d; output: %.3000s", o.end == mc::EXITED ? "exited with" : "killed by signal", o.value, errbuf);
         return true;
      }
      mc_oracle(sc, o.end, o.value, errbuf, errlen, vbuf, sizeof vbuf, oh, ot, otn);
      return vbuf[0] != 0;
   }

   struct Sig { char s[120]; };
   Vec<Sig> sigs;
   void signature(const char* v, char* out) {
      int i = 0;
      while (v[i] && v[i] != ':' && i < 110) { out[i] = v[i]; i++; }
      out[i] = 0;
   }
   const char* replay_dir = "/tmp";
   const char* out_name = "";
   const char* mode_name = "dpor";
   int bound_now = -1;
   char vio_json[200000];
   int vio_len;

   void jstr(char* out, int cap, const char* s) {
      int k = 0;
      for (; *s && k < cap - 8; s++) {
         unsigned char c = *s;
         if (c == '"' || c == '\\') { out[k++] = '\\'; out[k++] = c; }
         else if (c == '\n') { out[k++] = '\\'; out[k++] = 'n'; }
         else if (c < 32 || c > 126) k += snprintf(out + k, cap - k, "\\u%04x", c);
         else out[k++] = c;
      }
      out[k] = 0;
   }

   const char* opn(int t) {
      static const char* n[] = {"none", "start", "lock", "unlock", "cond-wait", "cond-reacquire", "signal", "broadcast", "atomic-load", "atomic-store", "atomic-rmw", "futex-wait", "futex-resume", "futex-wake", "join", "once", "sleep", "yield", "point", "death", "quiesce", "rdlock", "wrlock", "trylock", "choose"};
      return t < 25 ? n[t] : "?";
   }

   bool internal_error;
   char internal_msg[4000];
   // Confirm a violation by replaying the complete schedule twice, then write the replay file.
   void report(const char* text) {
      char sg[120];
      signature(text, sg);
      for (size_t i = 0; i < sigs.n; i++) if (!strcmp(sigs[i].s, sg)) return;
      static char first[12000];
      snprintf(first, sizeof first, "%s", text);
      int n = g_shm->nsteps;
      static u8 choices[MC_MAXSTEPS];
      for (int i = 0; i < n; i++) choices[i] = g_shm->steps[i].chosen;
      u32 keep_sleep = g_shm->sleep_in;
      int keep_np = g_shm->nprefix;
      static u8 keep_prefix[MC_MAXSTEPS];
      memcpy(keep_prefix, g_shm->prefix, sizeof keep_prefix);
      for (int rep = 0; rep < 2; rep++) {
         memcpy(g_shm->prefix, choices, n);
         g_shm->nprefix = n;
         g_shm->sleep_in = 0;
         Outcome o = execute(60);
         u64 oh; char ot[16];
         bool v = judge(o, &oh, ot, sizeof ot);
         char sg2[120];
         signature(vbuf, sg2);
         if (!v || strcmp(sg, sg2)) {
            if (!strncmp(first, "realhang", 8) && !v) return;  // slow machine: not a hang
            internal_error = true;
            snprintf(internal_msg, sizeof internal_msg, "violation not reproducible: first '%.600s', then '%.600s' (verdict %d %.300s)", first, vbuf, g_shm->verdict, g_shm->msg);
            return;
         }
      }
      Sig s;
      snprintf(s.s, sizeof s.s, "%s", sg);
      sigs.push(s);
      char path[700];
      snprintf(path, sizeof path, "%s/%s-%d-%zu.replay", replay_dir, sc->name, g_shm->shard, sigs.n);
      if (FILE* f = fopen(path, "w")) {
         fprintf(f, "scenario %s\nchoices", sc->name);
         for (int i = 0; i < n; i++) fprintf(f, " %d", choices[i]);
         fprintf(f, "\n# %s\n", first);
         for (int i = 0; i < g_shm->nsteps; i++) {
            Step& st = g_shm->steps[i];
            if (st.kind) fprintf(f, "# step %d: T%d chooses %d of %d\n", i, st.cur, st.chosen, st.n);
            else fprintf(f, "# step %d: T%d %s 0x%llx%s\n", i, st.chosen, opn(st.op.type), (unsigned long long)st.op.obj, (st.chosen != st.cur && (st.enabled >> st.cur & 1)) ? "   <- preemption" : "");
         }
         for (int i = 0; i < g_shm->nev; i++)
            fprintf(f, "# event T%d code=%d a=%ld b=%ld %s\n", g_shm->ev[i].tid, g_shm->ev[i].code, (long)g_shm->ev[i].a, (long)g_shm->ev[i].b, g_shm->ev[i].text >= 0 ? g_shm->text + g_shm->ev[i].text : "");
         fclose(f);
      }
      static char esc[30000], pesc[1500];
      jstr(esc, sizeof esc, first);
      jstr(pesc, sizeof pesc, path);
      if (vio_len < (int)sizeof vio_json - 40000)
         vio_len += snprintf(vio_json + vio_len, sizeof vio_json - vio_len, "%s{\"signature\":\"%s\",\"text\":\"%s\",\"replay\":\"%s\",\"steps\":%d}", vio_len ? "," : "", sg, esc, pesc, n);
      memcpy(g_shm->prefix, keep_prefix, sizeof keep_prefix);
      g_shm->nprefix = keep_np;
      g_shm->sleep_in = keep_sleep;
   }

   // ---------------------------------------------------------------- happens-before analysis of one trace
   struct Clk { u32 c[MC_MAXT]; };
   void cj(Clk& a, const Clk& b) { for (int i = 0; i < MC_MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
   Vec<Clk> clk;          // clock of each step (own component = 1-based index among the thread's steps)
   Vec<int> idxs[MC_MAXT];
   struct Obj { u64 o; Clk w, r; };
   Vec<Obj> objs;
   HSet objix;
   u64 prefix_hash[MC_MAXSTEPS + 1];

   bool dep(const Op& a, const Op& b) {
      if (a.obj && ((a.obj == b.obj && (a.w1 || b.w1)) || (a.obj == b.obj2 && (a.w1 || b.w2)))) return true;
      if (a.obj2 && ((a.obj2 == b.obj && (a.w2 || b.w1)) || (a.obj2 == b.obj2 && (a.w2 || b.w2)))) return true;
      return false;
   }
   int obj_of(u64 o) {
      bool fresh;
      u32* v = objix.at(o, &fresh);
      if (fresh) { *v = objs.n; Obj x; memset(&x, 0, sizeof x); x.o = o; objs.push(x); }
      return *v;
   }
   // previous step of thread t before step i (or -1) is kept in last[]
   void add_backtrack(int j, int p, int upto, Clk* pc_) {
      // p should run before step j: candidates enabled at the node of j
      Node& nd = stack[j];
      if (nd.kind) return;
      if (nd.enabled >> p & 1) { nd.backtrack |= 1u << p; return; }
      // a thread whose next step after j happens before p's operation
      u32 E = 0;
      for (int k = j + 1; k < upto; k++) {
         Step& s = g_shm->steps[k];
         int q = s.kind ? s.cur : s.chosen;
         if (!(nd.enabled >> q & 1)) continue;
         // step k happens before p's pending operation?
         u32 mine = clk[k].c[q];
         if (pc_->c[q] >= mine) E |= 1u << q;
      }
      if (E) {
         if (E & (nd.backtrack | nd.done)) return;
         nd.backtrack |= E & -E;
      } else nd.backtrack |= nd.enabled;
   }
   void analyse(bool backtrack) {
      int n = g_shm->nsteps;
      clk.resize(0);
      objs.resize(0);
      objix.clear();
      static Clk T[MC_MAXT];  // clock of each thread after its last step
      memset(T, 0, sizeof T);
      static u32 cnt[MC_MAXT];
      memset(cnt, 0, sizeof cnt);
      Clk all;
      memset(&all, 0, sizeof all);
      bool started[MC_MAXT] = {};
      u64 h = 0x1234567;
      for (int i = 0; i < n; i++) {
         Step& s = g_shm->steps[i];
         prefix_hash[i] = h;
         int p = s.kind ? s.cur : s.chosen;
         Clk c = T[p];
         if (s.kind == 0) {
            if (s.dep1 >= 0) cj(c, clk[s.dep1]);
            if (s.dep2 >= 0) cj(c, clk[s.dep2]);
            if (s.dep_all) cj(c, all);
            for (int k = 0; k < 2; k++) {
               u64 o = k ? s.op.obj2 : s.op.obj;
               bool w = k ? s.op.w2 : s.op.w1;
               if (!o) continue;
               Obj& ob = objs[obj_of(o)];
               cj(c, ob.w);
               if (w) cj(c, ob.r);
            }
         }
         c.c[p] = ++cnt[p];
         if (s.kind == 0)
            for (int k = 0; k < 2; k++) {
               u64 o = k ? s.op.obj2 : s.op.obj;
               bool w = k ? s.op.w2 : s.op.w1;
               if (!o) continue;
               Obj& ob = objs[obj_of(o)];
               if (w) { ob.w = c; memset(&ob.r, 0, sizeof ob.r); } else cj(ob.r, c);
            }
         T[p] = c;
         cj(all, c);
         clk.push(c);
         u64 e = mix(p * 1000003ull + cnt[p]) ^ mix(s.op.type * 77777ull + (s.kind ? 0x100000 + s.chosen : 0));
         for (int k = 0; k < MC_MAXT; k++) e = mix(e + c.c[k] * 0x9E3779B97F4A7C15ull + k);
         h += e;
         bool fresh;
         states.at(mix(h), &fresh);
         if (fresh) n_trans++;
         started[p] = true;
      }
      prefix_hash[n] = h;
      if (!backtrack) return;
      // Flanagan-Godefroid: for each state and each thread with a pending operation, the last dependent, unordered step.
      // A pending operation changes only when its thread runs, so it is enough to look (a) when it became pending
      // and (b) at each later step of another thread that is dependent with it.
      memset(T, 0, sizeof T);
      Op pend[MC_MAXT];
      bool have[MC_MAXT] = {};
      int checked[MC_MAXT] = {};
      for (int i = 0; i <= n; i++) {
         // state before step i: pending operations
         u32 live;
         const Op* pn;
         if (i < n) {
            if (g_shm->steps[i].kind) {
               Step& s = g_shm->steps[i];
               T[s.cur] = clk[i];
               // the thread's pending op is executing; nothing becomes pending
               continue;
            }
            live = g_shm->steps[i].live;
            pn = g_shm->steps[i].pend;
         } else {
            if (g_shm->verdict == V_RUNNING) {  // process died: the last recorded pending operations
               int l = n - 1;
               while (l >= 0 && g_shm->steps[l].kind) l--;
               if (l < 0) break;
               live = g_shm->steps[l].live & ~(1u << g_shm->steps[l].chosen);
               pn = g_shm->steps[l].pend;
            } else {
               live = g_shm->end_live;
               pn = g_shm->end_pend;
            }
         }
         for (int p = 0; p < MC_MAXT; p++) {
            if (!(live >> p & 1)) { continue; }
            const Op& o = pn[p];
            bool same = have[p] && pend[p].type == o.type && pend[p].obj == o.obj && pend[p].obj2 == o.obj2;
            // (a) newly pending: all earlier steps; (b) otherwise: the steps since the last look
            int lb = same ? checked[p] + 1 : 0;
            for (int j = i - 1; j >= lb; j--) {
               Step& s = g_shm->steps[j];
               if (s.kind) continue;
               int q = s.chosen;
               if (q == p || !dep(s.op, o)) continue;
               if (T[p].c[q] >= clk[j].c[q]) continue;  // ordered
               add_backtrack(j, p, i, &T[p]);
               break;
            }
            checked[p] = i - 1;
            pend[p] = o;
            have[p] = true;
         }
         if (i < n) {
            Step& s = g_shm->steps[i];
            T[s.chosen] = clk[i];
            have[s.chosen] = false;
            // a thread created in step i starts with the creator's clock: conservative (lower) bound is its own START edge
            for (int p = 0; p < MC_MAXT; p++)
               if (!(s.live >> p & 1) && i + 1 < n && !g_shm->steps[i + 1].kind && (g_shm->steps[i + 1].live >> p & 1)) T[p] = clk[i];
         }
      }
   }

   bool divergence(int np) {
      for (int i = 0; i < np && i < (int)stack.n && i < g_shm->nsteps; i++) {
         Step& s = g_shm->steps[i];
         Node& nd = stack[i];
         if (s.kind != nd.kind || s.enabled != nd.enabled || (!s.kind && i < np - 1 && (s.op.type != nd.op.type || s.op.obj != nd.op.obj))) {
            internal_error = true;
            snprintf(internal_msg, sizeof internal_msg, "nondeterminism: step %d of %d differs on replay (enabled %x/%x op %s/%s obj %llx/%llx)", i, np, s.enabled, nd.enabled, opn(s.op.type), opn(nd.op.type), (unsigned long long)s.op.obj, (unsigned long long)nd.op.obj);
            return true;
         }
      }
      return false;
   }

   struct Limits { u64 max_exec; double max_time; int max_sigs; };

   // returns true if the space was explored completely
   // pb: a preemption of a thread that could go on; db: any deviation from the default schedule (the running thread
   // goes on while it can, then the lowest thread)
   int cost(int mode, u32 enabled, int cur, int chosen) {
      bool on = enabled >> cur & 1;
      if (mode == 3) return chosen != (on ? cur : __builtin_ctz(enabled));
      return on && chosen != cur;
   }
   bool search(int mode, int bound, Limits lim) {
      stack.resize(0);
      static HSet cache;
      cache.clear();
      int np = 0;
      u32 sleep_next = 0;
      bool complete = false;
      for (;;) {
         if (n_exec >= lim.max_exec || now() - t_start > lim.max_time) break;
         g_shm->mode = mode == 0 ? 0 : 1;
         g_shm->nprefix = np;
         for (int i = 0; i < np; i++) g_shm->prefix[i] = stack[i].chosen;
         g_shm->sleep_in = sleep_next;
         int us = g_shm->unlock_steps;
         Outcome o = execute(real_limit);
         // ended from outside (memory guard, stalled machine)? Then it is no execution of the program: once more
         for (int again = 0; again < 3 && ((o.end == mc::REALHANG && !again) || (o.end == mc::SIGNALED && o.value == SIGKILL) || (g_shm->verdict == V_RUNNING && g_shm->nsteps < np)); again++) {
            retries++;
            if (const char* f = getenv("MC_RETRYLOG")) {
               if (FILE* l = fopen(f, "a")) { fprintf(l, "%s: end %d value %d verdict %d steps %d of %d: %.300s\n", sc->name, o.end, o.value, g_shm->verdict, g_shm->nsteps, np, errbuf); fclose(l); }
            }
            usleep(20000 << again);
            o = execute(real_limit);
         }
         if (g_shm->unlock_steps != us) { stack.resize(0); np = 0; sleep_next = 0; cache.clear(); continue; }  // restart with unlock steps
         if (g_shm->verdict == V_INTERNAL || g_shm->verdict == V_DIVERGED) {
            internal_error = true;
            snprintf(internal_msg, sizeof internal_msg, "%.3000s", g_shm->msg);
            return false;
         }
         if (divergence(np)) return false;
         int n = g_shm->nsteps;
         if (n < np) {
            internal_error = true;
            snprintf(internal_msg, sizeof internal_msg, "replay ended after %d of %d steps: %.500s", n, np, g_shm->msg);
            return false;
         }
         if (np > 0 && stack.n) { stack[np - 1].op = g_shm->steps[np - 1].op; }
         // new nodes
         int used = 0;
         for (int i = 0; i < n; i++) {
            Step& s = g_shm->steps[i];
            if (i >= np) {
               Node nd;
               memset((void*)&nd, 0, sizeof nd);
               nd.kind = s.kind; nd.chosen = s.chosen; nd.cur = s.cur; nd.n = s.n;
               nd.enabled = s.enabled; nd.sleep = s.sleep; nd.live = s.live;
               nd.op = s.op;
               memcpy((void*)nd.pend, s.pend, sizeof nd.pend);
               nd.used = used;
               nd.done = 1u << (s.kind ? 0 : s.chosen);
               nd.backtrack = nd.done;
               if (s.kind) {
                  nd.done = 1u << s.chosen;
                  nd.backtrack = (s.n >= 32 ? ~0u : (1u << s.n) - 1);
                  bool first = nshards > 1;
                  for (int j = 0; j < i; j++) if (stack[j].kind) first = false;
                  if (first)
                     for (int v = 0; v < s.n; v++) if (v % nshards != g_shm->shard) nd.backtrack &= ~(1u << v) | nd.done;
               }
               stack.push(nd);
               if (s.kind) n_choices++;
            }
            if (!s.kind) used += cost(mode, s.enabled, s.cur, s.chosen);
         }
         stack.resize(n);
         analyse(mode == 0);
         bool pruned = g_shm->verdict == V_SLEEPSET;
         if (pruned) n_sleepblocked++;
         else {
            n_complete++;
            u64 oh = 0;
            static char ot[1500];
            ot[0] = 0;
            bool v = judge(o, &oh, ot, sizeof ot);
            if (v) {
               static char copy[12000];
               snprintf(copy, sizeof copy, "%s", vbuf);
               // report() runs further executions: nothing of this trace is needed afterwards except the stack
               report(copy);
               if (internal_error) return false;
               if ((int)sigs.n >= lim.max_sigs) return false;
            } else {
               bool fresh;
               outcomes.at(mix(oh + 5), &fresh);
               if (fresh && n_samples < 3) { snprintf(sample_outcome[n_samples++], 1500, "%s", ot); }
            }
         }
         if (mode == 1 || mode == 3) {
            // state caching + bound: open alternatives
            bool closed = false;
            for (int i = np; i < n; i++) {
               Node& nd = stack[i];
               if (closed) { nd.closed = true; continue; }
               int left = bound - nd.used;
               u64 key = mix(prefix_hash[i] + nd.cur * 0x51ull + nd.kind * 0x777777ull);
               bool fresh;
               u32* c = cache.at(key, &fresh);
               if (!fresh && *c >= (u32)left + 1) { closed = true; nd.closed = true; continue; }
               *c = left + 1;
               if (nd.kind == 0)
                  for (int p = 0; p < MC_MAXT; p++) {
                     if (!(nd.enabled >> p & 1) || p == nd.chosen) continue;
                     if (nd.used + cost(mode, nd.enabled, nd.cur, p) <= bound) nd.backtrack |= 1u << p;
                  }
            }
            for (int i = np; i < n; i++) if (stack[i].closed) stack[i].backtrack = stack[i].done;
         } else if (mode == 2) {
            for (int i = np; i < n; i++) if (!stack[i].kind) stack[i].backtrack |= stack[i].enabled;
         }
         // next
         bool found = false;
         while (stack.n) {
            Node& nd = stack[stack.n - 1];
            u32 cand = nd.backtrack & ~nd.done;
            if (mode == 0 && !nd.kind) cand &= ~nd.sleep;
            if (cand) {
               int c = __builtin_ctz(cand);
               if (mode == 0 && !nd.kind) {
                  u32 s = nd.sleep | nd.done, ns = 0;
                  for (int q = 0; q < MC_MAXT; q++)
                     if ((s >> q & 1) && q != c && !dep(nd.pend[q], nd.pend[c])) ns |= 1u << q;
                  sleep_next = ns;
               } else if (nd.kind) sleep_next = nd.sleep;
               nd.done |= 1u << c;
               nd.chosen = c;
               nd.op = nd.pend[c & (MC_MAXT - 1)];
               np = stack.n;
               found = true;
               break;
            }
            stack.resize(stack.n - 1);
         }
         if (!found) { complete = true; break; }
      }
      return complete;
   }
}  // namespace mcx

using namespace mcx;

static const char* arg(int argc, char** argv, const char* name, const char* def) {
   for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
   return def;
}
static bool flag(int argc, char** argv, const char* name) {
   for (int i = 1; i < argc; i++) if (!strcmp(argv[i], name)) return true;
   return false;
}

mc::Scenario*& mc::Scenario::head() {
   static mc::Scenario* h = nullptr;
   return h;
}

int main(int argc, char** argv) {
   mc_parent_mode();
   setenv("TZ", "UTC", 1);
   unsetenv("LANG");
   tzset();
   if (flag(argc, argv, "--list")) {
      for (mc::Scenario* s = mc::Scenario::head(); s; s = s->next) printf("%s|%s|%s\n", s->name, s->props, s->opts);
      return 0;
   }
   // file of choices to replay
   const char* rp = arg(argc, argv, "--replay", nullptr);
   const char* name = arg(argc, argv, "--run", nullptr);
   static char rname[200];
   static int rchoices[MC_MAXSTEPS];
   int nrch = 0;
   if (rp) {
      FILE* f = fopen(rp, "r");
      if (!f) { perror(rp); return 97; }
      if (fscanf(f, "scenario %199s choices", rname) != 1) return 97;
      while (nrch < MC_MAXSTEPS && fscanf(f, "%d", &rchoices[nrch]) == 1) nrch++;
      fclose(f);
      name = rname;
   }
   if (!name) { fprintf(stderr, "usage\n"); return 97; }
   for (mc::Scenario* s = mc::Scenario::head(); s; s = s->next) if (!strcmp(s->name, name)) sc = s;
   if (!sc) { fprintf(stderr, "no scenario %s\n", name); return 97; }
   int cpu = atoi(arg(argc, argv, "--cpu", "-1"));
   if (cpu >= 0) {
      cpu_set_t av, one;
      CPU_ZERO(&av);
      if (!sched_getaffinity(0, sizeof av, &av)) {
         int n = CPU_COUNT(&av), k = cpu % (n ? n : 1);
         for (int i = 0; i < CPU_SETSIZE; i++)
            if (CPU_ISSET(i, &av) && k-- == 0) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
      }
   }
   rlimit rl{0, 0};
   setrlimit(RLIMIT_CORE, &rl);
   signal(SIGPIPE, SIG_IGN);
   signal(SIGPIPE, SIG_DFL);
   g_shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   memfd = memfd_create("out", 0);
   errbuf = (char*)malloc(ERRCAP);
   replay_dir = arg(argc, argv, "--replay-dir", "/tmp");
   real_limit = atof(arg(argc, argv, "--real-limit", "20"));
   if (sc->flags & mc::SCRATCH) {
      snprintf(scratch_dir, sizeof scratch_dir, "%s/mcscratch.%d.XXXXXX", arg(argc, argv, "--tmp", "/tmp"), (int)getpid());
      if (!mkdtemp(scratch_dir)) { perror("mkdtemp"); return 97; }
      snprintf(g_shm->scratch, sizeof g_shm->scratch, "%s", scratch_dir);
   }
   t_start = now();
   if (rp) {
      for (int i = 0; i < nrch; i++) g_shm->prefix[i] = rchoices[i];
      g_shm->nprefix = nrch;
      g_shm->replay = 1;
      Outcome o = execute(600);
      u64 oh; static char ot[4000];
      bool v = judge(o, &oh, ot, sizeof ot);
      for (int i = 0; i < g_shm->nsteps; i++) {
         Step& st = g_shm->steps[i];
         if (st.kind) printf("step %d: T%d chooses %d of %d\n", i, st.cur, st.chosen, st.n);
         else printf("step %d: T%d %s 0x%llx\n", i, st.chosen, opn(st.op.type), (unsigned long long)st.op.obj);
      }
      for (int i = 0; i < g_shm->nev; i++) {
         printf("event T%d code=%d a=%ld b=%ld %s\n", g_shm->ev[i].tid, g_shm->ev[i].code, (long)g_shm->ev[i].a, (long)g_shm->ev[i].b, g_shm->ev[i].text >= 0 ? g_shm->text + g_shm->ev[i].text : "");
      }
      printf("output: %s\nend=%d value=%d verdict=%d %s\n%s %s\n", errbuf, o.end, o.value, g_shm->verdict, g_shm->msg, v ? "VIOLATION" : "ok", v ? vbuf : ot);
      rm_scratch();
      if (scratch_dir[0]) rmdir(scratch_dir);
      return v ? 1 : 0;
   }
   nshards = atoi(arg(argc, argv, "--nshards", "1"));
   g_shm->shard = atoi(arg(argc, argv, "--shard", "0"));
   const char* mode = arg(argc, argv, "--mode", "dpor");
   int bound = atoi(arg(argc, argv, "--bound", "2"));
   Limits lim{(u64)atoll(arg(argc, argv, "--max-exec", "100000000")), atof(arg(argc, argv, "--max-time", "1e9")), atoi(arg(argc, argv, "--max-sigs", "1"))};
   bool complete = false;
   int done_bound = -1;
   u64 at_bound[32] = {};
   if (!strcmp(mode, "dpor")) complete = search(0, 0, lim);
   else if (!strcmp(mode, "full")) complete = search(2, 0, lim);
   else {
      for (int b = 0; b <= bound && !internal_error && (int)sigs.n < lim.max_sigs; b++) {
         bound_now = b;
         if (search(!strcmp(mode, "db") ? 3 : 1, b, lim)) { done_bound = b; at_bound[b] = n_exec; }
         else break;
      }
      complete = done_bound == bound;
   }
   rm_scratch();
   if (scratch_dir[0]) rmdir(scratch_dir);
   static char esc[9000];
   printf("{\"scenario\":\"%s\",\"props\":\"%s\",\"mode\":\"%s\",\"bound\":%d,\"completed_bound\":%d,\"complete\":%s,\"executions\":%llu,\"terminal\":%llu,\"sleep_blocked\":%llu,\"steps\":%llu,\"states\":%llu,\"transitions\":%llu,\"outcomes\":%llu,\"choices\":%llu,\"max_steps\":%llu,\"retries\":%llu,\"wall_s\":%.3f,",
          sc->name, sc->props, mode, bound, done_bound, complete ? "true" : "false", (unsigned long long)n_exec, (unsigned long long)n_complete, (unsigned long long)n_sleepblocked, (unsigned long long)n_steps, (unsigned long long)states.n, (unsigned long long)n_trans, (unsigned long long)outcomes.n, (unsigned long long)n_choices, (unsigned long long)maxsteps, (unsigned long long)retries, now() - t_start);
   printf("\"samples\":[");
   for (int i = 0; i < n_samples; i++) { jstr(esc, sizeof esc, sample_outcome[i]); printf("%s\"%s\"", i ? "," : "", esc); }
   printf("],\"violations\":[%s]", vio_json);
   if (internal_error) { jstr(esc, sizeof esc, internal_msg); printf(",\"error\":\"%s\"", esc); }
   printf("}\n");
   return internal_error ? 97 : sigs.n ? 1 : 0;
}
