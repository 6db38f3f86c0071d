// The controlled runtime of one execution: scheduler, interposed synchronisation, happens-before race detection
// and allocation checking. Compiled WITHOUT instrumentation; deliberately free of C++ library templates so that
// no template instantiation is shared with the instrumented code under test.
#include "shm.h"
#include "mc.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <new>
#include <exception>

#define NOINST __attribute__((no_sanitize("thread")))
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

Shm* g_shm;

namespace {
   // ------------------------------------------------------------------ raw helpers (never interposed)
   long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
      long r;
      register long r10 __asm__("r10") = d;
      register long r8 __asm__("r8") = e;
      register long r9 __asm__("r9") = f;
      __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
      return r;
   }
   void fwait(volatile int* p, int v) { rawsys(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v); }
   void fwake(volatile int* p) { rawsys(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

   template <typename F> F real(const char* name) {
      void* p = dlsym(RTLD_NEXT, name);
      if (!p) { rawsys(SYS_write, 2, (long)"mc: dlsym failed\n", 17); _exit(97); }
      return (F)p;
   }

   // ------------------------------------------------------------------ memory layout
   const u64 ARENA = 0x200000000000ull, ARENA_PER = 64ull << 20, ARENA_N = MC_MAXT + 2;  // [0..MAXT) threads, MAXT init
   const u64 ARENA_SZ = ARENA_PER * ARENA_N;
   const u64 STK = 0x210000000000ull, STK_PER = 1ull << 20, STK_SZ = STK_PER * MC_MAXT;
   const u64 ASH = 0x220000000000ull;  // shadow of arena (1:1)
   const u64 SSH = 0x230000000000ull;  // shadow of stacks
   const u64 GSH = 0x240000000000ull;  // shadow of globals
   const u64 RECS = 0x250000000000ull, RECS_N = 32u << 20;
   extern "C" char __data_start, _end;
   u64 G0, G1;

   struct Cell { u32 list; u8 st; u8 pad[3]; };
   enum { ST_NONE = 0, ST_FREED = 0xFD };
   struct Rec { u32 next; u8 tid, mask, fl, pad; u32 clk; u32 pc; };  // fl: 1 write, 2 atomic, 4 free
   Rec* recs = (Rec*)RECS;
   u32 nrec, freerec;

   int mode;  // 0 before main (arena INIT), 1 parent (malloc), 2 child
   u64 bump[ARENA_N];
   bool mapped;

   void map_fixed(u64 a, u64 n) {
      void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (p != (void*)a) { rawsys(SYS_write, 2, (long)"mc: mmap failed\n", 16); _exit(97); }
   }
   void ensure_mapped() {
      if (mapped) return;
      mapped = true;
      map_fixed(ARENA, ARENA_SZ);
      map_fixed(STK, STK_SZ);
      map_fixed(ASH, ARENA_SZ);
      map_fixed(SSH, STK_SZ);
      G0 = (u64)&__data_start & ~7ull;
      G1 = ((u64)&_end + 7) & ~7ull;
      map_fixed(GSH, ((G1 - G0) + 8191) & ~4095ull);
      map_fixed(RECS, RECS_N * sizeof(Rec));
      nrec = 1;
   }

   // ------------------------------------------------------------------ threads
   enum TState { T_UNUSED = 0, T_LIVE, T_FINISHED };
   struct Thread {
      TState st;
      Op pend;
      volatile int go;       // baton
      u32 vc[MC_MAXT];       // happens-before clock
      u32 frel[MC_MAXT];     // release fence
      u32 facq[MC_MAXT];     // acquired by relaxed loads, for acquire fences
      bool has_frel;
      int last_step, created_by;
      int nchild;
      pthread_t pt;
      void* (*fn)(void*);
      void* arg;
      // condition variables / futex
      u64 cond, mutex;
      bool signalled, timed, timedout, fwoken;
      int sigstep;
      int spurious;
      int early;       // how often a sleep or timed wait may end although other threads can still run
      u64 wake_ns;
      bool detached;
      int pcs;
   };
   Thread T[MC_MAXT];
   __thread int my_tid = -1;
   int cur = -1;            // thread holding the baton
   int nthreads;
   bool exploring, was_exploring;
   int spurious_budget, early_budget = 1;
   u64 clock_ns = 1700000000ull * 1000000000ull;
   int quiet_rounds;
   int ndeaths;
   int intr_sig, intr_victim = -1;
   bool over;

   struct Sync {
      u64 addr;
      u32 vc[MC_MAXT];
      int owner;      // mutex: tid or -1
      int depth;
      int last_unlock;
      int once;       // 0 not, 1 running, 2 done
      int once_step;
      int readers;
      u32 rvc[MC_MAXT];
   };
   const int NSYNC = 1 << 13, NHASH = 1 << 14;
   Sync syncs[NSYNC];      // dense, to touch few pages
   uint16_t synchash[NHASH];
   int nsync;

   void die_internal(const char* m) __attribute__((noreturn));
   void finish(int verdict, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));

   Sync* sync_of(u64 a) {
      u64 h = (a >> 2) * 0x9E3779B97F4A7C15ull >> 50;
      for (int i = 0; i < NHASH; i++) {
         uint16_t* k = &synchash[(h + i) & (NHASH - 1)];
         if (*k && syncs[*k].addr == a) return &syncs[*k];
         if (!*k) {
            if (++nsync >= NSYNC - 1) die_internal("sync table full");
            *k = nsync;
            Sync* s = &syncs[nsync];
            s->addr = a;
            s->owner = -1;
            s->last_unlock = s->once_step = -1;
            return s;
         }
      }
      die_internal("sync table");
   }

   void join(u32* a, const u32* b) { for (int i = 0; i < MC_MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
   void acquire_from(Thread& t, const u32* v) { join(t.vc, v); }
   void release_to(Thread& t, u32* v, bool merge) {
      if (merge) join(v, t.vc); else memcpy(v, t.vc, sizeof t.vc);
      t.vc[my_tid]++;
   }

   bool in_pick;
   void finish(int verdict, const char* fmt, ...) {
      over = true;
      g_shm->verdict = verdict;
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap);
      va_end(ap);
      // state for the pending analysis
      g_shm->end_live = 0;
      for (int i = 0; i < nthreads; i++)
         if (T[i].st == T_LIVE && (i != my_tid || in_pick)) { g_shm->end_live |= 1u << i; g_shm->end_pend[i] = T[i].pend; }
      rawsys(SYS_exit_group, verdict == V_INTERNAL || verdict == V_DIVERGED ? 96 : 0);
      __builtin_unreachable();
   }
   void die_internal(const char* m) { finish(V_INTERNAL, "%s", m); }

   const char* opname(int t) {
      static const char* n[] = {"none", "start", "lock", "unlock", "cond-wait", "cond-reacquire", "signal", "broadcast", "atomic-load", "atomic-store", "atomic-rmw", "futex-wait", "futex-resume", "futex-wake", "join", "once", "sleep", "yield", "point", "death", "quiesce", "rdlock", "wrlock", "trylock", "choose"};
      return n[t];
   }

   // ------------------------------------------------------------------ enabledness
   bool enabled(int i) {
      Thread& t = T[i];
      if (t.st != T_LIVE) return false;
      switch (t.pend.type) {
      case OP_LOCK: {
         Sync* s = sync_of(t.pend.obj);
         return s->owner < 0 || (s->owner == i && t.pend.aux);
      }
      case OP_RDLOCK: { Sync* s = sync_of(t.pend.obj); return s->owner < 0; }
      case OP_WRLOCK: { Sync* s = sync_of(t.pend.obj); return s->owner < 0 && s->readers == 0; }
      case OP_CREACQ: {
         Sync* s = sync_of(t.mutex);
         if (s->owner >= 0) return false;
         return t.signalled || t.timedout || (exploring && (t.spurious > 0 || (t.timed && t.early > 0)));
      }
      case OP_FRESUME: return t.fwoken || t.timedout || (exploring && t.timed && t.early > 0);
      case OP_JOIN: return T[t.pend.aux].st == T_FINISHED;
      case OP_ONCE: { Sync* s = sync_of(t.pend.obj); return s->once != 1; }
      case OP_SLEEP: return exploring && t.early > 0;
      case OP_QUIESCE: return false;  // handled at quiescence
      default: return true;
      }
   }

   u32 enabled_mask() {
      u32 m = 0;
      for (int i = 0; i < nthreads; i++) if (enabled(i)) m |= 1u << i;
      return m;
   }

   void describe_threads(char* buf, int n) {
      int k = 0;
      for (int i = 0; i < nthreads && k < n - 100; i++)
         if (T[i].st == T_LIVE) k += snprintf(buf + k, n - k, " T%d:%s(0x%llx)", i, opname(T[i].pend.type), (unsigned long long)T[i].pend.obj);
      buf[k] = 0;
   }

   bool dep_ops(const Op& a, const Op& b) {
      if (a.obj && ((a.obj == b.obj && (a.w1 || b.w1)) || (a.obj == b.obj2 && (a.w1 || b.w2)))) return true;
      if (a.obj2 && ((a.obj2 == b.obj && (a.w2 || b.w1)) || (a.obj2 == b.obj2 && (a.w2 || b.w2)))) return true;
      return false;
   }
   u32 sleepset;

   int nwaiters(u64 c) {
      int n = 0;
      for (int i = 0; i < nthreads; i++)
         if (T[i].st == T_LIVE && T[i].pend.type == OP_CREACQ && T[i].cond == c && !T[i].signalled && !T[i].timedout) n++;
      return n;
   }

   Step* new_step() {
      if (g_shm->nsteps >= MC_MAXSTEPS - 1) finish(V_LIVELOCK, "livelock: more than %d steps", MC_MAXSTEPS);
      Step* s = &g_shm->steps[g_shm->nsteps++];
      s->dep1 = s->dep2 = -1;
      s->dep_all = 0;
      s->enabled = 0;
      s->live = 0;
      s->n = 0;
      return s;
   }

   // Choose the next thread. Called by the thread holding the baton (or finishing), after its pending op is set.
   int pick_impl(bool finishing);
   int pick(bool finishing) {
      in_pick = true;
      int c = pick_impl(finishing);
      in_pick = false;
      return c;
   }
   int pick_impl(bool finishing) {
      for (;;) {
         u32 en = enabled_mask();
         bool time_passed = false;
         if (!en) {
            // quiescence: a thread waiting for it goes first, then the earliest sleeper / timed waiter
            int q = -1;
            for (int i = 0; i < nthreads; i++) if (T[i].st == T_LIVE && T[i].pend.type == OP_QUIESCE) q = i;
            if (q >= 0) en = 1u << q;
            else {
               u64 best = ~0ull;
               for (int i = 0; i < nthreads; i++) {
                  Thread& t = T[i];
                  if (t.st != T_LIVE) continue;
                  bool timed = t.pend.type == OP_SLEEP || ((t.pend.type == OP_CREACQ || t.pend.type == OP_FRESUME) && t.timed);
                  if (timed && t.wake_ns < best) best = t.wake_ns;
               }
               if (best == ~0ull) {
                  char d[2000];
                  describe_threads(d, sizeof d);
                  finish(V_DEADLOCK, "deadlock:%s", d);
               }
               if (++quiet_rounds > 12) {
                  char d[2000];
                  describe_threads(d, sizeof d);
                  finish(V_HANG, "hang: only sleeping threads are left and sleeping does not help:%s", d);
               }
               if (best > clock_ns) clock_ns = best;
               for (int i = 0; i < nthreads; i++) {
                  Thread& t = T[i];
                  if (t.st != T_LIVE || t.wake_ns > best) continue;
                  if (t.pend.type == OP_SLEEP) en |= 1u << i;
                  else if ((t.pend.type == OP_CREACQ || t.pend.type == OP_FRESUME) && t.timed) { t.timedout = true; if (enabled(i)) en |= 1u << i; }
               }
               if (!en) continue;
               // wake one at a time in thread order: a deterministic "time passes" step ordered after everything
               u32 low = en & -en;
               en = low;
            }
            time_passed = true;
         } else quiet_rounds = 0;

         if (!exploring) {
            if (!finishing && (en >> my_tid & 1)) return my_tid;
            return __builtin_ctz(en);
         }
         int idx = g_shm->nsteps;
         Step* s = new_step();
         s->kind = 0;
         s->cur = my_tid;
         s->enabled = en;
         if (time_passed) s->dep_all = 1;
         for (int i = 0; i < nthreads; i++)
            if (T[i].st == T_LIVE) {
               if (T[i].pend.type == OP_SIGNAL) T[i].pend.w1 = nwaiters(T[i].pend.obj) >= 2;
               s->pend[i] = T[i].pend;
               s->live |= 1u << i;
            }
         int c;
         if (idx < g_shm->nprefix) {
            c = g_shm->prefix[idx];
            if (c >= nthreads || !(en >> c & 1)) finish(V_DIVERGED, "replay diverged at step %d: thread %d not enabled (mask %x)", idx, c, en);
            s->sleep = 0;
         } else {
            if (idx == g_shm->nprefix) sleepset = g_shm->sleep_in;
            s->sleep = sleepset;
            u32 cand = g_shm->mode == 0 ? en & ~sleepset : en;
            if (!cand) {
               g_shm->nsteps--;
               for (int i = 0; i < nthreads; i++) {}
               finish(V_SLEEPSET, "sleep set");
            }
            if (!finishing && (cand >> my_tid & 1)) c = my_tid;
            else c = __builtin_ctz(cand);
         }
         s->chosen = c;
         s->op = T[c].pend;
         if (idx >= g_shm->nprefix) {
            u32 ns = 0;
            if (!s->dep_all)
               for (int i = 0; i < nthreads; i++)
                  if ((sleepset >> i & 1) && i != c && !dep_ops(T[i].pend, s->op)) ns |= 1u << i;
            sleepset = ns;
         }
         T[c].last_step = idx;
         return c;
      }
   }

   void switch_to(int c, bool finishing) {
      int me = my_tid;
      cur = c;
      if (c == me) return;
      T[c].go = 1;
      fwake(&T[c].go);
      if (finishing) return;
      while (!T[me].go) fwait(&T[me].go, 0);
      T[me].go = 0;
   }

   void do_interrupt();

   // Announce the operation and wait until it is chosen. On return the caller executes its effect.
   void point(const Op& op) {
      Thread& t = T[my_tid];
      if (exploring && intr_victim == my_tid) do_interrupt();
      t.pend = op;
      int c = pick(false);
      switch_to(c, false);
   }

   Step* my_step() { return exploring && T[my_tid].last_step >= 0 ? &g_shm->steps[T[my_tid].last_step] : nullptr; }

   bool active() { return mode == 2 && my_tid >= 0 && !over; }

   Op mk(int type, u64 obj = 0, bool w = false, u64 obj2 = 0, bool w2 = false, u32 aux = 0) {
      Op o;
      memset(&o, 0, sizeof o);
      o.type = type; o.obj = obj; o.w1 = w; o.obj2 = obj2; o.w2 = w2; o.aux = aux;
      return o;
   }

   int choose_impl(int n, bool api = false) {
      if (n <= 1 || !(exploring || api)) return 0;
      int idx = g_shm->nsteps;
      Step* s = new_step();
      s->kind = 1;
      s->cur = my_tid;
      s->n = n;
      if (idx == g_shm->nprefix) sleepset = g_shm->sleep_in;
      s->sleep = sleepset;
      s->op = mk(OP_CHOOSE, 0, false, 0, false, n);
      int v = 0;
      static int nchoices;
      if (nchoices++ == 0 && g_shm->shard < n) v = g_shm->shard;
      if (idx < g_shm->nprefix) {
         v = g_shm->prefix[idx];
         if (v >= n) finish(V_DIVERGED, "replay diverged at step %d: choice %d of %d", idx, v, n);
      }
      s->chosen = v;
      T[my_tid].last_step = idx;
      return v;
   }

   void do_interrupt() {
      int sig = intr_sig;
      if (choose_impl(2) == 1) {
         intr_victim = -1;
         raise(sig);
      }
   }

   // ------------------------------------------------------------------ memory accesses
   Cell* cell_of(u64 a, int* region) {
      if (a - ARENA < ARENA_SZ) { *region = 1; return (Cell*)(ASH + ((a - ARENA) & ~7ull)); }
      if (a - G0 < G1 - G0) { *region = 2; return (Cell*)(GSH + ((a - G0) & ~7ull)); }
      if (a - STK < STK_SZ) { *region = 3; return (Cell*)(SSH + ((a - STK) & ~7ull)); }
      return nullptr;
   }
   struct Exempt { u64 a, b; } exempt[64];
   int nexempt;

   const char* accname(int fl) { return fl & 4 ? "free" : fl & 2 ? (fl & 1 ? "atomic write" : "atomic read") : fl & 1 ? "write" : "read"; }

   int in_check;
   void granule(Cell* c, int region, u64 g, u8 mask, int fl, u32 pc) {
      if (region == 1) {
         u8 st = c->st;
         if (st == ST_FREED) finish(V_MEMORY, "memory: use after free: %s of 0x%llx by T%d at pc 0x%x (freed at pc 0x%x by T%d)", accname(fl), (unsigned long long)g, my_tid, pc, recs[c->list].pc, recs[c->list].tid);
         if (st == ST_NONE || (st < 8 && (mask >> st))) finish(V_MEMORY, "memory: out-of-bounds %s at 0x%llx by T%d at pc 0x%x", accname(fl), (unsigned long long)g, my_tid, pc);
      }
      const int me = my_tid;
      const u32* vc = T[me].vc;
      Rec* r0 = &recs[c->list];
      if (c->list && !r0->next && r0->tid == me && r0->mask == mask && r0->fl == fl) { r0->clk = vc[me]; r0->pc = pc; return; }
      u32* link = &c->list;
      bool have = false;
      int n = 0;
      while (*link) {
         Rec* r = &recs[*link];
         n++;
         if (r->mask & mask) {
            if (r->tid != me && ((r->fl | fl) & 1) && !((r->fl & 2) && (fl & 2)) && r->clk > vc[r->tid]) {
               finish(V_RACE, "race: %s by T%d at pc 0x%x and %s by T%d at pc 0x%x of 0x%llx (%s) are unordered", accname(r->fl), r->tid, r->pc, accname(fl), me, pc, (unsigned long long)g, region == 1 ? "heap" : region == 2 ? "global" : "stack");
            }
            bool ordered = r->tid == me || r->clk <= vc[r->tid];
            if (r->tid == me && r->fl == fl && r->mask == mask) { r->clk = vc[me]; r->pc = pc; have = true; }
            else if (ordered && !(r->mask & ~mask) && ((fl & 3) == 1 || (r->fl == fl) )) { u32 dead = *link; *link = r->next; r->next = freerec; freerec = dead; continue; }
         }
         link = &r->next;
      }
      if (!have) {
         u32 k = freerec;
         if (k) freerec = recs[k].next;
         else {
            if (nrec >= RECS_N) die_internal("out of access records");
            k = nrec++;
         }
         recs[k] = Rec{c->list, (u8)me, mask, (u8)fl, 0, vc[me], pc};
         c->list = k;
      }
   }

   void access(u64 a, u64 n, int fl, u32 pc) {
      if (!active() || cur != my_tid || !n) return;
      for (int i = 0; i < nexempt; i++) if (a >= exempt[i].a && a < exempt[i].b) return;
      u64 g = a & ~7ull;
      int region;
      Cell* c = cell_of(g, &region);
      if (!c) return;
      while (n) {
         unsigned off = a & 7;
         unsigned k = 8 - off;
         if (k > n) k = n;
         granule(c, region, g, (u8)(((1u << k) - 1) << off), fl, pc);
         a += k; n -= k; g += 8; c++;
      }
   }
#define PC ((u32)(u64)__builtin_return_address(0))

   // ------------------------------------------------------------------ allocator
   struct Hdr { u64 size; u64 magic; };
   const u64 MAGIC = 0x6d636d63616c6c6full;

   void* arena_alloc(u64 n, u64 align, u32 pc) {
      ensure_mapped();
      int reg = mode == 2 && my_tid >= 0 ? my_tid : MC_MAXT;
      u64 base = ARENA + ARENA_PER * reg;
      if (align < 16) align = 16;
      u64 p = base + bump[reg] + sizeof(Hdr);
      p = (p + align - 1) & ~(align - 1);
      u64 end = (p + n + 16 + 15) & ~15ull;
      if (end - base > ARENA_PER) {
         if (mode == 2) finish(V_INTERNAL, "arena exhausted");
         _exit(97);
      }
      bump[reg] = end - base;
      Hdr* h = (Hdr*)(p - sizeof(Hdr));
      h->size = n;
      h->magic = MAGIC;
      Cell* c = (Cell*)(ASH + (p - ARENA));
      u64 i = 0;
      for (; i + 8 <= n; i += 8, c++) { c->st = 8; }
      if (i < n) c->st = n - i;
      else if (n == 0) c->st = ST_NONE;
      if (mode == 2) memset((void*)p, 0xCD, n);
      return (void*)p;
   }
   void arena_free(void* q, u32 pc) {
      if (!q) return;
      u64 p = (u64)q;
      if (p - ARENA >= ARENA_SZ) { free(q); return; }
      if (mode != 2) return;
      Hdr* h = (Hdr*)(p - sizeof(Hdr));
      if ((p & 15) || h->magic != MAGIC) {
         if (h->magic == ~MAGIC) finish(V_MEMORY, "memory: double free of 0x%llx by T%d at pc 0x%x", (unsigned long long)p, my_tid, pc);
         finish(V_MEMORY, "memory: invalid free of 0x%llx by T%d at pc 0x%x", (unsigned long long)p, my_tid, pc);
      }
      if (active()) access(p, h->size, 1 | 4, pc);
      h->magic = ~MAGIC;
      Cell* c = (Cell*)(ASH + (p - ARENA));
      for (u64 i = 0; i < h->size; i += 8, c++) c->st = ST_FREED;
      memset(q, 0xDD, h->size);
   }

   // ------------------------------------------------------------------ thread life cycle
   pthread_key_t fin_key;
   void thread_finished(void*) {
      if (mode != 2 || over) return;
      Thread& t = T[my_tid];
      t.st = T_FINISHED;
      t.vc[my_tid]++;
      int c = pick(true);
      switch_to(c, true);
   }
   void* trampoline(void* a) {
      int id = (int)(long)a;
      my_tid = id;
      Thread& t = T[id];
      pthread_setspecific(fin_key, (void*)1);
      while (!t.go) fwait(&t.go, 0);
      t.go = 0;
      return t.fn(t.arg);
   }

   ucontext_t main_ctx, t0_ctx;
   mc::Scenario* the_scenario;
   void t0_body() {
      the_scenario->run();
      over = false;
      exploring = false;
      finish(V_DONE, "done");
   }
   char* err_alloc;
}  // namespace

// ===================================================================== entry points for the explorer
void mc_parent_mode() {
   ensure_mapped();
   mode = 1;
}
static void add_exempt(const void* p, size_t n) { exempt[nexempt++] = Exempt{(u64)p, (u64)p + n}; }

void mc_child(mc::Scenario* sc) {
   the_scenario = sc;
   // objects that the C++ library allows to be used concurrently (copy-relocated into our globals)
   static const char* names[] = {"_ZSt4cout", "_ZSt4cerr", "_ZSt4clog", "_ZSt3cin", "stdout", "stderr", "stdin", "environ", nullptr};
   for (int i = 0; names[i]; i++) {
      void* p = dlsym(RTLD_DEFAULT, names[i]);
      if (p && (u64)p >= G0 && (u64)p < G1) add_exempt(p, 288);
   }
   pthread_key_create(&fin_key, thread_finished);
   mode = 2;
   nthreads = 1;
   my_tid = 0;
   cur = 0;
   Thread& t = T[0];
   t.st = T_LIVE;
   t.vc[0] = 1;
   t.last_step = t.created_by = -1;
   t.pt = pthread_self();
   getcontext(&t0_ctx);
   t0_ctx.uc_stack.ss_sp = (void*)STK;
   t0_ctx.uc_stack.ss_size = STK_PER;
   t0_ctx.uc_link = nullptr;
   makecontext(&t0_ctx, t0_body, 0);
   swapcontext(&main_ctx, &t0_ctx);
   _exit(95);
}

// ===================================================================== harness API
namespace mc {
   void begin() {
      ::point(mk(OP_QUIESCE));
      quiet_rounds = 0;
      exploring = was_exploring = true;
      for (int i = 0; i < nthreads; i++) { T[i].last_step = -1; T[i].created_by = -1; T[i].spurious = spurious_budget; T[i].early = early_budget; T[i].sigstep = -1; }
      for (int i = 1; i <= nsync; i++) syncs[i].last_unlock = syncs[i].once_step = -1;
      // a first node so that the other threads may run before the caller
      ::point(mk(OP_YIELD));
   }
   void stop() {
      if (!exploring) return;
      exploring = false;
      for (int i = 0; i < nthreads; i++) T[i].last_step = -1;
   }
   void event(int code, long a, long b, const char* text) {
      if (!active()) return;
      Shm* s = g_shm;
      if (s->nev >= MC_MAXEV) die_internal("too many events");
      EvRec* e = &s->ev[s->nev];
      e->tid = my_tid; e->code = code; e->a = a; e->b = b; e->text = -1;
      if (text) {
         int n = strlen(text) + 1;
         if (s->ntext + n > MC_TEXT) die_internal("event text full");
         memcpy(s->text + s->ntext, text, n);
         e->text = s->ntext;
         s->ntext += n;
      }
      T[my_tid].vc[my_tid]++;
      memcpy(e->vc, T[my_tid].vc, sizeof e->vc);
      T[my_tid].vc[my_tid]++;
      __sync_synchronize();
      s->nev++;
   }
   int choose(int n) {
      if (!active()) return 0;
      if (n <= 30) return choose_impl(n, true);
      int hi = choose_impl((n + 29) / 30, true);
      return hi * 30 + choose_impl(n - hi * 30 < 30 ? n - hi * 30 : 30, true);
   }
   void fail_c(const char* what) { finish(V_FAIL, "%s", what); }
   void unreachable(const char* what) {
      ::point(mk(OP_DEATH, 0xDEAD, true));
      finish(V_FAIL, "%s", what);
   }
   void point(int id) { ::point(mk(OP_POINT, 0x1000000000000ull + id, true)); }
   void early_wakeups(int n) { early_budget = n; }
   void advance_ns(long ns) { clock_ns += ns; }
   void allow_spurious(int n) { spurious_budget = n; }
   void interrupts(int sig, int victim) { intr_sig = sig; intr_victim = victim; }
   long now_ns() { return clock_ns; }
   int tid() { return my_tid; }
   bool replaying() { return g_shm->replay; }
   const char* scratch() { return g_shm->scratch; }
}  // namespace mc

// ===================================================================== interposed pthread API
extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
   static int (*rp)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
   if (!rp) rp = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
   if (!active()) return rp(out, attr, fn, arg);
   Thread& p = T[my_tid];
   int path = my_tid * 64 + p.nchild++ + 1;
   int id = -1;
   for (int i = 0; i < g_shm->npath; i++) if (g_shm->path[i] == path) id = i + 1;
   if (id < 0) {
      if (g_shm->npath >= MC_MAXT - 1) die_internal("too many threads");
      g_shm->path[g_shm->npath++] = path;
      id = g_shm->npath;
   }
   if (id >= nthreads) nthreads = id + 1;
   Thread& t = T[id];
   t.st = T_LIVE;
   t.fn = fn;
   t.arg = arg;
   t.pend = mk(OP_START);
   memcpy(t.vc, p.vc, sizeof t.vc);
   t.vc[id]++;
   p.vc[my_tid]++;
   t.last_step = -1;
   t.created_by = exploring ? p.last_step : -1;
   t.sigstep = -1;
   t.spurious = spurious_budget;
   t.early = early_budget;
   pthread_attr_t at;
   pthread_attr_init(&at);
   pthread_attr_setstack(&at, (void*)(STK + STK_PER * id), STK_PER);
   int r = rp(&t.pt, &at, trampoline, (void*)(long)id);
   pthread_attr_destroy(&at);
   if (r) die_internal("pthread_create failed");
   *out = t.pt;
   return 0;
}

static int tid_of(pthread_t p) {
   for (int i = 0; i < nthreads; i++) if (T[i].st != T_UNUSED && T[i].pt == p) return i;
   return -1;
}

int pthread_join(pthread_t p, void** ret) {
   static int (*rp)(pthread_t, void**);
   if (!rp) rp = real<int (*)(pthread_t, void**)>("pthread_join");
   if (!active()) return rp(p, ret);
   int id = tid_of(p);
   if (id < 0) die_internal("join of an unknown thread");
   if (id == my_tid) return EDEADLK;
   point(mk(OP_JOIN, 0, false, 0, false, id));
   if (Step* s = my_step()) s->dep1 = T[id].last_step >= 0 ? T[id].last_step : T[id].created_by;
   acquire_from(T[my_tid], T[id].vc);
   return rp(p, ret);
}
int pthread_detach(pthread_t p) {
   static int (*rp)(pthread_t);
   if (!rp) rp = real<int (*)(pthread_t)>("pthread_detach");
   return rp(p);
}

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void acq_mutex(Sync* s) {
   s->owner = my_tid;
   s->depth++;
   if (Step* st = my_step()) { if (st->dep1 < 0) st->dep1 = s->last_unlock; else st->dep2 = s->last_unlock; }
   acquire_from(T[my_tid], s->vc);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
   static int (*rp)(pthread_mutex_t*);
   if (!rp) rp = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
   if (!active()) return mode == 2 ? 0 : rp(m);
   access((u64)m, 8, 2, PC);
   point(mk(OP_LOCK, (u64)m, true, 0, false, recursive(m)));
   access((u64)m, 8, 2, PC);
   acq_mutex(sync_of((u64)m));
   return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
   static int (*rp)(pthread_mutex_t*);
   if (!rp) rp = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
   if (!active()) return mode == 2 ? 0 : rp(m);
   access((u64)m, 8, 2, PC);
   g_shm->unlock_steps |= exploring;
   point(mk(OP_TRYLOCK, (u64)m, true));
   access((u64)m, 8, 2, PC);
   Sync* s = sync_of((u64)m);
   if (s->owner >= 0 && !(s->owner == my_tid && recursive(m))) return EBUSY;
   acq_mutex(s);
   return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
   static int (*rp)(pthread_mutex_t*);
   if (!rp) rp = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
   if (!active()) return mode == 2 ? 0 : rp(m);
   access((u64)m, 8, 2, PC);
   if (g_shm->unlock_steps && exploring) point(mk(OP_UNLOCK, (u64)m, true));
   Sync* s = sync_of((u64)m);
   if (s->owner != my_tid) finish(V_FAIL, "unlock: mutex 0x%llx unlocked by T%d which does not hold it", (unsigned long long)(u64)m, my_tid);
   if (--s->depth == 0) {
      s->owner = -1;
      s->last_unlock = exploring ? T[my_tid].last_step : -1;
      release_to(T[my_tid], s->vc, false);
   }
   return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
   static int (*rp)(pthread_mutex_t*, const pthread_mutexattr_t*);
   if (!rp) rp = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
   if (active()) { Sync* s = sync_of((u64)m); s->owner = -1; s->depth = 0; }
   return rp(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }

// reader-writer locks
static int rdl(u64 m, bool t) {
   if (t) g_shm->unlock_steps |= exploring;
   access(m, 8, 2, PC);
   point(mk(t ? OP_TRYLOCK : OP_RDLOCK, m, true));
   Sync* s = sync_of(m);
   if (s->owner >= 0) return EBUSY;
   s->readers++;
   if (Step* st = my_step()) st->dep1 = s->last_unlock;
   acquire_from(T[my_tid], s->vc);
   return 0;
}
static int wrl(u64 m, bool t) {
   if (t) g_shm->unlock_steps |= exploring;
   access(m, 8, 2, PC);
   point(mk(t ? OP_TRYLOCK : OP_WRLOCK, m, true));
   Sync* s = sync_of(m);
   if (s->owner >= 0 || s->readers) return EBUSY;
   acq_mutex(s);
   acquire_from(T[my_tid], s->rvc);
   return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return active() ? rdl((u64)m, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return active() ? wrl((u64)m, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return active() ? rdl((u64)m, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return active() ? wrl((u64)m, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
   if (!active()) return 0;
   access((u64)m, 8, 2, PC);
   point(mk(OP_UNLOCK, (u64)m, true));
   Sync* s = sync_of((u64)m);
   if (s->owner == my_tid) {
      s->owner = -1; s->depth = 0;
      release_to(T[my_tid], s->vc, false);
   } else {
      if (!s->readers) finish(V_FAIL, "unlock: rwlock not held");
      s->readers--;
      release_to(T[my_tid], s->rvc, true);
   }
   s->last_unlock = exploring ? T[my_tid].last_step : -1;
   return 0;
}

// condition variables
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 wake) {
   Thread& t = T[my_tid];
   access((u64)c, 8, 2, PC);
   point(mk(OP_CWAIT, (u64)c, true));
   access((u64)c, 8, 2, PC);
   Sync* s = sync_of((u64)m);
   if (s->owner != my_tid) finish(V_FAIL, "condition wait without holding the mutex");
   int depth = s->depth;
   s->owner = -1; s->depth = 0;
   s->last_unlock = exploring ? t.last_step : -1;
   release_to(t, s->vc, false);
   t.cond = (u64)c; t.mutex = (u64)m;
   t.signalled = t.timedout = false;
   t.timed = timed; t.wake_ns = wake;
   t.sigstep = -1;
   bool sp = exploring && (t.spurious > 0 || (timed && t.early > 0));
   point(mk(OP_CREACQ, (u64)m, true, sp ? (u64)c : 0, sp));
   access((u64)m, 8, 2, PC);
   access((u64)c, 8, 2, PC);
   if (Step* st = my_step()) st->dep1 = t.sigstep;
   if (!t.signalled && !t.timedout) {
      if (timed && t.early > 0) { t.early--; t.timedout = true; if (wake > clock_ns) clock_ns = wake; }
      else t.spurious--;
   }
   bool to = t.timedout && !t.signalled;
   t.timed = false; t.cond = 0;
   acq_mutex(s);
   s->depth = depth;
   return to ? ETIMEDOUT : 0;
}
static u64 ns_of(const struct timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
   if (!active()) { if (mode == 2) return 0; die_internal("cond wait in the parent"); }
   return cwait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
   if (!active()) return 0;
   return cwait(c, m, true, ns_of(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
   if (!active()) return 0;
   return cwait(c, m, true, ns_of(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
   if (!active()) return 0;
   access((u64)c, 8, 2, PC);
   Op op = mk(OP_SIGNAL, (u64)c, nwaiters((u64)c) >= 2);
   point(op);
   access((u64)c, 8, 2, PC);
   int w[MC_MAXT], n = 0;
   for (int i = 0; i < nthreads; i++)
      if (T[i].st == T_LIVE && T[i].pend.type == OP_CREACQ && T[i].cond == (u64)c && !T[i].signalled && !T[i].timedout) w[n++] = i;
   if (!n) return 0;
   int step = exploring ? T[my_tid].last_step : -1;
   int k = n > 1 ? choose_impl(n) : 0;
   T[w[k]].signalled = true;
   T[w[k]].sigstep = step;
   return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
   if (!active()) return 0;
   access((u64)c, 8, 2, PC);
   point(mk(OP_BCAST, (u64)c, true));
   access((u64)c, 8, 2, PC);
   for (int i = 0; i < nthreads; i++)
      if (T[i].st == T_LIVE && T[i].pend.type == OP_CREACQ && T[i].cond == (u64)c && !T[i].signalled && !T[i].timedout) {
         T[i].signalled = true;
         T[i].sigstep = exploring ? T[my_tid].last_step : -1;
      }
   return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
   if (active() && nwaiters((u64)c)) finish(V_FAIL, "condition variable destroyed while a thread waits on it");
   return 0;
}

// once
static bool once_begin(u64 a) {
   Sync* s = sync_of(a);
   if (s->once == 2 && s->once_step == -1) {  // done before the exploration began: nothing depends on the order
      acquire_from(T[my_tid], s->vc);
      return false;
   }
   point(mk(OP_ONCE, a, true));
   s = sync_of(a);
   if (s->once == 2) {
      if (Step* st = my_step()) st->dep1 = s->once_step;
      acquire_from(T[my_tid], s->vc);
      return false;
   }
   s->once = 1;
   s->owner = my_tid;
   return true;
}
static void once_end(u64 a, bool done) {
   Sync* s = sync_of(a);
   s->once = done ? 2 : 0;
   s->once_step = exploring ? T[my_tid].last_step : -1;
   s->owner = -1;
   release_to(T[my_tid], s->vc, false);
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
   static int (*rp)(pthread_once_t*, void (*)(void));
   if (!rp) rp = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
   if (!active()) return rp(o, f);
   access((u64)o, 4, 2, PC);
   if (*(int*)o == 2 && sync_of((u64)o)->once == 0) return 0;  // done before the execution started (locale initialisation)
   Sync* s0 = sync_of((u64)o);
   if (s0->once == 1 && s0->owner == my_tid) finish(V_FAIL, "deadlock: recursive call_once");
   if (!once_begin((u64)o)) return 0;
   try {
      f();
   } catch (...) {
      once_end((u64)o, false);
      throw;
   }
   *(int*)o = 2;
   once_end((u64)o, true);
   return 0;
}
// reference counts of exceptions (inside the C++ library): the last release is ordered after all the others
void __cxa_end_catch() {
   static void (*rp)();
   if (!rp) rp = real<void (*)()>("__cxa_end_catch");
   if (active()) {
      std::exception_ptr p = std::current_exception();  // its destructor is the release below
   }
   rp();
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self) {
   static void (*rp)(void**);
   if (!rp) rp = real<void (*)(void**)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
   if (active() && *self) {
      Sync* s = sync_of((u64)*self);
      acquire_from(T[my_tid], s->vc);
      release_to(T[my_tid], s->vc, true);
   }
   rp(self);
}
int __cxa_guard_acquire(u64* g) {
   if (!active()) return *(u8*)g == 0;
   if (*(u8*)g && sync_of((u64)g)->once == 0) return 0;  // initialised before the execution started
   Sync* s0 = sync_of((u64)g);
   if (s0->once == 1 && s0->owner == my_tid) finish(V_FAIL, "deadlock: recursive initialisation of a local static");
   if (s0->once == 2) { acquire_from(T[my_tid], s0->vc); }
   return once_begin((u64)g);
}
void __cxa_guard_release(u64* g) {
   *(u8*)g = 1;
   if (!active()) return;
   once_end((u64)g, true);
}
void __cxa_guard_abort(u64* g) {
   if (active()) once_end((u64)g, false);
}

// futex (std::future)
long syscall(long n, ...) {
   va_list ap;
   va_start(ap, n);
   long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
   va_end(ap);
   if (n == SYS_futex && active()) {
      int cmd = b & 127 & ~FUTEX_CLOCK_REALTIME;
      Thread& t = T[my_tid];
      if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
         access(a, 4, 2, PC);
         point(mk(OP_FWAIT, a & ~7ull, false, (u64)a | 1ull << 60, false));
         access(a, 4, 2, PC);
         if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
         t.cond = a;
         t.fwoken = t.timedout = false;
         t.timed = d != 0;
         if (d) t.wake_ns = cmd == FUTEX_WAIT ? clock_ns + ns_of((struct timespec*)d) : ns_of((struct timespec*)d);
         t.sigstep = -1;
         if (exploring && t.timed && t.early > 0) point(mk(OP_FRESUME, (u64)a | 1ull << 60, true));
         else point(mk(OP_FRESUME));
         if (!t.fwoken && !t.timedout) { t.early--; t.timedout = true; if (t.wake_ns > clock_ns) clock_ns = t.wake_ns; }
         if (Step* st = my_step()) st->dep1 = t.sigstep;
         t.timed = false;
         t.cond = 0;
         if (t.timedout && !t.fwoken) { errno = ETIMEDOUT; return -1; }
         return 0;
      }
      if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
         point(mk(OP_FWAKE, (u64)a | 1ull << 60, true));
         int k = 0;
         for (int i = 0; i < nthreads && k < c; i++)
            if (T[i].st == T_LIVE && T[i].pend.type == OP_FRESUME && T[i].cond == (u64)a && !T[i].fwoken) {
               T[i].fwoken = true;
               T[i].sigstep = exploring ? t.last_step : -1;
               k++;
            }
         return k;
      }
      die_internal("unsupported futex operation");
   }
   long r = rawsys(n, a, b, c, d, e, f);
   if (r < 0 && r > -4096) { errno = -r; return -1; }
   return r;
}

// time
static int do_sleep(u64 until) {
   T[my_tid].wake_ns = until;
   bool may = exploring && T[my_tid].early > 0;
   point(mk(OP_SLEEP));
   if (may && until > clock_ns) clock_ns = until;
   if (may) T[my_tid].early--;
   return 0;
}
int nanosleep(const struct timespec* r, struct timespec*) {
   if (!active()) return rawsys(SYS_nanosleep, (long)r, 0);
   return do_sleep(clock_ns + ns_of(r));
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* r, struct timespec*) {
   if (!active()) return 0;
   return do_sleep(flags & TIMER_ABSTIME ? ns_of(r) : clock_ns + ns_of(r));
}
int usleep(useconds_t u) {
   if (!active()) return 0;
   return do_sleep(clock_ns + u * 1000ull);
}
unsigned sleep(unsigned s) {
   if (!active()) return 0;
   return do_sleep(clock_ns + s * 1000000000ull);
}
int sched_yield(void) {
   if (!active()) return rawsys(SYS_sched_yield);
   return do_sleep(clock_ns);  // runs again when nobody else can: makes spin loops with yield finite
}
int clock_gettime(clockid_t id, struct timespec* ts) {
   if (mode != 2) return rawsys(SYS_clock_gettime, id, (long)ts) ? -1 : 0;
   ts->tv_sec = clock_ns / 1000000000ull;
   ts->tv_nsec = clock_ns % 1000000000ull;
   return 0;
}
int gettimeofday(struct timeval* tv, void*) {
   if (mode != 2) return rawsys(SYS_gettimeofday, (long)tv, 0) ? -1 : 0;
   tv->tv_sec = clock_ns / 1000000000ull;
   tv->tv_usec = clock_ns / 1000 % 1000000;
   return 0;
}
time_t time(time_t* p) {
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   if (p) *p = ts.tv_sec;
   return ts.tv_sec;
}
// functions with a static result buffer: the buffer becomes a tracked global
static struct tm tm_buf;
struct tm* localtime(const time_t* t) {
   access((u64)&tm_buf, sizeof tm_buf, 1, PC);
   return localtime_r(t, &tm_buf);
}
struct tm* gmtime(const time_t* t) {
   access((u64)&tm_buf, sizeof tm_buf, 1, PC);
   return gmtime_r(t, &tm_buf);
}

// the end of the process is ordered against every "unreachable" statement
static void death_point() {
   if (active() && exploring && cur == my_tid) point(mk(OP_DEATH, 0xDEAD, true));
}
int raise(int sig) {
   static int (*rp)(int);
   if (!rp) rp = real<int (*)(int)>("raise");
   if (active() && exploring) {
      struct sigaction sa;
      sigaction(sig, nullptr, &sa);
      if (!(sa.sa_flags & SA_SIGINFO) && sa.sa_handler == SIG_DFL) death_point();
   }
   return rp(sig);
}
void exit(int c) {
   static void (*rp)(int);
   if (!rp) rp = real<void (*)(int)>("exit");
   death_point();
   rp(c);
   __builtin_unreachable();
}

// ===================================================================== TSan ABI
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                              \
   void __tsan_read##N(void* p) { access((u64)p, N, 0, PC); }              \
   void __tsan_write##N(void* p) { access((u64)p, N, 1, PC); }             \
   void __tsan_unaligned_read##N(void* p) { access((u64)p, N, 0, PC); }    \
   void __tsan_unaligned_write##N(void* p) { access((u64)p, N, 1, PC); }   \
   void __tsan_volatile_read##N(void* p) { access((u64)p, N, 0, PC); }     \
   void __tsan_volatile_write##N(void* p) { access((u64)p, N, 1, PC); }    \
   void __tsan_unaligned_volatile_read##N(void* p) { access((u64)p, N, 0, PC); }   \
   void __tsan_unaligned_volatile_write##N(void* p) { access((u64)p, N, 1, PC); }  \
   void __tsan_read_write##N(void* p) { access((u64)p, N, 0, PC); access((u64)p, N, 1, PC); }   \
   void __tsan_unaligned_read_write##N(void* p) { access((u64)p, N, 0, PC); access((u64)p, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access((u64)p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { access((u64)p, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((u64)p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { access((u64)p, 8, 0, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
   access((u64)s, n, 0, PC);
   access((u64)d, n, 1, PC);
   return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
   access((u64)s, n, 0, PC);
   access((u64)d, n, 1, PC);
   return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n) {
   access((u64)d, n, 1, PC);
   return memset(d, v, n);
}

static void a_acq(u64 a, int mo) {
   Sync* s = sync_of(a);
   Thread& t = T[my_tid];
   if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) join(t.facq, s->vc);
   else acquire_from(t, s->vc);
}
static void a_rel(u64 a, int mo, bool rmw) {
   Sync* s = sync_of(a);
   Thread& t = T[my_tid];
   if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE) {
      if (t.has_frel) { if (rmw) join(s->vc, t.frel); else memcpy(s->vc, t.frel, sizeof s->vc); }
      else if (!rmw) memset(s->vc, 0, sizeof s->vc);
   } else release_to(t, s->vc, rmw);
}
static void apoint(void* p, int n, int type, u32 pc) {
   access((u64)p, n, 2 | (type != OP_ALOAD), pc);
   point(mk(type, (u64)p & ~7ull, type != OP_ALOAD));
   access((u64)p, n, 2 | (type != OP_ALOAD), pc);
}
#define ATOMIC(B, TY)                                                                            \
   TY __tsan_atomic##B##_load(const volatile TY* p, int mo) {                                    \
      if (active()) { apoint((void*)p, sizeof(TY), OP_ALOAD, PC); a_acq((u64)p, mo); }           \
      return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                               \
   }                                                                                             \
   void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) {                                 \
      if (active()) { apoint((void*)p, sizeof(TY), OP_ASTORE, PC); a_rel((u64)p, mo, false); }   \
      __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                  \
   }                                                                                             \
   static void rmw##B(volatile TY* p, int mo, u32 pc) {                                          \
      if (active()) { apoint((void*)p, sizeof(TY), OP_ARMW, pc); a_acq((u64)p, mo); a_rel((u64)p, mo, true); } \
   }                                                                                             \
   TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { rmw##B(p, mo, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }   \
   TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { rmw##B(p, mo, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }   \
   TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { rmw##B(p, mo, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }   \
   TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { rmw##B(p, mo, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }   \
   TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { rmw##B(p, mo, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }     \
   TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { rmw##B(p, mo, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }   \
   TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) { rmw##B(p, mo, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
   static bool cas##B(volatile TY* p, TY* e, TY v, int mo, int fmo, u32 pc) {                    \
      if (active()) {                                                                            \
         apoint((void*)p, sizeof(TY), OP_ARMW, pc);                                              \
         if (*p == *e) { a_acq((u64)p, mo); a_rel((u64)p, mo, true); } else a_acq((u64)p, fmo);  \
      }                                                                                          \
      return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);    \
   }                                                                                             \
   int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int f) { return cas##B(p, e, v, mo, f, PC); } \
   int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int f) { return cas##B(p, e, v, mo, f, PC); }   \
   TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int f) { cas##B(p, &e, v, mo, f, PC); return e; }
ATOMIC(8, u8)
ATOMIC(16, uint16_t)
ATOMIC(32, u32)
ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo) {
   if (!active()) return;
   Thread& t = T[my_tid];
   if (mo != __ATOMIC_RELEASE) join(t.vc, t.facq);
   if (mo != __ATOMIC_ACQUIRE) { memcpy(t.frel, t.vc, sizeof t.vc); t.has_frel = true; t.vc[my_tid]++; }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ===================================================================== allocation
static void* do_new(size_t n, size_t al, u32 pc) {
   if (mode == 1) {
      void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
      if (!p) abort();
      return p;
   }
   return arena_alloc(n, al, pc);
}
void* operator new(size_t n) { return do_new(n, 16, PC); }
void* operator new[](size_t n) { return do_new(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void operator delete(void* p) noexcept { arena_free(p, PC); }
void operator delete[](void* p) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
