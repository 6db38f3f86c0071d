// Shared-memory protocol between the explorer (parent) and one execution (child). Plain C data only.
#pragma once
#include <stdint.h>
#define MC_MAXT 16
#define MC_MAXSTEPS 12000
#define MC_MAXEV 12000
#define MC_TEXT (1 << 19)

enum OpType { OP_NONE = 0, OP_START, OP_LOCK, OP_UNLOCK, OP_CWAIT, OP_CREACQ, OP_SIGNAL, OP_BCAST, OP_ALOAD, OP_ASTORE,
   OP_ARMW, OP_FWAIT, OP_FRESUME, OP_FWAKE, OP_JOIN, OP_ONCE, OP_SLEEP, OP_YIELD, OP_POINT, OP_DEATH, OP_QUIESCE,
   OP_RDLOCK, OP_WRLOCK, OP_TRYLOCK, OP_CHOOSE };

struct Op {
   uint8_t type;
   uint8_t w1, w2;  // obj / obj2 is written
   uint8_t pad;
   uint32_t aux;    // per type: CHOOSE value count, JOIN target
   uint64_t obj, obj2;
};
struct Step {
   uint8_t kind;     // 0 = schedule, 1 = choose
   uint8_t chosen;   // thread, or chosen value
   uint8_t cur;      // thread that ran before (kind 0) or that chooses (kind 1)
   uint8_t n;        // choose: number of values
   uint32_t enabled; // mask
   uint32_t sleep;   // sleep set at this node (mask)
   int32_t dep1, dep2;  // enabling steps (indices) or -1
   int32_t dep_all;     // 1: ordered after every earlier step (time passing at quiescence)
   Op op;            // executed operation
   Op pend[MC_MAXT]; // pending operations at this node
   uint32_t live;    // mask of live threads with a valid pending op
};
struct EvRec {
   int32_t tid, code;
   int64_t a, b;
   int32_t text;  // offset, -1 none
   uint32_t vc[MC_MAXT];
};
enum Verdict { V_RUNNING = 0, V_DONE, V_DEADLOCK, V_HANG, V_LIVELOCK, V_RACE, V_MEMORY, V_FAIL, V_SLEEPSET, V_DIVERGED, V_INTERNAL };

struct Shm {
   // input
   int mode;  // 0 dpor, 1 preemption bounded
   int nprefix;
   uint8_t prefix[MC_MAXSTEPS];
   uint32_t sleep_in;   // sleep set at the first node after the prefix
   int verbose;
   int replay;          // full replay: do not prune
   char scratch[256];
   int shard;           // value of the first mc::choose of a fresh execution
   int unlock_steps;    // a try-lock was seen: unlock is a step of its own
   // output
   int verdict;
   char msg[8192];
   int nsteps;
   Step steps[MC_MAXSTEPS];
   uint32_t end_live;
   Op end_pend[MC_MAXT];
   uint32_t end_enabled;
   int nev;
   EvRec ev[MC_MAXEV];
   int ntext;
   char text[MC_TEXT];
   // persistent: canonical thread ids; path = parent tid * 64 + child index
   int npath;
   int path[MC_MAXT];
   int nthreads_total;
   uint64_t nraces_checked;
};
extern Shm* g_shm;
