// A wall clock under the control of the scenario: std::chrono::system_clock (and high_resolution_clock) read it.
// The real clock serves everything else (CLOCK_MONOTONIC etc).
#pragma once
#include <atomic>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
namespace vclock {
   inline std::atomic<long long> ns{1700000000ll * 1000000000ll};
   inline void set(long long t) { ns = t; }
   inline void advance(long long d) { ns += d; }
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
   if (id != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, id, t);
   long long v = vclock::ns;
   long long s = v / 1000000000, n = v % 1000000000;
   if (n < 0) { n += 1000000000; s--; }
   t->tv_sec = s;
   t->tv_nsec = n;
   return 0;
}
