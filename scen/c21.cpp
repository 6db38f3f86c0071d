// C21 formatting from several threads; C25
#include "common.h"
#include <ctime>
#include <g3log/time.hpp>
static const char* kFmt[] = {"%f3", "%Y/%m/%d %H:%M:%S %f6", "%f %S %f9 %f3", "%a %b %d"};
static const long kSec[] = {1700000000, 951782399, 86399};
static const long kNs[] = {1, 123456789, 999999999};
static std::string fmt(int s, int n, int f) { return g3::localtime_formatted(g3::system_time_point(std::chrono::nanoseconds(kSec[s] * 1000000000 + kNs[n])), kFmt[f]); }
static std::string ref(int s, int n, int f) {
   time_t t = kSec[s];
   struct tm tm;
   gmtime_r(&t, &tm);
   char b[100];
   strftime(b, sizeof b, f == 1 ? "%Y/%m/%d %H:%M:%S " : f == 2 ? "%S" : "%a %b %d", &tm);
   char ns[16];
   snprintf(ns, sizeof ns, "%09ld", kNs[n]);
   std::string x = ns;
   if (f == 0) return x.substr(0, 3);
   if (f == 1) return b + x.substr(0, 6);
   if (f == 2) return x + " " + b + " " + x + " " + x.substr(0, 3);
   return b;
}
static std::string judge(const mc::Trace& tr) {
   for (auto* e : tr.with(VALUE)) {
      std::string want = ref((int)e->a, (int)e->b / 10, (int)e->b % 10);
      REQUIRE(e->text == want, "text", "formatted " + e->text + " instead of " + want);
   }
   return "";
}
MC_SCENARIO(time_two_threads, "C21 C25", 0, "q=dpor:3000,pb2:4000 t=dpor:300000,pb3:300000 shards=4") {
   int f = mc::choose(4);
   setenv("TZ", "UTC0", 1);
   tzset();
   mc::begin();
   std::thread t([=] { for (int i = 0; i < 2; i++) mc::event(VALUE, i, i * 10 + f, fmt(i, i, f)); });
   mc::event(VALUE, 2, 20 + f, fmt(2, 2, f));
   mc::event(VALUE, 0, 10 + 1, fmt(0, 1, 1));
   t.join();
}
MC_ORACLE(time_two_threads) { return judge(tr); }
// messages are formatted by sinks and by threads that keep copies
MC_SCENARIO(time_messages, "C21 C25", 0, "q=pb2:4000 t=pb3:300000 shards=3") {
   int f = mc::choose(3);
   setenv("TZ", "UTC0", 1);
   tzset();
   mc::begin();
   g3::LogMessage m("file.cpp", 3, "fn", INFO);
   m.write() = "text";
   std::thread t([&, m] { std::string s = f == 0 ? m.toString() : f == 1 ? m.timestamp() : m.toString(&g3::LogMessage::FullLogDetailsToString); mc::event(VALUE, 1, 11, fmt(1, 1, 1)); });
   std::string s = m.toString();
   std::string k = m.timestamp("%H %f9");
   mc::event(VALUE, 0, 2, fmt(0, 0, 2));
   t.join();
}
MC_ORACLE(time_messages) { return judge(tr); }
