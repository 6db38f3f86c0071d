// C21 time formatting is exact for every time point and format
#include "lib.h"
using seq::choose;
typedef long long ll;
static const std::vector<ll>& seconds() {
   static const std::vector<ll> s = {0, 1700000000, 1709164799, 1709164800, 1704067199, 1704067200, 951782400, 1700000009, 2147483647, 2147483648ll, 4102444800ll, 1710054000, 1710053999, 1730613600, 1730610000, 59, 86399,
                                     -1, -2, -86400, -86401, -2208988800ll, -1000000000, 9000000000ll, -9000000000ll};
   return s;
}
static const std::vector<int>& fractions() {
   static std::vector<int> f;
   if (f.empty()) {
      std::set<int> s;
      for (ll p = 1; p < 1000000000; p *= 10)
         for (ll d = 0; d < 10; d++)
            for (ll e = -1; e < 2; e++) { ll v = p * d + e; if (v >= 0 && v < 1000000000) s.insert((int)v); }
      for (int v : {123456789, 987654321, 999999999, 999999, 999, 1001001, 100100100, 90909090, 999999000, 999000000, 500000000, 499999999, 999999499, 999999500, 999500000, 999499999}) s.insert(v);
      f.assign(s.begin(), s.end());
   }
   return f;
}
static g3::system_time_point at(ll s, ll ns) { return g3::system_time_point(std::chrono::nanoseconds(s * 1000000000 + ns)); }
static std::string pad(ll v, int n) {
   std::string r;
   for (int i = 0; i < n; i++) { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; }
   return r;
}
static std::string field(const struct tm& t, const std::string& f) {  // one conversion by strftime
   char b[4096];
   std::string g = f + "|";  // never empty
   size_t n = strftime(b, sizeof b, g.c_str(), &t);
   return n ? std::string(b, n - 1) : "?";
}
// The reference: reads the format once, left to right.
static std::string reference(ll s, ll ns, const std::string& f) {
   time_t tt = s;
   struct tm t;
   localtime_r(&tt, &t);
   std::string r;
   for (size_t i = 0; i < f.size();) {
      if (f[i] != '%') { r += f[i++]; continue; }
      if (i + 1 == f.size()) { r += field(t, "%"); i++; continue; }
      if (f[i + 1] == '%') { r += '%'; i += 2; continue; }
      if (f[i + 1] == 'f') {
         char c = i + 2 < f.size() ? f[i + 2] : 0;
         if (c == '3') { r += pad(ns / 1000000, 3); i += 3; }
         else if (c == '6') { r += pad(ns / 1000, 6); i += 3; }
         else if (c == '9') { r += pad(ns, 9); i += 3; }
         else { r += pad(ns, 9); i += 2; }
         continue;
      }
      r += field(t, f.substr(i, 2));
      i += 2;
   }
   return r;
}
static void judge(ll s, ll ns, const std::string& f, const char* zone) {
   std::string want = reference(s, ns, f), got = g3::localtime_formatted(at(s, ns), f);
   seq::step();
   EXPECT(got == want, "text", "format " + seq::show(f) + " of " + std::to_string(s) + " s + " + std::to_string(ns) + " ns in " + zone + " gives " + seq::show(got) + " instead of " + seq::show(want));
}
static const char* zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0530>-5:30", "PST8PDT,M3.2.0,M11.1.0", "<-0330>3:30"};
static const char* zone(int z) {
   static int now = -1;
   if (z != now) { setenv("TZ", zones[z], 1); tzset(); now = z; }
   return zones[z];
}
static const char* kTok[] = {"%f", "%f3", "%f6", "%f9", "%Y", "%H:%M:%S", "%%", "f", "3", "9", " ", "%S", "%j", "x/", "%d", "%", "%f1", "\xc3\xa9"};
enum { NTOK = sizeof kTok / sizeof *kTok };
// all formats of up to n parts, for some time points
SEQ(formats, "C21", 0, 10000000, 100000000) {
   std::string f;
   seq::split(3);
#ifdef NDEBUG
   int n = seq::thorough() ? 5 : 4, parts = 0;
#else
   int n = seq::thorough() ? 6 : 5, parts = 0;
#endif
   for (; parts < n; parts++) {
      int k = choose(NTOK + 1);
      if (k == 0) break;
      f += kTok[k - 1];
   }
   // a single percent sign followed by a letter out of context would be another (perhaps undefined) conversion
   for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') continue;
      if (i + 1 < f.size() && (f[i + 1] == '%' || f[i + 1] == 'f')) { i++; continue; }
      if (i + 1 == f.size() || !strchr("YHMSjd", f[i + 1])) return;
   }
   static const std::pair<ll, ll> points[] = {{1700000000, 0}, {1709164799, 999999999}, {5, 1}, {1700000009, 10203040}, {-1, 999999999}, {-86400, 500}};
   for (auto& p : points) judge(p.first, p.second, f, zone(0));
   seq::state(f);
   seq::note("format " + seq::show(f) + " -> " + seq::show(reference(1700000009, 10203040, f)));
}
// every time point for some formats
SEQ(points, "C21", 0, 10000000, 10000000) {
   int z = choose(5), s = choose((int)seconds().size()), f = choose((int)fractions().size());
   ll sec = seconds()[s], ns = fractions()[f];
   for (auto fmt : {"%f", "%f3", "%f6", "%f9", "%Y/%m/%d %H:%M:%S %f6", "%a %b %d %H:%M:%S %Y", "%f3%f9 %S.%f %Z%z %j %s"}) judge(sec, ns, fmt, zone(z));
   seq::state(seq::mix(seq::mix(z, sec), ns));
}
SEQ(many_points, "C21", 0, 1000, 100000) {  // every 997 ns of a second (all of them modulo 10^3), and every day of 400 years
   seq::split(1);
   int b = choose(64);
   zone(0);
   if (seq::thorough()) for (ll v = b * 15625000ll; v < (b + 1) * 15625000ll; v += 13) { auto p = at(1700000000, v); EXPECT(g3::localtime_formatted(p, "%f3 %f6 %f9") == pad(v / 1000000, 3) + " " + pad(v / 1000, 6) + " " + pad(v, 9), "text", std::to_string(v)); seq::step(); }
   else for (ll v = b * 15625000ll; v < (b + 1) * 15625000ll; v += 499) { auto p = at(1700000000, v); EXPECT(g3::localtime_formatted(p, "%f3 %f6 %f9") == pad(v / 1000000, 3) + " " + pad(v / 1000, 6) + " " + pad(v, 9), "text", std::to_string(v)); seq::step(); }
   for (int d = b * 2300; d < (b + 1) * 2300; d += seq::thorough() ? 1 : 3) judge(-70000ll * 86400 + d * 86400ll + (d * 7919 % 86400), d % 1000 * 1000003 % 1000000000, "%Y-%m-%d %H:%M:%S.%f6", zones[0]);
   seq::state(b);
}
// results of every length around the limit of 1023 characters
SEQ(lengths, "C21", 0, 100000, 100000) {
   int kind = choose(5), len = 1000 + choose(50), tail = choose(4);
   zone(0);
   static const char* tails[] = {"", "%f3", "%f", "%Y"};
   static const int tl[] = {0, 3, 9, 4};
   std::string f;
   int left = len - tl[tail];
   if (kind == 0) f = std::string(left, 'x');
   if (kind == 1) { for (int i = 0; i < left / 4; i++) f += "%Y"; f += std::string(left % 4, 'y'); }
   if (kind == 2) { for (int i = 0; i < left / 9; i++) f += "%f"; f += std::string(left % 9, 'z'); }
   if (kind == 3) { for (int i = 0; i < left; i++) f += "%%"; }
   if (kind == 4) { f = "%j"; f += std::string(left - 3, ' '); }
   f += tails[tail];
   ll s = 1700000000, ns = 123456789;
   std::string what = "a result of " + std::to_string(len) + " characters (" + std::to_string(kind) + "," + std::to_string(tail) + ")";
   seq::step();
   seq::state(seq::mix(seq::mix(kind, len), tail));
   if (len < 1024) { judge(s, ns, f, zones[0]); return; }
#ifdef NDEBUG
   std::string got = g3::localtime_formatted(at(s, ns), f);
   EXPECT(!got.empty(), "error-text", what + ": no text");
   // the error text is the format (with the fractions filled in), nothing that looks like a cut time
   EXPECT(got.size() >= f.size() && got.compare(0, 2, f, 0, 2) == (kind == 2 ? got.compare(0, 2, "%f") : 0), "error-text", what + ": " + seq::show(got));
#else
   seq::End e = seq::sub([&] { g3::localtime_formatted(at(s, ns), f); _exit(0); });
   EXPECT(!e.hang && e.signaled && e.value == SIGABRT && e.err.find("strftime") != std::string::npos, "error", what + ": " + (e.signaled ? "signal " : "exit ") + std::to_string(e.value) + " " + seq::show(e.err));
#endif
}
SEQ_MAIN
