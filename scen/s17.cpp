// C17 printf-style logging never overflows and marks every truncation
#include "lib.h"
static const std::string kMark = "[...truncated...]";
static size_t max_size = 2048;
static std::string expected(const std::string& full) {
   if (full.size() < max_size) return full.substr(0, full.find('\0'));
   std::string p = full.substr(0, max_size - 1);
   return p.substr(0, p.find('\0')) + kMark;
}
static std::string body(size_t n) {
   std::string s(n, 'x');
   for (size_t i = 0; i < n; i++) s[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i * 7 + n) % 36];
   return s;
}
static std::vector<std::string>* fatals;
enum { NFMT = 12 };
// logs a text of length about n in one of the styles; returns the exact formatted text
static std::string emit(int style, size_t n) {
   std::string b = body(n);
   switch (style) {
   case 0: LOGF(INFO, "%s", b.c_str()); return b;
   case 1: LOGF_IF(WARNING, n + 1 > 0, "%s", b.c_str()); return b;
   case 2: CHECKF(n > 100000000, "%s", b.c_str()); return b;
   case 3: CHECK_F(n > 100000000, "%s", b.c_str()); return b;
   case 4: { std::string f = b; LOGF(INFO, f.c_str()); return b; }
   case 5: LOGF(INFO, "%*d", (int)n, 5); { std::string r = "5"; return n <= 1 ? r : std::string(n - 1, ' ') + r; }
   case 6: LOGF(INFO, "%.*s!", (int)n, (b + "tail").c_str()); return b + "!";
   case 7: LOGF(INFO, "%d %s %c%%", 42, b.c_str(), 'z'); return "42 " + b + " z%";
   case 8: { size_t h = n / 2; LOGF(INFO, "%s%s", b.substr(0, h).c_str(), b.substr(h).c_str()); return b; }
   case 9: LOGF(FATAL, "%s", b.c_str()); return b;
   case 10: LOGF(INFO, "%s%c%s", b.c_str(), 0, "end"); return b + std::string(1, '\0') + "end";
   case 11: LOGF_IF(FATAL, true, "%s", b.c_str()); return b;
   }
   return "";
}
static void block(int style, const std::vector<size_t>& lens) {
   std::vector<std::string> fat;
   fatals = &fat;
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
      auto t = m.get()->message();
      auto p = t.find("\n*******\tSTACKDUMP");
      fatals->push_back(p == std::string::npos ? "no stack dump: " + t : t.substr(0, p));
   });
   Logger l;
   std::vector<std::string> want;
   for (size_t n : lens) {
      want.push_back(expected(emit(style, n)));
      seq::step();
      seq::state(seq::mix(seq::mix(style, n), max_size));
   }
   bool f = style == 2 || style == 3 || style == 9 || style == 11;
   auto& got = l.finish();
   size_t cnt = f ? fat.size() : got.size();
   EXPECT(cnt == want.size(), "count", std::to_string(cnt) + " messages instead of " + std::to_string(want.size()) + " (style " + std::to_string(style) + ")");
   for (size_t i = 0; i < want.size(); i++) {
      const std::string& g = f ? fat[i] : got[i].text;
      EXPECT(g == want[i], "text", "style " + std::to_string(style) + " length " + std::to_string(lens[i]) + " maximum " + std::to_string(max_size) + ": got " + std::to_string(g.size()) + " characters ending in " +
             seq::show(g.size() > 60 ? g.substr(g.size() - 60) : g) + ", expected " + std::to_string(want[i].size()) + " ending in " + seq::show(want[i].size() > 60 ? want[i].substr(want[i].size() - 60) : want[i]));
   }
   seq::note("style " + std::to_string(style) + ", lengths " + std::to_string(lens.front()) + ".." + std::to_string(lens.back()) + ", maximum " + std::to_string(max_size));
}
#ifndef G3_DYNAMIC_MAX_MESSAGE_SIZE
// every length from 0 to beyond the maximum
SEQ(printf_lengths, "C17", 0, 100000, 100000) {
   int style = seq::choose(NFMT);
   bool fatal = style == 2 || style == 3 || style == 9 || style == 11;
   int per = fatal ? 24 : 64;
   std::vector<size_t> l;
   int b = seq::choose(2200 / per + 1);
   for (int i = 0; i < per; i++) l.push_back(b * per + i);
   block(style, l);
}
SEQ(printf_long, "C17", 0, 100000, 100000) {
   int style = seq::choose(NFMT);
   block(style, {(size_t)seq::pick({4095, 4096, 8192, 65535, 65536, 100000, 1000000}), 3, 2047, 2048, 0});
}
#else
namespace g3 { namespace only_change_at_initialization { void setMaxMessageSize(size_t); } }
SEQ(printf_max, "C17", 0, 100000, 100000) {
   static const int sizes[] = {1, 2, 3, 4, 7, 8, 15, 16, 17, 18, 19, 31, 64, 100, 255, 256, 257, 1000, 2047, 2048, 2049, 4096, 10000, 65536};
   int k = seq::choose(sizeof sizes / sizeof *sizes), style = seq::choose(NFMT);
   max_size = sizes[k];
   g3::only_change_at_initialization::setMaxMessageSize(max_size);
   std::vector<size_t> l;
   for (size_t n = max_size > 20 ? max_size - 20 : 0; n < max_size + 6; n++) l.push_back(n);
   for (size_t n : {0, 1, 5}) l.push_back(n);
   block(style, l);
   max_size = 2048;
   g3::only_change_at_initialization::setMaxMessageSize(max_size);
   block(style, {0, 2046, 2047, 2048, 2049});
}
#endif
// conversion errors and empty results
SEQ(printf_errors, "C17", 0, 1000, 1000) {
   int k = seq::choose(4), pre = seq::choose(3);
   Logger l;
   std::string big(5000, 'q');
   if (pre == 1) LOGF(INFO, "%s", big.c_str());
   if (pre == 2) LOGF(INFO, "%s", "small");
   static const wchar_t bad[] = {L'a', (wchar_t)0x7fffffff, 0};
   switch (k) {
   case 0: LOGF(INFO, "before %ls after", bad); break;
   case 1: LOGF(INFO, "%s", ""); break;
   case 2: { std::string e; LOGF(INFO, e.c_str()); break; }
   case 3: LOGF_IF(INFO, true, "%ls", bad); break;
   }
   LOGF(INFO, "%s", "next");
   auto& g = l.finish();
   seq::step(3);
   seq::state(k * 3 + pre);
   EXPECT(g.size() == (pre ? 3u : 2u), "count", std::to_string(g.size()));
   auto& m = g[g.size() - 2].text;
   if (k == 1 || k == 2) EXPECT(m.empty(), "text", seq::show(m));
   else {
      EXPECT(m.find("ERROR LOG MSG NOTIFICATION") != std::string::npos, "error", seq::show(m));
      EXPECT(m.find("%ls") != std::string::npos && m.find("qqq") == std::string::npos && m.size() < 200, "error", seq::show(m));
   }
   EXPECT(g.back().text == "next", "text", seq::show(g.back().text));
   if (pre == 1) EXPECT(g[0].text == expected(big), "text", seq::show(g[0].text));
}
// streamed messages are never truncated
SEQ(stream_lengths, "C17", 0, 1000, 1000) {
   int parts = 1 + seq::choose(3);
   size_t n = (size_t)seq::pick({0, 1, 2046, 2047, 2048, 2049, 4096, 10000, 65536, 1000000});
   Logger l;
   std::string b = body(n);
   if (parts == 1) LOG(INFO) << b;
   else if (parts == 2) LOG(INFO) << b << b;
   else LOG_IF(INFO, true) << b << '|' << 5 << "|" << b;
   auto& g = l.finish();
   seq::step();
   seq::state(n * 4 + parts);
   std::string want = parts == 1 ? b : parts == 2 ? b + b : b + "|5|" + b;
   EXPECT(g.size() == 1 && g[0].text == want, "text", "length " + std::to_string(n));
}
SEQ_MAIN
