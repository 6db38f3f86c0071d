// C16 a sink sees exactly what was logged, independent of the caller's memory
#include "lib.h"
#include "vclock.h"
#include <condition_variable>
using g3::LogMessage;
// a sink that does not touch its messages before the caller has destroyed and overwritten everything
struct Gate {
   std::mutex m;
   std::condition_variable cv;
   bool open = false;
   void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return open; }); }
   void release() { { std::lock_guard<std::mutex> l(m); open = true; } cv.notify_all(); }
};
struct Seen { Kept k; std::string full, plain, small; };
struct GateSink {
   Gate* g;
   std::vector<Seen>* out;
   void receive(g3::LogMessageMover m) {
      g->wait();
      LogMessage& x = m.get();
      Seen s;
      s.k = Kept{x.message(), x.toString(), x.level(), x.file(), x.file_path(), x.line(), x.function(), x.expression(), x.threadID(), x._level.value, x._timestamp};
      s.full = x.toString(&LogMessage::FullLogDetailsToString);
      s.plain = x.toString([](const LogMessage&) { return std::string(); });
      s.small = x.timestamp("%S|%f3");
      out->push_back(s);
   }
};
struct StrGateSink {
   Gate* g;
   std::vector<std::string>* out;
   void receive(std::string s) { g->wait(); out->push_back(s); }
};
static std::string content(int i) {
   std::string all;
   switch (i) {
   case 0: return "";
   case 1: return "x";
   case 2: for (int c = 1; c < 256; c++) all += (char)c; return all;
   case 3: for (int k = 0; k < 1500; k++) all += (char)('a' + k % 26); return all;
   case 4: return "100% %s %n %d {} \\ \" '\n\t second line\r\n";
   case 5: return "\xc3\xa5\xc3\xa4\xc3\xb6 \xe2\x82\xac \xff\xfe";
   case 6: return std::string("cut here\0hidden", 15);
   case 7: for (int k = 0; k < 100000; k++) all += (char)('A' + k % 26); return all;
   case 8: return std::string(15, 's');
   case 9: return std::string(16, 's');
   }
   return "";
}
static std::string local(g3::high_resolution_time_point ts, const char* f) {
   auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(ts.time_since_epoch()).count();
   time_t t = ns / 1000000000;
   struct tm tm;
   localtime_r(&t, &tm);
   char b[100], r[140];
   strftime(b, sizeof b, f, &tm);
   snprintf(r, sizeof r, "%s %06ld", b, (long)(ns % 1000000000 / 1000));
   return r;
}
static std::string me() { std::ostringstream o; o << std::this_thread::get_id(); return o.str(); }
enum { STYLES = 9 };
struct Expect {
   std::string text, file, path, line, func, func2, expr, tid, level;
   int value;
   g3::high_resolution_time_point t0, t1;
};
template <class F> static void scribble(F& heap) { memset(&heap[0], '#', heap.size()); }
// one statement; everything it refers to is destroyed or overwritten afterwards
static Expect statement(int style, int c, int lvl) {
   Expect e;
   std::string* s = new std::string(content(c));
   LEVELS* L = lvl == 0 ? new LEVELS(INFO) : lvl == 1 ? new LEVELS(WARNING) : lvl == 2 ? new LEVELS(G3LOG_DEBUG) : new LEVELS(703, "a custom level whose name is on the heap");
   e.text = *s;
   e.level = L->text;
   e.value = L->value;
   e.file = "s16.cpp";
   e.path = __FILE__;
   e.func = __FUNCTION__;
   e.func2 = __PRETTY_FUNCTION__;
   e.tid = me();
   vclock::advance(1234567891);
   e.t0 = std::chrono::high_resolution_clock::now();
   switch (style) {
   case 0: e.line = std::to_string(__LINE__); LOG(*L) << *s; break;
   case 1: e.line = std::to_string(__LINE__); LOG(*L) << s->c_str(); e.text = e.text.c_str(); break;
   case 2: e.line = std::to_string(__LINE__); LOGF(*L, "%s", s->c_str()); e.text = e.text.c_str(); break;
   case 3: e.line = std::to_string(__LINE__); LOG_IF(*L, !L->text.empty()) << s->substr(0, s->size() / 2) << std::string() << s->substr(s->size() / 2); break;
   case 4: e.line = std::to_string(__LINE__); LOGF_IF(*L, true, "%.*s", (int)s->size(), s->c_str()); e.text = e.text.c_str(); break;
   case 5: e.line = std::to_string(__LINE__); LOG(*L) << std::hex << 255 << ' ' << std::boolalpha << true << ' ' << 1.5 << *s; e.text = "ff true 1.5" + e.text; break;
   case 6: {  // pieces of memory that the statement itself makes temporarily
      e.line = std::to_string(__LINE__); LOG(*L) << std::string(*s + "!").c_str() << (*s + "?"); e.text = std::string((e.text + "!").c_str()) + e.text + "?";
      break;
   }
   case 7: {  // the capture object as a dynamically loaded library uses it: every pointer goes away
      std::string *file = new std::string("/tmp/some/where/plug-in.cpp"), *fn = new std::string("a_function_in_a_plugin");
      e.line = "77"; e.file = "plug-in.cpp"; e.path = *file; e.func = e.func2 = *fn;
      { LogCapture cap(file->c_str(), 77, fn->c_str(), *L); cap.stream() << *s; }
      scribble(*file); scribble(*fn);
      delete file; delete fn;
      break;
   }
   case 8: {
      std::string *entry = new std::string(*s), *file = new std::string("C:\\dir\\win.cpp"), *fn = new std::string("operator<"), *ex = new std::string("an expression"), *st = new std::string();
      e.line = "-5"; e.file = "win.cpp"; e.path = *file; e.func = e.func2 = *fn; e.expr = *ex;
      g3::internal::saveMessage(entry->c_str(), file->c_str(), -5, fn->c_str(), *L, ex->c_str(), SIGABRT, st->c_str());
      for (auto p : {entry, file, fn, ex, st}) { scribble(*p); delete p; }
      break;
   }
   }
   e.t1 = std::chrono::high_resolution_clock::now();
   vclock::advance(3333333333);
   e.text = e.text.substr(0, e.text.find('\0'));
   scribble(*s);
   delete s;
   scribble(L->text);
   delete L;
   if ((style == 2 || style == 4) && e.text.size() >= 2048) e.text = e.text.substr(0, 2047) + "[...truncated...]";
   return e;
}
static void compare(const Seen& s, const Expect& e, const std::string& what) {
#ifdef G3_LOG_FULL_FILENAME
   const std::string file = e.path;
#else
   const std::string file = e.file;
#endif
   EXPECT(s.k.text == e.text, "text", what + ": text " + seq::show(s.k.text) + " expected " + seq::show(e.text));
   EXPECT(s.k.level == e.level && s.k.value == e.value, "level", what + ": level " + s.k.level + "(" + std::to_string(s.k.value) + ")");
   EXPECT(s.k.file == file && s.k.path == e.path, "file", what + ": file " + s.k.file + " path " + s.k.path);
   EXPECT(s.k.line == e.line, "line", what + ": line " + s.k.line + " expected " + e.line);
   EXPECT(s.k.func == e.func || s.k.func == e.func2, "function", what + ": function " + s.k.func);
   EXPECT(s.k.expr == e.expr, "expression", what + ": expression " + s.k.expr);
   EXPECT(s.k.tid == e.tid, "thread", what + ": thread id " + s.k.tid + " expected " + e.tid);
   EXPECT(s.k.ts >= e.t0 && s.k.ts <= e.t1, "time", what + ": time stamp outside the statement");
   std::string head = local(s.k.ts, "%Y/%m/%d %H:%M:%S"), where = file + "->" + s.k.func + ":" + e.line + "]\t";
   EXPECT(s.k.str == head + "\t" + e.level + " [" + where + e.text + "\n", "format", what + ": default format " + seq::show(s.k.str) + " expected " + seq::show(head + "\t" + e.level + " [" + where));
   EXPECT(s.full == head + "\t" + e.level + " [" + e.tid + " " + where + e.text + "\n", "format", what + ": full format " + seq::show(s.full));
   EXPECT(s.plain == e.text + "\n", "format", what + ": own format " + seq::show(s.plain));
   EXPECT(s.small == local(s.k.ts, "%S").substr(0, 2) + "|" + local(s.k.ts, "").substr(1, 3), "format", what + ": timestamp(\"%S|%f3\") " + s.small);
}
SEQ(content_statements, "C16", 0, 3000, 3000) {
   int style = seq::choose(STYLES), c = seq::choose(10), lvl = seq::choose(4), where = seq::choose(2);
   Gate g;
   std::vector<Seen> seen;
   std::vector<std::string> strs;
   auto w = g3::LogWorker::createLogWorker();
   w->addSink(std::make_unique<GateSink>(GateSink{&g, &seen}), &GateSink::receive);
   w->addSink(std::make_unique<StrGateSink>(StrGateSink{&g, &strs}), &StrGateSink::receive);
   g3::initializeLogging(w.get());
   std::vector<Expect> want;
   auto f = [&] { want.push_back(statement(style, c, lvl)); want.push_back(statement((style + 1) % STYLES, (c + 3) % 10, (lvl + 1) % 4)); };
   if (where) { std::thread t(f); t.join(); } else f();
   std::vector<std::string> noise;  // reuse the freed memory
   for (int i = 0; i < 30; i++) noise.push_back(std::string(10 + i * 7, '@'));
   g.release();
   w.reset();
   std::string what = "style " + std::to_string(style) + " content " + std::to_string(c) + " level " + std::to_string(lvl) + (where ? " other thread" : "");
   EXPECT(seen.size() == 2 && strs.size() == 2, "count", what + ": " + std::to_string(seen.size()) + " messages");
   for (int i = 0; i < 2; i++) {
      compare(seen[i], want[i], what);
      EXPECT(strs[i] == seen[i].k.str, "string", what + ": the string sink got " + seq::show(strs[i]));
      seq::step();
   }
   seq::state(what);
   seq::note(what);
}
// fatal and contract messages, taken by a custom exit handler that keeps them until everything is gone
static std::string contract_text;
static bool no() { return false; }
static Expect fatal_statement(int style, int c) {
   Expect e;
   std::string* s = new std::string(content(c));
   LEVELS* D = new LEVELS(FATAL.value + 7, "A custom fatal level name on the heap");
   e.text = *s;
   e.file = "s16.cpp";
   e.path = __FILE__;
   e.func = __FUNCTION__;
   e.func2 = __PRETTY_FUNCTION__;
   e.tid = me();
   e.level = "FATAL";
   e.value = FATAL.value;
   vclock::advance(1234567891);
   e.t0 = std::chrono::high_resolution_clock::now();
   switch (style) {
   case 0: e.line = std::to_string(__LINE__); LOG(FATAL) << *s; break;
   case 1: e.line = std::to_string(__LINE__); LOGF(FATAL, "%s", s->c_str()); break;
   case 2: e.line = std::to_string(__LINE__); CHECK(no()) << *s; e.expr = "no()"; break;
   case 3: e.line = std::to_string(__LINE__); CHECKF(s == nullptr, "%s", s->c_str()); e.expr = "s == nullptr"; break;
   case 4: e.line = std::to_string(__LINE__); CHECK_F(no() && !no(), "%s", s->c_str()); e.expr = "no() && !no()"; break;
   case 5: e.line = std::to_string(__LINE__); LOG(*D) << *s; e.level = D->text; e.value = D->value; break;
   case 6: e.line = std::to_string(__LINE__); LOG_IF(FATAL, !no()) << s->c_str(); break;
   }
   if (style >= 2 && style <= 4) { e.level = g3::internal::CONTRACT.text; e.value = g3::internal::CONTRACT.value; }
   e.t1 = std::chrono::high_resolution_clock::now();
   vclock::advance(3333333333);
   e.text = e.text.substr(0, e.text.find('\0'));
   if ((style == 1 || style == 3 || style == 4) && e.text.size() >= 2048) e.text = e.text.substr(0, 2047) + "[...truncated...]";
   scribble(*s); delete s;
   scribble(D->text); delete D;
   return e;
}
SEQ(content_fatal, "C16", 0, 1000, 1000) {
   int style = seq::choose(7), c = seq::choose(10), where = seq::choose(2);
   Logger l;
   std::vector<std::unique_ptr<g3::FatalMessage>> msgs;
   g3::setFatalExitHandler([&](g3::FatalMessagePtr m) { msgs.push_back(m.release()); });
   Expect e;
   auto f = [&] { e = fatal_statement(style, c); };
   if (where) { std::thread t(f); t.join(); } else f();
   std::vector<std::string> noise;
   for (int i = 0; i < 30; i++) noise.push_back(std::string(10 + i * 7, '@'));
   std::string what = "fatal style " + std::to_string(style) + " content " + std::to_string(c);
   EXPECT(msgs.size() == 1, "count", what + ": " + std::to_string(msgs.size()) + " fatal messages");
   g3::FatalMessage& m = *msgs[0];
   std::string t = m.message();
   size_t p = t.find("\n*******\tSTACKDUMP *******\n");
   EXPECT(p != std::string::npos && t.substr(0, p) == e.text, "text", what + ": " + seq::show(t) + " expected " + seq::show(e.text));
   EXPECT(m.level() == e.level && m._level.value == e.value, "level", what + ": " + m.level());
   EXPECT(m.file_path() == e.path && m.line() == e.line && (m.function() == e.func || m.function() == e.func2), "file", what + ": " + m.file_path() + ":" + m.line() + " " + m.function());
   EXPECT(m.expression() == e.expr, "expression", what + ": " + m.expression());
   EXPECT(m.threadID() == e.tid, "thread", what);
   EXPECT(m._timestamp >= e.t0 && m._timestamp <= e.t1, "time", what);
   EXPECT(m._signal_id == SIGABRT && m.reason() == "SIGABRT", "signal", what + ": " + m.reason());
   std::string s = m.toString();
   std::string head = local(m._timestamp, "%Y/%m/%d %H:%M:%S") + "\t" + e.level + " [" + m.file() + "->" + m.function() + ":" + e.line + "]\t", tail;
   if (style == 5) tail = "UNKNOWN or Custom made Log Message Type";
   else if (e.expr.empty()) tail = "EXIT trigger caused by LOG(FATAL) entry: ";
   else tail = "EXIT trigger caused by broken Contract: CHECK(" + e.expr + ")";
   EXPECT(s.compare(0, head.size(), head) == 0, "format", what + ": " + seq::show(s));
   size_t a = s.find(tail, head.size()), b = s.find(t, head.size());
   EXPECT(a != std::string::npos && b != std::string::npos && a < b, "format", what + ": " + seq::show(s));
   seq::step();
   seq::state(what);
   seq::note(what);
}
SEQ_MAIN
