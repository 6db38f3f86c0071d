// C24 messages are independent values: every sequence of copy, move, assignment, swap and modification of a few messages
#include "lib.h"
using g3::LogMessage;
static std::string shortFmt(const LogMessage& m) { return "<" + m.level() + "|" + m.file() + ">"; }
static std::string otherFmt(const LogMessage& m) { return "(" + m.function() + ":" + m.line() + ")"; }
struct Model {
   bool valid = false;
   g3::high_resolution_time_point ts;
   std::thread::id tid;
   std::string file, path, func, expr, text, ltext;
   int line = 0, lvalue = 0;
   LogMessage::LogDetailsFunc fmt = nullptr;
};
static std::thread::id other_tid() {
   static std::thread::id id = [] { std::thread::id r; std::thread t([&] { r = std::this_thread::get_id(); }); t.join(); return r; }();
   return id;
}
static std::string differs(const LogMessage& m, const Model& x) {
   if (m._timestamp != x.ts) return "time stamp";
   if (m._call_thread_id != x.tid) return "thread id";
   if (m.file() != x.file) return "file";
   if (m.file_path() != x.path) return "file path";
   if (m.line() != std::to_string(x.line)) return "line";
   if (m.function() != x.func) return "function";
   if (m._level.value != x.lvalue || m.level() != x.ltext) return "level";
   if (m.expression() != x.expr) return "expression";
   if (m.message() != x.text) return "text";
   if (m._logDetailsToStringFunc != x.fmt) return "format function";
   if (LogMessage::normalToString(m) != x.fmt(m) + x.text + "\n") return "formatted text";
   return "";
}
static Model make(std::unique_ptr<LogMessage>& slot, int k) {
   Model x;
   x.valid = true;
   x.path = k == 0 ? "/a/long/path/of/the/file/number/zero.cpp" : "/b/one.cpp";
   x.file = k == 0 ? "zero.cpp" : "one.cpp";
   x.func = k == 0 ? "function_number_zero_with_a_long_name" : "f1";
   x.line = 100 + k;
   LEVELS lv = k == 0 ? WARNING : LEVELS{701, std::string("a custom level with a long name")};
   x.lvalue = lv.value;
   x.ltext = lv.text;
   x.text = k == 0 ? "text zero, long enough to be on the heap" : "t1";
   x.expr = k == 0 ? "" : "expression != one_that_is_long";
   x.fmt = k == 0 ? &LogMessage::DefaultLogDetailsToString : &otherFmt;
   x.tid = k == 0 ? std::this_thread::get_id() : other_tid();
   slot = std::make_unique<LogMessage>(x.path, x.line, x.func, lv);
   slot->write() = x.text;
   slot->setExpression(x.expr);
   slot->_call_thread_id = x.tid;
   slot->_timestamp = x.ts = g3::high_resolution_time_point(std::chrono::seconds(1000 + k));
   slot->overrideLogDetailsFunc(x.fmt);
   return x;
}
static const char* kOps[] = {"copy", "move", "assign", "moveassign", "swap", "write", "expr", "format", "toString", "mover", "fatal", "moverassign", "vector", "asvalue"};
static void run(int depth, int nops) {
   std::unique_ptr<LogMessage> s[3];
   Model m[3];
   m[0] = make(s[0], 0);
   m[1] = make(s[1], 1);
   std::string hist;
   for (int step = 0; step < depth; step++) {
      int op = seq::choose(nops), i = seq::choose(3), j = (op >= 5 && op <= 8) ? i : seq::choose(3);
      hist += std::string(" ") + kOps[op] + "(" + std::to_string(j) + "<-" + std::to_string(i) + ")";
      seq::step();
      if (!m[i].valid) continue;
      Model src = m[i];
      switch (op) {
      case 0: { auto p = std::make_unique<LogMessage>(*s[i]); s[j] = std::move(p); m[j] = src; break; }
      case 1: { auto p = std::make_unique<LogMessage>(std::move(*s[i])); m[i].valid = false; s[j] = std::move(p); m[j] = src; break; }
      case 2: if (!s[j]) break; *s[j] = *s[i]; m[j] = src; break;
      case 3: if (!s[j] || i == j) break; *s[j] = std::move(*s[i]); m[i].valid = false; m[j] = src; break;
      case 4: if (!s[j] || !m[j].valid) break; swap(*s[i], *s[j]); std::swap(m[i], m[j]); break;
      case 5: s[i]->write().append("+" + std::to_string(step)); m[i].text += "+" + std::to_string(step); break;
      case 6: s[i]->setExpression("e" + std::to_string(step)); m[i].expr = "e" + std::to_string(step); break;
      case 7: s[i]->overrideLogDetailsFunc(&shortFmt); m[i].fmt = &shortFmt; break;
      case 8: {
         std::string t = s[i]->toString(&otherFmt);
         EXPECT(t == otherFmt(*s[i]) + m[i].text + "\n", "tostring", "toString with a format gave " + seq::show(t) + " after" + hist);
         m[i].fmt = &otherFmt;
         break;
      }
      case 9: {  // as it travels to the sinks: a mover that is "copied" a few times
         g3::LogMessageMover a{LogMessage(*s[i])};
         std::function<LogMessage*()> f = [a]() mutable { return &a.get(); };
         auto g = f;
         auto p = std::make_unique<LogMessage>(*g());
         std::string d = differs(*g(), src);
         EXPECT(d.empty(), "mover", d + " lost by the mover after" + hist);
         s[j] = std::move(p);
         m[j] = src;
         break;
      }
      case 10: {
         g3::FatalMessage fm(*s[i], SIGSEGV), fc(fm);
         EXPECT(fc._signal_id == SIGSEGV && fc.reason() == "SIGSEGV", "fatal", "signal lost by a fatal message after" + hist);
         std::string d = differs(fc, src);
         EXPECT(d.empty(), "fatal", d + " lost by a fatal message after" + hist);
         s[j] = std::make_unique<LogMessage>(fc.copyToLogMessage());
         m[j] = src;
         break;
      }
      case 11: {
         if (!s[j] || !m[j].valid) break;
         g3::LogMessageMover a{LogMessage(*s[i])}, b{LogMessage(*s[j])};
         b = a;
         std::string d = differs(b.get(), src);
         EXPECT(d.empty(), "mover", d + " lost by the assignment of a mover after" + hist);
         g3::LogMessageMover c{LogMessage(*s[j])};
         c = std::move(b);
         d = differs(c.get(), src);
         EXPECT(d.empty(), "mover", d + " lost by the assignment of a mover after" + hist);
         LogMessage out = c.release();
         d = differs(out, src);
         EXPECT(d.empty(), "mover", d + " lost by release after" + hist);
         s[j] = std::make_unique<LogMessage>(std::move(out));
         m[j] = src;
         break;
      }
      case 12: {
         std::vector<LogMessage> v;
         for (int k = 0; k < 3; k++) v.push_back(*s[i]);
         v.erase(v.begin());
         std::string d = differs(v[1], src);
         EXPECT(d.empty(), "vector", d + " lost in a vector after" + hist);
         s[j] = std::make_unique<LogMessage>(v[0]);
         m[j] = src;
         break;
      }
      case 13: { auto f = [](LogMessage x) { x.write().append("local"); x.setExpression("local"); return x; }; LogMessage r = f(*s[i]); EXPECT(r.message() == src.text + "local", "value", hist); break; }
      }
      std::string st;
      for (int k = 0; k < 3; k++) {
         st += m[k].valid ? std::to_string(m[k].line) + m[k].text + m[k].expr + std::to_string((long)m[k].fmt % 97) : "-";
         if (!m[k].valid) continue;
         std::string d = differs(*s[k], m[k]);
         EXPECT(d.empty(), "attribute", d + " of message " + std::to_string(k) + " is wrong after" + hist + ": " + seq::show(s[k]->file_path() + " " + s[k]->message()));
      }
      seq::state(st);
   }
   seq::note(hist);
}
SEQ(message_values3, "C24", 0, 2000000, 2000000) { run(3, 14); }
SEQ(message_values4, "C24", 0, 0, 30000000) { run(4, 9); }
SEQ_MAIN
