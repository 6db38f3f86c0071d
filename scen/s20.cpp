// C20 log and check macros evaluate each operand exactly when they should
#include "lib.h"
using seq::choose;
static std::string ev;  // what was evaluated, in order
static int others;
static std::vector<std::string>* fatals;
static bool cond(bool v) { ev += 'c'; return v; }
static int op(int n) { ev += (char)('0' + n); return n; }
static std::string str(int n) { ev += (char)('0' + n); return "s" + std::to_string(n); }
static void other() { others++; ev += 'o'; }
static const LEVELS CUSTOM_ON{INFO.value + 3, "CUSTOM_ON"}, UNKNOWN{INFO.value + 7, "UNKNOWN"};
enum { NCTX = 16 };
static const char* kCtx[] = {"plain", "if S else", "if(false) S else", "else S", "for", "while", "do while", "lambda", "switch", "operand of a log", "dangling else", "condition of a log", "if for S else", "operand of LOGF", "twice on a line", "if if S else else"};
// S in context ctx; times: how often it is executed
#define CONTEXTS(...)                                                                                       \
   switch (ctx) {                                                                                           \
   case 0: __VA_ARGS__; break;                                                                              \
   case 1: if (yes) __VA_ARGS__; else other(); break;                                                       \
   case 2: if (!yes) __VA_ARGS__; else other(); break;                                                      \
   case 3: if (!yes) other(); else __VA_ARGS__; break;                                                      \
   case 4: for (int i = 0; i < 3; i++) __VA_ARGS__; break;                                                  \
   case 5: { int i = 0; while (i++ < 2) __VA_ARGS__; break; }                                               \
   case 6: { int i = 0; do __VA_ARGS__; while (i++ < 1); break; }                                           \
   case 7: [&] { __VA_ARGS__; }(); break;                                                                   \
   case 8: switch (sel) { case 1: __VA_ARGS__; break; default: other(); } break;                            \
   case 9: LOG(WARNING) << "outer " << [&] { __VA_ARGS__; return 5; }(); break;                             \
   case 10: if (yes) if (!yes) __VA_ARGS__; else other(); break;                                            \
   case 11: LOG_IF(WARNING, [&] { __VA_ARGS__; return true; }()) << "outer"; break;                         \
   case 12: if (yes) for (int i = 0; i < 2; i++) __VA_ARGS__; else other(); break;                          \
   case 13: LOGF(WARNING, "outer %d", [&] { __VA_ARGS__; return 5; }()); break;                             \
   case 14: __VA_ARGS__; __VA_ARGS__; break; \
   case 15: if (yes) if (yes) __VA_ARGS__; else other(); else other(); break;                               \
   }
static const int kTimes[] = {1, 1, 0, 1, 3, 2, 2, 1, 1, 1, 0, 1, 2, 1, 2, 1};
static const int kOthers[] = {0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0};
enum { NSTMT = 24 };
struct Plan {
   std::string eval, text;  // evaluations and text of an accepted message
   bool has_cond, is_check, formatted;
};
static Plan execute(int stmt, const LEVELS& lvl, bool c, int ctx) {
   volatile bool yes = true;
   volatile int sel = 1;
   (void)sel;
   switch (stmt) {
   case 0: CONTEXTS(LOG(lvl) << "t") return {"", "t", false, false, false};
   case 1: CONTEXTS(LOG(lvl) << op(1) << op(2) << op(3)) return {"123", "123", false, false, false};
   case 2: CONTEXTS(LOG(lvl) << str(1) << ' ' << str(2).c_str()) return {"12", "s1 s2", false, false, false};
   case 3: CONTEXTS(LOG(lvl)) return {"", "", false, false, false};
   case 4: CONTEXTS(LOG_IF(lvl, cond(c)) << op(1) << str(2)) return {"12", "1s2", true, false, false};
   case 5: CONTEXTS(LOG_IF(lvl, !c || !cond(!c) || op(5) == 5) << op(1)) return {"", "", true, false, false};
   case 6: CONTEXTS(LOG_IF(lvl, cond(c) ? c : false) << op(1) << op(2)) return {"12", "12", true, false, false};
   case 7: CONTEXTS(LOG_IF(lvl, cond(c))) return {"", "", true, false, false};
   case 8: CONTEXTS(LOGF(lvl, "t")) return {"", "t", false, false, true};
   case 9: CONTEXTS(LOGF(lvl, "%d-%s-%d", op(1), str(2).c_str(), op(3))) return {"123", "1-s2-3", false, false, true};
   case 10: CONTEXTS(LOGF_IF(lvl, cond(c), "%d", op(1))) return {"1", "1", true, false, true};
   case 11: CONTEXTS(LOGF_IF(lvl, cond(c) && c, "%s%s", str(1).c_str(), str(2).c_str())) return {"12", "s1s2", true, false, true};
   case 12: CONTEXTS(CHECK(cond(!c)) << op(1) << op(2)) return {"12", "12", true, true, false};
   case 13: CONTEXTS(CHECK(cond(!c))) return {"", "", true, true, false};
   case 14: CONTEXTS(CHECK(cond(!c) || !c) << str(1)) return {"1", "s1", true, true, false};
   case 15: CONTEXTS(CHECKF(cond(!c), "%d%d", op(1), op(2))) return {"12", "12", true, true, true};
   case 16: CONTEXTS(CHECK_F(cond(!c), "%s", str(1).c_str())) return {"1", "s1", true, true, true};
   case 17: CONTEXTS(CHECK_F(cond(!c), "t")) return {"", "t", true, true, true};
   case 18: CONTEXTS(CHECKF(cond(!c), "t")) return {"", "t", true, true, true};
   case 19: CONTEXTS(LOGF_IF(lvl, cond(c), "t")) return {"", "t", true, false, true};
   // operands with expressions of low precedence
   case 20: CONTEXTS(LOG(lvl) << (op(1), op(2)) << (c ? "y" : "n")) return {"12", c ? "2y" : "2n", false, false, false};
   case 21: CONTEXTS(LOG_IF(lvl, (op(7), cond(c))) << op(1)) return {"1", "1", true, false, false};
   case 22: CONTEXTS(LOGF(lvl, c ? "%d" : "(%d)", op(1))) return {"1", c ? "1" : "(1)", false, false, true};
   case 23: CONTEXTS(CHECK(cond(!c) && !c) << "x" << op(1)) return {"1", "x1", true, true, false};
   }
   return {};
}
SEQ(macros, "C20", 0, 1000000, 1000000) {
   seq::split(3);
   int stmt = choose(NSTMT), ctx = choose(NCTX);
   bool c = choose(2);
   int lv = choose(5);
   const LEVELS* lvls[] = {&INFO, &WARNING, &UNKNOWN, &FATAL, &CUSTOM_ON};
   const LEVELS& L = *lvls[lv];
   bool on = true;
#if defined(G3_DYNAMIC_LOGGING)
   g3::only_change_at_initialization::reset();
   g3::only_change_at_initialization::addLogLevel(CUSTOM_ON, true);
   if (choose(2)) {
      g3::log_levels::disable(L);
      on = false;
   }
   if (lv == 2) on = false;
   // the outer statements of the contexts use WARNING
   bool outer_on = !(L == WARNING) || on;
#else
   bool outer_on = true;
#endif
   if (stmt == 5) c = true;  // (its condition is worked out below)
   std::vector<std::string> fat;
   fatals = &fat;
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { fatals->push_back(m.get()->message()); });
   ev.clear();
   others = 0;
   std::vector<Kept> got;
   Plan p;
   {
      Logger l;
      p = execute(stmt, L, c, ctx);
      got = l.finish();
   }
   seq::step();
   std::string what = "statement " + std::to_string(stmt) + " level " + L.text + (on ? "" : " (disabled)") + " condition " + (c ? "true" : "false") + " context " + kCtx[ctx];
   bool nested = ctx == 9 || ctx == 11 || ctx == 13;
   int times = nested && !outer_on ? 0 : kTimes[ctx];
   bool active = p.is_check || on;
   std::string once, text = p.text;
   bool accepted = active && (!p.has_cond || c);
   if (p.has_cond && active) once += stmt == 21 ? "7c" : "c";
   if (stmt == 5 && active) {  // !c || !cond(!c) || ...: with c == true: cond(false) is evaluated, !false is true
      once = "c";
      p.eval = "1";
      text = "1";
   }
   if (accepted) once += p.eval;
   std::string want;
   for (int i = 0; i < times; i++) want += once;
   for (int i = 0; i < kOthers[ctx]; i++) want += 'o';
   std::string have = ev;
   if (p.formatted) {  // the order of function arguments is the compiler's choice, except the condition
      std::string w = want, h = have;
      std::sort(w.begin(), w.end());
      std::sort(h.begin(), h.end());
      EXPECT(w == h, "evaluated", "evaluated " + seq::show(have) + " instead of " + seq::show(want) + "; " + what);
      if (p.has_cond && !have.empty() && have[0] != 'o') EXPECT(have[0] == 'c', "evaluated", "operands before the condition: " + have + "; " + what);
   } else EXPECT(have == want, "evaluated", "evaluated " + seq::show(have) + " instead of " + seq::show(want) + "; " + what);
   EXPECT(others == kOthers[ctx], "else", "the else branch ran " + std::to_string(others) + " times; " + what);
   bool fatal = p.is_check || L.value >= FATAL.value;
   std::vector<std::string> msgs;
   for (auto& g : got) if (!(nested && g.level == "WARNING" && g.text.compare(0, 5, "outer") == 0)) msgs.push_back(g.text); else EXPECT(g.text == (ctx == 11 ? "outer" : "outer 5"), "outer", seq::show(g.text) + "; " + what);
   size_t inner = got.size() - msgs.size();
   EXPECT(inner == (nested && outer_on ? 1u : 0u), "outer", std::to_string(inner) + " outer messages; " + what);
   int n = accepted ? times : 0;
   auto& where = fatal ? fat : msgs;
   EXPECT((int)where.size() == n && (fatal ? msgs : fat).empty(), "messages", std::to_string(msgs.size()) + " messages and " + std::to_string(fat.size()) + " fatal ones instead of " + std::to_string(n) + "; " + what);
   for (auto& t : where) EXPECT(fatal ? t.compare(0, text.size(), text) == 0 && t.find("\n*******\tSTACKDUMP") == text.size() : t == text, "text", seq::show(t) + " instead of " + seq::show(text) + "; " + what);
   seq::state(what + have);
   seq::note(what + " evaluates " + seq::show(have) + ", messages " + std::to_string(where.size()));
}
// every pair of statements, one nested in an operand of the other
static int chain(int d, int s);
static std::string inner(int d, int s) { ev += '('; int r = chain(d, s); ev += ')'; return std::to_string(r); }
static int chain(int d, int s) {
   int k = s % 6;
   s /= 6;
   bool t = true;
   switch (k) {
   case 0: LOG(INFO) << "a" << (d ? inner(d - 1, s) : std::string()) << op(1); break;
   case 1: LOGF(INFO, "b%s%d", (d ? inner(d - 1, s) : std::string()).c_str(), op(1)); break;
   case 2: LOG_IF(INFO, cond(t) && (d == 0 || !inner(d - 1, s).empty())) << "c" << op(1); break;
   case 3: LOGF_IF(INFO, cond(t), "d%s%d", (d ? inner(d - 1, s) : std::string()).c_str(), op(1)); break;
   case 4: if (t) LOG(INFO) << "e" << (d ? inner(d - 1, s) : std::string()) << op(1); else other(); break;
   case 5: CHECK(cond(t) && (d == 0 || !inner(d - 1, s).empty())) << "f" << op(1); break;
   }
   return 8;
}
static std::vector<std::string> chain_want(int d, int s, std::string& e) {
   int k = s % 6;
   s /= 6;
   std::vector<std::string> r;
   bool c = k == 2 || k == 3 || k == 5;
   if (c) e += 'c';
   if (d) { e += '('; r = chain_want(d - 1, s, e); e += ')'; }
   if (k == 5) return r;
   e += '1';
   r.push_back(std::string(1, "abcdef"[k]) + (d && k != 2 ? "8" : "") + "1");
   return r;
}
SEQ(nested, "C20", 0, 100000, 100000) {
   seq::split(3);
   int s = 0, d = seq::thorough() ? 4 : 3;
   for (int i = 0, f = 1; i <= d; i++, f *= 6) s += f * choose(6);
   std::vector<std::string> fat;
   fatals = &fat;
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { fatals->push_back(m.get()->message()); });
#if defined(G3_DYNAMIC_LOGGING)
   g3::only_change_at_initialization::reset();
#endif
   ev.clear();
   Logger l;
   chain(d, s);
   auto& g = l.finish();
   std::string e;
   auto want = chain_want(d, s, e);
   std::vector<std::string> got;
   for (auto& k : g) got.push_back(k.text);
   seq::step(d + 1);
   std::string what = "nesting " + std::to_string(s);
   EXPECT(fat.empty(), "check", "a true CHECK did something; " + what);
   EXPECT(got == want, "text", std::to_string(got.size()) + " messages" + (got.empty() ? "" : ", the first " + seq::show(got[0])) + "; " + what);
   std::string a = ev, b = e;
   std::sort(a.begin(), a.end());
   std::sort(b.begin(), b.end());
   EXPECT(a == b, "evaluated", ev + " instead of " + e + "; " + what);
   seq::state(ev);
}
SEQ_MAIN
