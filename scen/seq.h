// Exhaustive enumeration of operation sequences / inputs on the real code against a reference model.
// A scenario is a function that makes choices with seq::choose(n); every vector of choices is executed.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <memory>

namespace seq {
   enum Flags { ISOLATED = 1 };  // every case in a process of its own
   struct Scenario {
      const char *name, *props;
      void (*run)();
      int flags;
      long qcap, tcap;
      Scenario* next;
      static Scenario*& head() { static Scenario* h; return h; }
      Scenario(const char* n, const char* p, void (*r)(), int f, long q, long t) : name(n), props(p), run(r), flags(f), qcap(q), tcap(t), next(head()) { head() = this; }
   };
   struct Skip {};
   constexpr int MAXC = 256;
   constexpr size_t NSET = 1 << 22;
   struct Shm {
      int n, pos;                 // choices of the current case
      int c[MAXC], ar[MAXC];
      volatile long cases, steps, nstates, progress, skipped;
      int done, fresh, failed, intest;
      char sig[64], text[8192];
      char samples[4][1500];
      int nsamples;
      uint64_t set[NSET];
   };
   inline Shm* shm;
   inline int g_shard, g_nshards = 1, g_split = 2;  // the work is divided by the first g_split choices
   inline void split(int n) { g_split = n; }
   inline bool g_thorough, g_replay;
   inline std::string g_dir, g_root;
   inline bool thorough() { return g_thorough; }

   inline int choose(int n) {
      Shm* s = shm;
      int p = s->pos++;
      if (p >= MAXC) { fprintf(stderr, "seq: too many choices\n"); _exit(97); }
      if (p >= s->n) {
         s->n = p + 1;
         s->c[p] = 0;
      }
      s->ar[p] = n;
      if (p == g_split - 1 && !g_replay && g_nshards > 1) {
         unsigned h = 0;
         for (int i = 0; i <= p; i++) h = h * 31 + s->c[i];
         if ((h ^ h >> 5) * 2654435761u / 65536 % g_nshards != (unsigned)g_shard) throw Skip();
      }
      return s->c[p];
   }
   template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + choose((int)l.size())); }
   inline const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + choose((int)l.size())); }
   inline void step(long n = 1) { shm->steps += n; shm->progress++; }
   inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
   inline uint64_t hash(const std::string& t, uint64_t h = 1469598103934665603ull) { for (unsigned char c : t) h = (h ^ c) * 1099511628211ull; return h; }
   // a state of the reference model that was reached (counted, not used for pruning)
   inline void state(uint64_t h) {
      h = mix(h, 12345) | 1;
      if (shm->nstates > (long)NSET / 2) return;
      for (size_t i = h % NSET;; i = (i + 1) % NSET) {
         if (shm->set[i] == h) return;
         if (!shm->set[i]) { shm->set[i] = h; shm->nstates++; return; }
      }
   }
   inline void state(const std::string& s) { state(hash(s)); }
   inline void note(const std::string& s) {
      if (shm->nsamples < 4 && shm->cases >= shm->nsamples * 37) { snprintf(shm->samples[shm->nsamples], sizeof shm->samples[0], "%s", s.c_str()); shm->nsamples++; }
   }
   [[noreturn]] inline void fail(const std::string& sig, const std::string& text) {
      snprintf(shm->sig, sizeof shm->sig, "%s", sig.c_str());
      snprintf(shm->text, sizeof shm->text, "%s", text.c_str());
      shm->failed = 1;
      _exit(44);
   }
   inline std::string show(const std::string& s, size_t max = 300) {
      std::string r = "\"";
      for (unsigned char c : s.substr(0, max)) {
         if (c == '\n') r += "\\n";
         else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
         else r += c;
      }
      return r + "\"" + (s.size() > max ? "...(" + std::to_string(s.size()) + " bytes)" : "");
   }
   // ---- scratch directory (one per worker, emptied for every case)
   inline void wipe(const std::string& d, bool self = false) {
      if (d.find("/seq_") == std::string::npos) return;
      if (DIR* D = opendir(d.c_str())) {
         while (dirent* e = readdir(D)) {
            std::string n = e->d_name, p = d + "/" + n;
            if (n == "." || n == "..") continue;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0755); wipe(p, true); } else unlink(p.c_str());
         }
         closedir(D);
      }
      if (self) rmdir(d.c_str());
   }
   inline const std::string& scratch() { return g_dir; }
   inline std::vector<std::string> ls(const std::string& d) {
      std::vector<std::string> r;
      if (DIR* D = opendir(d.c_str())) {
         while (dirent* e = readdir(D)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") r.push_back(e->d_name);
         closedir(D);
      }
      std::sort(r.begin(), r.end());
      return r;
   }
   inline std::string slurp(const std::string& f) {
      std::ifstream i(f, std::ios::binary);
      std::ostringstream o;
      o << i.rdbuf();
      return o.str();
   }
   // ---- run a function in a child process and see how it ends
   struct End {
      bool signaled;
      int value;
      bool hang;
      std::string err;
   };
   inline End sub(const std::function<void()>& f, double timeout = 60) {
      int p[2];
      if (pipe(p)) { perror("pipe"); _exit(97); }
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); _exit(97); }
      if (pid == 0) {
         close(p[0]);
         dup2(p[1], 2);
         dup2(p[1], 1);
         struct rlimit rl = {0, 0};
         setrlimit(RLIMIT_CORE, &rl);
         f();
         _exit(0);
      }
      close(p[1]);
      fcntl(p[0], F_SETFL, O_NONBLOCK);
      End e{};
      struct timespec t0, t;
      clock_gettime(CLOCK_MONOTONIC, &t0);
      char buf[4096];
      int st;
      for (;;) {
         ssize_t n = read(p[0], buf, sizeof buf);
         if (n > 0) { if (e.err.size() < 60000) e.err.append(buf, n); continue; }
         if (n == 0) { waitpid(pid, &st, 0); break; }
         if (waitpid(pid, &st, WNOHANG) == pid) { while ((n = read(p[0], buf, sizeof buf)) > 0) e.err.append(buf, n); break; }
         clock_gettime(CLOCK_MONOTONIC, &t);
         if (t.tv_sec - t0.tv_sec > timeout) { e.hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
         struct timespec w = {0, 100000};
         nanosleep(&w, nullptr);
      }
      close(p[0]);
      e.signaled = WIFSIGNALED(st);
      e.value = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
      if (shm->failed) _exit(44);
      return e;
   }
   inline bool advance(Shm* s) {  // next case in depth-first order
      int n = s->pos < s->n ? s->pos : s->n;
      while (n > 0 && s->c[n - 1] + 1 >= s->ar[n - 1]) n--;
      if (n == 0) return false;
      s->c[n - 1]++;
      s->n = n;
      return true;
   }
   inline std::string json(const std::string& s) {
      std::string r = "\"";
      for (unsigned char c : s) {
         if (c == '"' || c == '\\') { r += '\\'; r += c; }
         else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
         else r += c;
      }
      return r + "\"";
   }
   inline double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

   inline void one_case(Scenario* sc) {
      shm->pos = 0;
      g_split = 2;
      wipe(g_dir);
      sc->run();
   }
   inline int errfd = -1;
   // cases until the end, the caps, or a failure (which ends the process)
   inline void worker(Scenario* sc, long cap, double deadline, bool first) {
      if (!first && !advance(shm)) { shm->done = 1; _exit(0); }
      for (;;) {
         if (shm->cases >= cap || now() > deadline) { shm->done = 2; _exit(0); }
         if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
         shm->intest = 1;
         bool skip = false;
         if (sc->flags & ISOLATED) {
            // the shard test needs the first two choices: the child reports a skip by exit code
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); _exit(97); }
            if (pid == 0) {
               try { one_case(sc); } catch (const Skip&) { _exit(43); }
               _exit(0);
            }
            int st;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); shm->failed = 0; raise(WTERMSIG(st)); _exit(99); }
            if (WEXITSTATUS(st) == 43) skip = true;
            else if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
         } else {
            try { one_case(sc); } catch (const Skip&) { skip = true; }
         }
         shm->intest = 0;
         if (!skip) shm->cases++; else shm->skipped++;
         shm->progress++;
         if (g_replay) { shm->done = 1; _exit(0); }
         if (!advance(shm)) { shm->done = 1; _exit(0); }
      }
   }
   inline int run(int argc, char** argv) {
      std::string prop, only, tmp = "/tmp", replays = ".", replay;
      double maxt = 1e9;
      int maxsigs = 3;
      for (int i = 1; i < argc; i++) {
         std::string a = argv[i];
         auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
         if (a == "--property") prop = v();
         else if (a == "--only") only = v();
         else if (a == "--tier") g_thorough = v() == "thorough";
         else if (a == "--shard") g_shard = atoi(v().c_str());
         else if (a == "--nshards") g_nshards = atoi(v().c_str());
         else if (a == "--replay-dir") replays = v();
         else if (a == "--tmp") tmp = v();
         else if (a == "--max-time") maxt = atof(v().c_str());
         else if (a == "--replay") replay = v();
         else if (a == "--list") { for (Scenario* s = Scenario::head(); s; s = s->next) printf("%s|%s|\n", s->name, s->props); return 0; }
      }
      std::vector<int> rc;
      if (!replay.empty()) {
         std::ifstream f(replay);
         std::string w;
         f >> w >> only;
         std::string line;
         while (std::getline(f, line)) if (line.compare(0, 8, "choices ") == 0) { std::istringstream is(line.substr(8)); int x; while (is >> x) rc.push_back(x); }
         g_replay = true;
      }
      shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      char tn[256];
      snprintf(tn, sizeof tn, "%s/seq_XXXXXX", tmp.c_str());
      if (!mkdtemp(tn)) { perror("mkdtemp"); return 97; }
      g_root = tn;
      g_dir = g_root + "/d";
      mkdir(g_dir.c_str(), 0755);
      std::string errfile = g_root + "/err";
      std::vector<Scenario*> list;
      for (Scenario* s = Scenario::head(); s; s = s->next) {
         if (!only.empty() && only != s->name) continue;
         if (replay.empty() && (g_thorough ? s->tcap : s->qcap) == 0) continue;
         if (!prop.empty() && (" " + std::string(s->props) + " ").find(" " + prop + " ") == std::string::npos) continue;
         list.insert(list.begin(), s);
      }
      double t_end = now() + maxt;
      int left = (int)list.size(), rv = 0;
      for (Scenario* sc : list) {
         double t0 = now(), deadline = t0 + (t_end - t0) / left--;
         memset(shm, 0, sizeof(Shm));
         if (g_replay) { shm->n = (int)rc.size(); for (size_t i = 0; i < rc.size(); i++) shm->c[i] = rc[i]; }
         long cap = g_thorough ? sc->tcap : sc->qcap;
         std::string viol;
         std::set<std::string> sigs;
         bool first = true;
         int nfailed = 0, killed = 0;
         while (!shm->done) {
            shm->failed = shm->intest = 0;
            pid_t pid = fork();
            if (pid == 0) {
               setpgid(0, 0);
               errfd = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
               dup2(errfd, 2);
               dup2(errfd, 1);
               struct rlimit rl = {0, 0};
               setrlimit(RLIMIT_CORE, &rl);
               if (chdir(g_dir.c_str())) _exit(97);
               worker(sc, cap, deadline, first);
            }
            int st;
            long last = -1;
            double lt = now();
            bool hang = false;
            while (waitpid(pid, &st, WNOHANG) == 0) {
               if (shm->progress != last) { last = shm->progress; lt = now(); }
               if (now() - lt > 45) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
               usleep(last < 50 ? 500 : 3000);
            }
            first = false;
            if (shm->done) break;
            if (!hang && !shm->failed && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && killed++ < 5) { usleep(100000); first = true; continue; }  // ended from outside: the same case again
            // a failed case
            std::string sig, text, err = slurp(errfile);
            if (shm->failed) { sig = shm->sig; text = shm->text; }
            else if (hang) { sig = "hang"; text = "no progress for 45 s"; }
            else if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
               printf("{\"scenario\":\"%s\",\"error\":%s}\n", sc->name, json(err.substr(0, 3000)).c_str());
               rv = 2;
               goto out;
            } else {
               sig = "crash";
               text = (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exited with " + std::to_string(WEXITSTATUS(st))) + "; output: " + err.substr(0, 4000);
            }
            if (sigs.insert(sig).second) {
               std::string path = replays + "/" + sc->name + "-" + std::to_string(g_shard) + "-" + std::to_string(sigs.size()) + ".replay";
               std::ofstream f(g_replay ? std::string("/dev/null") : path);
               f << "scenario " << sc->name << "\nchoices";
               for (int i = 0; i < shm->pos && i < shm->n; i++) f << " " << shm->c[i];
               f << "\n# " << sig << ": " << text << "\n";
               viol += std::string(viol.empty() ? "" : ",") + "{\"signature\":" + json(sig) + ",\"text\":" + json(sig + ": " + text) + ",\"replay\":" + json(path) + "}";
            }
            if (g_replay || (int)sigs.size() >= maxsigs || ++nfailed >= 100) break;
            shm->cases++;
         }
         {
            std::string samples;
            for (int i = 0; i < shm->nsamples; i++) samples += std::string(i ? "," : "") + json(shm->samples[i]);
            printf("{\"scenario\":\"%s\",\"mode\":\"seq\",\"complete\":%s,\"executions\":%ld,\"terminal\":%ld,\"states\":%ld,\"steps\":%ld,\"outcomes\":%ld,\"wall_s\":%.3f,\"samples\":[%s],\"violations\":[%s]}\n",
                   sc->name, shm->done == 1 ? "true" : "false", (long)shm->cases, (long)shm->cases, (long)shm->nstates, (long)shm->steps, (long)shm->nstates, now() - t0, samples.c_str(), viol.c_str());
            fflush(stdout);
            if (!viol.empty()) rv = 1;
         }
      }
   out:
      wipe(g_root, true);
      return rv;
   }
}  // namespace seq
#define SEQ(NAME, PROPS, FLAGS, QCAP, TCAP)      \
   static void seq_run_##NAME();                 \
   static seq::Scenario seq_reg_##NAME(#NAME, PROPS, seq_run_##NAME, FLAGS, QCAP, TCAP); \
   static void seq_run_##NAME()
#define EXPECT(cond, sig, what) do { if (!(cond)) seq::fail(sig, std::string(what)); } while (0)
#define SEQ_MAIN int main(int c, char** v) { return seq::run(c, v); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:handle_abort=0:handle_segv=1:allocator_may_return_null=1:exitcode=66:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=0:exitcode=66"; }
#endif
#endif
