// C14 after a crash the log file is a prefix of the entries, within the flush bound
#include "files.h"
#include <dlfcn.h>
#include <sys/uio.h>
using seq::choose;
// ---- the process dies at the kill_at-th write to a log file, after `torn` bytes of it
struct Shared {
   int writes, kill_at, torn_kind;
   size_t len[512];
   int received;  // receive calls that returned
   bool killed;
};
static Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
static bool armed;
static ssize_t logged_write(int fd, const char* b, size_t n) {
   if (!armed || fd <= 2) return syscall(SYS_write, fd, b, n);
   int k = sh->writes++;
   if (k < 512) sh->len[k] = n;
   if (k == sh->kill_at) {
      size_t t = sh->torn_kind == 0 ? 0 : sh->torn_kind == 1 ? (n > 1 ? 1 : 0) : sh->torn_kind == 2 ? n / 2 : sh->torn_kind == 3 ? (n ? n - 1 : 0) : n;
      if (t) (void)!syscall(SYS_write, fd, b, t);
      sh->killed = true;
      _exit(9);  // as by SIGKILL: nothing is flushed
   }
   return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
   ssize_t r = logged_write(fd, (const char*)b, n);
   return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
   if (!armed || fd <= 2) return syscall(SYS_writev, fd, v, c);
   std::string all;  // a writev is one write
   for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
   return logged_write(fd, all.data(), all.size());
}
static std::string dir;
// the operations; fills the model (in the parent too, where nothing is killed: it is deterministic)
static void history(FileModel& m, const std::vector<int>& ops, size_t every, bool real) {
   vclock::set(1700000000ll * 1000000000 + 5);
   auto sink = std::make_unique<g3::FileSink>("pre", dir, "", every);
   m.visits.push_back(sink->fileName());
   int serial = 0, visit = 0;
   for (int o : ops) {
      if (o == 4) {
         vclock::advance(1000000000);
         m.visits.push_back(sink->changeLogFile(dir + "/", ""));
         visit++;
         continue;
      }
      if (o == 5) {
         time_t t = vclock::ns / 1000000000;
         char name[100];
         struct tm tm;
         localtime_r(&t, &tm);
         strftime(name, sizeof name, "/nonexistent/pre.%Y%m%d-%H%M%S.log", &tm);
         m.targets.push_back(name);
         sink->changeLogFile("/nonexistent/", "");
         continue;
      }
      if (o == 6) {
         sink->overrideLogHeader("H\n");
         m.headers.insert("H\n");
         continue;
      }
      int count = o == 3 ? 3 : 1;
      for (int i = 0; i < count; i++) {
         g3::LogMessage msg("file.cpp", 7, "func", INFO);
         msg.write().append("#" + std::to_string(serial) + "#" + std::string(o == 1 ? 9000 : o == 2 ? 20000 : 4, 'a' + serial % 26));
         serial++;
         m.entries.push_back(Entry{msg.toString(), visit});
         sink->fileWrite(g3::LogMessageMover{std::move(msg)});
         if (real) sh->received++;
      }
   }
   sink.reset();
}
static void kill_anywhere(const std::vector<int>& ops, size_t every, std::string trail, std::vector<int> tears) {
   // the expected history, and how many writes there are
   static std::vector<int> last_ops;
   static size_t last_every;
   static FileModel m;
   static int nwrites;
   static std::string last_dir;
   dir = seq::scratch() + "/x";
   mkdir(dir.c_str(), 0755);
   if (last_ops != ops || last_every != every || m.visits.empty()) {
      m = FileModel();
      memset(sh, 0, sizeof *sh);
      sh->kill_at = -1;
      armed = true;
      history(m, ops, every, true);
      armed = false;
      nwrites = sh->writes;
      last_ops = ops;
      last_every = every;
      EXPECT(nwrites < 512, "harness", "too many writes");
      seq::wipe(dir);
   }
   int k = choose(nwrites + 1), torn = k < nwrites ? tears[choose((int)tears.size())] : 0;
   memset(sh, 0, sizeof *sh);
   sh->kill_at = k;
   sh->torn_kind = torn;
   static const char* tk[] = {"before", "after one byte of", "in the middle of", "before the last byte of", "right after"};
   trail += std::string(", killed ") + tk[torn] + " write " + std::to_string(k) + " of " + std::to_string(nwrites);
   pid_t pid = fork();
   if (pid == 0) {
      FileModel own;
      armed = true;
      history(own, ops, every, true);
      _exit(0);
   }
   int st;
   waitpid(pid, &st, 0);
   EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == (k < nwrites ? 9 : 0), "crash", "ended with status " + std::to_string(st) + "; " + trail);
   seq::step();
   std::map<std::string, Content> files;
   bool torn_seen = false, header = false;
   std::string after;
   for (auto& v : m.visits) {
      if (files.count(v)) continue;
      std::string c = seq::slurp(v);
      bool t = false;
      files[v] = parse(m, v, c, &t, trail);
      EXPECT(!torn_seen || c.empty(), "torn", "an incomplete piece in the middle: " + v + " has content after it; " + trail);
      if (t) torn_seen = true;
      // the header comes before the first entry
      for (auto& p : files[v].all) {
         header |= p.k == Piece::HEADER;
         if (p.k == Piece::ENTRY) EXPECT(header, "header", "no header before the first entry; " + trail);
      }
      after += "[" + std::to_string(files[v].all.size()) + (t ? "~" : "") + "]";
   }
   size_t n = judge_entries(m, files, trail), bound = sh->received / every * every;
   EXPECT(n >= bound, "flush-bound", "only " + std::to_string(n) + " of " + std::to_string(sh->received) + " entries are in the file, flush interval " + std::to_string(every) + "; " + trail);
   if (k == nwrites) EXPECT(n == m.entries.size(), "lost", std::to_string(n) + " of " + std::to_string(m.entries.size()) + " entries after the destruction; " + trail);
   seq::state(seq::mix(seq::mix(seq::hash(after), n), seq::mix(sh->received, every)));
   seq::note(trail + " -> " + std::to_string(n) + " entries of " + std::to_string(sh->received) + " received, files " + after);
}
SEQ(kill_points, "C14", 0, 3000000, 30000000) {
   seq::split(3);
   size_t every = seq::pick({1, 2, 3, 5, 100});
   std::vector<int> ops;
   int depth = seq::thorough() ? 5 : 4;
   static const char* names[] = {"write", "write-9000", "write-20000", "write*3", "change", "change-fails", "header"};
   std::string trail = "flush every " + std::to_string(every) + ":";
   for (int i = 0; i < depth; i++) {
      int o = choose(8);
      if (o == 7) break;
      ops.push_back(o);
      trail += std::string(" ") + names[o];
   }
   kill_anywhere(ops, every, trail, {0, 1, 2, 3, 4});
}
// long histories: around the multiples of the flush interval, with a file change somewhere
SEQ(kill_long, "C14", 0, 3000000, 3000000) {
   seq::split(3);
   size_t every = seq::pick({1, 7, 64, 99, 100, 101, 128, 300});
   int n = seq::pick({100, 101, 202, 257}), change = choose(3);
   std::vector<int> ops(n, 0);
   if (change == 1) ops.insert(ops.begin() + every % n, 4);
   if (change == 2) ops.insert(ops.begin() + 50, 4);
   kill_anywhere(ops, every, "flush every " + std::to_string(every) + ": " + std::to_string(n) + " writes, change " + std::to_string(change), {0, 2, 4});
}
// whatever ends the process through the logger leaves nothing behind
SEQ(endings, "C14", 0, 100000, 1000000) {
   size_t every = seq::pick({1, 2, 3, 100, 1000});
   int n = seq::pick({0, 1, 2, 3, 5, 99, 100, 101, 250}), end = choose(9);
   static const char* names[] = {"worker destroyed", "LOG(FATAL)", "CHECK", "SIGSEGV", "abort", "sink removed", "SIGTERM", "all sinks removed", "fatal in another thread"};
   dir = seq::scratch();
   vclock::set(1700000000ll * 1000000000 + 5);
   std::string trail = std::to_string(n) + " messages, flush every " + std::to_string(every) + ", " + names[end];
   seq::End r = seq::sub([&] {
      auto w = g3::LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<g3::FileSink>("pre", dir, "", every), &g3::FileSink::fileWrite);
      g3::initializeLogging(w.get());
      for (int i = 0; i < n; i++) LOG(INFO) << "#" << i << "#";
      switch (end) {
      case 0: w.reset(); break;
      case 1: LOG(FATAL) << "#fatal#"; _exit(77);
      case 2: CHECK(n < 0) << "#fatal#"; _exit(77);
      case 3: raise(SIGSEGV); _exit(77);
      case 4: abort(); _exit(77);
      case 5: w->removeSink(std::move(h)); _exit(0);
      case 6: raise(SIGTERM); _exit(77);
      case 7: w->removeAllSinks(); _exit(0);
      case 8: std::thread([] { LOGF(FATAL, "%s", "#fatal#"); }).join(); _exit(77);
      }
   }, 30);
   seq::step();
   bool fatal = end != 0 && end != 5 && end != 7;
   EXPECT(!r.hang, "hang", trail);
   EXPECT(fatal ? r.signaled : (!r.signaled && r.value == 0), "end", "ended with " + std::to_string(r.value) + "; " + trail + "; output " + seq::show(r.err, 500));
   std::string c, want;
   for (auto& f : seq::ls(dir)) c += seq::slurp(dir + "/" + f);
   size_t p = 0;
   for (int i = 0; i < n; i++) {
      std::string e = "]\t#" + std::to_string(i) + "#\n";
      size_t q = c.find(e, p);
      EXPECT(q != std::string::npos, "lost", "entry " + std::to_string(i) + " is not in the file; " + trail);
      p = q + e.size();
   }
   if (fatal) {
      const char* w = end == 3 ? "Received fatal signal: SIGSEGV" : end == 4 ? "Received fatal signal: SIGABRT" : end == 6 ? "Received fatal signal: SIGTERM" : "#fatal#";
      p = c.find(w, p);
      EXPECT(p != std::string::npos, "lost", "the fatal message is not in the file; " + trail);
   }
   size_t q = c.find("g3log g3FileSink shutdown at: ", p);
   EXPECT(q != std::string::npos && c.find('\n', q) == c.size() - 1, "shutdown-line", "the file does not end with the shutdown line: " + seq::show(c.substr(c.size() > 200 ? c.size() - 200 : 0)) + "; " + trail);
   seq::state(seq::mix(seq::mix(every, n), end));
}
SEQ_MAIN
