// C13 the log file holds every received message once, in order, across rotation
#include "files.h"
using seq::choose;
static std::string custom(const g3::LogMessage& m) { return "<" + m.level() + "|" + m.line() + "> "; }
struct Run {
   FileModel m;
   std::unique_ptr<g3::FileSink> sink;
   g3::LogMessage::LogDetailsFunc details = &g3::LogMessage::DefaultLogDetailsToString;
   std::string header = *FileModel().headers.begin();
   std::string trail, dir = seq::scratch() + "/";
   size_t every;
   int serial = 0, visit = 0;
   bool any = false;
   std::vector<std::string> first_header;  // header in force at the first entry of a sink
   void open(size_t x) {
      every = x;
      sink = std::make_unique<g3::FileSink>("pre", dir, "id", x);
      details = &g3::LogMessage::DefaultLogDetailsToString;
      use(sink->fileName());
      struct stat st;
      EXPECT(stat(sink->fileName().c_str(), &st) == 0, "name", "no file " + sink->fileName());
   }
   void use(const std::string& name) { m.visits.push_back(name); visit = (int)m.visits.size() - 1; }
   g3::LogMessage make(size_t len) {
      g3::LogMessage msg("dir/some_file.cpp", 100 + serial % 7, "func", serial % 2 ? INFO : WARNING);
      msg.write().append("#" + std::to_string(serial) + "#" + std::string(len, 'a' + serial % 26));
      serial++;
      return msg;
   }
   void write(size_t len) {
      auto msg = make(len);
      m.entries.push_back(Entry{msg.toString(details), visit});
      g3::LogMessageMover mover{std::move(msg)};
      sink->fileWrite(std::move(mover));
      seq::step();
   }
   // where: 0 other directory, 1 same place and id, 2 directory missing, 3 the name is taken by a directory, 4 other id, 5 the name is taken by a file
   void change(int where) {
      std::string d = where == 0 ? dir + "other/" : where == 2 ? dir + "missing/sub/" : dir, id = where == 4 ? "id2" : where == 5 ? "id5" : where == 3 ? "id3" : "id";
      if (where == 0) mkdir((dir + "other").c_str(), 0755);
      time_t t = vclock::ns / 1000000000;
      char stamp[64];
      struct tm tm;
      localtime_r(&t, &tm);
      strftime(stamp, sizeof stamp, "%Y%m%d-%H%M%S", &tm);
      std::string want = d + "pre." + id + "." + stamp + ".log", before = sink->fileName();
      if (where == 3) mkdir(want.c_str(), 0755);
      if (where == 5 && !m.existing.count(want)) {
         bool used = false;
         for (auto& v : m.visits) used |= v == want;
         if (!used) { std::ofstream(want) << "precious\n"; m.existing[want] = "precious\n"; }
      }
      std::string got = sink->changeLogFile(d, id);
      seq::step();
      if (where == 2 || where == 3) {
         EXPECT(got.empty(), "failed-change", "a file change that is impossible returned " + seq::show(got) + "; " + trail);
         EXPECT(sink->fileName() == before, "failed-change", "after a failed change the file name is " + sink->fileName() + "; " + trail);
         m.targets.push_back(want);
      } else {
         EXPECT(got == want, "change", "changing the file returned " + seq::show(got) + " instead of " + want + "; " + trail);
         EXPECT(sink->fileName() == want, "change", "the sink's file name is " + sink->fileName() + " instead of " + want + "; " + trail);
         struct stat st;
         EXPECT(stat(want.c_str(), &st) == 0, "change", "no file " + want + "; " + trail);
         use(got);
      }
   }
   void close() {
      sink.reset();
      seq::step();
   }
   void judge() {
      std::map<std::string, Content> files;
      int downs = 0;
      for (auto& v : m.visits) if (!files.count(v)) files[v] = parse(m, v, seq::slurp(v), nullptr, trail);
      size_t n = judge_entries(m, files, trail);
      EXPECT(n == m.entries.size(), "lost", std::to_string(m.entries.size() - n) + " of " + std::to_string(m.entries.size()) + " entries are in no file; " + trail);
      for (auto& f : files) for (auto& p : f.second.all) downs += p.k == Piece::SHUTDOWN;
      EXPECT(downs == m.sinks, "shutdown-line", std::to_string(downs) + " shutdown lines; " + trail);
      auto& l = files[m.visits.back()].all;
      EXPECT(!l.empty() && l.back().k == Piece::SHUTDOWN, "shutdown-line", "the last file does not end with the shutdown line; " + trail);
      // the header comes before the first entry
      if (!m.entries.empty()) {
         bool header = false, entry = false;
         std::set<std::string> seen;
         for (auto& v : m.visits) {
            if (entry || !seen.insert(v).second) continue;
            for (auto& p : files[v].all) {
               if (p.k == Piece::HEADER && !entry) header = true;
               if (p.k == Piece::ENTRY) { if (!entry) EXPECT(header, "header", "no header before the first entry; " + trail); entry = true; }
            }
         }
      }
      std::string st;
      for (auto& f : files) { st += "[" + f.first.substr(dir.size() > f.first.size() ? 0 : dir.size()) + ":"; for (auto& p : f.second.all) st += std::to_string(p.k) + "." + std::to_string(p.n) + " "; st += "]"; }
      seq::state(st);
      seq::note(trail + " => " + st);
   }
};
// all sequences of operations
SEQ(rotation, "C13", 0, 3000000, 30000000) {
   seq::split(3);
   vclock::set(1700000000ll * 1000000000 + 123456789);
   Run r;
   size_t every = seq::pick({1, 2, 3, 100});
   int pre = choose(2);
   r.trail = "flush every " + std::to_string(every) + ": ";
   if (pre) {  // the first name is taken
      time_t t = vclock::ns / 1000000000;
      char stamp[64];
      struct tm tm;
      localtime_r(&t, &tm);
      strftime(stamp, sizeof stamp, "%Y%m%d-%H%M%S", &tm);
      std::string f = r.dir + "pre.id." + stamp + ".log";
      std::ofstream(f) << "yesterday\nand before";
      r.m.existing[f] = "yesterday\nand before";
      r.trail += "(file exists) ";
   }
   r.open(every);
   static const char* names[] = {"", "write", "write-big", "change-directory", "change-same", "change-fails", "change-to-existing-dir-name", "change-id", "change-to-existing-file", "clock+1s", "details=full", "details=custom", "header=custom", "header=empty", "restart", "write*3"};
   int depth = seq::thorough() ? 5 : 4;
   for (int i = 0; i < depth; i++) {
      int o = choose(16);
      if (o == 0) break;
      r.trail += std::string(names[o]) + " ";
      switch (o) {
      case 1: r.write(3); break;
      case 2: r.write(9000); break;
      case 3: r.change(0); break;
      case 4: r.change(1); break;
      case 5: r.change(2); break;
      case 6: r.change(3); break;
      case 7: r.change(4); break;
      case 8: r.change(5); break;
      case 9: vclock::advance(1000000000); break;
      case 10: r.details = &g3::LogMessage::FullLogDetailsToString; r.sink->overrideLogDetails(r.details); break;
      case 11: r.details = &custom; r.sink->overrideLogDetails(r.details); break;
      case 12: r.sink->overrideLogHeader("my header 1\nmy header 2\n"); r.m.headers.insert("my header 1\nmy header 2\n"); break;
      case 13: r.sink->overrideLogHeader(""); r.m.headers.insert(""); break;
      case 14: r.close(); r.m.sinks++; r.open(every); break;
      case 15: for (int k = 0; k < 3; k++) r.write(k); break;
      }
   }
   r.write(5);
   r.close();
   r.judge();
}
// long histories: every flush interval against counts around its multiples, one change somewhere
SEQ(long_runs, "C13", 0, 100000, 1000000) {
   seq::split(3);
   vclock::set(1700000000ll * 1000000000);
   Run r;
   size_t every = seq::pick({1, 2, 7, 64, 99, 100, 101, 128, 1000});
   int n = seq::pick({0, 1, 99, 100, 101, 199, 200, 201, 257, 300, 512});
   size_t len = seq::pick({0, 40, 700});
   int at = choose(6);  // change the file before message 0, 1, half, every-1, every, or never
   int pos = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? n / 2 : at == 3 ? (int)every - 1 : at == 4 ? (int)every : -1;
   r.trail = "flush every " + std::to_string(every) + ", " + std::to_string(n) + " messages of " + std::to_string(len) + ", change at " + std::to_string(pos);
   r.open(every);
   for (int i = 0; i < n; i++) {
      if (i == pos) r.change(choose(2));
      r.write(len);
      if (i % 50 == 49) vclock::advance(400000000);
   }
   r.close();
   r.judge();
}
SEQ(very_long_run, "C13", 0, 100, 100) {
   seq::split(1);
   vclock::set(1700000000ll * 1000000000);
   size_t every = seq::pick({1, 100, 70000}), n = seq::thorough() ? 300000 : 66000;
   std::string dir = seq::scratch() + "/", name;
   std::string want;
   {
      g3::FileSink s("pre", dir, "", every);
      s.overrideLogDetails([](const g3::LogMessage&) { return std::string(); });
      s.overrideLogHeader("");
      name = s.fileName();
      for (size_t i = 0; i < n; i++) {
         g3::LogMessage m("f.cpp", 1, "f", INFO);
         m.write().append(std::to_string(i));
         want += m.toString([](const g3::LogMessage&) { return std::string(); });
         s.fileWrite(g3::LogMessageMover{std::move(m)});
         seq::step();
      }
   }
   std::string c = seq::slurp(name);
   size_t p = c.find('\n') + 1, q = c.rfind("g3log g3FileSink shutdown");
   EXPECT(q != std::string::npos && c.substr(p, q - p) == want, "content", "the content after " + std::to_string(n) + " messages is not the sequence of the messages");
   seq::state(every);
}
SEQ_MAIN
