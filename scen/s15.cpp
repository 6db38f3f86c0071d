// C15 log files are created where and with the name that was asked for
#include "files.h"
#include <dlfcn.h>
using seq::choose;
// Files directly in the filesystem root are redirected: the sandbox' root is not written to.
static std::string root_stand_in;
template <typename F> static FILE* redirected(const char* sym, const char* path, const char* mode) {
   static F real = (F)dlsym(RTLD_NEXT, sym);
   std::string p = path;
   if (!root_stand_in.empty() && p.size() > 1 && p[0] == '/') {
      size_t q = p.find_first_not_of('/');
      if (q != std::string::npos && p.find('/', q) == std::string::npos) return real((root_stand_in + "/" + p.substr(q)).c_str(), mode);
   }
   return real(path, mode);
}
extern "C" FILE* fopen(const char* p, const char* m) { return redirected<FILE* (*)(const char*, const char*)>("fopen", p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return redirected<FILE* (*)(const char*, const char*)>("fopen64", p, m); }
static std::string stamp(long long ns) {
   time_t t = ns / 1000000000;
   char b[64];
   struct tm tm;
   localtime_r(&t, &tm);
   strftime(b, sizeof b, "%Y%m%d-%H%M%S", &tm);
   return b;
}
static std::string sanitised(const std::string& p) {
   std::string r;
   for (char c : p) if (!strchr(" \t\n\v\f\r/\\.:", c) || !c) r += c;
   return r;
}
static bool legal(const std::string& p) { return !p.empty() && p.find_first_of("/,|<>:#$%{}[]'\"^!?+* ") == std::string::npos; }
static std::string where(const std::string& d) {  // the directory part of the expected name
   std::string r = d;
   std::replace(r.begin(), r.end(), '\\', '/');
   bool rooted = !r.empty() && r.find_first_not_of("/ ") == std::string::npos && r[0] == '/';
   while (!r.empty() && (r.back() == '/' || r.back() == ' ')) r.pop_back();
   return r.empty() ? (rooted ? "/" : "") : r + "/";
}
static std::vector<std::string> tree(const std::string& d, const std::string& rel = "") {
   std::vector<std::string> r;
   for (auto& n : seq::ls(d + "/" + rel)) {
      std::string p = rel.empty() ? n : rel + "/" + n;
      struct stat st;
      if (lstat((d + "/" + p).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { for (auto& x : tree(d, p)) r.push_back(x); } else r.push_back(p);
   }
   std::sort(r.begin(), r.end());
   return r;
}
// the process works in <scratch>/cwd; everything else that is written in <scratch> would be misplaced
static std::string top, cwd;
static void setup() {
   vclock::set(1700000000ll * 1000000000 + 5);
   top = seq::scratch();
   cwd = top + "/cwd";
   mkdir(cwd.c_str(), 0755);
   for (auto d : {"/d1", "/d1/sub", "/d 2", "/d3.x"}) mkdir((cwd + d).c_str(), 0755);
   mkdir((top + "/outside").c_str(), 0755);
   mkdir((top + "/root").c_str(), 0755);
   std::ofstream(cwd + "/afile") << "x";
   if (chdir(cwd.c_str())) _exit(97);
}
static std::string normal(const std::string& p) {  // path below top, without ./ and //
   std::string full = p[0] == '/' ? p : cwd + "/" + p, r;
   for (size_t i = 0; i < full.size(); i++) {
      if (full[i] == '/' && (full.compare(i, 3, "/./") == 0)) { i++; continue; }
      if (full[i] == '/' && i + 1 < full.size() && full[i + 1] == '/') continue;
      r += full[i];
   }
   size_t u;
   while ((u = r.find("/../")) != std::string::npos) { size_t b = r.rfind('/', u - 1); r.erase(b, u + 3 - b); }
   return r.compare(0, top.size() + 1, top + "/") == 0 ? r.substr(top.size() + 1) : r;
}
// creates a sink and judges its file; returns false if it is to abort (judged in a child)
static void creation(const std::string& prefix, const std::string& dir, const std::string& id, const std::string& ctx) {
   std::string clean = sanitised(prefix), name = clean + "." + (id.empty() ? "" : id + ".") + stamp(vclock::ns) + ".log";
   std::vector<std::string> before = tree(top);
   seq::step();
   if (!legal(clean)) {
      seq::End e = seq::sub([&] { g3::FileSink s(prefix, dir, id); _exit(0); });
      EXPECT(e.signaled && e.value == SIGABRT, "abort", "an illegal prefix did not end in an abort (" + std::to_string(e.value) + "); " + ctx);
      EXPECT(e.err.find("illegal log prefix") != std::string::npos, "abort-message", "no message: " + seq::show(e.err) + "; " + ctx);
      EXPECT(tree(top) == before, "misplaced", "an illegal prefix created a file; " + ctx);
      seq::state("abort " + clean);
      return;
   }
   std::string d = where(dir);
   struct stat st;
   std::string sd = d == "/" ? top + "/root" : d.empty() ? "." : d;
   bool usable = stat(sd.c_str(), &st) == 0 && S_ISDIR(st.st_mode) && access(sd.c_str(), W_OK) == 0;
   std::string want = usable ? d + name : "./" + name, real = usable && d == "/" ? "root/" + name : normal(want);
   root_stand_in = top + "/root";
   std::string reported;
   {
      g3::FileSink s(prefix, dir, id);
      reported = s.fileName();
      root_stand_in.clear();
      std::vector<std::string> now = tree(top), added;
      std::set_difference(now.begin(), now.end(), before.begin(), before.end(), std::back_inserter(added));
      std::string list;
      for (auto& a : added) list += " " + a;
      EXPECT(added.size() == 1, "files", std::to_string(added.size()) + " new files:" + list + "; " + ctx);
      EXPECT(added[0] == real, "misplaced", "the file is " + seq::show(added[0]) + ", asked for was " + seq::show(real) + "; " + ctx);
      EXPECT(d == "/" && usable ? reported == want : normal(reported) == real, "reported", "the sink reports the file " + seq::show(reported) + ", it is " + seq::show(real) + "; " + ctx);
      g3::LogMessage m("f.cpp", 1, "f", INFO);
      m.write().append("some entry");
      s.fileWrite(g3::LogMessageMover{std::move(m)});
   }
   EXPECT(seq::slurp(top + "/" + real).find("some entry") != std::string::npos, "content", "the entry is not in the reported file; " + ctx);
   seq::state(reported);
   seq::note(ctx + " -> " + reported);
}
static const char* kChars[] = {"a", "Z9", "_", "-", "(", "@", "\xc3\xa9", ".", "/", "\\", ":", " ", "\t", "\n", "*", "%", "$", ",", "\"", "[", "#", "..", "../", "~", "|", "<", ">", "{", "}", "]", "'", "^", "!", "?", "+"};
// every prefix of up to 3 of these parts
SEQ(prefixes, "C15", 0, 3000000, 3000000) {
   setup();
   std::string p;
   int n = sizeof kChars / sizeof *kChars, depth = 3;
   for (int i = 0; i < depth; i++) {
      int k = choose((i == 2 && !seq::thorough() ? 14 : n) + 1);
      if (k == 0) break;
      p += kChars[k - 1];
   }
   creation(p, "d1/", "id", "prefix " + seq::show(p));
}
SEQ(directories, "C15", 0, 100000, 100000) {
   setup();
   std::string dir = seq::pick({"", ".", "./", "d1", "d1/", "d1//", "d1\\", "d1 ", "d1/ ", "d1 / ", "d1/sub", "d1\\sub", "d1\\sub\\", "d1/./sub", "d1//sub///", "missing", "missing/deeper", "afile", "afile/", "d 2", "d 2/", "d3.x", "../outside", "..\\outside\\", "@abs", "@abs/", "@absbig//", "/", "//", " ", "   ", "\\", "@missing"});
   if (dir[0] == '@') dir = dir == "@missing" ? top + "/nowhere" : top + "/outside" + dir.substr(dir.compare(0, 7, "@absbig") == 0 ? 7 : 4);
   std::string id = seq::pick({"", "g3log", "a.b", "with space", "1234", "-", "\xc3\xa9", "a:b", "..", "%Y", "%f"});
   std::string prefix = seq::pick({"pre", "p.r/e", " x\ty ", "(1)", "%", "a*b"});
   static const char* zones[] = {"UTC", "Asia/Kolkata", "EST5EDT"};
   int z = choose(3);
   setenv("TZ", zones[z], 1);
   tzset();
   // when: ordinary, the last second of a year, a leap day, single digits
   vclock::set(seq::pick({1700000000ll, 1704067199ll, 1709164800ll, 978307205ll, 86399ll}) * 1000000000ll + 999999999);
   creation(prefix, dir, id, "prefix " + seq::show(prefix) + " directory " + seq::show(dir) + " id " + seq::show(id) + " zone " + zones[z]);
}
// a directory without write permission, as an unprivileged user
SEQ(no_permission, "C15", 0, 1000, 1000) {
   setup();
   int k = choose(4);
   std::string dir = k == 0 ? "d1" : k == 1 ? "d1/sub" : k == 2 ? "" : "d3.x/";
   chmod((cwd + "/d1").c_str(), 0555);
   chmod((cwd + "/d1/sub").c_str(), 0555);
   std::string name = "pre." + stamp(vclock::ns) + ".log";
   chmod(seq::g_root.c_str(), 0755);
   if (geteuid() == 0) { for (auto d : {"", "/d1", "/d1/sub", "/d3.x"}) if (chown((cwd + d).c_str(), 65534, 65534)) _exit(97); }
   seq::End e = seq::sub([&] {
      if (geteuid() == 0 && (setgid(65534) || setuid(65534))) _exit(97);
      g3::FileSink s("pre", dir, "");
      std::string r = s.fileName();
      if (r != (k == 2 ? name : k == 3 ? "d3.x/" + name : "./" + name)) { fprintf(stderr, "reported %s\n", r.c_str()); _exit(3); }
      std::string real = cwd + "/" + r;
      if (access(real.c_str(), F_OK)) { fprintf(stderr, "no %s\n", real.c_str()); _exit(4); }
      // and a change to a directory that cannot be used
      std::string before = s.fileName();
      if (!s.changeLogFile("d1/", "x").empty() || s.fileName() != before) _exit(5);
   });
   chmod((cwd + "/d1").c_str(), 0755);
   seq::step();
   seq::state(k);
   EXPECT(!e.signaled && e.value == 0, "fallback", "directory " + dir + ": " + std::to_string(e.value) + " " + seq::show(e.err));
}
// the name after changes, through a worker's default logger too
SEQ(changes, "C15", 0, 1000000, 10000000) {
   seq::split(4);
   setup();
   bool handle = choose(2);
   std::string prefix = seq::pick({"pre", " a.b/c "}), clean = sanitised(prefix), trail;
   std::unique_ptr<g3::LogWorker> w;
   std::unique_ptr<g3::FileSinkHandle> h;
   std::unique_ptr<g3::FileSink> s;
   if (handle) {
      w = g3::LogWorker::createLogWorker();
      h = w->addDefaultLogger(prefix, "d1");
   } else s = std::make_unique<g3::FileSink>(prefix, "d1", "g3log");
   auto name = [&] { return handle ? h->call(&g3::FileSink::fileName).get() : s->fileName(); };
   EXPECT(name() == "d1/" + clean + ".g3log." + stamp(vclock::ns) + ".log", "reported", seq::show(name()));
   int n = seq::thorough() ? 3 : 2;
   for (int i = 0; i < n; i++) {
      vclock::advance(seq::pick({0ll, 1000000000ll, 86400ll * 1000000000}));
      std::string dir = seq::pick({"", "d1/", "d1/sub/", "./", "nodir/", "d1/part_"}), id = seq::pick({"", "x", "a.b"});
      std::string want = dir + clean + "." + (id.empty() ? "" : id + ".") + stamp(vclock::ns) + ".log", old = name();
      trail += " (" + dir + "," + id + ")";
      std::string got = handle ? h->call(&g3::FileSink::changeLogFile, dir, id).get() : s->changeLogFile(dir, id);
      seq::step();
      if (dir == "nodir/") {
         EXPECT(got.empty() && name() == old, "failed-change", "returned " + seq::show(got) + ", now " + seq::show(name()) + " after" + trail);
      } else {
         EXPECT(got == want && name() == want, "change", "returned " + seq::show(got) + ", reports " + seq::show(name()) + " instead of " + want + " after" + trail);
         EXPECT(access(want.c_str(), F_OK) == 0, "change", "no file " + want);
      }
      if (handle) break;  // the operations are the same ones
      seq::state(name());
   }
}
SEQ_MAIN
