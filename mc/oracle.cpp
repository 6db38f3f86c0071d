// Glue between the recorded trace and the scenario's oracle (runs in the parent; may use the C++ library).
#include "mc.h"
#include "shm.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <sstream>

namespace mc {
   bool Trace::hb(const Ev& x, const Ev& y) { return &x != &y && y.vc[x.tid] >= x.vc[x.tid]; }
   std::vector<const Ev*> Trace::with(int code) const {
      std::vector<const Ev*> r;
      for (auto& e : ev) if (e.code == code) r.push_back(&e);
      return r;
   }
   const Ev* Trace::first(int code) const {
      for (auto& e : ev) if (e.code == code) return &e;
      return nullptr;
   }
   int Trace::count(int code) const { return with(code).size(); }
   int Trace::count(int code, long a) const {
      int n = 0;
      for (auto& e : ev) n += e.code == code && e.a == a;
      return n;
   }
   std::string Trace::read(const std::string& name) const {
      std::ifstream f(scratch + "/" + name, std::ios::binary);
      std::ostringstream o;
      o << f.rdbuf();
      return o.str();
   }
   std::vector<std::string> Trace::files() const {
      std::vector<std::string> r;
      if (DIR* d = opendir(scratch.c_str())) {
         while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name);
         closedir(d);
      }
      std::sort(r.begin(), r.end());
      return r;
   }
   void fail_c(const char*);
   void fail(const std::string& w) { fail_c(w.c_str()); }
}

void mc_oracle(mc::Scenario* sc, int end, int value, const char* err, int errlen, char* out, int outlen, uint64_t* outcome, char* ot, int otn) {
   mc::Trace tr;
   tr.end = (mc::End)end;
   tr.value = value;
   tr.err.assign(err, errlen);
   tr.scratch = g_shm->scratch;
   for (int i = 0; i < g_shm->nev; i++) {
      EvRec& e = g_shm->ev[i];
      tr.ev.push_back(mc::Ev{e.tid, e.code, (long)e.a, (long)e.b, e.text >= 0 ? g_shm->text + e.text : "", e.vc});
   }
   std::string v = sc->check(tr);
   snprintf(out, outlen, "%s", v.c_str());
   // outcome fingerprint: per-thread event sequences (texts cut: they may contain stack dumps)
   uint64_t h = 1469598103934665603ull;
   auto add = [&h](const void* p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char*)p)[i]; h *= 1099511628211ull; } };
   std::string text;
   for (int t = 0; t < mc::MAXT; t++) {
      bool any = false;
      for (auto& e : tr.ev) if (e.tid == t) {
         if (!any) { text += "T" + std::to_string(t) + "["; any = true; }
         add(&t, sizeof t); add(&e.code, sizeof e.code); add(&e.a, sizeof e.a); add(&e.b, sizeof e.b);
         std::string s = e.text.substr(0, 60);
         add(s.data(), s.size());
         text += " " + std::to_string(e.code) + "(" + std::to_string(e.a) + "," + std::to_string(e.b) + (s.empty() ? "" : "," + s) + ")";
      }
      if (any) text += " ] ";
   }
   add(&end, sizeof end); add(&value, sizeof value);
   text += "end=" + std::to_string(end) + "/" + std::to_string(value);
   *outcome = h;
   snprintf(ot, otn, "%s", text.c_str());
}
