// Reading back the files of a file sink: splits their content into entries, headers, notices and shutdown lines.
#pragma once
#include "lib.h"
#include "vclock.h"
struct Entry {
   std::string text;  // as formatted when it was received
   int visit;         // index of the file in use at that time
};
struct Piece { enum K { ENTRY, HEADER, NOTICE, SHUTDOWN, OTHER } k; int n; };
struct FileModel {
   std::vector<Entry> entries;
   std::vector<std::string> visits;   // file names in the order of use (a name may occur again)
   std::set<std::string> headers{std::string("\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n")};
   std::vector<std::string> targets;  // every name in a failed change
   std::map<std::string, std::string> existing;  // content of files before they were used
   int sinks = 1;
};
static inline bool starts(const std::string& s, size_t p, const std::string& w) { return s.compare(p, w.size(), w) == 0; }
static inline size_t eol(const std::string& s, size_t p) { auto e = s.find('\n', p); return e == std::string::npos ? s.size() : e + 1; }
// piece at p; returns its end, or npos if there is none; *torn: the text ends within the piece
static inline size_t piece_at(const FileModel& m, const std::string& s, size_t p, Piece& out, bool* torn) {
   auto whole = [&](const std::string& w, Piece v) -> size_t {
      if (starts(s, p, w)) { out = v; return p + w.size(); }
      if (torn && s.size() - p < w.size() && w.compare(0, s.size() - p, s, p, std::string::npos) == 0) { out = v; *torn = true; return s.size(); }
      return std::string::npos;
   };
   size_t best = std::string::npos;
   for (size_t i = 0; i < m.entries.size(); i++) if (starts(s, p, m.entries[i].text)) { out = {Piece::ENTRY, (int)i}; return p + m.entries[i].text.size(); }
   const std::string created = "\t\tg3log created log at: ";
   if (starts(s, p, created)) {
      out = {Piece::HEADER, 0};
      size_t q = eol(s, p);
      if (q == s.size() && s[q - 1] != '\n') { if (!torn) return std::string::npos; *torn = true; return q; }
      size_t longest = 0;
      for (auto& h : m.headers) if (starts(s, q, h) && h.size() >= longest) { longest = h.size(); best = q + h.size(); }
      if (best != std::string::npos && longest) return best;
      if (torn) for (auto& h : m.headers) if (s.size() - q < h.size() && h.compare(0, s.size() - q, s, q, std::string::npos) == 0) { *torn = true; return s.size(); }
      return best;  // an empty header, or none
   }
   const std::string down = "g3log g3FileSink shutdown at: ";
   if (starts(s, p, down)) {
      size_t q = eol(s, p);
      if (s[q - 1] != '\n') { if (!torn) return std::string::npos; *torn = true; }
      out = {Piece::SHUTDOWN, 0};
      return q;
   }
   // notices: "<time>\n\tChanging log file from : A\n\tto new location: B\n", "<time>\n\tNew log file. The previous log file was at: A\n", "\n<time> Unable to change ...: B"
   size_t e = eol(s, p);
   std::string l = s.substr(p, e - p);
   if (starts(s, e, "\tChanging log file from : ")) {
      size_t q = eol(s, e);
      if (starts(s, q, "\tto new location: ")) { out = {Piece::NOTICE, 0}; size_t r = eol(s, q); if (s[r - 1] != '\n') { if (!torn) return std::string::npos; *torn = true; } return r; }
   }
   if (starts(s, e, "\tNew log file. The previous log file was at: ")) { out = {Piece::NOTICE, 0}; size_t r = eol(s, e); if (s[r - 1] != '\n') { if (!torn) return std::string::npos; *torn = true; } return r; }
   if (l == "\n") {
      const std::string un = " Unable to change log file. Illegal filename or busy? Unsuccessful log name was: ";
      size_t u = s.find(un, e);
      if (u != std::string::npos && u - e < 60) {
         size_t t0 = u + un.size();
         const std::string* t = nullptr;
         for (auto& x : m.targets) if (starts(s, t0, x) && (!t || x.size() > t->size())) t = &x;
         if (t) { out = {Piece::NOTICE, 1}; size_t r = t0 + t->size(); return r < s.size() && s[r] == '\n' && !starts(s, r, "\n2") ? r + 1 : r; }
      }
   }
   if (torn) {
      // a torn entry, header line, shutdown line or notice
      for (size_t i = 0; i < m.entries.size(); i++) { size_t r = whole(m.entries[i].text, {Piece::ENTRY, (int)i}); if (r != std::string::npos) return r; }
      for (auto& w : {created, down}) { size_t r = whole(w, {Piece::OTHER, 0}); if (r != std::string::npos) return r; }
      if (s.size() - p < 400 && m.visits.size() + m.targets.size() > 1) { *torn = true; out = {Piece::NOTICE, 0}; return s.size(); }  // the rest of a notice
   }
   return std::string::npos;
}
struct Content {
   std::vector<int> entries;                 // in the order of the file
   std::vector<Piece> all;
};
// Parse one file. With torn, the last piece may be incomplete (its index is then not listed).
static inline Content parse(const FileModel& m, const std::string& name, const std::string& s0, bool* torn, const std::string& ctx) {
   Content c;
   std::string s = s0;
   auto ex = m.existing.find(name);
   size_t p = 0;
   if (ex != m.existing.end()) {
      EXPECT(starts(s, 0, ex->second), "overwritten", "the former content of " + name + " was overwritten: " + seq::show(s) + "; " + ctx);
      p = ex->second.size();
   }
   while (p < s.size()) {
      Piece k{Piece::OTHER, 0};
      bool t = false;
      size_t q = piece_at(m, s, p, k, torn ? &t : nullptr);
      EXPECT(q != std::string::npos && q > p, "content", "in " + name + " at offset " + std::to_string(p) + " of " + std::to_string(s.size()) + ": no entry, header or notice: " + seq::show(s.substr(p), 200) + "; before it: " + seq::show(s.substr(p > 150 ? p - 150 : 0, p > 150 ? 150 : p)) + "; " + ctx);
      p = q;
      if (t) { *torn = true; break; }
      c.all.push_back(k);
      if (k.k == Piece::ENTRY) c.entries.push_back(k.n);
   }
   return c;
}
// Every entry i < upto exactly once, those received after a change in a later file; returns the number of entries found.
static inline size_t judge_entries(const FileModel& m, const std::map<std::string, Content>& files, const std::string& ctx) {
   std::map<int, std::string> where;
   for (auto& f : files) {
      int last = -1;
      for (int i : f.second.entries) {
         EXPECT(!where.count(i), "duplicate", "entry " + std::to_string(i) + " is written twice (" + f.first + "); " + ctx);
         EXPECT(i > last, "order", "entry " + std::to_string(i) + " comes after entry " + std::to_string(last) + " in " + f.first + "; " + ctx);
         last = i;
         where[i] = f.first;
      }
   }
   size_t visit = 0, n = 0;
   for (auto& w : where) {
      EXPECT(w.first == (int)n, "lost", "entry " + std::to_string(n) + " is missing, but entry " + std::to_string(w.first) + " is there; " + ctx);
      n++;
      visit = std::max(visit, (size_t)m.entries[w.first].visit);
      while (visit < m.visits.size() && m.visits[visit] != w.second) visit++;
      EXPECT(visit < m.visits.size(), "wrong-file", "entry " + std::to_string(w.first) + " is in " + w.second + ", which was not in use any more; " + ctx);
   }
   return n;
}
