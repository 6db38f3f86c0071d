// C22 every sequence of queue operations of one thread against a deque; also long histories
#include "seq.h"
#include <deque>
#include <g3log/shared_queue.hpp>
template <class T> struct Make;
template <> struct Make<std::string> { static std::string of(int i) { return "element number " + std::to_string(i) + " which is long"; } };
template <> struct Make<int> { static int of(int i) { return i; } };
template <class T> static void ops(int depth) {
   shared_queue<T> q;
   std::deque<T> m;
   std::string hist;
   for (int i = 0; i < depth; i++) {
      int op = seq::choose(5);
      seq::step();
      hist += "PTWES"[op];
      switch (op) {
      case 0: q.push(Make<T>::of(i)); m.push_back(Make<T>::of(i)); break;
      case 1: {
         T x = Make<T>::of(-7);
         bool r = q.try_and_pop(x);
         EXPECT(r == !m.empty(), "try", "try_and_pop: " + hist);
         EXPECT(x == (r ? m.front() : Make<T>::of(-7)), "value", "try_and_pop gave a wrong element (or changed the argument): " + hist);
         if (r) m.pop_front();
         break;
      }
      case 2:
         if (!m.empty()) {
            T x;
            q.wait_and_pop(x);
            EXPECT(x == m.front(), "value", "wait_and_pop: " + hist);
            m.pop_front();
         }
         break;
      case 3: EXPECT(q.empty() == m.empty(), "empty", hist); break;
      case 4: EXPECT(q.size() == m.size(), "size", hist); break;
      }
   }
   seq::state(std::to_string(m.size()) + hist.substr(hist.size() > 4 ? hist.size() - 4 : 0));
   while (!m.empty()) {
      T x;
      EXPECT(q.try_and_pop(x) && x == m.front(), "value", "draining after " + hist);
      m.pop_front();
   }
   EXPECT(q.empty(), "empty", "after draining: " + hist);
   seq::note(hist);
}
SEQ(queue_ops8, "C22", 0, 400000, 400000) { ops<int>(8); }
SEQ(queue_ops7_str, "C22", 0, 100000, 100000) { ops<std::string>(7); }
SEQ(queue_ops10, "C22", 0, 0, 10000000) { ops<int>(10); }
// fill levels far beyond the block size of a deque, pushes and pops in blocks
SEQ(queue_long, "C22", 0, 10000, 200000) {
   shared_queue<int> q;
   int in = 0, out = 0;
   for (int i = 0, n4 = seq::thorough() ? 4 : 3; i < n4; i++) {
      int n = seq::pick({0, 1, 63, 64, 513, 5000});
      int k = seq::pick({0, 1, 2});
      for (int j = 0; j < n; j++) q.push(in++);
      EXPECT((int)q.size() == in - out, "size", std::to_string(q.size()));
      int m = k == 0 ? 0 : k == 1 ? (in - out) / 2 : in - out;
      for (int j = 0; j < m; j++) { int x = -1; EXPECT(q.try_and_pop(x) && x == out, "value", "element " + std::to_string(out) + " was " + std::to_string(x)); out++; }
      seq::step(n + m);
      seq::state(seq::mix(in, out));
   }
   while (out < in) { int x = -1; EXPECT(q.try_and_pop(x) && x == out, "value", "element " + std::to_string(out) + " was " + std::to_string(x)); out++; }
   int x;
   EXPECT(!q.try_and_pop(x) && q.empty() && q.size() == 0, "empty", "not empty");
}
SEQ_MAIN
