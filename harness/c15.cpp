// C15: LRU cache against a list model over all bounded histories.
#include "mc.hpp"
#include "utils/LruCache.hpp"
#include <list>
using Cache = utymap::utils::LruCache<int, std::string>;
struct Model { size_t cap; std::list<std::pair<int, std::string>> l;
  std::list<std::pair<int, std::string>>::iterator find(int k) { for (auto i = l.begin(); i != l.end(); ++i) if (i->first == k) return i; return l.end(); }
  void put(int k, std::string v) { auto i = find(k); if (i != l.end()) l.erase(i); l.push_front({k, v}); if (l.size() > cap) l.pop_back(); }
  void touch(int k) { auto i = find(k); l.splice(l.begin(), l, i); }
};
int main(int argc, char **argv) {
  mc::init(argc, argv);
  // ops: P k, G k, K(peek) k, M(promote) k, C clear
  for (int cap = 1; cap <= 4; ++cap) {
    int keys = std::min(cap + 1, 4), A = keys * 4 + 1;
    int depth = mc::thorough() ? (cap <= 2 ? 7 : 6) : (cap <= 1 ? 6 : 5);
    if (mc::thorough() && cap == 4) depth = 5;
    for (int len = 1; len <= depth; ++len) {
      // one case per first two operations to keep the number of descriptors small
      int pre = std::min(len, 2);
      mc::words(A, pre, [&](const std::vector<int> &head) {
        std::string d = mc::fmt("cap%d:len%d:", cap, len); for (int o : head) d += std::to_string(o) + ".";
        mc::run(d, [&] {
          uint64_t agg = 0;
          mc::words(A, len - pre, [&](const std::vector<int> &tail) {
            auto w = head; w.insert(w.end(), tail.begin(), tail.end());
            Cache c(cap); Model m{(size_t)cap, {}}; int v = 0;
            std::vector<std::shared_ptr<std::string>> held; std::vector<std::string> heldText;
            auto ctx = [&] { std::string s; for (int o : w) s += std::to_string(o) + "."; return s; };
            for (int o : w) {
              int op = o / keys, k = o % keys; if (o == A - 1) op = 4;
              bool has = m.find(k) != m.l.end();
              mc::transition();
              if (op == 0) { std::string s = "v" + std::to_string(v++); m.put(k, s); c.put(k, std::string(s)); }
              else if (op == 4) { c.clear(); m.l.clear(); }
              else {
                bool thrown = false; std::shared_ptr<std::string> p;
                try { if (op == 1) p = c.get(k); else if (op == 2) p = c.peek(k); else c.promote(k); } catch (std::exception &) { thrown = true; }
                if (thrown == has) mc::fail("history %s: key %d %s but the cache %s", ctx().c_str(), k, has ? "is cached" : "is not cached", thrown ? "reports it missing" : "answers");
                if (has && op != 3) { if (!p || *p != m.find(k)->second) mc::fail("history %s: key %d has value %s, expected %s", ctx().c_str(), k, p ? p->c_str() : "null", m.find(k)->second.c_str()); held.push_back(p); heldText.push_back(*p); }
                if (has && op != 2) m.touch(k);
              }
              if (c.size() != m.l.size()) mc::fail("history %s: size %zu, expected %zu", ctx().c_str(), c.size(), m.l.size());
              for (int q = 0; q < keys; ++q) if (c.exists(q) != (m.find(q) != m.l.end())) mc::fail("history %s: key %d %s", ctx().c_str(), q, c.exists(q) ? "should have been evicted" : "was evicted or lost");
            }
            for (auto &e : m.l) if (*c.peek(e.first) != e.second) mc::fail("history %s: wrong final value of %d", ctx().c_str(), e.first);
            for (size_t i = 0; i < held.size(); ++i) if (*held[i] != heldText[i]) mc::fail("history %s: a value in use changed", ctx().c_str());
            uint64_t h = cap; for (auto &e : m.l) h = h * 31 + e.first; mc::state(h); agg = agg * 31 + h; mc::count("histories");
            // order of eviction: fill with fresh keys and watch who leaves
            for (int f = 0; f < cap; ++f) { m.put(100 + f, "f"); c.put(100 + f, "f"); for (int q = 0; q < keys; ++q) if (c.exists(q) != (m.find(q) != m.l.end())) mc::fail("history %s: eviction order: key %d", ctx().c_str(), q); }
          });
          mc::outcome(agg); mc::S().traces++;
        });
      });
    }
  }
  return mc::finish();
}
