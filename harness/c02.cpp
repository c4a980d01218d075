// C02: every process death point of string table histories.
#include "crash.hpp"
#include "index/StringTable.hpp"
#include <memory>
using utymap::index::StringTable;

int main(int argc, char **argv) {
  mc::init(argc, argv);
  std::vector<std::string> pool = {"a", "bb", std::string(9000, 'x'), std::string(20, 'y')};
  int n = pool.size(); const int R = n;
  auto model = [&](const std::vector<int> &w, size_t &closed) { // texts in id order and how many of them existed at the last close
    std::vector<std::string> o; closed = 0;
    for (int x : w) { if (x == R) closed = o.size(); else if (std::find(o.begin(), o.end(), pool[x]) == o.end()) o.push_back(pool[x]); }
    return o;
  };
  auto history = [&](const std::string &dir, const std::vector<int> &w, bool finalClose) {
    std::unique_ptr<StringTable> t(new StringTable(dir));
    for (int x : w) { if (x == R) { t.reset(); t.reset(new StringTable(dir)); } else { auto id = t->getId(pool[x]); t->getString(id); } }
    if (finalClose) t.reset(); else t.release();
  };
  // what a table recovered from dir contains, given the texts in the order their ids were handed out
  auto recover = [&](const std::string &dir, const std::vector<std::string> &o, size_t closed) {
    // which ids resolve to what was recorded
    std::string copy = mc::scratch("copy");
    for (auto &f : mc::listDir(dir)) mc::writeFile(copy + f, mc::readFile(dir + f));
    size_t k = 0;
    {
      StringTable t(copy); std::map<std::string, uint32_t> got; std::set<uint32_t> used;
      std::vector<uint32_t> ids(o.size());
      // newest first: texts that were lost get fresh ids after the recovered ones, never an id of a recovered text
      for (size_t i = o.size(); i-- > 0;) { ids[i] = t.getId(o[i]); if (!used.insert(ids[i]).second) mc::fail("two texts share id %u after recovery", ids[i]); }
      while (k < o.size() && ids[k] == k) ++k;
      // a middle text can coincide with its old id by chance only in the re-interned tail
      for (size_t i = 0; i < o.size(); ++i) if (ids[i] < o.size()) {}
      size_t best = 0; bool ok = false;
      for (size_t r = closed; r <= o.size(); ++r) { // r = number of recovered texts
        bool good = true; for (size_t i = 0; i < r; ++i) good &= ids[i] == i;
        for (size_t i = r; i < o.size(); ++i) good &= ids[i] == r + (o.size() - 1 - i);
        if (good) { ok = true; best = r; break; }
      }
      if (!ok) { std::string s; for (auto i : ids) s += std::to_string(i) + " "; mc::fail("after the crash ids of the %zu texts (in recording order) are [%s], no prefix of >= %zu recovered texts explains them", o.size(), s.c_str(), closed); }
      for (size_t i = 0; i < o.size(); ++i) { auto p = t.getString(ids[i]); if (*p != o[i]) mc::fail("after the crash id %u resolves to '%s' instead of '%s'", ids[i], p->substr(0, 20).c_str(), o[i].substr(0, 20).c_str()); }
      k = best;
    }
    // resolving first, then interning
    {
      StringTable t(dir);
      for (size_t i = 0; i < k; ++i) { auto p = t.getString(i); if (*p != o[i]) mc::fail("after the crash id %zu resolves to '%s' instead of '%s'", i, p->substr(0, 20).c_str(), o[i].substr(0, 20).c_str()); }
      std::map<uint32_t, std::string> m; for (size_t i = 0; i < k; ++i) m[i] = o[i];
      for (auto s : {"new1", "new2"}) { auto id = t.getId(s); if (m.count(id)) mc::fail("new text got id %u of '%s'", id, m[id].substr(0, 20).c_str()); m[id] = s; }
      for (auto &e : m) if (*t.getString(e.first) != e.second) mc::fail("id %u resolves wrongly after continuing", e.first);
    }
    { StringTable t(dir); auto a = t.getId("new1"), b = t.getId("new2"); if (*t.getString(a) != "new1" || *t.getString(b) != "new2") mc::fail("texts added after recovery are lost");
      for (size_t i = 0; i < k; ++i) if (*t.getString(i) != o[i] || t.getId(o[i]) != i) mc::fail("recovered id %zu lost after continuing", i); }
    return k;
  };
  int depth = mc::thorough() ? 6 : 4;
  for (int len = 0; len <= depth; ++len)
    mc::words(n + 1, len, [&](const std::vector<int> &w) {
      std::string d = "w"; for (int x : w) d += x == R ? 'R' : char('0' + x);
      for (int torn = 0; torn < 3; ++torn) for (int fin = 0; fin < 2; ++fin)
        mc::run(d + mc::fmt(":t%d:f%d", torn, fin), [&] {
          size_t closed; auto o = model(w, closed);
          uint64_t h = 0;
          for (long k = 0; k < 200; ++k) {
            std::string dir = mc::scratch("t");
            bool died = crash::runChild(k, torn, [&] { history(dir, w, fin); });
            // the history up to the crash: a reopen that was not reached cannot count as a close; texts that were not interned may not appear
            // (texts are interned in order, so any recovered set is a prefix of o; only closes that happened before the crash bind)
            size_t bound = 0;
            if (!died) bound = fin ? o.size() : closed;
            else { // closes completed before write k: recount by replaying the history with the crash point and counting closes
              // conservative: number of texts whose close is certain is found by running the prefix up to each close without a crash
              for (size_t p = 0; p < w.size(); ++p) if (w[p] == R) {
                std::string d2 = mc::scratch("p"); std::vector<int> pre(w.begin(), w.begin() + p + 1);
                if (!crash::runChild(k, torn, [&] { history(d2, pre, false); })) { size_t c; model(pre, c); bound = std::max(bound, c); }
              }
            }
            size_t kk = recover(dir, o, bound);
            h = h * 31 + kk + died * 100; mc::transition(); mc::state(mc::hash(d) ^ k * 7919 ^ kk);
            mc::count("crash_points");
            if (!died) break;
          }
          mc::outcome(h); mc::S().traces++;
        });
    });
  return mc::finish();
}
