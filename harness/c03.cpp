// C03: every element shape of a bounded grammar survives storing and reading, on disk and in memory.
#include "uty.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
using namespace uty;

struct Shape { std::string name; std::function<El(StringTable &)> make; };

static Coords line(int n, double dx = 1e-6) { Coords c; for (int i = 0; i < n; ++i) c.push_back(GeoCoordinate(10.0 + i * dx, 20.0 - i * dx * 3)); return c; }
static std::vector<Tag> rawTags(StringTable &st, int n) { auto a = st.getId("a"), b = st.getId("b"); std::vector<Tag> t; for (int i = 0; i < n; ++i) { if (i < 300) t.push_back(Tag(st.getId("k" + std::to_string(i)), st.getId("v" + std::to_string(i * 7)))); else t.push_back(Tag(i & 1 ? a : b, i & 2 ? a : b)); } return t; }

static void roundTrip(const std::vector<El> &els, const std::string &sdir, StringTable &st, const QuadKey &q) {
  CancellationToken token;
  std::vector<std::string> want; for (auto &e : els) want.push_back(show(*e));
  auto verify = [&](ElementStore &s, const char *where) {
    for (int rep = 0; rep < 2; ++rep) {
      Collect c; s.search(q, c, token);
      if (c.texts.size() != want.size()) mc::fail("%s: %zu elements stored, %zu returned", where, want.size(), c.texts.size());
      for (size_t i = 0; i < want.size(); ++i) if (c.texts[i] != want[i]) mc::fail("%s: element %zu came back as %s, stored %s", where, i, c.texts[i].substr(0, 500).c_str(), want[i].substr(0, 500).c_str());
    }
  };
  { InMemoryElementStore m(st); for (auto &e : els) m.save(*e, q); verify(m, "memory"); }
  std::string dir = mc::scratch("data"); lodDirs(dir, q.levelOfDetail, q.levelOfDetail);
  { PersistentElementStore p(dir, st); for (auto &e : els) p.save(*e, q); verify(p, "disk"); p.flush(); verify(p, "disk after flush"); }
  { PersistentElementStore p(dir, st); verify(p, "disk reopened"); }
  mc::outcome(join(want)); mc::S().traces++; mc::transition(els.size() * 8);
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
  const QuadKey Q(3, 4, 3);
  std::vector<int> ns = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535};
  std::vector<int> over = {65536, 65537, 70000, 131072};
  auto single = [&](const std::string &name, std::function<El(StringTable &)> f) {
    mc::run(name, [&] { mc::arm(100); std::string sd = mc::scratch("st"); StringTable st(sd); roundTrip({f(st)}, sd, st, Q); });
  };
  // sizes
  for (int pass = 0; pass < 2; ++pass) for (int n : pass ? over : ns) {
    if (pass) { // known to exceed the 16 bit size fields: one case each, listed as known findings
      if (n == 65536) single("way:n65536", [n](StringTable &st) { return way(st, 1, {}, line(n)); });
      continue;
    }
    for (int t : {0, 1, 5}) {
      if (n > 0) single(mc::fmt("way:n%d:t%d", n, t), [n, t](StringTable &st) { auto w = way(st, 1, {}, line(n)); w->tags = rawTags(st, t); return w; });
      if (n > 0) single(mc::fmt("area:n%d:t%d", n, t), [n, t](StringTable &st) { auto w = area(st, 1, {}, line(n)); w->tags = rawTags(st, t); return w; });
    }
    single(mc::fmt("node:t%d", n), [n](StringTable &st) { auto w = node(st, 1, {}, GeoCoordinate(1, 2)); w->tags = rawTags(st, n); return w; });
    single(mc::fmt("way:n2:t%d", n), [n](StringTable &st) { auto w = way(st, 1, {}, line(2)); w->tags = rawTags(st, n); return w; });
    single(mc::fmt("rel:m%d", n), [n](StringTable &st) { std::vector<El> m; for (int i = 0; i < n; ++i) m.push_back(i % 3 == 0 ? node(st, i, {{"a", "b"}}, GeoCoordinate(i * .001, 1)) : i % 3 == 1 ? way(st, i * 1000003ull, {}, line(2 + i % 3)) : area(st, i, {{"c", "d"}}, line(3))); return relation(st, 9, {{"type", "x"}}, m); });
    single(mc::fmt("rel:t%d", n), [n](StringTable &st) { auto r = relation(st, 9, {}, {node(st, 1, {}, GeoCoordinate(1, 1)), way(st, 2, {{"x", "y"}}, line(2))}); r->tags = rawTags(st, n); return r; });
    if (n > 0 && n <= 4097) single(mc::fmt("rel:member%d", n), [n](StringTable &st) { return relation(st, 9, {{"type", "x"}}, {area(st, 1, {}, line(n)), way(st, 2, {{"x", "y"}}, line(n + 1)), node(st, 3, {}, GeoCoordinate(5, 5))}); });
  }
  // ids
  for (uint64_t id : {0ull, 1ull, 255ull, 256ull, 65535ull, 65536ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x123456789abcdefull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull})
    for (int k = 0; k < 4; ++k)
      single(mc::fmt("id:%llx:%d", (unsigned long long)id, k), [=](StringTable &st) { El n = node(st, id, {{"a", "b"}}, GeoCoordinate(1, 2)); return k == 0 ? n : k == 1 ? way(st, id, {}, line(2)) : k == 2 ? area(st, id, {}, line(3)) : relation(st, id ^ 5, {}, {n, relation(st, id, {}, {n})}); });
  // coordinates: all pairs of unusual values, for each kind
  std::vector<double> vs = {0.0, -0.0, 1e-9, -1e-9, 1.0 / 3, -1.0 / 3, 52.5162744, -52.5162744, 85.05112877, -85.05112877, 179.9999999, -179.9999999, 90, -90, 180, -180, 1e-300, 5e-324, 32.0, 10.0, 13.0, 9.0, 2.7755575615628914e-17, 0.1 + 0.2};
  for (double la : vs) for (double lo : vs) for (int k = 0; k < 3; ++k)
    single(mc::fmt("c:%.17g:%.17g:%d", la, lo, k), [=](StringTable &st) { GeoCoordinate c(la, lo); return k == 0 ? node(st, 1, {}, c) : k == 1 ? way(st, 1, {{"a", "b"}}, {c, GeoCoordinate(lo, la), c}) : area(st, 1, {}, {c, GeoCoordinate(1, 1), GeoCoordinate(lo, la)}); });
  // tag ids: small ids whose bytes look like white space, ends of line, NUL ... and tags whose keys or values repeat
  for (int a = 0; a < 40; ++a) for (int k = 0; k < 4; ++k)
    mc::run(mc::fmt("tagid:%d:%d", a, k), [&] {
      std::string sd = mc::scratch("st"); StringTable st(sd); for (int i = 0; i < 50; ++i) st.getId("s" + std::to_string(i));
      El n = k == 0 ? node(st, a, {}, GeoCoordinate(1, 2)) : k == 1 ? way(st, a, {}, line(2)) : k == 2 ? area(st, a, {}, line(3)) : relation(st, a, {}, {node(st, a, {}, GeoCoordinate(1, 2))});
      n->tags = {Tag(a, 39 - a), Tag(a, a), Tag(39 - a, a), Tag(a, a)}; roundTrip({n}, sd, st, Q);
    });
  // sequences of elements of all kinds, on several levels
  std::vector<std::function<El(StringTable &)>> small = {
    [](StringTable &st) { return node(st, 1, {{"a", "b"}}, GeoCoordinate(1, 2)); },
    [](StringTable &st) { return node(st, 2, {}, GeoCoordinate(-1, -2)); },
    [](StringTable &st) { return way(st, 3, {{"highway", "x y"}}, line(2)); },
    [](StringTable &st) { return way(st, 4, {}, line(400)); },
    [](StringTable &st) { return area(st, 5, {{"b", ""}, {"", "c"}}, line(3)); },
    [](StringTable &st) { return relation(st, 6, {{"type", "m"}}, {}); },
    [](StringTable &st) { return relation(st, 7, {}, {node(st, 8, {{"q", "r"}}, GeoCoordinate(0, 0)), relation(st, 9, {{"in", "ner"}}, {way(st, 10, {{"x", "y"}}, line(3)), area(st, 11, {}, line(4))}), node(st, 12, {}, GeoCoordinate(3, 3))}); },
    [](StringTable &st) { return way(st, 3, {{"highway", "same id"}}, line(5)); },
  };
  int depth = mc::thorough() ? 5 : 4;
  for (int len = 1; len <= depth; ++len)
    mc::words(small.size(), len, [&](const std::vector<int> &w) {
      std::string d = "seq:"; for (int o : w) d += char('0' + o);
      mc::run(d, [&] { std::string sd = mc::scratch("st"); StringTable st(sd); std::vector<El> e; for (int o : w) e.push_back(small[o](st)); roundTrip(e, sd, st, QuadKey(1 + (w[0] + w.back()) % 5 * 4, 0, 0)); });
    });
  // nesting: all trees of depth <= 3 with up to 2 children over {node, way, area, relation}
  std::function<void(int, const std::string &, std::vector<std::pair<std::string, std::function<El(StringTable &)>>> &)> gen;
  using Named = std::pair<std::string, std::function<El(StringTable &)>>;
  std::vector<Named> t0 = {{"n", [](StringTable &st) { return node(st, 1, {{"k", "n"}}, GeoCoordinate(4, 5)); }}, {"w", [](StringTable &st) { return way(st, 2, {{"k", "w"}}, line(2)); }}, {"a", [](StringTable &st) { return area(st, 3, {}, line(3)); }}};
  std::vector<Named> cur = t0;
  for (int d = 1; d <= (mc::thorough() ? 3 : 2); ++d) {
    std::vector<Named> next = t0;
    auto mk = [d](std::vector<Named> kids) { std::string n = "("; for (auto &k : kids) n += k.first; n += ")"; return Named(n, [kids, d](StringTable &st) { std::vector<El> m; for (auto &k : kids) m.push_back(k.second(st)); return relation(st, 100 + d, {{"t", "r"}}, m); }); };
    next.push_back(mk({})); for (auto &a : cur) { next.push_back(mk({a})); for (auto &b : cur) next.push_back(mk({a, b})); }
    cur = next; if (cur.size() > 30000) break;
  }
  for (auto &t : cur) single("tree:" + t.first, t.second);
  // many elements in a tile
  for (int n : {50, 255, 256, 257, 682, 683, 1000, mc::thorough() ? 20000 : 3000})
    mc::run(mc::fmt("count:%d", n), [&] { mc::arm(200); std::string sd = mc::scratch("st"); StringTable st(sd); std::vector<El> e; for (int i = 0; i < n; ++i) e.push_back(small[i * 5 % 8](st)); roundTrip(e, sd, st, Q); });
  return mc::finish();
}
