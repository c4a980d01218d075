//BUILD variant=asan
// C08: relations of every small shape are imported from files and compared with an independent reading of the data.
#include "osm.hpp"
using namespace uty;
using namespace osm;
static imp::Importer *im; static std::string file;
static std::vector<std::string> import(Data &d) {
  std::vector<std::string> got; std::set<long> ids; for (auto &w : d.ways) ids.insert(w.id);
  mc::writeFile(file, d.xml());
  im->load(file, [&](const Element &e) { Canon c(*im, ids); e.accept(c); got.push_back(c.out); });
  std::sort(got.begin(), got.end()); return got;
}
// ------------------------------------------------------------------ A: membership graphs
static Data base() {
  Data d; d.nodes = {{1, {3, 3}, {{"shop", "x"}}}};
  d.ways = {{1, {{0, 0}, {0, 4}, {4, 4}}, {{"highway", "y"}}}, {2, {{5, 0}, {5, 4}, {9, 4}, {9, 0}, {5, 0}}, {{"building", "yes"}}}};
  return d;
}
static const char *Alphabet[] = {"n1", "w1", "w2", "o2", "r1", "r2", "r3", "n9", "w9", "r9"};   // o2: way 2 as outline; 9: not in the file
static Mem mem(const std::string &s) { if (s[0] == 'o') return {'w', 2, "outline"}; return {s[0], s[1] - '0', s == "w2" ? "outer" : ""}; }
static void graph(const std::string &desc, const std::vector<std::pair<char, std::vector<std::string>>> &g) {
  mc::run(desc, [&] {
    Data d = base(); int id = 0;
    for (auto &x : g) { R r{++id, x.first, {}, kindTags(x.first)}; if (x.first == 'p') r.t = {{"name", mc::fmt("r%d", id)}}; for (auto &m : x.second) r.m.push_back(mem(m)); d.rels.push_back(r); }
    for (auto &w : d.ways) for (auto &p : w.p) d.at(p);
    Expect e(d);
    for (auto &r : d.rels) if (r.kind == 'm') {   // only way 2 with the role of an outer ring makes a ring here
      bool missing = false; int outer = 0, open = 0; for (auto &m : r.m) if (m.type == 'w') { if (m.ref == 9) missing = true; else if (m.role == "outer") ++outer; else if (m.role != "outline") ++open; }
      bool mergeable = outer > 0; (void)open;
      e.rings[r.id] = missing || !outer ? "" : groups({{oriented({{5, 0}, {5, 4}, {9, 4}, {9, 0}}, true), {}}});
      if (mergeable) e.extra[r.id] = {{"building", "yes"}};
      if (missing || (outer && e.ignored.count({'w', 2}))) { mc::trivial(); return; }
      if (outer > 1) { mc::trivial(); return; }   // the same ring twice: see part C
    }
    compare(import(d), e.all());
  });
}
static void partA() {
  const int K = sizeof Alphabet / sizeof *Alphabet; std::vector<std::vector<std::string>> lists;
  for (int a = 0; a < K; ++a) { lists.push_back({Alphabet[a]}); }
  size_t ones = lists.size();
  for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) lists.push_back({Alphabet[a], Alphabet[b]});
  size_t twos = lists.size();
  for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int c = 0; c < K; ++c) lists.push_back({Alphabet[a], Alphabet[b], Alphabet[c]});
  auto name = [](const std::pair<char, std::vector<std::string>> &x) { std::string s(1, x.first); for (auto &m : x.second) s += "." + m; return s; };
  auto go = [&](size_t i, size_t j, size_t k, const char *kinds) {
    std::vector<std::pair<char, std::vector<std::string>>> g = {{kinds[0], lists[i]}, {kinds[1], lists[j]}, {kinds[2], lists[k]}};
    graph("graph " + name(g[0]) + " " + name(g[1]) + " " + name(g[2]), g);
  };
  std::vector<std::string> kinds; for (char a : {'p', 'b', 'm'}) for (char b : {'p', 'b', 'm'}) for (char c : {'p', 'b', 'm'}) kinds.push_back({a, b, c});
  bool deep = mc::thorough();
  for (auto &k : kinds) for (size_t i = 0; i < twos; ++i) for (size_t j = 0; j < (deep ? twos : ones); ++j) for (size_t l = 0; l < ones; l += deep || l == 4 ? 1 : 2) go(i, j, l, k.c_str());   // the third relation: n1 w2 r1 r2 w9 in the quick tier
  for (auto &k : kinds) for (size_t i = twos; i < lists.size(); ++i) for (size_t j = 0; j < (deep ? ones : 1); ++j) go(i, deep ? j : i % ones, (i * 7 + j) % ones, k.c_str());
  // chains and cycles of up to 12 relations, in ascending, descending and mixed order of ids
  for (int n = 1; n <= 12; ++n) for (int step = 1; step <= n; ++step) for (char k : {'p', 'b'}) for (int cycle = 0; cycle <= n; ++cycle)
    mc::run(mc::fmt("chain %d step %d %c back %d", n, step, k, cycle), [&] {
      int g = n, s = step; while (s) { int t = g % s; g = s; s = t; } if (g != 1) { mc::trivial(); return; }
      Data d = base(); auto id = [&](int i) { return 10 + i * step % n; };
      for (int i = 0; i < n; ++i) { R r{id(i), k, {}, k == 'b' ? kindTags('b') : Tags{{"name", mc::fmt("%d", i)}}}; r.m.push_back({'w', 1, ""}); if (i + 1 < n) r.m.push_back({'r', id(i + 1), ""}); else if (cycle) r.m.push_back({'r', id(cycle - 1), ""}); d.rels.push_back(r); }
      for (auto &w : d.ways) for (auto &p : w.p) d.at(p);
      Expect e(d); compare(import(d), e.all());
    });
}

// ------------------------------------------------------------------ B: rings cut into ways
static Pts quad(int y, int x, int h, int w) { return {{y, x}, {y, x + w}, {y + h, x + w}, {y + h, x}}; }
struct Layout { const char *name; std::vector<Ring> rings; std::vector<int> parent; int maxCut; };   // parent: index of the outer ring of an inner one; maxCut: of each ring, where rings touch at their second corner, which is not an end of a way then
static std::vector<Layout> layouts() {
  return {
    {"one", {{quad(0, 0, 20, 20), true}}, {-1}},
    {"hole", {{quad(0, 0, 20, 20), true}, {quad(5, 5, 4, 4), false}}, {-1, 0}},
    {"holes", {{quad(0, 0, 20, 20), true}, {quad(2, 2, 4, 4), false}, {quad(10, 9, 5, 7), false}}, {-1, 0, 0}},
    {"pair", {{quad(0, 0, 20, 20), true}, {quad(0, 30, 10, 10), true}}, {-1, -1}},
    {"mixed", {{quad(0, 0, 20, 20), true}, {quad(30, 0, 10, 10), true}, {quad(32, 2, 3, 3), false}}, {-1, -1, 1}},
    {"island", {{quad(0, 0, 20, 20), true}, {quad(4, 4, 12, 12), false}, {quad(8, 8, 3, 3), true}}, {-1, 0, -1}},
    {"nested", {{quad(0, 0, 40, 40), true}, {quad(4, 4, 32, 32), false}, {quad(8, 8, 20, 20), true}, {quad(12, 12, 6, 6), false}}, {-1, 0, -1, 2}},
    {"concave", {{{{0, 0}, {0, 20}, {20, 20}, {20, 12}, {6, 12}, {6, 8}, {20, 8}, {20, 0}}, true}, {{{8, 9}, {8, 11}, {18, 10}}, true}}, {-1, -1}},   // the second lies in the notch of the first
    {"many", {{quad(0, 0, 20, 20), true}, {quad(2, 2, 4, 4), false}, {quad(10, 9, 5, 7), false}, {quad(2, 12, 3, 3), false}, {quad(0, 30, 20, 20), true}}, {-1, 0, 0, 0, -1}},
    {"touch", {{quad(0, 0, 20, 20), true}, {{{5, 6}, {0, 10}, {5, 15}}, false}}, {-1, 0}, 2},   // on an edge
    {"corner", {{{{20, 0}, {0, 0}, {0, 20}, {20, 20}}, true}, {{{3, 8}, {0, 0}, {8, 3}}, false}}, {-1, 0}, 2},
    {"corner2", {{{{20, 0}, {20, 20}, {0, 20}, {0, 0}}, true}, {{{17, 12}, {20, 20}, {12, 17}}, false}, {quad(30, 0, 5, 5), true}}, {-1, 0, -1}, 2},
    {"holetouch", {{quad(0, 0, 20, 20), true}, {{{2, 2}, {6, 6}, {2, 6}}, false}, {{{10, 10}, {6, 6}, {10, 6}}, false}}, {-1, 0, 0}, 2},
    {"outertouch", {{{{0, 0}, {10, 10}, {0, 10}}, true}, {{{20, 20}, {10, 10}, {20, 10}}, true}, {{{1, 3}, {3, 5}, {1, 5}}, false}}, {-1, -1, 0}, 2},
    {"diamond", {{{{0, 0}, {0, 10}, {0, 20}, {10, 20}, {20, 20}, {20, 10}, {20, 0}, {10, 0}}, true}, {{{0, 10}, {10, 20}, {20, 10}, {10, 0}}, false}, {quad(30, 0, 5, 5), true}}, {-1, 0, -1}, 1},   // all corners of the hole are on the ring
    {"sharededge", {{quad(0, 0, 20, 20), true}, {quad(4, 4, 4, 4), false}, {quad(4, 8, 4, 4), false}, {quad(30, 0, 5, 5), true}}, {-1, 0, 0, -1}, 1},
    {"islandtouch", {{quad(0, 0, 20, 20), true}, {quad(4, 4, 12, 12), false}, {{{8, 8}, {4, 4}, {10, 6}}, true}}, {-1, 0, -1}, 1},
    {"twoholed", {{quad(0, 0, 20, 20), true}, {quad(2, 2, 5, 5), false}, {quad(0, 30, 20, 20), true}, {quad(6, 34, 5, 5), false}}, {-1, 0, -1, 2}},
  };
}
static void partB() {
  int maxWays = mc::thorough() ? 6 : 5;
  for (auto &l : layouts()) {
    size_t n = l.rings.size(); std::vector<int> cut(n, 1);
    for (;;) {   // number of ways of each ring
      int total = 0; for (int c : cut) total += c;
      bool valid = total <= maxWays; for (size_t i = 0; i < n; ++i) if (cut[i] > int(l.rings[i].p.size()) || (l.maxCut && cut[i] > l.maxCut)) valid = false;
      if (valid) {
        struct Piece { Pts p; size_t ring; }; std::vector<Piece> pieces;
        for (size_t i = 0; i < n; ++i) { auto &p = l.rings[i].p; size_t s = p.size(); Pts c = p; c.push_back(p[0]); size_t from = 0; for (int k = 0; k < cut[i]; ++k) { size_t to = k + 1 == cut[i] ? s : from + 1 + (k == 0 && s > size_t(cut[i]) ? 1 : 0); pieces.push_back({Pts(c.begin() + from, c.begin() + to + 1), i}); from = to; } }
        std::vector<int> perm(total); for (int i = 0; i < total; ++i) perm[i] = i;
        std::string cuts; for (int c : cut) cuts += char('0' + c);
        int dirStep = total >= 6 ? 3 : 1;
        do for (int dir = 0; dir < 1 << total; dir += dirStep) for (int tagged = 0; tagged < 2; ++tagged) {
          std::string order; for (int i : perm) order += char('0' + i);
          mc::run(mc::fmt("rings %s cuts %s order %s dir %d tags %d", l.name, cuts.c_str(), order.c_str(), dir, tagged), [&] {
            Data d; R r{77, 'm', {}, kindTags('m')}; if (tagged) r.t.push_back({"landuse", "z"});
            Tags merged; std::set<std::string> keys;
            for (int i : perm) {
              auto &pc = pieces[i]; Pts p = pc.p; if (dir >> i & 1) std::reverse(p.begin(), p.end());
              bool closed = cut[pc.ring] == 1, outer = l.rings[pc.ring].outer; W w{100 + i, p, closed ? Tags{{mc::fmt("k%d", i), "v"}} : Tags{}}; d.ways.push_back(w);
              r.m.push_back({'w', w.id, outer ? "outer" : "inner"});
              if (closed && outer && !tagged) merged.push_back(w.t[0]);
            }
            d.rels.push_back(r); for (auto &w : d.ways) for (auto &p : w.p) d.at(p);
            Expect e(d); std::vector<std::pair<Pts, std::vector<Pts>>> g; std::map<int, int> index;
            for (size_t i = 0; i < n; ++i) if (l.parent[i] < 0) { index[int(i)] = int(g.size()); g.push_back({oriented(l.rings[i].p, true), {}}); }
            for (size_t i = 0; i < n; ++i) if (l.parent[i] >= 0) g[index[l.parent[i]]].second.push_back(oriented(l.rings[i].p, false));
            e.rings[77] = groups(g); e.extra[77] = merged; compare(import(d), e.all());
          });
          // the same with one way missing from the file, or listed but not closing: other data stays, no wrong ring appears
          if (dir == 0 && tagged == 0) for (int miss = 0; miss < total; ++miss) for (int how = 0; how < 2; ++how)
            mc::run(mc::fmt("broken %s cuts %s order %s way %d %s", l.name, cuts.c_str(), order.c_str(), miss, how ? "absent" : "not member"), [&] {
              Data d; R r{77, 'm', {}, kindTags('m')}; r.t.push_back({"landuse", "z"}); d.nodes = {{1, {60, 60}, {{"shop", "x"}}}};
              for (int i : perm) { auto &pc = pieces[i]; if (i != miss) d.ways.push_back({100 + i, pc.p, {}}); if (i != miss || how) r.m.push_back({'w', 100 + i, l.rings[pc.ring].outer ? "outer" : "inner"}); }
              if (r.m.empty()) { mc::trivial(); return; }
              R other{78, 'p', {{'n', 1, ""}, {'r', 77, ""}}, {{"a", "b"}}}; d.rels = {r, other}; for (auto &w : d.ways) for (auto &p : w.p) d.at(p);
              auto got = import(d);
              Expect e(d); bool whole = cut[pieces[miss].ring] == 1;   // a complete ring went: the others can be assembled
              std::vector<std::string> why;
              for (int variant = 0; variant < 2; ++variant) {   // 0: no areas at all, 1: what the complete rings say
                std::vector<std::pair<Pts, std::vector<Pts>>> g; std::map<int, int> index; size_t gone = pieces[miss].ring;
                bool ok = true;
                if (variant) {
                  for (size_t i = 0; i < n; ++i) if (i != gone && l.parent[i] < 0) { index[int(i)] = int(g.size()); g.push_back({oriented(l.rings[i].p, true), {}}); }
                  for (size_t i = 0; i < n; ++i) if (i != gone && l.parent[i] >= 0) { if (!index.count(l.parent[i])) { ok = false; break; } g[index[l.parent[i]]].second.push_back(oriented(l.rings[i].p, false)); }
                }
                if (!ok) continue;
                e.rings[77] = groups(g); if (got == e.all()) { mc::outcome(join(got)); return; }
              }
              // what lay in a ring that is gone may be taken for anything, but nothing else may be touched
              bool orphan = false; for (size_t i = 0; i < n; ++i) { auto &in = l.rings[i].p, &out = l.rings[pieces[miss].ring].p; bool within = true; for (auto &p : in) { auto less = [&](const Pts::value_type &q) { return q.first <= p.first; }; auto more = [&](const Pts::value_type &q) { return q.first >= p.first; }; auto left = [&](const Pts::value_type &q) { return q.second <= p.second; }; auto right = [&](const Pts::value_type &q) { return q.second >= p.second; }; within = within && std::any_of(out.begin(), out.end(), less) && std::any_of(out.begin(), out.end(), more) && std::any_of(out.begin(), out.end(), left) && std::any_of(out.begin(), out.end(), right); } if (i != pieces[miss].ring && within) orphan = true; }
              if (orphan && whole) { std::vector<std::string> a, b; e.rings[77] = ""; for (auto &s : got) if (s[0] != 'r') a.push_back(s); for (auto &s : e.all()) if (s[0] != 'r') b.push_back(s); compare(a, b); return; }
              e.rings[77] = ""; compare(got, e.all());
            });
        }
        while (std::next_permutation(perm.begin(), perm.end()));
      }
      size_t i = 0; while (i < n && ++cut[i] > 4) cut[i++] = 1; if (i == n) break;
    }
  }
}

// ------------------------------------------------------------------ C: arbitrary combinations of ways, valid or not
static void partC() {
  std::vector<Pts> pool = {
    quad(0, 0, 8, 8), quad(2, 2, 3, 3), quad(0, 0, 8, 8), quad(4, 4, 8, 8), {{0, 0}, {8, 8}}, {{8, 8}, {0, 8}, {0, 0}}, {{0, 0}, {0, 8}}, {{0, 8}, {0, 0}}, {{8, 8}, {8, 0}, {0, 0}},
    {{0, 0}}, {{0, 0}, {8, 8}, {0, 0}}, {{0, 0}, {3, 3}, {6, 0}, {0, 6}}, {{0, 6}, {6, 6}, {0, 0}}, {{4, 0}, {4, 0}}, {{6, 1}, {1, 6}, {2, 2}, {6, 6}, {3, 3}},
  };
  for (int i : {0, 1, 2, 3, 11, 14}) pool[i].push_back(pool[i][0]);
  int n = int(pool.size()), depth = mc::thorough() ? 4 : 3;
  auto one = [&](const std::vector<int> &c, int roles) {
    std::string s; for (int i : c) s += mc::fmt(" %d", i);
    mc::run(mc::fmt("any%s roles %d", s.c_str(), roles), [&] {
      Data d; R r{77, 'm', {}, kindTags('m')}; r.t.push_back({"landuse", "z"}); d.nodes = {{1, {60, 60}, {{"shop", "x"}}}};
      std::set<int> used; std::map<std::pair<Pt, Pt>, int> edges;
      for (size_t k = 0; k < c.size(); ++k) {
        int i = c[k]; if (used.insert(i).second) d.ways.push_back({100 + i, pool[i], {}});
        r.m.push_back({'w', 100 + i, roles >> k & 1 ? "inner" : "outer"});
        for (size_t j = 1; j < pool[i].size(); ++j) { Pt a = pool[i][j - 1], b = pool[i][j]; ++edges[std::minmax(a, b)]; }
      }
      d.rels.push_back(r); for (auto &w : d.ways) for (auto &p : w.p) d.at(p);
      std::set<long> ids; for (auto &w : d.ways) ids.insert(w.id);
      std::vector<std::string> got, want; int relations = 0; mc::writeFile(file, d.xml());
      im->load(file, [&](const Element &e) {
        Canon v(*im, ids);
        auto rel = dynamic_cast<const Relation *>(&e); if (!rel) { if (auto a = dynamic_cast<const Area *>(&e)) { Pts p = Canon::ring(*a); v.out = mc::fmt("a%d", int(a->id)) + txt(rot(p)); } else e.accept(v); got.push_back(v.out); return; }
        if (++relations > 1) mc::fail("relation stored twice");
        for (auto &x : rel->elements) {   // every edge of every ring comes from the member ways, and no more often than there
          auto a = std::dynamic_pointer_cast<Area>(x); if (!a) mc::fail("member is no area"); Pts p = Canon::ring(*a);
          for (size_t j = 0; j < p.size(); ++j) { Pt u = p[j], w = p[(j + 1) % p.size()]; if (u == w) continue; if (edges[std::minmax(u, w)]-- <= 0) mc::fail("edge %s is not in the member ways (or too often)", txt(Pts{u, w}).c_str()); }
        }
        mc::outcome(uint64_t(rel->elements.size()));
      });
      Expect e(d); e.rings[77] = "";
      for (auto &t : e.all()) { if (t[0] == 'a') { for (auto &w : d.ways) if (t.compare(0, t.find('{'), mc::fmt("a%ld", w.id)) == 0) { Pts p(w.p.begin(), w.p.end() - 1); t = mc::fmt("a%ld", w.id) + txt(area2(p) ? oriented(p, true) : rot(p)); break; } } want.push_back(t); }
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); compare(got, want);
    });
  };
  for (int len = 1; len <= depth; ++len) { std::vector<int> c(len, 0); for (;;) { for (int roles = 0; roles < 1 << len; ++roles) one(c, roles); int i = 0; while (i < len && ++c[i] == n) c[i++] = 0; if (i == len) break; } }
}

// ------------------------------------------------------------------ D: ways with nodes that are not in the file
static void partD() {
  for (int len = 1; len <= 5; ++len) for (int mask = 0; mask < 1 << len; ++mask) for (int closed = 0; closed < 2; ++closed)
    mc::run(mc::fmt("nodes %d missing %d closed %d", len, mask, closed), [&] {
      Pts ring = {{0, 0}, {0, 4}, {4, 4}, {4, 0}, {2, -2}}; std::string n, w; Pts left; std::vector<std::string> want;
      std::vector<int> refs; for (int i = 0; i < len; ++i) refs.push_back(i); if (closed) refs.push_back(0);
      for (int i = 0; i < len; ++i) if (!(mask >> i & 1)) { n += mc::fmt("<node id=\"%d\" lat=\"%.10f\" lon=\"%.10f\"/>\n", i + 1, Y0 + ring[i].first * Step, X0 + ring[i].second * Step); want.push_back(mc::fmt("n%d{}", i + 1) + txt(Pts{ring[i]})); }
      for (int r : refs) { w += mc::fmt("<nd ref=\"%d\"/>\n", r + 1); if (!(mask >> r & 1)) left.push_back(ring[r]); }
      n += mc::fmt("<node id=\"99\" lat=\"%.10f\" lon=\"%.10f\"/>\n", Y0, X0 + 9 * Step); want.push_back("n99{}" + txt(Pts{{0, 9}}));
      if (!left.empty()) { bool a = left.size() > 3 && left.front() == left.back(); if (a) { left.pop_back(); left = oriented(left, true); } want.push_back(std::string(a ? "a" : "w") + "7{}" + txt(left)); }
      mc::writeFile(file, "<?xml version='1.0'?>\n<osm version=\"0.6\">\n<bounds minlat=\"-85\" minlon=\"-180\" maxlat=\"85\" maxlon=\"180\"/>\n" + n + "<way id=\"7\">\n" + w + "</way>\n</osm>\n");
      std::vector<std::string> got; std::set<long> ids; im->load(file, [&](const Element &e) { Canon c(*im, ids); e.accept(c); got.push_back(c.out); });
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); compare(got, want);
    });
}

// ------------------------------------------------------------------ E: sizes
static void partE() {
  std::vector<int> sizes; for (int i = 1; i <= 24; ++i) sizes.push_back(i); for (int i : {31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000}) sizes.push_back(i); if (mc::thorough()) for (int i : {1999, 2000, 4097, 8000}) sizes.push_back(i);
  auto strides = [](int n) { std::vector<int> r{1, n - 1}; for (int s : {2, 3, 7, n / 2 + 1}) { int g = n, t = s; while (t) { int u = g % t; g = t; t = u; } if (g == 1 && s < n) r.push_back(s); } return r; };
  for (int n : sizes) {
    for (char k : {'p', 'b'}) mc::run(mc::fmt("members %d %c", n, k), [&] { Data d; R r{77, k, {}, k == 'b' ? kindTags('b') : Tags{{"name", "big"}}};
      for (int i = 0; i < n; ++i) if (i % 3) { d.nodes.push_back({100 + i, {i / 50, i % 50}, {{"shop", mc::fmt("%d", i)}}}); r.m.push_back({'n', 100 + i, ""}); } else { d.ways.push_back({9000 + i, {{i / 50, 60}, {i % 50, 61}}, {{"highway", "y"}}}); r.m.push_back({'w', 9000 + i, ""}); }
      if (k == 'b') d.ways.push_back({1, {{5, 0}, {5, 4}, {9, 4}, {9, 0}, {5, 0}}, {{"building", "yes"}}}), r.m.push_back({'w', 1, ""});
      d.rels.push_back(r); for (auto &w : d.ways) for (auto &p : w.p) d.at(p); Expect e(d); compare(import(d), e.all()); });
    // a ring of many ways, in any order and direction
    if (n > 1) for (int stride : strides(n)) for (int dirs = 0; dirs < 3; ++dirs) mc::run(mc::fmt("ring of %d stride %d dirs %d", n, stride, dirs), [&] { Data d; R r{77, 'm', {}, kindTags('m')}; r.t.push_back({"landuse", "z"}); Pts ring; int side = n * 2 / 4 + 2;
      for (int i = 0; i < side; ++i) ring.push_back({0, i}); for (int i = 0; i < side; ++i) ring.push_back({i, side}); for (int i = side; i > 0; --i) ring.push_back({side, i}); for (int i = side; i > 0; --i) ring.push_back({i, 0});
      std::vector<Pts> ps; size_t from = 0; for (int i = 0; i < n; ++i) { size_t to = ring.size() * (i + 1) / n; Pts p; for (size_t j = from; j <= to; ++j) p.push_back(ring[j % ring.size()]); ps.push_back(p); from = to; }
      for (int i = 0; i < n; ++i) { int j = i * stride % n; if (dirs == 1 ? j & 1 : dirs == 2 ? j % 3 == 0 : 0) std::reverse(ps[j].begin(), ps[j].end()); d.ways.push_back({100 + j, ps[j], {}}); r.m.push_back({'w', 100 + j, "outer"}); }
      d.rels.push_back(r); for (auto &w : d.ways) for (auto &p : w.p) d.at(p); Expect e(d); e.rings[77] = groups({{oriented(ring, true), {}}}); compare(import(d), e.all()); });
    // many outer rings and many holes
    if (n <= 257) for (int how = 0; how < 3; ++how) mc::run(mc::fmt("rings %d how %d", n, how), [&] { Data d; R r{77, 'm', {}, kindTags('m')}; r.t.push_back({"landuse", "z"}); std::vector<std::pair<Pts, std::vector<Pts>>> g; int id = 100;
      auto add = [&](Pts p, bool outer) { p.push_back(p[0]); if (how == 2 && id % 2) std::reverse(p.begin(), p.end()); d.ways.push_back({id, p, {}}); r.m.push_back({'w', id++, outer ? "outer" : "inner"}); };
      if (how == 0) { g.push_back({oriented(quad(-1, -1, 80, 80), true), {}}); add(quad(-1, -1, 80, 80), true); add(quad(0, 90, 3, 3), true); g.push_back({oriented(quad(0, 90, 3, 3), true), {}}); for (int i = 0; i < n; ++i) { add(quad(i / 17 * 4, i % 17 * 4, 2, 2), false); g[0].second.push_back(oriented(quad(i / 17 * 4, i % 17 * 4, 2, 2), false)); } }
      else for (int i = 0; i < n; ++i) { auto a = quad(i / 17 * 12, i % 17 * 12, 10, 10), b = quad(i / 17 * 12 + 2, i % 17 * 12 + 2, 4, 4); add(b, false); add(a, true); g.push_back({oriented(a, true), {oriented(b, false)}}); }
      d.rels.push_back(r); for (auto &w : d.ways) for (auto &p : w.p) d.at(p); Expect e(d); e.rings[77] = groups(g); compare(import(d), e.all()); });
  }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); imp::Importer importer(mc::scratch("st")); im = &importer; file = mc::scratch("f") + "/data.xml";
  partE(); partD(); partB(); partC(); partA();
  return mc::finish();
}
