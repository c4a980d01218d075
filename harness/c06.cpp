// C06: text search against a brute force oracle on both real stores.
#include "uty.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
using namespace uty;

static const std::string Sep = " _:;!@#$%^&*(){}[],.?`\\/\"\'";
static std::set<std::string> words(const std::string &s) { std::set<std::string> r; std::string w; for (char ch : s + " ") { if (Sep.find(ch) != std::string::npos) { if (!w.empty()) r.insert(w); w.clear(); } else w += ch; } return r; }

struct Doc { El e; std::set<std::string> terms; QuadKey q; std::string text; BoundingBox box; };
struct Box : ElementVisitor { BoundingBox b; void visitNode(const Node &n) override { b.expand(n.coordinate); } void visitWay(const Way &n) override { for (auto &c : n.coordinates) b.expand(c); } void visitArea(const Area &n) override { for (auto &c : n.coordinates) b.expand(c); } void visitRelation(const Relation &n) override { for (auto &e : n.elements) e->accept(*this); } };

struct Sys {
  StringTable &st; std::string dir; std::unique_ptr<PersistentElementStore> p; std::unique_ptr<InMemoryElementStore> m; std::vector<Doc> docs;
  Sys(StringTable &st) : st(st) { dir = mc::scratch("d"); lodDirs(dir, 1, 16); p.reset(new PersistentElementStore(dir, st)); m.reset(new InMemoryElementStore(st)); }
  void add(const QuadKey &q, El e) {
    Doc d; d.e = e; d.q = q; d.text = show(*e); for (auto &t : e->tags) for (auto id : {t.key, t.value}) for (auto &w : words(*st.getString(id))) d.terms.insert(w);
    Box b; e->accept(b); d.box = b.b; docs.push_back(d); p->save(*e, q); m->save(*e, q);
  }
  void erase(const QuadKey &q) { p->erase(q); m->erase(q); docs.erase(std::remove_if(docs.begin(), docs.end(), [&](Doc &d) { return d.q == q; }), docs.end()); }
  void reopen() { p.reset(); p.reset(new PersistentElementStore(dir, st)); }
  static bool touch(const BoundingBox &a, const BoundingBox &b) { return std::max(a.minPoint.latitude, b.minPoint.latitude) <= std::min(a.maxPoint.latitude, b.maxPoint.latitude) && std::max(a.minPoint.longitude, b.minPoint.longitude) <= std::min(a.maxPoint.longitude, b.maxPoint.longitude); }
  void query(const std::string &no, const std::string &an, const std::string &orr, const BoundingBox &box, int l0, int l1, bool disk = true) {
    auto N = words(no), A = words(an), O = words(orr); std::vector<std::string> want;
    if (!A.empty() || !O.empty()) for (auto &d : docs) {
      if (d.q.levelOfDetail < l0 || d.q.levelOfDetail > l1 || !touch(d.box, box) || !touch(bboxOf(d.q), box)) continue;
      bool ok = O.empty(); for (auto &t : O) ok |= d.terms.count(t) > 0; for (auto &t : A) ok &= d.terms.count(t) > 0; for (auto &t : N) ok &= !d.terms.count(t);
      if (ok) want.push_back(d.text);
    }
    LodRange r(l0, l1); CancellationToken k;
    for (int s = disk ? 0 : 1; s < 2; ++s) {
      Collect c; (s ? (ElementStore *)m.get() : (ElementStore *)p.get())->search(no, an, orr, box, r, c, k);
      auto g = join(c.texts, true), w = join(want, true);
      if (g != w) mc::fail("%s store: not[%s] and[%s] or[%s] levels %d-%d: %zu elements %s, expected %zu %s", s ? "memory" : "disk", no.c_str(), an.c_str(), orr.c_str(), l0, l1, c.texts.size(), g.substr(0, 250).c_str(), want.size(), w.substr(0, 250).c_str());
      mc::transition();
    }
    mc::state(mc::hash(join(want, true))); mc::outcome(join(want, true));
  }
};
static const BoundingBox World(GeoCoordinate(-84, -179), GeoCoordinate(84, 179));

int main(int argc, char **argv) {
  mc::init(argc, argv); std::cerr.rdbuf(nullptr);
  std::string sd = mc::S().work + "/strings/"; mc::mkdirs(sd); StringTable st(sd);
  QuadKey q(1, 0, 0); auto qb = bboxOf(q);
  const char *T[] = {"alpha", "beta", "gamma"};
  auto docOf = [&](int mask, uint64_t id, double x) { Tags t; for (int i = 0; i < 3; ++i) if (mask >> i & 1) { if ((id + i) % 3 == 0) t.push_back({T[i], "v"}); else if ((id + i) % 3 == 1) t.push_back({"k", T[i]}); else t.push_back({"k:x", std::string("some_") + T[i] + ", text"}); } return node(st, id, t, at(qb, .5, x)); };
  // all queries over the roles of three known terms and one unknown term
  auto allQueries = [&](Sys &s, bool disk, int unknownRoles) {
    for (int r = 0; r < 64 * unknownRoles; ++r) {
      std::string l[4]; const char *terms[] = {"alpha", "beta", "gamma", "zeta"}; int x = r;
      for (int i = 0; i < 4; ++i, x /= 4) l[x % 4] += std::string(l[x % 4].empty() ? "" : " ") + terms[i];
      s.query(l[1], l[2], l[3], World, 1, 1, disk);
    }
  };
  for (int a = 0; a < 8; ++a) for (int b = 0; b < 9; ++b) for (int c = 0; c < 9; ++c) {
    if (b == 8 && c < 8) continue;
    mc::run(mc::fmt("bool:%d.%d.%d", a, b, c), [&] {
      mc::arm(60);
      Sys s(st); s.add(q, docOf(a, 1, .2)); if (b < 8) s.add(q, docOf(b, 2, .4)); if (c < 8) s.add(q, docOf(c, 3, .6));
      bool deep = mc::thorough() || (a * 81 + b * 9 + c) % 4 == 0;
      allQueries(s, true, 4);
      if (deep) { s.reopen(); allQueries(s, true, 4); }
      mc::S().traces++;
    });
  }
  // many elements per tile: a term at sparse positions, the index file re-read at every stage
  std::vector<int> pos = {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97, 128, 160};
  if (mc::thorough()) for (int x : {191, 192, 193, 255, 256, 257, 320}) pos.push_back(x);
  int N = pos.back() + 3;
  for (size_t i = 0; i < pos.size(); ++i) for (size_t j = i; j < pos.size(); ++j) for (size_t k = j; k < pos.size(); ++k) {
    if (!mc::thorough() && (i + j + k) % 2) continue;
    mc::run(mc::fmt("sparse:%d.%d.%d", pos[i], pos[j], pos[k]), [&] {
      mc::arm(60);
      Sys s(st); std::set<int> P = {pos[i], pos[j], pos[k]}; int seed = i * 7 + j * 3 + k;
      for (int n = 0; n < N; ++n) {
        Tags t; if (P.count(n)) t.push_back({"alpha", "v"}); if (n % 40 == seed % 40) t.push_back({"beta", "x"}); t.push_back({"all", "y"});
        s.add(q, node(st, n, t, at(qb, .5, .1 + n * .0001)));
        if ((n == pos[i] && seed % 2) || n == pos[j] || (n == pos[k] - 1 && seed % 3)) { if (seed % 3 == 0) s.query("", "alpha", "", World, 1, 1); s.reopen(); if (seed % 5 == 0) s.query("", "alpha", "", World, 1, 1); }
      }
      for (int r = 0; r < 2; ++r) {
        s.query("", "alpha", "", World, 1, 1); s.query("alpha", "all", "", World, 1, 1); s.query("", "alpha beta", "", World, 1, 1); s.query("", "", "alpha beta", World, 1, 1); s.query("beta", "", "alpha", World, 1, 1); s.query("alpha", "", "beta", World, 1, 1); s.query("alpha beta", "all y", "", World, 1, 1);
        if (!r) s.reopen();
      }
      mc::S().traces++;
    });
  }
  // tokens: every separator, repeated tokens, blanks, case
  for (size_t c = 0; c <= Sep.size(); ++c) mc::run(mc::fmt("sep:%zu", c), [&] {
    std::string s1 = c < Sep.size() ? std::string(1, Sep[c]) : "-";
    Sys s(st); s.add(q, node(st, 1, {{"one" + s1 + "two", s1 + "three" + s1}}, at(qb, .5, .5))); s.add(q, node(st, 2, {{"two", "one"}, {"two", "two"}, {"", s1}}, at(qb, .5, .6))); s.add(q, node(st, 3, {{"One", "onetwo"}}, at(qb, .4, .6)));
    for (int r = 0; r < 2; ++r) { for (auto t : {"one", "two", "three", "One", "onetwo", "one-two", "on"}) { s.query("", t, "", World, 1, 1); s.query("", "", t, World, 1, 1); s.query(t, "two", "", World, 1, 1); }
      s.query("", "one" + s1 + "two", "", World, 1, 1); s.query("", "two two  one", "", World, 1, 1); s.query("one", "", "two" + s1 + "three", World, 1, 1); s.query("", "", "", World, 1, 1); s.query("one", "", "", World, 1, 1); s.query("", s1, s1, World, 1, 1); s.reopen(); }
    mc::S().traces++;
  });
  // regions and levels: boxes on a lattice around tiles of several levels in all four hemispheres; copies in several tiles
  for (int hemi = 0; hemi < 4; ++hemi) for (int l0 = 1; l0 <= 5; ++l0) for (int l1 = l0; l1 <= 5; ++l1) for (int kind = 0; kind < 3; ++kind)
    mc::run(mc::fmt("region:%d.%d-%d.%d", hemi, l0, l1, kind), [&] {
      mc::arm(120);
      int half = 4; int bx = (hemi & 1) ? half : half - 2, by = (hemi & 2) ? half : half - 2; // level 3 tiles next to the map centre
      static std::map<std::string, std::unique_ptr<Sys>> cache; auto &s = cache[mc::fmt("%d.%d", hemi, kind)];
      if (!s) { s.reset(new Sys(st)); s->dir = s->dir; uint64_t id = 1;
        for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) for (int lod : {3, 4, 2}) {
          QuadKey t(lod, lod == 3 ? bx + x : lod == 4 ? 2 * bx + x * 3 : (bx + x) / 2, lod == 3 ? by + y : lod == 4 ? 2 * by + y : (by + y) / 2); auto b = bboxOf(t);
          El e = kind == 0 ? node(st, id, {{"alpha", "v"}}, at(b, .3, .6)) : kind == 1 ? way(st, id, {{"alpha", "v"}}, {at(b, .2, .2), at(b, .7, .4)}) : relation(st, id, {{"alpha", "v"}}, {node(st, 7, {}, at(b, .2, .8)), area(st, 8, {}, {at(b, .5, .5), at(b, .5, .7), at(b, .6, .6)})});
          s->m->save(*e, t); Doc d; d.e = e; d.q = t; d.text = show(*e); d.terms = {"alpha", "v"}; Box bb; e->accept(bb); d.box = bb.b; s->docs.push_back(d); ++id;
        } }
      auto base = bboxOf(QuadKey(3, bx, by)); double w = base.width() / 4, h = base.height() / 4;
      double x0 = base.minPoint.longitude + w * .13, y0 = base.minPoint.latitude + h * .17;
      for (int i = -2; i < 9; ++i) for (int j = -6; j < 5; ++j) for (int dx : {0, 1, 3, 7}) for (int dy : {0, 1, 4})
        s->query("", "alpha", "", BoundingBox(GeoCoordinate(y0 + j * h, x0 + i * w), GeoCoordinate(y0 + (j + dy) * h, x0 + (i + dx) * w)), l0, l1, false);
      s->query("", "", "v", BoundingBox(GeoCoordinate(-90, -180), GeoCoordinate(90, 180)), l0, l1, false);
      mc::S().traces++;
    });
  // the same on disk, with fewer boxes, several tiles open, erasures in between
  for (int hemi = 0; hemi < 4; ++hemi) for (int step = 0; step < 6; ++step)
    mc::run(mc::fmt("disk:%d.%d", hemi, step), [&] {
      mc::arm(60); Sys s(st); int bx = (hemi & 1) ? 8 : 5, by = (hemi & 2) ? 8 : 5; std::vector<QuadKey> ts; uint64_t id = 1;
      for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) ts.push_back(QuadKey(4, bx - 1 + x, by - 1 + y));
      for (int rep = 0; rep < 2; ++rep) for (auto &t : ts) s.add(t, docOf(1 + (id % 7), id, .5)), s.docs.back(), ++id;
      // elements of tiles elsewhere must lie in their tile for the region test
      s.docs.clear(); for (auto &t : ts) s.erase(t); id = 1;
      for (int rep = 0; rep < 2; ++rep) for (auto &t : ts) { auto e = docOf(1 + (id % 7), id, .5); static_cast<Node &>(*e).coordinate = at(bboxOf(t), .4, .4); s.add(t, e); ++id; if (step == 1 && id == 10) s.query("", "", "alpha", World, 4, 4); }
      if (step == 2) s.erase(ts[3]); if (step == 3) { s.erase(ts[0]); s.query("", "beta", "", World, 3, 5); auto e = docOf(7, 99, .5); static_cast<Node &>(*e).coordinate = at(bboxOf(ts[0]), .4, .4); s.add(ts[0], e); }
      if (step >= 4) s.reopen(); if (step == 5) { s.erase(ts[5]); s.reopen(); }
      for (int i = 0; i < 16; ++i) for (int j = i; j < 16; ++j) { auto a = bboxOf(ts[i]), b = bboxOf(ts[j]); auto lo = at(a, .35, .3), hi = at(b, .5, .5); s.query("gamma", "", "alpha beta", BoundingBox(GeoCoordinate(std::min(lo.latitude, hi.latitude), std::min(lo.longitude, hi.longitude)), GeoCoordinate(std::max(lo.latitude, hi.latitude), std::max(lo.longitude, hi.longitude))), 3, 4); }
      mc::S().traces++;
    });
  return mc::finish();
}
