// C23: a tile request calls the builders of every visible element of the tile exactly once, whatever stores hold it.
//BUILD variant=asan
#include "uty.hpp"
#include "builders/BuilderContext.hpp"
#include "builders/ElementBuilder.hpp"
#include "builders/QuadKeyBuilder.hpp"
#include "heightmap/FlatElevationProvider.hpp"
#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
using namespace uty; using namespace utymap::builders; using namespace utymap::mapcss;
typedef std::map<std::string, int> Calls;
static Calls *calls; static int serial;
struct Rec : ElementBuilder {   // records what it is asked to build
  std::string name; int prepared = 0, done = 0; std::vector<std::string> seen; Rec(const BuilderContext &c, const std::string &n) : ElementBuilder(c), name(n) { ++(*calls)[n + " made"]; }
  void prepare() override { if (!seen.empty()) mc::fail("%s: prepared after the first element", name.c_str()); ++(*calls)[name + " prepared"]; }
  void complete() override { if (done++) mc::fail("%s: completed twice", name.c_str()); ++(*calls)[name + " completed"]; }
  template <class T> void add(const T &e) { if (done) mc::fail("%s: called after completion", name.c_str()); seen.push_back(""); ++(*calls)[name + " " + show(e)]; }
  void visitNode(const Node &n) override { add(n); } void visitWay(const Way &n) override { add(n); } void visitArea(const Area &n) override { add(n); } void visitRelation(const Relation &n) override { add(n); }
};
static const QuadKey T15(15, 17603, 10743);
static QuadKey sub(int i) { return QuadKey(16, T15.tileX * 2 + i % 2, T15.tileY * 2 + i / 2); }
struct Want { int lod; std::string css; };
// styles: who is visible where, through which builders
static const char *Styles[] = {
  "node,way,area,relation|z15-16[a]{builder:b1;clip:true;}",
  "node,way,area,relation|z15-16[a]{builder:b1;}node,area|z16[k]{builder:b2;}way|z15-15[k]{builder:ext;}",
  "node|z16[k=1]{builder:b1;}way,area|z15-16[a]{clip:true;builder:b2;}relation|z15-16[a]{clip:true;builder:b2;}relation|z15-16[a=1]{builder:ext;}",
};
struct World {
  StringTable st; std::vector<std::unique_ptr<StyleSheet>> sheets; std::vector<std::unique_ptr<StyleProvider>> sps; std::unique_ptr<GeoStore> gs; std::unique_ptr<QuadKeyBuilder> qb; std::vector<El> els; heightmap::FlatElevationProvider ele; CancellationToken token;
  explicit World(int stores) : st(mc::scratch("st")) {
    for (auto c : Styles) { sheets.emplace_back(new StyleSheet(MapCssParser("").parse(std::string(c)))); sps.emplace_back(new StyleProvider(*sheets.back(), st)); }
    gs.reset(new GeoStore(st)); gs->registerStore("A", utils::make_unique<InMemoryElementStore>(st)); gs->registerStore("B", utils::make_unique<InMemoryElementStore>(st));
    if (stores > 2) { auto d = mc::scratch("data"); lodDirs(d, 15, 16); gs->registerStore("P", utils::make_unique<PersistentElementStore>(d, st)); }
    qb.reset(new QuadKeyBuilder(*gs, st)); for (auto n : {"b1", "b2"}) { std::string s = n; qb->registerElementBuilder(s, [s](const BuilderContext &c) { return std::unique_ptr<ElementBuilder>(new Rec(c, s)); }); }
    auto b = bboxOf(T15); auto P = [&](double x, double y) { return at(b, 1 - y, x); };   // y down as tiles
    els = { node(st, 7, {{"a", "1"}, {"k", "1"}}, P(.2, .2)), way(st, 7, {{"a", "1"}, {"k", "1"}}, {P(.1, .3), P(.9, .3)}), area(st, 8, {{"a", "1"}, {"k", "2"}}, {P(.1, .1), P(.1, .9), P(.4, .9), P(.4, .1)}),
      way(st, 9, {{"a", "1"}}, {P(.3, .1), P(.7, .15), P(.3, .2), P(.7, .25), P(.3, .3)}), relation(st, 7, {{"a", "1"}}, {node(st, 1, {}, P(.3, .3)), node(st, 2, {}, P(.35, .35))}), node(st, 0, {{"a", "1"}}, P(.6, .6)), node(st, 11, {{"k", "1"}}, P(.7, .1)), area(st, 10, {{"a", "1"}, {"k", "1"}}, {P(.6, .6), P(.6, .9), P(.9, .9)}),
      area(st, 9, {{"a", "1"}}, {P(.3, .05), P(.7, .08), P(.35, .2), P(.7, .3), P(.3, .35)}) };   // split as way 9 of the same id
  }
  Calls request(const QuadKey &q, int style) { Calls c; calls = &c; qb->build(q, *sps[style], ele, [](const math::Mesh &) { mc::fail("mesh is delivered"); }, [&](const Element &e) { ++c["ext " + show(e)]; }, token); return c; }
};
struct Op { int el, store, mode, style; };
static void add(World &w, const Op &o) {
  static const char *keys[] = {"A", "B", "P"}; auto &e = *w.els[o.el]; auto &sp = *w.sps[o.style];
  auto range = o.mode == 2 ? LodRange(16, 16) : LodRange(15, 16); w.gs->add(keys[o.store], e, range, sp, w.token);
}
static std::string text(const Op &o) { return mc::fmt("%d%c%d%d", o.el, "ABP"[o.store], o.mode, o.style); }
// what a request of one element stored alone delivers, found by running it in its own world: the reference for any combination
static std::map<std::string, Calls> solo;
static Calls alone(const Op &o, const QuadKey &q, int style) {
  auto key = mc::fmt("%d %d %d ", o.el, o.mode, o.style) + show(q) + mc::fmt(" %d", style); auto it = solo.find(key); if (it != solo.end()) return it->second;
  World w(2); add(w, {o.el, 0, o.mode, o.style}); return solo[key] = w.request(q, style);
}
static std::string print(const Calls &c) { std::string s; for (auto &p : c) s += p.first + mc::fmt(" x%d; ", p.second); return s; }
static void check(World &w, const std::vector<Op> &ops, const QuadKey &q, int style, int times) {
  Calls want; std::set<std::pair<int, int>> have; 
  for (auto &o : ops) { Calls c = alone(o, q, style); for (auto &p : c) { if (w.els[o.el]->id == 0 && p.first.find('{') != std::string::npos) { want[p.first] += p.second; continue; } auto &x = want[p.first]; x = std::max(x, p.second); } }
  for (int i = 0; i < times; ++i) { Calls got = w.request(q, style); mc::transition(); if (got != want) { std::string h; for (auto &o : ops) h += text(o) + " "; mc::fail("tile %s style %d request %d after %s: got %s expected %s", show(q).c_str(), style, i, h.c_str(), print(got).c_str(), print(want).c_str()); } mc::outcome(mc::hash(print(got))); }
}
static std::vector<QuadKey> tiles() { return {T15, sub(0), sub(1), sub(2), sub(3), QuadKey(15, T15.tileX + 1, T15.tileY), QuadKey(16, T15.tileX * 2 + 2, T15.tileY * 2)}; }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool th = mc::thorough();
  // single elements: builders and number of calls by the book
  mc::run("single", [&] { struct Row { int el, style, tile; const char *calls; };
    // element kind and id, per style and tile: which builder is called how often (parts of a split way count one each)
    auto count = [](const Calls &c, const std::string &b) { int n = 0; for (auto &p : c) if (p.first.compare(0, b.size() + 1, b + " ") == 0 && p.first.find('{') != std::string::npos) n += p.second; return n; };
    World probe(2); auto qs = tiles(); for (size_t el = 0; el < probe.els.size(); ++el) for (int style = 0; style < 3; ++style) for (size_t t = 0; t < qs.size(); ++t) { Calls c = alone({(int)el, 0, 0, style}, qs[t], style);
      // place: tiles of level 15 (0), level 16 quarters 1..4 touched by the element; neighbours never
      static const int At[9][5] = {{1, 1, 0, 0, 0}, {1, 1, 1, 0, 0}, {1, 1, 0, 1, 0}, {1, 3, 2, 0, 0}, {1, 1, 0, 0, 0}, {1, 0, 0, 0, 1}, {1, 0, 1, 0, 0}, {1, 0, 0, 0, 1}, {1, 1, 2, 0, 0}};
      int n = t < 5 ? At[el][t] : 0, lod = t == 0 ? 15 : 16; int b1 = 0, b2 = 0, ext = 0; bool a = el != 6, k1 = el == 0 || el == 1 || el == 6 || el == 7, k = k1 || el == 2; char kind = "nwawrnnaa"[el]; bool split = style != 1 && n > 1; (void)split; int m = style == 1 ? std::min(n, 1) : n;
      if (style == 0 && a) b1 = m; if (style == 1) { if (a) b1 = m; if (k && (kind == 'n' || kind == 'a') && lod == 16) b2 = m; if (k && kind == 'w' && lod == 15) ext = m; }
      if (style == 2) { if (k1 && kind == 'n' && lod == 16) b1 = m; if (a && (kind == 'w' || kind == 'a')) b2 = m; if (a && kind == 'r') b2 = ext = m; }
      int g1 = count(c, "b1"), g2 = count(c, "b2"), ge = count(c, "ext");
      if (g1 != b1 || g2 != b2 || ge != ext) mc::fail("element %zu style %d tile %s: b1 %d b2 %d ext %d, expected %d %d %d (%s)", el, style, show(qs[t]).c_str(), g1, g2, ge, b1, b2, ext, print(c).c_str());
      for (auto b : {"b1", "b2"}) { int used = count(c, b) > 0; for (auto x : {" made", " prepared", " completed"}) { auto it = c.find(std::string(b) + x); if ((it == c.end() ? 0 : it->second) != used) mc::fail("builder %s is%s %d times", b, x, it == c.end() ? 0 : it->second); } } mc::transition(); } });
  // levels: stored for levels a..b by a style visible on c..d, requested with a style visible on e..f, repeated and unknown builder names
  auto P0 = GeoCoordinate(52.53, 13.38); double d0 = 1e-6; int st0 = th ? 1 : 3;
  for (int a = 1; a <= 19; ++a) mc::run(mc::fmt("levels:%d", a), [&] {
    for (int b = a; b <= 19; ++b) for (int c = 1; c <= 19; c += 3) for (int k = 0; k < 4; ++k) for (int dd = c; dd <= 19; dd += 6) {
      if ((a * 7 + b * 3 + c + dd + k) % st0) continue;
      int lo = k & 1 ? c : 1, hi = k & 1 ? dd : 19, e = k & 2 ? c : 1, f = k & 2 ? dd : 19; StringTable st(mc::scratch("st")); CancellationToken token;
      auto css = [](int x, int y, const char *rest) { return mc::fmt("node,way,area,relation|z%d-%d[a]{%s}", x, y, rest); };
      StyleSheet s1(MapCssParser("").parse(css(lo, hi, "k:v;"))), s2(MapCssParser("").parse(css(e, f, "builder:b1;builder:b2;"))); StyleProvider p1(s1, st), p2(s2, st);
      GeoStore gs(st); gs.registerStore("A", utils::make_unique<InMemoryElementStore>(st)); QuadKeyBuilder qb(gs, st); for (auto n : {"b1", "b2"}) { std::string s = n; qb.registerElementBuilder(s, [s](const BuilderContext &c) { return std::unique_ptr<ElementBuilder>(new Rec(c, s)); }); }
      auto Q = [&](double x, double y) { return GeoCoordinate(P0.latitude + y * d0, P0.longitude + x * d0); };
      std::vector<El> els{node(st, 1, {{"a", "1"}}, P0), way(st, 2, {{"a", "1"}}, {P0, Q(1, 1)}), area(st, 3, {{"a", "1"}}, {P0, Q(1, 0), Q(1, 1)}), relation(st, 4, {{"a", "1"}}, {node(st, 5, {}, P0)})};
      for (auto &x : els) gs.add("A", *x, LodRange(a, b), p1, token);
      heightmap::FlatElevationProvider ele;
      for (int lod = 1; lod <= 19; ++lod) {
        auto q = utils::GeoUtils::GeoCoordinateToQuadKey(P0, lod); Calls got; calls = &got; qb.build(q, p2, ele, [](const math::Mesh &) {}, [&](const Element &x) { ++got["ext " + show(x)]; }, token); mc::transition();
        bool vis = lod >= a && lod <= b && lod >= lo && lod <= hi && lod >= e && lod <= f; Calls want; if (vis) for (auto n : {"b1", "b2"}) { for (auto x : {" made", " prepared", " completed"}) want[std::string(n) + x] = 1; for (auto &x : els) want[std::string(n) + " " + show(*x)] = 1; }
        if (got != want) mc::fail("stored on %d-%d with style of %d-%d, requested on %d with style of %d-%d: got %s expected %s", a, b, lo, hi, lod, e, f, print(got).c_str(), print(want).c_str()); mc::outcome(mc::hash(print(got)));
      } }
  });
  // combinations
  auto qs = tiles(); int els = 9;
  for (int style = 0; style < 3; ++style) {
    // every assignment of four elements to sets of stores
    for (int first = 0; first < els; ++first) mc::run(mc::fmt("stores:%d:%d", style, first), [&] { World w0(3); for (int second = first + 1; second < els; ++second) for (int m1 = 1; m1 < 8; ++m1) for (int m2 = 0; m2 < 8; ++m2) { World w(th || m1 + m2 > 9 ? 3 : 2); bool p = th || m1 + m2 > 9; std::vector<Op> ops; for (int s = 0; s < 3; ++s) { if (s == 2 && !p) continue; if (m1 >> s & 1) ops.push_back({first, s, 0, style}); if (m2 >> s & 1) ops.push_back({second, s, 0, style}); } for (auto &o : ops) add(w, o); for (auto &q : qs) check(w, ops, q, style, 2); } });
    // all elements in all subsets of two stores
    mc::run(mc::fmt("all:%d", style), [&] { for (int a = 0; a < 512; a += th ? 1 : 5) for (int k = 0; k < 4; ++k) { int b = k == 0 ? a : k == 1 ? 511 : k == 2 ? 511 & ~a : 0; World w(2); std::vector<Op> ops; for (int e = 0; e < els; ++e) { if (a >> e & 1) ops.push_back({e, 0, 0, style}); if (b >> e & 1) ops.push_back({e, 1, 0, style}); } for (auto &o : ops) add(w, o); for (auto &q : qs) check(w, ops, q, style, 1); } });
  }
  // histories: additions (element, store, levels) and requests in any order; every request sees what is there and nothing of earlier requests
  std::vector<Op> al; for (int e : {0, 1, 3, 4}) for (int s : {0, 1}) for (int m : {0, 2}) al.push_back({e, s, m, 0}); int depth = th ? 4 : 3;
  for (size_t f = 0; f < al.size(); ++f) mc::run(mc::fmt("history:%zu", f), [&] { int n = al.size() + 2; mc::words(n, depth - 1, [&](const std::vector<int> &wd) { World w(2); std::vector<Op> ops{al[f]}; add(w, al[f]); for (int x : wd) { if (x < (int)al.size()) { ops.push_back(al[x]); add(w, al[x]); } else check(w, ops, x == (int)al.size() ? T15 : sub(0), 0, 1); } for (int t = 0; t < 3; ++t) check(w, ops, qs[t], 0, 1); }); });
  return mc::finish();
}
