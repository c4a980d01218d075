// C05: tiles an element is stored in and the clipped geometry stored there, against an independent geometric oracle.
#include "uty.hpp"
#include "index/ElementStore.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
using namespace uty; using namespace utymap::mapcss;
typedef long double L;
struct P { L x, y; };
static const L Eps = 3e-7L;   // stored geometry has a resolution of 1e-7 degree

struct Deep : ElementVisitor {   // deep copy
  El r;
  void visitNode(const Node &n) override { r = std::make_shared<Node>(n); }
  void visitWay(const Way &n) override { r = std::make_shared<Way>(n); }
  void visitArea(const Area &n) override { r = std::make_shared<Area>(n); }
  void visitRelation(const Relation &n) override { auto c = std::make_shared<Relation>(); c->id = n.id; c->tags = n.tags; for (auto &e : n.elements) { Deep d; e->accept(d); c->elements.push_back(d.r); } r = c; }
};
struct Store : ElementStore {
  std::map<QuadKey, std::vector<El>, QuadKey::Comparator> got;
  explicit Store(const StringTable &st) : ElementStore(st) {}
  void search(const std::string &, const std::string &, const std::string &, const BoundingBox &, const LodRange &, ElementVisitor &, const CancellationToken &) override {}
  void search(const QuadKey &, ElementVisitor &, const CancellationToken &) override {}
  bool hasData(const QuadKey &) const override { return false; }
  void save(const Element &e, const QuadKey &q) override { Deep d; e.accept(d); got[q].push_back(d.r); }
  void erase(const QuadKey &) override {}
  void erase(const BoundingBox &, const LodRange &) override {}
};
struct Leaf { char kind; uint64_t id; std::vector<Tag> tags; std::vector<P> pts; std::vector<std::vector<Tag>> up; };
struct Flat : ElementVisitor {
  std::vector<Leaf> leaves; std::vector<std::vector<Tag>> depth;
  static std::vector<P> conv(const Coords &c) { std::vector<P> r; for (auto &g : c) r.push_back({g.longitude, g.latitude}); return r; }
  void visitNode(const Node &n) override { leaves.push_back({'n', n.id, n.tags, conv({n.coordinate}), depth}); }
  void visitWay(const Way &n) override { leaves.push_back({'w', n.id, n.tags, conv(n.coordinates), depth}); }
  void visitArea(const Area &n) override { leaves.push_back({'a', n.id, n.tags, conv(n.coordinates), depth}); }
  void visitRelation(const Relation &n) override { depth.push_back(n.tags); for (auto &e : n.elements) e->accept(*this); depth.pop_back(); }
};
static bool same(const std::vector<Tag> &a, const std::vector<Tag> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].key != b[i].key || a[i].value != b[i].value) return false; return true; }
static char kindOf(const Element &e) { return dynamic_cast<const Node *>(&e) ? 'n' : dynamic_cast<const Way *>(&e) ? 'w' : dynamic_cast<const Area *>(&e) ? 'a' : 'r'; }
struct Box { L x0, y0, x1, y1; Box grow(L d) const { return {x0 - d, y0 - d, x1 + d, y1 + d}; } bool has(P p) const { return p.x >= x0 && p.x <= x1 && p.y >= y0 && p.y <= y1; } };
static Box boxOf(const QuadKey &q) { auto b = bboxOf(q); return {b.minPoint.longitude, b.minPoint.latitude, b.maxPoint.longitude, b.maxPoint.latitude}; }
static L dist(P a, P b) { return hypotl(a.x - b.x, a.y - b.y); }
// parameter interval of a segment within a box
static bool clipSeg(P a, P b, const Box &r, L &t0, L &t1) {
  t0 = 0; t1 = 1; L dx = b.x - a.x, dy = b.y - a.y, p[4] = {-dx, dx, -dy, dy}, q[4] = {a.x - r.x0, r.x1 - a.x, a.y - r.y0, r.y1 - a.y};
  for (int i = 0; i < 4; ++i) { if (p[i] == 0) { if (q[i] < 0) return false; } else { L t = q[i] / p[i]; if (p[i] < 0) t0 = std::max(t0, t); else t1 = std::min(t1, t); } }
  return t0 < t1;
}
static L lineIn(const std::vector<P> &w, const Box &r) { L s = 0, a, b; if (r.x0 >= r.x1 || r.y0 >= r.y1) return 0; for (size_t i = 1; i < w.size(); ++i) if (clipSeg(w[i - 1], w[i], r, a, b)) s += (b - a) * dist(w[i - 1], w[i]); return s; }
static L lineLen(const std::vector<P> &w) { L s = 0; for (size_t i = 1; i < w.size(); ++i) s += dist(w[i - 1], w[i]); return s; }
static L area2(const std::vector<P> &p) { L s = 0; for (size_t i = 0; i < p.size(); ++i) { auto &a = p[i], &b = p[(i + 1) % p.size()]; s += a.x * b.y - b.x * a.y; } return s; }
static std::vector<P> clipPoly(std::vector<P> p, const Box &r) {
  for (int e = 0; e < 4 && !p.empty(); ++e) {
    auto f = [&](P a) { return e == 0 ? a.x - r.x0 : e == 1 ? r.x1 - a.x : e == 2 ? a.y - r.y0 : r.y1 - a.y; };
    std::vector<P> o; for (size_t i = 0; i < p.size(); ++i) { P a = p[i], b = p[(i + 1) % p.size()]; L fa = f(a), fb = f(b); if (fa >= 0) o.push_back(a); if ((fa < 0) != (fb < 0)) { L t = fa / (fa - fb); o.push_back({a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); } }
    p = o;
  }
  return p;
}
static L polyIn(const std::vector<P> &p, const Box &r) { std::vector<P> q = p; P o = p[0]; for (auto &v : q) { v.x -= o.x; v.y -= o.y; } auto c = clipPoly(q, {r.x0 - o.x, r.y0 - o.y, r.x1 - o.x, r.y1 - o.y}); return c.size() < 3 ? 0 : fabsl(area2(c)) / 2; }
static L polyArea(std::vector<P> p) { P o = p[0]; for (auto &v : p) { v.x -= o.x; v.y -= o.y; } return fabsl(area2(p)) / 2; }
static L segDist(P p, P a, P b) { L d = dist(a, b); if (d == 0) return dist(p, a); L t = ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / (d * d); t = std::max<L>(0, std::min<L>(1, t)); return dist(p, {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); }
static bool inside(P p, const std::vector<P> &g, L tol) {
  bool c = false; for (size_t i = 0, j = g.size() - 1; i < g.size(); j = i++) { if (segDist(p, g[i], g[j]) <= tol) return true; if ((g[i].y > p.y) != (g[j].y > p.y) && p.x < (g[j].x - g[i].x) * (p.y - g[i].y) / (g[j].y - g[i].y) + g[i].x) c = !c; }
  return c;
}
// a line was changed to the lines of `got` within box: each stored piece runs along the original within the tile, pieces add up to what lies in the tile
static void checkLine(const std::vector<P> &orig, const std::vector<const Leaf *> &got, const Box &tile, const std::string &where) {
  Box big = tile.grow(Eps); L sum = 0;
  for (auto *g : got) {
    if (g->pts.size() < 2) mc::fail("%s: a line of %zu points is stored", where.c_str(), g->pts.size());
    for (auto &p : g->pts) if (!big.has(p)) mc::fail("%s: stored line leaves the tile at %.8Lf %.8Lf", where.c_str(), p.y, p.x);
    for (size_t i = 1; i < g->pts.size(); ++i) { bool on = false; for (size_t k = 1; k < orig.size() && !on; ++k) on = segDist(g->pts[i - 1], orig[k - 1], orig[k]) < Eps && segDist(g->pts[i], orig[k - 1], orig[k]) < Eps; if (!on) mc::fail("%s: stored line leaves its course between %.8Lf %.8Lf and %.8Lf %.8Lf", where.c_str(), g->pts[i - 1].y, g->pts[i - 1].x, g->pts[i].y, g->pts[i].x); }
    sum += lineLen(g->pts);
  }
  L lo = lineIn(orig, tile.grow(-Eps)), hi = lineIn(orig, tile.grow(Eps)), tol = Eps * 4 * orig.size();
  if (sum < lo - tol) mc::fail("%s: stored lines are %.8Lf long, expected %.8Lf", where.c_str(), sum, lo);
  if (sum > hi + tol) mc::fail("%s: stored lines are %.8Lf long, expected %.8Lf", where.c_str(), sum, hi);
  // coverage: the middle of every part of the line in the tile is on a stored piece
  for (size_t k = 1; k < orig.size(); ++k) { L a, b; if (!clipSeg(orig[k - 1], orig[k], tile.grow(-Eps), a, b) || (b - a) * dist(orig[k - 1], orig[k]) < 4 * Eps) continue;
    for (L f : {0.02L, 0.5L, 0.98L}) { L t = a + (b - a) * f; P p{orig[k - 1].x + t * (orig[k].x - orig[k - 1].x), orig[k - 1].y + t * (orig[k].y - orig[k - 1].y)}; bool on = false; for (auto *g : got) for (size_t i = 1; i < g->pts.size() && !on; ++i) on = segDist(p, g->pts[i - 1], g->pts[i]) < Eps; if (!on) mc::fail("%s: point %.8Lf %.8Lf of the line is lost", where.c_str(), p.y, p.x); } }
}
static void checkArea(const std::vector<P> &orig, const std::vector<const Leaf *> &got, const Box &tile, const std::string &where) {
  Box big = tile.grow(Eps); L sum = 0, per = 0; for (size_t i = 0; i < orig.size(); ++i) per += dist(orig[i], orig[(i + 1) % orig.size()]); per += 2 * (tile.x1 - tile.x0 + tile.y1 - tile.y0);
  for (auto *g : got) {
    if (g->pts.size() < 3) mc::fail("%s: an area of %zu points is stored", where.c_str(), g->pts.size());
    for (size_t i = 0; i < g->pts.size(); ++i) { P p = g->pts[i], n = g->pts[(i + 1) % g->pts.size()]; if (!big.has(p)) mc::fail("%s: stored area leaves the tile at %.8Lf %.8Lf", where.c_str(), p.y, p.x); if (!inside(p, orig, Eps) || !inside({(p.x + n.x) / 2, (p.y + n.y) / 2}, orig, Eps)) mc::fail("%s: stored area leaves the original at %.8Lf %.8Lf", where.c_str(), p.y, p.x); }
    sum += polyArea(g->pts);
  }
  L want = polyIn(orig, tile), tol = Eps * per; if (fabsl(sum - want) > tol) mc::fail("%s: stored areas cover %.10Lf, expected %.10Lf", where.c_str(), sum, want);
  for (int i = 1; i < 8; ++i) for (int j = 1; j < 8; ++j) { P p{tile.x0 + (tile.x1 - tile.x0) * i / 8.0L, tile.y0 + (tile.y1 - tile.y0) * j / 8.0L}; bool edge = false; for (size_t k = 0; k < orig.size(); ++k) edge |= segDist(p, orig[k], orig[(k + 1) % orig.size()]) < 2 * Eps; if (edge) continue; int in = 0; for (auto *g : got) in += inside(p, g->pts, 0); if (in != int(inside(p, orig, 0))) mc::fail("%s: point %.8Lf %.8Lf is covered %d times", where.c_str(), p.y, p.x, in); }
}

enum Mode { Range, Tile, Region };
struct Env {
  StringTable st; StyleProvider sp; uint32_t clip; QuadKey base; std::vector<L> ux, uy; std::vector<GeoCoordinate> pts;
  static StyleSheet sheet() { std::string s; for (const char *k : {"node", "way", "area", "relation"}) s += std::string(k) + "|z1-19[c]{k:v;clip:true;}" + k + "|z1-19[p]{k:v;}" + k + "|z1-19[s]{k:v;skip:true;}" + k + "|z9-10[l]{k:v;clip:true;}" + k + "|z11[l]{k:v;}" + k + "|z12[l]{skip:true;clip:true;}"; return MapCssParser().parse(s); }
  Env(QuadKey b, const std::vector<double> &us) : st(mc::scratch("st")), sp(sheet(), st), base(b) {
    for (double v : us) for (double u : us) { int fx = floor(u), fy = floor(v); auto bb = bboxOf(QuadKey(b.levelOfDetail, b.tileX + fx, b.tileY - fy)); pts.push_back(GeoCoordinate(v == fy ? bb.minPoint.latitude : bb.minPoint.latitude + (bb.maxPoint.latitude - bb.minPoint.latitude) * (v - fy), u == fx ? bb.minPoint.longitude : bb.minPoint.longitude + (bb.maxPoint.longitude - bb.minPoint.longitude) * (u - fx))); }
  }
};
// checks everything stored for an element on one level; region = tiles that have to be filled
static void checkLevel(Env &e, const Element &el, Store &s, int lod, char how, const std::function<int(const QuadKey &)> &required, const std::string &what) {
  Flat orig; el.accept(orig); bool single = kindOf(el) != 'r';
  L x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9; for (auto &l : orig.leaves) for (auto &p : l.pts) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
  auto q0 = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(y1, x0), lod), q1 = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(y0, x1), lod); int n = 1 << lod;
  for (auto &g : s.got) if (g.first.levelOfDetail == lod && (g.first.tileX < q0.tileX - 1 || g.first.tileX > q1.tileX + 1 || g.first.tileY < q0.tileY - 1 || g.first.tileY > q1.tileY + 1)) mc::fail("%s: stored in tile %s which it does not touch", what.c_str(), show(g.first).c_str());
  std::map<size_t, L> lines;  // stored length of every line leaf over all tiles
  bool full = true; std::map<size_t, int> nodes;
  for (int y = q0.tileY - 1; y <= q1.tileY + 1; ++y) for (int x = q0.tileX - 1; x <= q1.tileX + 1; ++x) {
    if (x < 0 || y < 0 || x >= n || y >= n) continue;
    QuadKey q(lod, x, y); auto it = s.got.find(q); int req = required(q); if (req < 1) full = false;
    std::string where = what + " tile " + show(q); Box b = boxOf(q);
    if (it != s.got.end() && req < 0) mc::fail("%s: stored although not requested", where.c_str());
    if (it == s.got.end() && req <= 0) continue;
    if (it != s.got.end() && it->second.size() != 1) mc::fail("%s: stored %zu times", where.c_str(), it->second.size());
    El got = it == s.got.end() ? nullptr : it->second[0];
    if (how == 's') { if (got) mc::fail("%s: stored although skipped", where.c_str()); continue; }
    if (how == 'p') {   // stored whole where its bounding box meets the tile
      bool over = x1 > b.x0 + Eps && x0 < b.x1 - Eps && y1 > b.y0 + Eps && y0 < b.y1 - Eps, touch = x1 >= b.x0 - Eps && x0 <= b.x1 + Eps && y1 >= b.y0 - Eps && y0 <= b.y1 + Eps;
      if (over && !got) mc::fail("%s: not stored", where.c_str()); if (!touch && got) mc::fail("%s: stored although outside", where.c_str());
      if (got && show(*got) != show(el)) mc::fail("%s: altered without clipping: %s instead of %s", where.c_str(), show(*got).c_str(), show(el).c_str()); mc::transition(); continue;
    }
    Flat f; if (got) got->accept(f);
    if (got && got->id != el.id) mc::fail("%s: stored with id %d", where.c_str(), (int)got->id);
    if (got) { bool part = single && kindOf(*got) == 'r'; if (part ? !got->tags.empty() : !same(got->tags, el.tags)) mc::fail("%s: tags differ", where.c_str()); if (single && !part && kindOf(*got) != kindOf(el)) mc::fail("%s: changed its kind", where.c_str()); if (part) for (auto &l : f.leaves) if (!same(l.tags, el.tags) || l.id != 0) mc::fail("%s: tags or id of a part differ", where.c_str()); if (kindOf(*got) == 'r' && f.leaves.size() < 2 && kindOf(el) != 'r') mc::fail("%s: relation of %zu parts", where.c_str(), f.leaves.size()); }
    // match stored leaves to original ones: by tags (unique per member), or the only one left
    std::vector<std::vector<const Leaf *>> per(orig.leaves.size()); size_t last = 0;
    for (auto &l : f.leaves) {
      size_t k = orig.leaves.size();
      if (single) k = 0; else for (size_t i = 0; i < orig.leaves.size(); ++i) if (same(orig.leaves[i].tags, l.tags) && orig.leaves[i].kind == l.kind) { k = i; break; }
      if (k == orig.leaves.size()) for (size_t i = 0; i < orig.leaves.size(); ++i) { auto &o = orig.leaves[i]; bool in = o.kind == l.kind, tg = false; for (size_t u = 0; u < o.up.size(); ++u) tg |= (u > 0 || f.leaves.size() == 1) && same(o.up[u], l.tags); in &= tg; for (auto &p : l.pts) { bool on = o.kind == 'a' ? inside(p, o.pts, Eps) : false; if (o.kind == 'n') on = dist(p, o.pts[0]) < Eps; for (size_t j = 1; j < o.pts.size(); ++j) on |= segDist(p, o.pts[j - 1], o.pts[j]) < Eps; in &= on; } if (in && (o.kind == 'n' || (o.kind == 'w' ? lineIn(o.pts, b.grow(Eps)) : polyIn(o.pts, b.grow(Eps))) > 0)) { k = i; break; } }
      if (k == orig.leaves.size()) mc::fail("%s: unknown member stored: %s of %s", where.c_str(), show(*got).c_str(), show(el).c_str()); if (k < last) mc::fail("%s: members out of order", where.c_str()); last = k; if (orig.leaves[k].kind != l.kind) mc::fail("%s: member changed its kind", where.c_str()); per[k].push_back(&l);
    }
    for (size_t k = 0; k < orig.leaves.size(); ++k) {
      auto &o = orig.leaves[k]; std::string w = single ? where : where + mc::fmt(" member %zu", k);
      if (o.kind == 'n') { bool in = b.grow(-Eps).has(o.pts[0]), near = b.grow(Eps).has(o.pts[0]); if (per[k].size() > 1 || (in && per[k].empty()) || (!near && !per[k].empty())) mc::fail("%s: node stored %zu times", w.c_str(), per[k].size()); nodes[k] += per[k].size(); if (!per[k].empty() && dist(per[k][0]->pts[0], o.pts[0]) > Eps) mc::fail("%s: node moved", w.c_str()); }
      else if (o.kind == 'w') { checkLine(o.pts, per[k], b, w); for (auto *g : per[k]) lines[k] += lineLen(g->pts); }
      else checkArea(o.pts, per[k], b, w);
    }
    if (got && f.leaves.empty()) mc::fail("%s: an empty element is stored", where.c_str());
    mc::transition(); mc::outcome((uint64_t)f.leaves.size()); for (auto &l : f.leaves) mc::outcome(l.pts.size() * 7 + l.kind);
  }
  if (how == 'c' && full) {   // nothing is lost between the tiles
    for (size_t k = 0; k < orig.leaves.size(); ++k) if (orig.leaves[k].kind == 'n' && nodes[k] < 1) mc::fail("%s: node %zu is in no tile", what.c_str(), k);
    for (size_t k = 0; k < orig.leaves.size(); ++k) if (orig.leaves[k].kind == 'w' && lines[k] < lineLen(orig.leaves[k].pts) - 40 * Eps) mc::fail("%s: lines of all tiles are %.8Lf long, the original %.8Lf", what.c_str(), lines[k], lineLen(orig.leaves[k].pts));
  }
}
static void all(Env &e, const Element &el, int lod, char how, const std::string &what) {
  { Store s(e.st); LodRange r(lod, lod); s.store(el, r, e.sp); checkLevel(e, el, s, lod, how, [](const QuadKey &) { return 1; }, what); }
}
static void modes(Env &e, const Element &el, char how, const std::string &what) {
  int lod = e.base.levelOfDetail;
  { Store s(e.st); s.store(el, e.base, e.sp); checkLevel(e, el, s, lod, how, [&](const QuadKey &q) { return q == e.base ? 1 : -1; }, what + " by tile"); }
  { auto b = boxOf(e.base); BoundingBox bb(GeoCoordinate(b.y0 + (b.y1 - b.y0) / 4, b.x0 + (b.x1 - b.x0) / 4), GeoCoordinate(b.y1 - (b.y1 - b.y0) / 4, b.x1 - (b.x1 - b.x0) / 4));
    Flat f; el.accept(f); bool meets = false; L x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9; for (auto &l : f.leaves) for (auto &p : l.pts) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    meets = x1 >= bb.minPoint.longitude && x0 <= bb.maxPoint.longitude && y1 >= bb.minPoint.latitude && y0 <= bb.maxPoint.latitude;
    Store s(e.st); s.store(el, bb, LodRange(lod - 1, lod), e.sp); if (!meets && !s.got.empty()) mc::fail("%s: stored although outside of the requested box", what.c_str());
    if (meets) for (int d = 0; d < 2; ++d) { QuadKey par(lod - d, e.base.tileX >> d, e.base.tileY >> d); checkLevel(e, el, s, lod - d, how, [&](const QuadKey &q) { return q == par ? 1 : 0; }, what + mc::fmt(" by box level %d", lod - d)); } }
}
static std::string name(const std::vector<int> &w) { std::string s; for (int i : w) s += std::to_string(i) + ","; return s; }
static bool simple(const std::vector<GeoCoordinate> &p) {
  int n = p.size(); auto orient = [&](GeoCoordinate a, GeoCoordinate b, GeoCoordinate c) { L v = ((L)b.longitude - a.longitude) * ((L)c.latitude - a.latitude) - ((L)b.latitude - a.latitude) * ((L)c.longitude - a.longitude); return fabsl(v) < 1e-14L ? 0 : v > 0 ? 1 : -1; };
  for (int i = 0; i < n; ++i) { if (orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0) return false; for (int j = i + 1; j < n; ++j) { if (p[i] == p[j]) return false; if (j == i + 1 || (i == 0 && j == n - 1)) continue; auto a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n]; int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b); if (o1 * o2 <= 0 && o3 * o4 <= 0) return false; } }
  return true;
}

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(120); bool th = mc::thorough();
  std::vector<QuadKey> bases{{8, 128, 127}, {8, 127, 128}, {12, 2200, 1343}, {16, 20001, 40001}, {19, 400001, 150001}, {3, 2, 2}};
  std::vector<double> full{-0.6, 0, 0.3, 0.7, 1, 1.4}, core{-0.6, 0.3, 0.7, 1.4};
  auto guard = [](const std::string &n, std::function<void()> f) { try { f(); } catch (mc::Fail &x) { mc::fail("points %s %s", n.c_str(), x.msg.c_str()); } };
  for (size_t bi = 0; bi < bases.size(); ++bi) {
    int lod = bases[bi].levelOfDetail; std::string t = show(bases[bi]);
    auto pick = [](Env &e, const std::vector<int> &w) { Coords c; for (int i : w) c.push_back(e.pts[i]); return c; };
    mc::run("node:" + t, [&] { Env e(bases[bi], full); for (char how : {'c', 'p', 's'}) for (size_t i = 0; i < e.pts.size(); ++i) guard(std::to_string(i), [&] { auto el = node(e.st, 9, {{std::string(1, how), "1"}}, e.pts[i]); all(e, *el, lod, how, "node"); modes(e, *el, how, "node"); }); });
    for (int len = 2; len <= (th ? 4 : 3); ++len) { if (len == 4 && bi > 2) break; const auto &us = len == 4 ? core : full; int n = us.size() * us.size();
      for (int first = 0; first < n; ++first) mc::run(mc::fmt("way%d:%s:%d", len, t.c_str(), first), [&] { Env e(bases[bi], us); mc::words(n, len - 1, [&](const std::vector<int> &r) { std::vector<int> w{first}; w.insert(w.end(), r.begin(), r.end());
        if (len == 3 && !th && (w[1] * 31 + w[2] * 7 + first + bi) % 3) return;
        guard(name(w), [&] { auto el = way(e.st, 9, {{"c", "1"}}, pick(e, w)); all(e, *el, lod, 'c', "line"); if (len == 2) { modes(e, *el, 'c', "line"); for (char how : {'p', 's'}) { auto o = way(e.st, 9, {{std::string(1, how), "1"}}, pick(e, w)); all(e, *o, lod, how, "line"); modes(e, *o, how, "line"); } } }); }); }); }
    // polygons: triangles on the full lattice, quads on the inner one, pentagons (thorough)
    for (int len = 3; len <= (th ? 5 : 4); ++len) { if (len == 5 && bi > 1) break; const auto &us = len == 3 ? full : core; int n = us.size() * us.size();
      for (int first = 0; first < n; ++first) mc::run(mc::fmt("area%d:%s:%d", len, t.c_str(), first), [&] { Env e(bases[bi], us); mc::words(n, len - 1, [&](const std::vector<int> &r) { std::vector<int> w{first}; w.insert(w.end(), r.begin(), r.end());
        for (int i : r) if (i <= first) return; auto c = pick(e, w); if (!simple(c)) return; if (len == 4 && !th && bi > 1 && (w[1] + w[2] + w[3] + bi) % 4) return;
        guard(name(w), [&] { auto el = area(e.st, 9, {{"c", "1"}}, c); all(e, *el, lod, 'c', "area"); if (len == 3) { modes(e, *el, 'c', "area"); auto o = area(e.st, 9, {{"p", "1"}}, c); all(e, *o, lod, 'p', "area"); } }); }); }); }
    // elements spanning many tiles and zigzags entering a tile several times
    if (lod > 3) for (int k = 2; k <= 12; ++k) mc::run(mc::fmt("zigzag:%s:%d", t.c_str(), k), [&] { Env e(bases[bi], {-2.3, -0.6, 0.3, 0.7, 1.4, 2.8}); auto P2 = [&](int a, int b) { return e.pts[a * 6 + b]; };
      for (int lo = 0; lo < 4; ++lo) for (int hi = 3; hi < 6; ++hi) if (lo < hi) for (bool tr : {false, true}) { Coords z; for (int i = 0; i < k; ++i) { auto a = P2(0, 0), b = P2(5, 5); double f = (i + 0.5) / k; double along = f, across = i % 2 ? 1 : 0; auto l = P2(lo, lo), h = P2(hi, hi); double la = tr ? a.latitude + (b.latitude - a.latitude) * along : l.latitude + (h.latitude - l.latitude) * across, ln = tr ? l.longitude + (h.longitude - l.longitude) * across : a.longitude + (b.longitude - a.longitude) * along; z.push_back(GeoCoordinate(la, ln)); }
        guard(mc::fmt("%d-%d", lo, hi), [&] { auto el = way(e.st, 9, {{"c", "1"}}, z); all(e, *el, lod, 'c', "line"); all(e, *el, lod - 1, 'c', "line"); Coords comb = z; auto far = P2(5, 5), o = P2(0, 0); comb.push_back(tr ? GeoCoordinate(far.latitude, far.longitude) : GeoCoordinate(far.latitude, far.longitude)); comb.push_back(tr ? GeoCoordinate(o.latitude, far.longitude) : GeoCoordinate(far.latitude, o.longitude)); if (simple(comb)) { auto ar = area(e.st, 9, {{"c", "1"}}, comb); all(e, *ar, lod, 'c', "comb"); modes(e, *ar, 'c', "comb"); } }); } });
    // relations of up to three members of every kind
    mc::run("rel:" + t, [&] { Env e(bases[bi], core); auto g = [&](std::vector<int> w) { return pick(e, w); };
      auto pool = [&](int k, int i) -> El { std::string v = std::to_string(i); Tags tg{{"m", v}}; switch (k) {
        case 0: return node(e.st, 20 + i, tg, e.pts[5]); case 1: return node(e.st, 20 + i, tg, e.pts[3]); case 2: return way(e.st, 20 + i, tg, g({5, 6, 10})); case 3: return way(e.st, 20 + i, tg, g({4, 7})); case 4: return way(e.st, 20 + i, tg, g({4, 5, 13, 14, 6, 7}));
        case 5: return area(e.st, 20 + i, tg, g({0, 3, 15, 12})); case 6: return area(e.st, 20 + i, tg, g({5, 6, 10, 9})); case 7: return area(e.st, 20 + i, tg, g({0, 1, 9, 10, 2, 3, 15, 12})); case 8: return way(e.st, 20 + i, tg, g({0, 1})); 
        default: return relation(e.st, 20 + i, {{"n", v}}, {area(e.st, 30, {{"q", v}}, g({1, 6, 9})), node(e.st, 31, {{"r", v}}, e.pts[10])}); } };
      for (int n = 1; n <= 3; ++n) mc::words(10, n, [&](const std::vector<int> &w) { if (n == 3 && !th && bi > 1) return; for (char how : {'c', 'p'}) { std::vector<El> m; for (size_t i = 0; i < w.size(); ++i) m.push_back(pool(w[i], i)); auto el = relation(e.st, 9, {{std::string(1, how), "1"}}, m); guard(name(w), [&] { all(e, *el, lod, how, "relation"); if (n < 3) modes(e, *el, how, "relation"); }); } }); });
    // relations of members on and along the borders of tiles
    for (int first = 0; first < 36; ++first) mc::run(mc::fmt("relborder:%s:%d", t.c_str(), first), [&] { Env e(bases[bi], full); for (int i = 0; i < 36; ++i) for (int k = 0; k < 4; ++k) for (char how : {'c', 'p'}) guard(mc::fmt("%d %d", i, k), [&] {
      std::vector<El> m{node(e.st, 20, {{"m", "0"}}, e.pts[first])}; if (k == 0) m.push_back(node(e.st, 21, {{"m", "1"}}, e.pts[i])); else if (k == 1) m.push_back(way(e.st, 21, {{"m", "1"}}, {e.pts[first], e.pts[i]})); else if (k == 2) m = {way(e.st, 21, {{"m", "1"}}, {e.pts[i], e.pts[first], e.pts[(first + 7) % 36]}), node(e.st, 20, {{"m", "0"}}, e.pts[i])}; else { Coords c{e.pts[first], e.pts[i], e.pts[(i + 8) % 36]}; if (!simple(c)) return; m.push_back(area(e.st, 21, {{"m", "1"}}, c)); }
      auto el = relation(e.st, 9, {{std::string(1, how), "1"}}, m); all(e, *el, lod, how, "relation"); if ((first + i + k) % 5 == 0) modes(e, *el, how, "relation"); }); });
  }
  // one request for several levels with a style that differs by level
  for (int x = 0; x < 6; ++x) mc::run(mc::fmt("levels:%d", x), [&] { Env e(QuadKey(12, 2200, 1343), full); for (int y = 0; y < 6; ++y) for (int i = 0; i < 36; ++i) for (int kind = 0; kind < 2; ++kind) { auto a = e.pts[y * 6 + x], b = e.pts[i]; El el = kind ? way(e.st, 9, {{"l", "1"}}, {a, b}) : node(e.st, 9, {{"l", "1"}}, a); if (!kind && i) continue;
    Store s(e.st); s.store(*el, LodRange(8, 13), e.sp); guard(mc::fmt("%d %d", y * 6 + x, i), [&] { for (int lod = 8; lod <= 13; ++lod) checkLevel(e, *el, s, lod, lod == 9 || lod == 10 ? 'c' : lod == 11 ? 'p' : 's', [](const QuadKey &) { return 1; }, mc::fmt("level %d", lod)); }); } });
  // no style: nothing stored and told so
  mc::run("unstyled", [&] { Env e(QuadKey(12, 2200, 1343), core); for (auto &p : e.pts) { Store s(e.st); if (s.store(*node(e.st, 1, {{"zz", "1"}}, p), LodRange(1, 19), e.sp) || !s.got.empty()) mc::fail("element without style is stored"); if (!s.store(*node(e.st, 1, {{"p", "1"}}, p), LodRange(12, 12), e.sp)) mc::fail("stored element is reported as not stored"); mc::outcome(1); } });
  return mc::finish();
}
