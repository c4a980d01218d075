// C21: the terrain of a tile covers it exactly once, every spot in the look of the topmost layer there, and neighbouring tiles fit together.
//BUILD variant=asan
#include "uty.hpp"
#include "builders/BuilderContext.hpp"
#include "builders/MeshPool.hpp"
#include "builders/QuadKeyBuilder.hpp"
#include "builders/terrain/TerraBuilder.hpp"
#include "heightmap/ElevationProvider.hpp"
#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include "math/Mesh.hpp"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
using namespace uty; using namespace utymap::builders; using namespace utymap::mapcss; using namespace utymap::math;
typedef std::pair<int, int> I2; typedef std::vector<I2> Ring; struct P { double x, y; };
struct Slope : utymap::heightmap::ElevationProvider {
  static double at(double lat, double lon) { return 40 + lat * 2 + lon; }
  double getElevation(const QuadKey &, const GeoCoordinate &c) const override { return at(c.latitude, c.longitude); }
  double getElevation(const QuadKey &, double lat, double lon) const override { return at(lat, lon); }
};
static long cross(I2 a, I2 b, I2 c) { return long(b.first - a.first) * (c.second - a.second) - long(b.second - a.second) * (c.first - a.first); }
static long area2(const Ring &r) { long s = 0; for (size_t i = 0; i < r.size(); ++i) { auto a = r[i], b = r[(i + 1) % r.size()]; s += long(a.first) * b.second - long(b.first) * a.second; } return s; }
static Ring rev(Ring r) { std::reverse(r.begin(), r.end()); return r; }

// shapes in quarters of the tile: rings of an area (even-odd) or the points of a line
struct Shape { char kind; std::vector<Ring> rings, parts; };   // a: area, r: relation of rings, w: line, W: area split in tagless members
static const std::vector<Shape> Shapes = [] {
  std::vector<Shape> s; auto A = [&](Ring r) { s.push_back({'a', {r}}); }; auto R = [&](std::vector<Ring> r) { s.push_back({'r', r}); }; auto W = [&](Ring r) { s.push_back({'w', {r}}); };
  auto box = [](int x0, int y0, int x1, int y1) { return Ring{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; };
  A(box(1, 1, 3, 3)); A(box(0, 0, 2, 2)); A(box(2, 1, 5, 2)); A(box(-1, -1, 5, 5)); A(box(0, 0, 4, 4)); A(box(1, -1, 2, 5)); A(rev(box(1, 2, 4, 3))); A(box(3, 3, 6, 6)); A(box(-3, 1, -1, 2));
  A({{1, 0}, {3, 1}, {2, 3}}); A({{-1, 2}, {2, -1}, {5, 2}, {2, 5}}); A({{0, 1}, {4, 1}, {4, 3}, {2, 2}, {0, 3}}); A(rev({{1, 1}, {3, 0}, {5, 3}})); A({{0, 0}, {4, 4}, {0, 4}});
  A({{-1, 1}, {5, 1}, {5, 3}, {3, 3}, {3, 5}, {2, 5}, {2, 2}, {-1, 2}}); A({{-1, 0}, {1, 0}, {1, 5}, {2, 5}, {2, 0}, {3, 0}, {3, 6}, {-1, 6}}); s.back().parts = {box(0, 0, 1, 4), box(2, 0, 3, 4)}; A({{2, 2}, {3, 2}, {3, 3}, {2, 3}, {2, 2}}); A({{-2, -2}, {-1, 3}, {3, -1}});
  R({box(0, 0, 3, 3), rev(box(1, 1, 2, 2))}); R({box(-1, -1, 3, 3), rev(box(1, 1, 2, 2))}); R({box(-1, -1, 5, 5), rev(box(1, 1, 5, 2))}); R({box(-2, -2, 6, 6), rev(box(-1, -1, 5, 3))}); R({box(-1, 0, 2, 2), box(2, 2, 5, 4)}); R({box(-2, -2, 6, 6), rev(box(-1, -1, 5, 5)), box(1, 1, 3, 3)});
  R({box(0, 0, 4, 4), rev({{1, 1}, {3, 1}, {2, 3}}), box(5, 0, 6, 1)}); R({rev(rev(box(-1, 1, 5, 4))), rev(box(0, 2, 1, 3)), rev(box(3, 2, 5, 3))});
  W({{1, 1}, {3, 3}}); W({{-1, 2}, {5, 2}}); W({{0, 0}, {4, 0}, {4, 4}}); W({{1, 3}, {3, 1}, {3, 3}, {1, 1}}); W({{2, -1}, {2, 2}, {-1, 3}}); W({{-1, -1}, {-1, 5}, {2, 5}, {2, 1}, {5, 1}});
  return s; }();

struct Look { const char *name; int color; };
static const int Ground = 0x33aa44, Colors[3] = {0xff0102, 0x0304ff, 0x7788ee}, Layer1 = 0xcc5511, Layer2 = 0x55cc99, LayerLow = 0x992277;
static std::string rgb(int c) { return mc::fmt("#%06x", c); }
static const double Width = .06;   // of a line on each side, in quarters of the tile
// kinds of layers an element can be in: 0 none (its own style), 1 road (on top), 2 field (below road), 3 low (below what has no layer)
static const char *LayerNames[] = {"", "road", "field", "low"}; static const int LayerOrder[] = {0, 7, 1, -1}, LayerColor[] = {0, Layer1, Layer2, LayerLow};
// textures of the looks: two of them share one with the ground, one is of an atlas which is not there
struct Texture { int color, id; const char *type; double scale; }; static const std::vector<Texture> Textures{{Ground, 3, "a", 1}, {Colors[0], 3, "b", 2}, {Colors[1], 4, "a", 5}, {Colors[2], 3, "a", 1}, {Layer1, 4, "b", 3}, {Layer2, 3, "b", 7}, {LayerLow, 8, "a", 4}};
static const Texture &textureOf(int color) { for (auto &t : Textures) if (t.color == color) return t; mc::fail("look %06x", color); abort(); }
static TextureRegion regionOf(const Texture &t) { if (t.id == 8) return {}; return TextureRegion(100 * t.id, 50, t.type[0] == 'a' ? 10 : 30, t.id, 20, 40 - t.id); }
static std::string textureCss(const std::string &prefix, int color) { auto &t = textureOf(color); return mc::fmt("%stexture-index:%d;%stexture-type:%s;%stexture-scale:%g;", prefix.c_str(), t.id, prefix.c_str(), t.type, prefix.c_str(), t.scale); }
static StyleSheet styles(const std::string &css) {
  StyleSheet s = MapCssParser().parse(css); for (int id = 3; id < 5; ++id) { TextureAtlas::Groups g; for (const char *t : {"a", "b"}) { auto r = regionOf({0, id, t, 1}); g[t].add(r.atlasWidth, r.atlasHeight, utymap::math::Rectangle(r.x, r.y, r.x + r.width, r.y + r.height)); } s.textures.push_back(TextureAtlas(id, g)); } return s;
}
struct Options { const char *grid, *area; double noise, offset; bool named, levels; };   // levels: items are on levels of their own, and widths are given in two factors
static const std::vector<Options> Opts{{"10%", "20%", 0, 0, false, false}, {"34%", "1%", 0, 3.5, false, false}, {"7%", "5%", 2, 0, true, false}, {"20%", "0", 0, -2, false, false}, {"12%", "8%", 1.5, 2.5, true, true}};

struct Env {
  StringTable st; StyleSheet ss; StyleProvider sp; MeshPool pool; Slope ele; CancellationToken token; Options o;
  static std::string css(const Options &o, int lod, double quarter) {
    std::string look = mc::fmt("max-area:%s;ele-noise-freq:%g;color-noise-freq:0;height-offset:%g;", o.area, o.noise, o.offset), z = mc::fmt("|z%d", lod), s = "canvas" + z + "{grid-cell-size:" + o.grid + ";color:gradient(" + rgb(Ground) + ");" + textureCss("", Ground) + mc::fmt("max-area:%s;ele-noise-freq:%g;color-noise-freq:0;", o.area, o.noise);
    for (int i = 1; i < 4; ++i) { std::string p = LayerNames[i]; p += "-"; s += mc::fmt("%smax-area:%s;%sele-noise-freq:%g;%scolor-noise-freq:0;%sheight-offset:%g;%ssort-order:%d;%scolor:gradient(%s);", p.c_str(), o.area, p.c_str(), o.noise, p.c_str(), p.c_str(), o.offset, p.c_str(), LayerOrder[i], p.c_str(), rgb(LayerColor[i]).c_str()); s += textureCss(p, LayerColor[i]); if (o.named && i == 2) s += p + "mesh-name:fields;"; }
    s += "}"; std::string w = o.levels ? mc::fmt("width:%.12g;dimension:4;", Width * quarter / 4) : mc::fmt("width:%.12g;", Width * quarter); if (o.levels) for (int i = 1; i < 3; ++i) s += mc::fmt("way,area,relation%s[lv=%d]{level:%d;}", z.c_str(), i, i == 1 ? 1 : -2);
    for (int i = 0; i < 3; ++i) s += mc::fmt("way,area,relation%s[look=%d]{builder:terrain;clip:true;color:gradient(%s);%s%s%s}", z.c_str(), i, rgb(Colors[i]).c_str(), (look + textureCss("", Colors[i])).c_str(), w.c_str(), o.named && i == 1 ? "mesh-name:special;" : "");
    for (int i = 1; i < 4; ++i) s += mc::fmt("way,area,relation%s[layer=%s]{builder:terrain;clip:true;terrain-layer:%s;%s}", z.c_str(), LayerNames[i], LayerNames[i], w.c_str());
    return s;
  }
  Env(const Options &o_, int lod, double quarter) : st(mc::scratch("st")), ss(styles(css(o_, lod, quarter))), sp(ss, st), o(o_) {}
};
struct Got { std::string name; std::vector<double> v, uv; std::vector<int> t, c, map; };
struct Place { QuadKey q; double x0, y0, dx, dy; P at(I2 p) const { return {x0 + p.first * dx, y0 + p.second * dy}; } };
static Place place(QuadKey q) { auto b = bboxOf(q); return {q, b.minPoint.longitude, b.minPoint.latitude, b.width() / 4, b.height() / 4}; }
struct Item { int shape, layer; };   // layer 0: look is the index of the item
// elements of the items, with coordinates of the given tile
static std::vector<El> elements(Env &e, const Place &p, const std::vector<Item> &items) {
  std::vector<El> r; for (size_t i = 0; i < items.size(); ++i) {
    auto &s = Shapes[items[i].shape]; auto cs = [&](const Ring &g) { Coords c; for (auto &k : g) { P x = p.at(k); c.push_back(GeoCoordinate(x.y, x.x)); } return c; };
    Tags t = items[i].layer ? Tags{{"layer", LayerNames[items[i].layer]}} : Tags{{"look", std::to_string(i)}}; if (i && e.o.levels) t.push_back({"lv", std::to_string(i)}); std::sort(t.begin(), t.end(), [&](const Tags::value_type &a, const Tags::value_type &b) { return e.st.getId(a.first) < e.st.getId(b.first); }); uint64_t id = 100 + i;
    if (s.kind == 'a') r.push_back(area(e.st, id, t, cs(s.rings[0]))); else if (s.kind == 'w') r.push_back(way(e.st, id, t, cs(s.rings[0])));
    else { std::vector<El> ms; for (auto &g : s.rings) ms.push_back(area(e.st, 0, {}, cs(g))); r.push_back(relation(e.st, id, t, ms)); }
  } return r;
}
static std::vector<Got> build(Env &e, QuadKey q, const std::vector<El> &els) {
  GeoStore store(e.st); store.registerStore("s", utils::make_unique<InMemoryElementStore>(e.st)); for (auto &x : els) store.add("s", *x, LodRange(q.levelOfDetail, q.levelOfDetail), e.sp, e.token);
  QuadKeyBuilder b(store, e.st); b.registerElementBuilder("terrain", [](const BuilderContext &c) { return utils::make_unique<TerraBuilder>(c); }); std::vector<Got> out;
  if (els.empty()) { MeshPool pool; BuilderContext ctx(q, e.sp, e.st, pool, e.ele, [&](const Mesh &m) { out.push_back({m.name, m.vertices, m.uvs, m.triangles, m.colors, m.uvMap}); }, nullptr, e.token); TerraBuilder(ctx).complete(); return out; }
  b.build(q, e.sp, e.ele, [&](const Mesh &m) { out.push_back({m.name, m.vertices, m.uvs, m.triangles, m.colors, m.uvMap}); }, [&](const Element &) { mc::fail("element is delivered"); }, e.token); return out;
}
// ---- oracle: what is on top of each spot
struct Poly { std::vector<std::vector<P>> rings; bool line; };
static bool inside(const std::vector<P> &r, P p) { bool in = false; for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) if ((r[i].y > p.y) != (r[j].y > p.y) && p.x < (r[j].x - r[i].x) * (p.y - r[i].y) / (r[j].y - r[i].y) + r[i].x) in = !in; return in; }
static bool covers(const Poly &s, P p) { if (s.line) { for (auto &r : s.rings) if (inside(r, p)) return true; return false; } bool in = false; for (auto &r : s.rings) in ^= inside(r, p); return in; }
struct Top { Poly shape; int color; };
static int colorAt(const std::vector<Top> &st, P p) { for (auto &t : st) if (covers(t.shape, p)) return t.color; return Ground; }
// exact areas by color: strips between all corners and crossings
static std::map<int, double> areas(const std::vector<Top> &st) {
  struct Seg { P a, b; }; std::vector<Seg> segs; auto ring = [&](const std::vector<P> &r) { for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; if (a.y > b.y) std::swap(a, b); segs.push_back({a, b}); } };
  for (auto &t : st) for (auto &r : t.shape.rings) ring(r); ring({{0, 0}, {4, 0}, {4, 4}, {0, 4}});
  std::vector<double> ys{0, 4}; auto add = [&](double y) { if (y > 0 && y < 4) ys.push_back(y); };
  for (size_t i = 0; i < segs.size(); ++i) { add(segs[i].a.y); add(segs[i].b.y); for (size_t j = 0; j < i; ++j) { auto &s = segs[i], &u = segs[j]; if (std::max(s.a.y, u.a.y) > std::min(s.b.y, u.b.y) || std::max(s.a.x, s.b.x) < std::min(u.a.x, u.b.x) || std::max(u.a.x, u.b.x) < std::min(s.a.x, s.b.x)) continue; double dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, ex = u.b.x - u.a.x, ey = u.b.y - u.a.y, d = dx * ey - dy * ex; if (fabs(d) < 1e-12) continue; double k = ((u.a.x - s.a.x) * ey - (u.a.y - s.a.y) * ex) / d; if (k > 0 && k < 1) add(s.a.y + k * dy); } }
  std::sort(ys.begin(), ys.end()); std::map<int, double> r;
  for (size_t i = 0; i + 1 < ys.size(); ++i) { double lo = ys[i], hi = ys[i + 1], mid = (lo + hi) / 2; if (hi - lo < 1e-12) continue; std::vector<double> xs;
    for (auto &s : segs) if (s.a.y <= mid && s.b.y >= mid && s.a.y < s.b.y) { double x = s.a.x + (s.b.x - s.a.x) * (mid - s.a.y) / (s.b.y - s.a.y); if (x >= -1e-12 && x <= 4 + 1e-12) xs.push_back(x); }
    std::sort(xs.begin(), xs.end()); for (size_t k = 0; k + 1 < xs.size(); ++k) if (xs[k + 1] - xs[k] > 1e-12) r[colorAt(st, {(xs[k] + xs[k + 1]) / 2, mid})] += (xs[k + 1] - xs[k]) * (hi - lo); }
  return r;
}
// everything in quarters of the tile, x scaled like y: lines have the same width in degrees in both directions
static std::vector<Top> stack(const std::vector<Item> &items, double ratio, double &slack, bool &tie) {
  struct E { int order, color; double area; Poly s; int idx; }; std::vector<E> es;
  for (size_t i = 0; i < items.size(); ++i) {
    auto &s = Shapes[items[i].shape]; E e; e.order = LayerOrder[items[i].layer]; e.color = items[i].layer ? LayerColor[items[i].layer] : Colors[i]; e.area = 0; e.idx = i; e.s.line = s.kind == 'w';
    if (s.kind != 'w') for (auto &g : s.rings) { std::vector<P> r; for (auto &k : g) r.push_back({double(k.first), double(k.second)}); e.s.rings.push_back(r); }
    else { double w = Width; auto &g = s.rings[0]; for (size_t k = 0; k < g.size(); ++k) { P a{g[k].first * ratio, double(g[k].second)}; std::vector<P> c; for (int q = 0; q < 48; ++q) c.push_back({(a.x + w * cos(q * M_PI / 24)) / ratio, a.y + w * sin(q * M_PI / 24)}); e.s.rings.push_back(c);
        if (k + 1 < g.size()) { P b{g[k + 1].first * ratio, double(g[k + 1].second)}; double l = hypot(b.x - a.x, b.y - a.y), ux = (b.x - a.x) / l * w, uy = (b.y - a.y) / l * w; e.s.rings.push_back({{(a.x - uy) / ratio, a.y + ux}, {(a.x + uy) / ratio, a.y - ux}, {(b.x + uy) / ratio, b.y - ux}, {(b.x - uy) / ratio, b.y + ux}}); slack += (l * 2 + 8 * w) * w * .06 / ratio; } } }
    if (s.parts.size()) for (auto &g : s.parts) { e.s.rings.assign(1, {}); for (auto &k : g) e.s.rings[0].push_back({double(k.first), double(k.second)}); es.push_back(e); } else es.push_back(e);
  }
  for (auto &e : es) if (!e.order) { e.area = 0; for (auto &a : areas({{e.s, 1}})) if (a.first == 1) e.area = a.second; }
  std::stable_sort(es.begin(), es.end(), [](const E &a, const E &b) { return a.order != b.order ? a.order > b.order : a.area < b.area; }); for (size_t i = 0; i + 1 < es.size(); ++i) if (es[i].order == es[i + 1].order && es[i].idx != es[i + 1].idx && es[i].color != es[i + 1].color && fabs(es[i].area - es[i + 1].area) < .02) tie = true; std::vector<Top> r; for (auto &e : es) r.push_back({e.s, e.color}); return r;
}
static double away(const std::vector<Top> &st, P p) { double m = 1e9; auto seg = [&](P a, P b) { double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, k = l > 0 ? std::max(0., std::min(1., ((p.x - a.x) * dx + (p.y - a.y) * dy) / l)) : 0; m = std::min(m, hypot(p.x - a.x - k * dx, p.y - a.y - k * dy)); }; for (auto &t : st) for (auto &r : t.shape.rings) for (size_t i = 0; i < r.size(); ++i) seg(r[i], r[(i + 1) % r.size()]); return m; }

// runs f and tells whether triangle library gave up: it prints so, and goes on with broken data (known finding)
template <class F> static bool givesUp(F f) {
  static int file = -1; if (file < 0) { std::string n = mc::scratch("stdout") + "f"; file = open(n.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (file < 0) mc::fail("cannot open %s", n.c_str()); }
  struct Redirect { int old; Redirect() { fflush(stdout); lseek(file, 0, SEEK_SET); if (ftruncate(file, 0)) abort(); old = dup(1); dup2(file, 1); } ~Redirect() { fflush(stdout); dup2(old, 1); close(old); } };
  { Redirect r; f(); } std::string s(4000, 0); ssize_t n = pread(file, &s[0], s.size(), 0); return n > 0 && s.find("Internal error in") < (size_t)n;
}
struct Tri { P a, b, c; int color; };
static void check(Env &e, const Place &p, const std::vector<Item> &items, const std::vector<Got> &got) {
  double slack = 0, ratio = p.dx / p.dy; bool tie = false; auto st = stack(items, ratio, slack, tie); if (tie) return mc::trivial(); auto want = areas(st);
  double unit = 1e-7 / std::min(p.dx, p.dy), snap = unit * 12;   // resolution of geometry in quarters of the tile
  std::vector<Tri> tris; double total = 0; std::map<int, double> have; size_t surfaces = 0;
  struct Wall { P a, b; double area; int color; P out; }; std::vector<Wall> walls; struct Edge { P a, b; int color; }; std::vector<Edge> rim;   // walls of looks with an offset, and what they have to follow: the rim of these looks
  for (auto &m : got) {
    size_t n = m.v.size() / 3; const char *w = m.name.c_str(); if (m.name == "terrain_surface") ++surfaces;
    if (m.v.size() % 3 || m.t.size() % 3 || m.c.size() != n || m.uv.size() != 2 * n || m.map.size() % 8) mc::fail("%s: %zu coordinates, %zu indices, %zu colors, %zu texture coordinates", w, m.v.size(), m.t.size(), m.c.size(), m.uv.size());
    if (n && (m.map.empty() || m.map[m.map.size() - 8] != (int)m.uv.size())) mc::fail("%s: texture mapping does not end with the mesh", w);
    auto color = [&](int i) { return m.c[i] >> 8 & 0xffffff; };
    std::map<std::pair<int, int>, std::pair<int, Edge>> edges; std::vector<bool> used(n), flat(n); { size_t at = 0; for (size_t i = 0; i < m.map.size(); i += 8) { if (m.map[i] < (int)at || m.map[i] > (int)m.uv.size()) mc::fail("%s: texture mapping ends at %d after %zu", w, m.map[i], at); for (; (int)at < m.map[i]; at += 2) { int c = color(at / 2); auto &t = textureOf(c); auto r = regionOf(t); int want[7] = {t.id, r.atlasWidth, r.atlasHeight, r.x, r.y, r.width, r.height}; for (int f = 0; f < 7; ++f) if (m.map[i + 1 + f] != want[f]) mc::fail("%s: vertex %zu of look %06x has texture %d (%d x %d, %d,%d %d x %d)", w, at / 2, c, m.map[i + 1], m.map[i + 2], m.map[i + 3], m.map[i + 4], m.map[i + 5], m.map[i + 6], m.map[i + 7]); } } } for (int i : m.t) if (i >= 0 && i < (int)n) used[i] = true;
    for (size_t i = 0; i < n; ++i) { double x = (m.v[3 * i] - p.x0) / p.dx, y = (m.v[3 * i + 1] - p.y0) / p.dy, z = m.v[3 * i + 2]; if (!(x > -snap && x < 4 + snap && y > -snap && y < 4 + snap)) mc::fail("%s: vertex %.9g,%.9g is outside of the tile", w, x, y); if (!std::isfinite(z)) mc::fail("%s: height is not finite", w);
      bool edge = x < snap || x > 4 - snap || y < snap || y > 4 - snap; int c = color(i); double base = Slope::at(m.v[3 * i + 1], m.v[3 * i]); double off = c == Ground ? 0 : e.o.offset;
      if (used[i] && (!e.o.noise || edge) && fabs(z - base - off) > 1e-6 && fabs(z - base) > 1e-6) { std::string d; if (getenv("DBG")) for (size_t k = 0; k < n; ++k) { double kx = (m.v[3 * k] - p.x0) / p.dx, ky = (m.v[3 * k + 1] - p.y0) / p.dy; if (hypot(kx - x, ky - y) < .3) d += mc::fmt("\n%zu:%06x %.7f,%.7f %g", k, color(k), kx, ky, m.v[3 * k + 2] - Slope::at(m.v[3 * k + 1], m.v[3 * k])); for (size_t t = 0; t < m.t.size(); t += 3) if (m.t[t] == (int)i || m.t[t + 1] == (int)i || m.t[t + 2] == (int)i) if (k == 0) d += mc::fmt(" T%d,%d,%d", m.t[t], m.t[t + 1], m.t[t + 2]); } mc::fail("%s: vertex %zu at %.6f,%.6f is %.6f over ground, expected %g%s", w, i, x, y, z - base, off, d.c_str()); } if (e.o.noise && std::min(fabs(z - base - off), fabs(z - base)) > 2.1) mc::fail("%s: noise of %.6f", w, z - base - off); }
    for (size_t t = 0; t < m.t.size(); t += 3) { int a = m.t[t], b = m.t[t + 1], c = m.t[t + 2]; for (int i : {a, b, c}) if (i < 0 || i >= (int)n) mc::fail("%s: index %d of %zu", w, i, n); int k = color(a); if (k != color(b) || k != color(c)) mc::fail("%s: triangle of several colors", w);
      auto at = [&](int i) { return P{(m.v[3 * i] - p.x0) / p.dx, (m.v[3 * i + 1] - p.y0) / p.dy}; }; Tri r{at(a), at(b), at(c), k}; double s = ((r.b.x - r.a.x) * (r.c.y - r.a.y) - (r.b.y - r.a.y) * (r.c.x - r.a.x)) / 2;
      auto up = [&](int i) { return m.v[3 * i + 2] - Slope::at(m.v[3 * i + 1], m.v[3 * i]); };
      if (e.o.offset && fabs(s) < 1e-13 && std::max({up(a), up(b), up(c)}) - std::min({up(a), up(b), up(c)}) > fabs(e.o.offset) / 2) {   // stands upright
        P q[3] = {r.a, r.b, r.c}; int f = 0, g = 1; for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (hypot((q[i].x - q[j].x) * ratio, q[i].y - q[j].y) > hypot((q[f].x - q[g].x) * ratio, q[f].y - q[g].y)) f = i, g = j;
        P o = q[f], d{q[g].x - o.x, q[g].y - o.y}; double l = hypot(d.x * ratio, d.y); if (l < 1e-12) continue; auto along = [&](int i) { return ((q[i].x - o.x) * d.x * ratio * ratio + (q[i].y - o.y) * d.y) / l; }; double h[3] = {up(a), up(b), up(c)}; for (double z : h) if (fabs(z) > 1e-6 && fabs(z - e.o.offset) > 1e-6) mc::fail("%s: wall at %.4f,%.4f ends %.6f over ground, expected 0 or %g", w, o.x, o.y, z, e.o.offset);
        double area = ((along(1) - along(0)) * (h[2] - h[0]) - (h[1] - h[0]) * (along(2) - along(0))) / 2;   // positive: counterclockwise with d to the right and up, seen from the right of d
        double sg = area > 0 ? -1 : 1; walls.push_back({o, q[g], fabs(area), k, {d.y * ratio / l * sg, -d.x / l * sg}}); continue; }
      bool named = false; for (auto &it : items) if (e.o.named && ((it.layer == 2 && k == Layer2) || (it.layer == 0 && k == Colors[1] && &it == &items[1]))) named = true; if (named != (m.name != "terrain_surface")) mc::fail("%s: triangle of color %06x", w, k);
      if (fabs(s) < 1e-13) continue; if (s > 0) mc::fail("%s: triangle at %.4f,%.4f is seen from below", w, r.a.x, r.a.y); total -= s; have[k] -= s; tris.push_back(r); for (int i : {a, b, c}) if (!flat[i]) { flat[i] = true; double f = textureOf(k).id == 8 ? 0 : textureOf(k).scale / 4; P u = at(i); if (fabs(m.uv[2 * i] - u.x * f) > 1e-6 || fabs(m.uv[2 * i + 1] - u.y * f) > 1e-6) mc::fail("%s: texture at %.4f,%.4f of look %06x is %.6f,%.6f", w, u.x, u.y, k, m.uv[2 * i], m.uv[2 * i + 1]); }
      if (e.o.offset && k != Ground) for (int j = 0; j < 3; ++j) { int i0 = m.t[t + j], i1 = m.t[t + (j + 1) % 3]; auto &x = edges[{std::min(i0, i1), std::max(i0, i1)}]; ++x.first; x.second = {at(i0), at(i1), k}; } }
    for (auto &x : edges) if (x.second.first == 1) { auto &g = x.second.second; auto same = [&](double u, double v, double border) { return fabs(u - border) < snap && fabs(v - border) < snap; }; if (!same(g.a.x, g.b.x, 0) && !same(g.a.x, g.b.x, 4) && !same(g.a.y, g.b.y, 0) && !same(g.a.y, g.b.y, 4)) rim.push_back(g); }
  }
  if (!surfaces && want.size() == 1) return mc::trivial(); if (surfaces != 1) mc::fail("%zu surfaces", surfaces); double edge = 0; for (auto &t : st) for (auto &r : t.shape.rings) for (size_t i = 0; i < r.size(); ++i) edge += hypot(r[i].x - r[(i + 1) % r.size()].x, r[i].y - r[(i + 1) % r.size()].y);
  double tol = snap * (16 + edge) * 2;
  if (fabs(total - 16) > tol) { std::string d; for (auto &k : want) d += mc::fmt(" %06x %.4f/%.4f", k.first, have[k.first], k.second); mc::fail("terrain covers %.6f of 16:%s", total, d.c_str()); }
  for (auto &k : want) if (fabs(have[k.first] - k.second) > tol + slack) mc::fail("look %06x covers %.6f, expected %.6f", k.first, have[k.first], k.second);
  for (auto &k : have) if (!want.count(k.first) && k.second > tol + slack) mc::fail("look %06x covers %.6f, expected none", k.first, k.second);
  if (e.o.offset) { std::map<int, double> len, have; for (auto &g : rim) len[g.color] += hypot((g.a.x - g.b.x) * ratio, g.a.y - g.b.y); for (auto &x : walls) have[x.color] += x.area / fabs(e.o.offset); for (auto &x : walls) if (!len.count(x.color)) mc::fail("look %06x has walls at %.4f,%.4f but no rim", x.color, x.a.x, x.a.y);
    std::map<int, double> within; for (auto &x : walls) for (int i = 0; i < 32; ++i) { double f = (i + .5) / 32; P c{x.a.x + (x.b.x - x.a.x) * f, x.a.y + (x.b.y - x.a.y) * f}; double d = snap * 3 + (slack > 0 ? Width * .07 : 0); if ((colorAt(st, {c.x + x.out.x * d, c.y + x.out.y * d}) == x.color) == (colorAt(st, {c.x - x.out.x * d, c.y - x.out.y * d}) == x.color)) within[x.color] += x.area / fabs(e.o.offset) / 32; }   // where parts of one look meet, or of others with nothing but rounding between them
    for (auto &x : len) if (double t = snap * (16 + edge + rim.size())) if (have[x.first] < x.second - t || have[x.first] > x.second + within[x.first] * 1.05 + t) { if (getenv("DBG")) { for (auto &w : walls) if (w.color == x.first) fprintf(stderr, "W %.5f,%.5f %.5f,%.5f %.4f\n", w.a.x, w.a.y, w.b.x, w.b.y, w.area); for (auto &w : rim) if (w.color == x.first) fprintf(stderr, "R %.5f,%.5f %.5f,%.5f\n", w.a.x, w.a.y, w.b.x, w.b.y); } mc::fail("walls of look %06x are %.6f long, its rim is %.6f", x.first, have[x.first], x.second); } mc::count("walls", walls.size());
    for (auto &x : walls) { P c{(x.a.x + x.b.x) / 2, (x.a.y + x.b.y) / 2}; double d = snap * 3; if (slack > 0 || e.o.levels || hypot(x.b.x - x.a.x, x.b.y - x.a.y) < snap * 20) continue; P f{c.x + x.out.x * d, c.y + x.out.y * d}, b{c.x - x.out.x * d, c.y - x.out.y * d}; if (away(st, f) < snap || away(st, b) < snap) continue; int cf = colorAt(st, f), cb = colorAt(st, b); bool up = e.o.offset > 0; if ((cf == x.color) == (cb == x.color)) continue; if ((cb == x.color) != up) mc::fail("wall of look %06x at %.4f,%.4f is seen from the wrong side", x.color, c.x, c.y); } }
  // every spot of a fine lattice is covered exactly once and in the right look
  const int N = 23; std::vector<int> hits(N * N), col(N * N); auto pos = [&](int i) { return (i + .5 + .137) * 4 / (N + .4); };
  for (auto &t : tris) { double x0 = std::min({t.a.x, t.b.x, t.c.x}), x1 = std::max({t.a.x, t.b.x, t.c.x}), y0 = std::min({t.a.y, t.b.y, t.c.y}), y1 = std::max({t.a.y, t.b.y, t.c.y}); double f = (N + .4) / 4;
    for (int j = std::max(0, int(y0 * f - 1.7)); j < N && pos(j) <= y1; ++j) for (int i = std::max(0, int(x0 * f - 1.7)); i < N && pos(i) <= x1; ++i) { P q{pos(i), pos(j)}; auto side = [&](P a, P b) { return (b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x); }; if (side(t.a, t.b) <= 0 && side(t.b, t.c) <= 0 && side(t.c, t.a) <= 0) { ++hits[j * N + i]; col[j * N + i] = t.color; } } }
  for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) { P q{pos(i), pos(j)}; double far = away(st, q); if (far < snap + (slack > 0 ? Width * .07 : 0)) continue; int w = colorAt(st, q); if (hits[j * N + i] == 0) mc::fail("no terrain at %.4f,%.4f", q.x, q.y); if (col[j * N + i] != w) mc::fail("look at %.4f,%.4f is %06x, expected %06x", q.x, q.y, col[j * N + i], w); }
  mc::transition(tris.size()); mc::outcome(tris.size()); mc::count("triangles", tris.size());
}
static std::string name(const std::vector<Item> &items) { std::string s; for (auto &i : items) s += mc::fmt("%d%c", i.shape, "-rfl"[i.layer]); return s; }
static Env &env(int o, const Place &p) { static std::map<std::pair<int, int>, std::unique_ptr<Env>> all; auto &e = all[{o, p.q.levelOfDetail * 4096 + p.q.tileX % 4096}]; if (!e) e.reset(new Env(Opts[o], p.q.levelOfDetail, p.dy)); return *e; }

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(60); bool th = mc::thorough(); int n = Shapes.size();
  auto q = [](double lat, double lon, int lod) { return utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), lod); };
  std::vector<Place> ps{place(q(52.53, 13.38, 16)), place(q(-33.5, -70.6, 15)), place(q(.001, -.001, 16)), place(q(-.001, .001, 14)), place(q(10, 20, 2)), place(q(70, -120, 5)), place(q(-60.2, 120.3, 10))}; size_t k = 0;
  auto one = [&](const std::vector<Item> &items, size_t pi, int o) {
    // without layer what is smaller is on top: known only if areas do not depend on rounding
    mc::run(mc::fmt("%zu:%d:%s", pi, o, name(items).c_str()), [&] { Env &e = env(o, ps[pi]); std::vector<Got> got; bool up = givesUp([&] { got = build(e, ps[pi].q, elements(e, ps[pi], items)); }); if (!up || items.size() < 3) return check(e, ps[pi], items, got);
      try { check(e, ps[pi], items, got); } catch (mc::Fail &) { mc::count("known finding"); mc::trivial(); } });
  };
  for (size_t p = 0; p < ps.size(); ++p) for (int o = 0; o < (int)Opts.size(); ++o) { one({}, p, o); for (int a = 0; a < n; ++a) for (int l = 0; l < 4; ++l) one({{a, l}}, p, o); }
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int l = 0; l < 16; ++l) { ++k; if (th || k % 3 == 0) one({{a, l / 4}, {b, l % 4}}, k / 3 % ps.size(), k / 5 % 4); if (Shapes[a].kind != 'w' && Shapes[b].kind != 'w' && (th || k % 2)) one({{a, l / 4}, {b, l % 4}}, k / 2 % ps.size(), 4); }
  one({{21, 0}, {9, 1}, {26, 3}}, 1, 1);   // clipper turns a part of the background around (known finding)
  for (int l = 1; l < 3; ++l) one({{0, 3}, {13, l}}, 4, 0);   // triangle library gives up (known finding)
  // triangle library does not end where rounding puts a corner of the contour on the other side of an edge (known finding)
  mc::run("0:4:29l24r", [&] { fflush(stdout); pid_t c = fork(); if (c < 0) mc::fail("cannot fork"); if (!c) { signal(SIGALRM, SIG_DFL); alarm(8); try { std::vector<Item> items{{29, 3}, {24, 1}}; Env &e = env(4, ps[0]); check(e, ps[0], items, build(e, ps[0].q, elements(e, ps[0], items))); _exit(0); } catch (...) { _exit(1); } }
    int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) mc::fail("triangulation does not end"); if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("terrain is broken (status %d)", st); });
  k = 0; size_t step = th ? 7 : 311;   // three elements: a part of all combinations, each with every shape on top of every other
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) for (int l = 0; l < 64; ++l) { ++k; if (k % step) continue; int m[3] = {a, b, c}; std::sort(m, m + 3); if (m[0] == 9 && m[1] == 21 && m[2] == 26) { mc::count("known finding"); continue; } one({{a, l / 16}, {b, l / 4 % 4}, {c, l % 4}}, k / step % ps.size(), k / step / 3 % 4); }
  return mc::finish();
}
