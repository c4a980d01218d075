// C20: every mesh delivered by the building, barrier, tree and lamp builders is well formed and stands on its element.
//BUILD variant=asan
#include "uty.hpp"
#include "builders/BuilderContext.hpp"
#include "builders/MeshPool.hpp"
#include "builders/buildings/BuildingBuilder.hpp"
#include "builders/misc/BarrierBuilder.hpp"
#include "builders/misc/LampBuilder.hpp"
#include "builders/poi/TreeBuilder.hpp"
#include "heightmap/ElevationProvider.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include "math/Mesh.hpp"
#include <cmath>
using namespace uty; using namespace utymap::builders; using namespace utymap::mapcss; using namespace utymap::math;
typedef long double L; typedef std::pair<int, int> I2; typedef std::vector<I2> Ring;
struct Slope : utymap::heightmap::ElevationProvider {
  static double at(double lat, double lon) { return 40 + lat * 2 + lon; }
  double getElevation(const QuadKey &, const GeoCoordinate &c) const override { return at(c.latitude, c.longitude); }
  double getElevation(const QuadKey &, double lat, double lon) const override { return at(lat, lon); }
};
static long cross(I2 a, I2 b, I2 c) { return long(b.first - a.first) * (c.second - a.second) - long(b.second - a.second) * (c.first - a.first); }
static bool onSeg(I2 p, I2 a, I2 b) { return cross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
static int sgn(long v) { return (v > 0) - (v < 0); }
static bool touch(I2 a, I2 b, I2 c, I2 d) { if (onSeg(a, c, d) || onSeg(b, c, d) || onSeg(c, a, b) || onSeg(d, a, b)) return true; return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0; }
static long area2(const Ring &r) { long s = 0; for (size_t i = 0; i < r.size(); ++i) { auto a = r[i], b = r[(i + 1) % r.size()]; s += long(a.first) * b.second - long(b.first) * a.second; } return s; }
static bool simple(const Ring &r) {
  int n = r.size(); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { I2 a = r[i], b = r[(i + 1) % n], c = r[j], d = r[(j + 1) % n];
    if (j == i + 1) { if (cross(a, b, d) == 0 && (onSeg(d, a, b) || onSeg(a, c, d))) return false; } else if (i == 0 && j == n - 1) { if (cross(a, b, c) == 0 && (onSeg(c, a, b) || onSeg(b, c, d))) return false; } else if (touch(a, b, c, d)) return false; }
  return area2(r) != 0;
}
static void rings(int w, int h, int len, const std::function<void(const Ring &)> &f) {   // all simple rings of the lattice, both directions, any start
  Ring r; std::vector<char> used(w * h); std::function<void()> go = [&] { if ((int)r.size() == len) { if (simple(r)) f(r); return; } for (int i = 0; i < w * h; ++i) if (!used[i]) { used[i] = 1; r.push_back({i % w, i / w}); go(); r.pop_back(); used[i] = 0; } };
  used.assign(w * h, 0); go();
}
static bool convex(const Ring &r) { int s = sgn(area2(r)); for (size_t i = 0; i < r.size(); ++i) if (sgn(cross(r[i], r[(i + 1) % r.size()], r[(i + 2) % r.size()])) == -s) return false; return true; }
static bool strict(const Ring &r) { for (size_t i = 0; i < r.size(); ++i) if (!cross(r[i], r[(i + 1) % r.size()], r[(i + 2) % r.size()])) return false; return true; }

struct Frame { double lat, lon, step; int lod; };
static const std::vector<Frame> Fs{{52.531, 13.381, 1e-4, 16}, {-33.9, -70.6, 2e-5, 18}, {10.2, -20.3, 3e-4, 16}, {-0.00031, 0.00022, 1e-4, 16}};
static GeoCoordinate geo(const Frame &f, I2 p) { return GeoCoordinate(f.lat + p.second * f.step, f.lon + p.first * f.step); }
static Coords coords(const Frame &f, const Ring &r) { Coords c; for (auto &p : r) c.push_back(geo(f, p)); return c; }

struct Env {
  std::string dir; StringTable st; StyleSheet ss; StyleProvider sp; MeshPool pool; Slope ele; CancellationToken token;
  static std::string files(const std::string &d) {
    mc::writeFile(d + "a.txt", "3,1000,2000\nroof,10,20,100,50\nroof,110,20,100,50\nroof,210,20,100,50\nfacade,10,70,100,60\nfacade,110,70,100,60\nbar,10,200,30,40\ntrunk,10,300,20,20\nleaf,40,300,20,20\n");
    mc::writeFile(d + "tree.lsys", "generations: 1\nangle: 30\nscale: 0.7\naxiom: F [ + cone ] sphere\nunused -> F\n"); return d;
  }
  explicit Env(const std::string &css) : dir(files(mc::scratch("css"))), st(mc::scratch("st")), ss(MapCssParser(dir).parse("@texture url(\"a.txt\");@lsystem url(\"tree.lsys\");" + css)), sp(ss, st) {}
};
static const int Roof = 0xff0102, Wall = 0x0304ff;   // colors as written in the stylesheet
static std::string rgb(int c) { return mc::fmt("#%06x", c); }
struct Got { std::string name; std::vector<double> v, uv; std::vector<int> t, c, map; };
template <class B> static std::vector<Got> build(Env &e, const Frame &f, const std::vector<El> &els) {
  std::vector<Got> out; QuadKey q = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(f.lat, f.lon), f.lod);
  BuilderContext ctx(q, e.sp, e.st, e.pool, e.ele, [&](const Mesh &m) { out.push_back({m.name, m.vertices, m.uvs, m.triangles, m.colors, m.uvMap}); }, nullptr, e.token);
  B b(ctx); for (auto &x : els) x->accept(b); b.complete(); return out;
}
// colors: name of the texture group -> color; returns color class of each vertex by texture region
static void wellFormed(const Got &m, const std::map<std::string, int> &color, bool odd = false) {
  size_t n = m.v.size() / 3; const char *w = m.name.c_str();
  if (m.v.size() % 3) mc::fail("%s: %zu coordinates", w, m.v.size()); if (!n) { if (m.t.size() || m.c.size() || m.uv.size()) mc::fail("%s: empty mesh has triangles, colors or uvs", w); return; }
  for (double d : m.v) if (!std::isfinite(d)) mc::fail("%s: vertex is not finite", w); for (double d : m.uv) if (!std::isfinite(d)) mc::fail("%s: texture coordinate is not finite", w);
  if (m.t.size() % 3 || (m.t.empty() && !odd)) mc::fail("%s: %zu indices", w, m.t.size()); for (int i : m.t) if (i < 0 || i >= (int)n) mc::fail("%s: index %d of %zu vertices", w, i, n);
  if (m.c.size() != n) mc::fail("%s: %zu colors of %zu vertices", w, m.c.size(), n); if (m.uv.size() != 2 * n) mc::fail("%s: %zu texture coordinates of %zu vertices", w, m.uv.size(), n);
  if (m.map.size() % 8 || m.map.empty()) mc::fail("%s: texture mapping of %zu numbers", w, m.map.size()); int prev = 0;
  static const std::map<std::vector<int>, std::string> Regions{{{3, 1000, 2000, 10, 20, 100, 50}, "roof"}, {{3, 1000, 2000, 110, 20, 100, 50}, "roof"}, {{3, 1000, 2000, 210, 20, 100, 50}, "roof"}, {{3, 1000, 2000, 10, 70, 100, 60}, "facade"}, {{3, 1000, 2000, 110, 70, 100, 60}, "facade"}, {{3, 1000, 2000, 10, 200, 30, 40}, "bar"}, {{3, 1000, 2000, 10, 300, 20, 20}, "trunk"}, {{3, 1000, 2000, 40, 300, 20, 20}, "leaf"}};
  for (size_t i = 0; i < m.map.size(); i += 8) {
    auto r = Regions.find({m.map.begin() + i + 1, m.map.begin() + i + 8}); if (r == Regions.end()) mc::fail("%s: unknown texture region %d,%d,%d..", w, m.map[i + 1], m.map[i + 4], m.map[i + 5]);
    int end = m.map[i]; if (end < prev || end % 2 || end > (int)m.uv.size()) mc::fail("%s: texture mapping ends at %d after %d of %zu", w, end, prev, m.uv.size());
    auto c = color.find(r->second); if (c == color.end()) mc::fail("%s: texture %s is not asked for", w, r->second.c_str());
    for (int k = prev / 2; k < end / 2; ++k) if ((m.c[k] & 0xffffff) != c->second && (m.c[k] >> 8 & 0xffffff) != c->second) mc::fail("%s: vertex %d with color %08x is mapped to texture %s", w, k, (unsigned)m.c[k], r->second.c_str());
    prev = end;
  }
  if (prev != (int)m.uv.size()) mc::fail("%s: texture mapping ends at %d of %zu", w, prev, m.uv.size());
  mc::transition(); mc::outcome(n * 31 + m.t.size());
}
struct Box { double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300, z0 = 1e300, z1 = -1e300; void add(double x, double y) { x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); } };
static void within(const Got &m, const Box &b, double exy, double ez) { for (size_t i = 0; i < m.v.size(); i += 3) { double x = m.v[i], y = m.v[i + 1], z = m.v[i + 2]; if (x < b.x0 - exy || x > b.x1 + exy || y < b.y0 - exy || y > b.y1 + exy || z < b.z0 - ez || z > b.z1 + ez) mc::fail("%s: vertex %.7f,%.7f,%.3f is outside of %.7f..%.7f,%.7f..%.7f,%.3f..%.3f", m.name.c_str(), x, y, z, b.x0, b.x1, b.y0, b.y1, b.z0, b.z1); } }

struct Look { const char *roof, *facade, *dir; double height, minHeight, roofHeight; };
static std::string rule(const std::string &sel, const Look &l) {
  return sel + "{building:true;builder:building;height:" + mc::fmt("%g", l.height) + "m;min-height:" + mc::fmt("%g", l.minHeight) + "m;roof-type:" + l.roof + ";roof-height:" + mc::fmt("%g", l.roofHeight) + "m;roof-color:" + rgb(Roof) + ";roof-texture-index:3;roof-texture-type:roof;roof-texture-scale:50;" +
    (*l.dir ? std::string("roof-direction:") + l.dir + ";" : "") + "facade-type:" + l.facade + ";facade-color:" + rgb(Wall) + ";facade-texture-index:3;facade-texture-type:facade;facade-texture-scale:60;}";
}
struct Foot { std::vector<Ring> outer, holes; };
static L poly(const Foot &p) { L a = 0; for (auto &r : p.outer) a += labs(area2(r)) / 2.0L; for (auto &r : p.holes) a -= labs(area2(r)) / 2.0L; return a; }
// checks the part [from, to) of vertices... the whole mesh of one footprint
static void building(const Got &m, const Frame &f, const Foot &p, const Look &l, const std::string &name) {
  if (m.name != name) mc::fail("mesh is named %s, expected %s", m.name.c_str(), name.c_str()); wellFormed(m, {{"roof", Roof}, {"facade", Wall}});
  std::string roof = l.roof, facade = l.facade; double h = l.height == 0 ? 10 : l.height; auto first = geo(f, p.outer[0][0]); double ground = Slope::at(first.latitude, first.longitude), base = ground + l.minHeight, top = ground + h;
  Box b; for (auto &r : p.outer) for (auto &q : r) { auto g = geo(f, q); b.add(g.longitude, g.latitude); }
  double radius = utils::GeoUtils::distance(GeoCoordinate((b.y0 + b.y1) / 2, b.x0), GeoCoordinate(b.y1, b.x0)) * 1.01; b.z0 = base; b.z1 = roof == "none" ? top : top + (roof == "flat" ? 0 : l.roofHeight);
  if (roof == "dome") { b.z1 = top + radius; b.z0 = std::min(base, top - radius); } if (facade == "sphere") { b.z0 = std::min(b.z0, base - radius); b.z1 = std::max(b.z1, base + radius); }
  bool para = false; if (p.outer[0].size() == 4) { auto &r = p.outer[0]; para = r[0].first + r[2].first == r[1].first + r[3].first && r[0].second + r[2].second == r[1].second + r[3].second; }
  double eps = 2e-7 + 1e-9; if (roof == "round" && !para) eps += std::max(b.x1 - b.x0, b.y1 - b.y0);   // the arc over an outline which is no parallelogram may lean out
  within(m, b, eps, 1e-6); if (m.v.empty()) mc::fail("%s: nothing is built", name.c_str());
  auto X = [&](int i) { return (L(m.v[3 * i]) - f.lon) / f.step; }; auto Y = [&](int i) { return (L(m.v[3 * i + 1]) - f.lat) / f.step; }; L tol = 1e-9L / f.step; if (roof == "mansard") tol = 2e-7L / f.step * 4;
  // split triangles by texture
  std::vector<char> isRoof(m.v.size() / 3); { int prev = 0; for (size_t i = 0; i < m.map.size(); i += 8) { for (int k = prev; k < m.map[i] / 2; ++k) isRoof[k] = m.map[i + 5] == 20; prev = m.map[i] / 2; } }
  L up = 0, down = 0, sum = 0; std::multiset<std::vector<long>> walls; bool ccw = true; for (auto &r : p.outer) ccw &= area2(r) > 0;
  auto key = [&](int i) { return std::vector<long>{lroundl(X(i) * 1000), lroundl(Y(i) * 1000), lroundl((L(m.v[3 * i + 2]) - base) * 1000)}; };
  for (size_t t = 0; t < m.t.size(); t += 3) {
    int a = m.t[t], q = m.t[t + 1], c = m.t[t + 2]; L ar = fabsl((X(q) - X(a)) * (Y(c) - Y(a)) - (Y(q) - Y(a)) * (X(c) - X(a))) / 2;
    if (isRoof[a] != isRoof[q] || isRoof[a] != isRoof[c]) mc::fail("%s: triangle has roof and facade vertices", name.c_str());
    if (isRoof[a]) { bool low = fabs(m.v[3 * a + 2] - base) < 1e-6 && fabs(m.v[3 * q + 2] - base) < 1e-6 && fabs(m.v[3 * c + 2] - base) < 1e-6; (low ? down : up) += ar; }
    else if (facade == "flat") { std::vector<std::vector<long>> k{key(a), key(q), key(c)}; std::rotate(k.begin(), std::min_element(k.begin(), k.end()), k.end()); std::vector<long> flat; for (auto &x : k) flat.insert(flat.end(), x.begin(), x.end()); walls.insert(flat); sum += ar; }
  }
  L A = poly(p); bool cvx = p.outer.size() == 1 && p.holes.empty() && convex(p.outer[0]); bool one = p.outer.size() == 1 && p.holes.empty(), exact = roof == "flat" || roof == "skillion" || roof == "mansard" || (cvx && roof == "pyramidal");
  if (roof == "round" && one) exact = para;
  if (roof == "round" && !p.holes.empty()) exact = true;
  if (exact && fabsl(up - A) > A * 1e-6L + 40 * tol) mc::fail("%s: %s roof covers %.6Lf of footprint %.6Lf", name.c_str(), roof.c_str(), up, A); if (roof == "none" && up != 0) mc::fail("%s: roof none covers %.6Lf", name.c_str(), up);
  L floor = l.minHeight > 0 ? A : 0; if (fabsl(down - floor) > 1e-6L * A + 40 * tol) mc::fail("%s: floor covers %.6Lf, expected %.6Lf", name.c_str(), down, floor);
  if (facade == "flat") {
    std::vector<Ring> all = p.outer; all.insert(all.end(), p.holes.begin(), p.holes.end()); size_t n = 0; long H = lroundl((L(top) - base) * 1000);
    for (auto &r : all) for (size_t i = 0; i < r.size(); ++i, ++n) {
      I2 s = r[i], e = r[(i + 1) % r.size()]; std::vector<long> c[4] = {{s.first * 1000L, s.second * 1000L, 0}, {e.first * 1000L, e.second * 1000L, 0}, {e.first * 1000L, e.second * 1000L, H}, {s.first * 1000L, s.second * 1000L, H}};
      auto tri = [&](int x, int y, int z) { std::vector<std::vector<long>> k{c[x], c[y], c[z]}; std::rotate(k.begin(), std::min_element(k.begin(), k.end()), k.end()); std::vector<long> flat; for (auto &v : k) flat.insert(flat.end(), v.begin(), v.end()); return flat; };
      // two ways to split, seen from outside of the building (clockwise with the map's x to the right, y away, z up ... as delivered)
      auto take = [&](std::vector<long> a, std::vector<long> b2) { auto x = walls.find(a), y = walls.find(b2); if (x == walls.end() || y == walls.end()) return false; walls.erase(x); walls.erase(walls.find(b2)); return true; };
      bool ok = take(tri(0, 2, 1), tri(0, 3, 2)) || take(tri(0, 3, 1), tri(1, 3, 2)); if (!ok) { if (ccw) mc::fail("%s: no wall which faces outwards along the edge from %d,%d to %d,%d", name.c_str(), s.first, s.second, e.first, e.second); ok = take(tri(0, 1, 2), tri(0, 2, 3)) || take(tri(0, 1, 3), tri(1, 2, 3)); if (!ok) mc::fail("%s: no wall along the edge from %d,%d to %d,%d", name.c_str(), s.first, s.second, e.first, e.second); }
    }
    if (!walls.empty()) mc::fail("%s: %zu wall triangles are not at the footprint", name.c_str(), walls.size());
  }
}
static const char *Roofs[] = {"none", "flat", "dome", "pyramidal", "mansard", "skillion", "round"}; static const char *Facades[] = {"flat", "cylinder", "sphere"};
static Ring rev(Ring r) { std::reverse(r.begin(), r.end()); return r; }
static std::string show(const Ring &r) { std::string s; for (auto &p : r) s += mc::fmt("%d,%d ", p.first, p.second); return s; }

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(200); bool th = mc::thorough();
  std::vector<Look> looks; for (auto r : Roofs) for (auto fa : Facades) for (int k = 0; k < 5; ++k) { const char *dirs[] = {"", "NE", "200"}; const char *d = !strcmp(r, "round") ? (k % 2 ? "across" : "") : dirs[k % 3]; const double hs[][3] = {{12, 0, 3}, {0, 0, 5.5}, {20.5, 4.5, 0}, {30, 26, 2}, {4, 0.25, 0.5}}; looks.push_back({r, fa, d, hs[k][0], hs[k][1], hs[k][2]}); }
  for (size_t li = 0; li < looks.size(); ++li) {
    const Look &l = looks[li]; std::string tag = mc::fmt("%s:%s:%d", l.roof, l.facade, int(li % 5)); std::string css = rule("area,relation|z1-19[building]", l) + "relation|z1-19[type=multipolygon]{multipolygon:true;}";
    bool light = (strcmp(l.facade, "flat") || li % 5 > 2) && !th;
    for (int len = 3; len <= (th ? 7 : 6); ++len) mc::run(mc::fmt("area:%s:%d", tag.c_str(), len), [&] { Env e(css); size_t i = 0; rings(3, 3, len, [&](const Ring &r) {
      ++i; if (!th && len >= 5 && i % (len == 5 ? 3 : 7)) return; if (light && i % 5) return; if (th && len == 7 && i % 5) return; const Frame &f = Fs[i % Fs.size()]; auto c = coords(f, r); if (i % 3 == 0) c.push_back(c[0]);
      auto got = build<BuildingBuilder>(e, f, {area(e.st, 40 + i % 3, {{"building", "1"}}, c)}); if (got.size() != 1) mc::fail("%zu meshes", got.size()); try { building(got[0], f, {{r}, {}}, l, mc::fmt("building:%d", int(40 + i % 3))); } catch (mc::Fail &x) { throw mc::Fail{x.msg + " for ring " + show(r) + mc::fmt("frame %zu", i % Fs.size())}; } }); });
    // multipolygons: all holes of three and four corners inside a block or an L shape, and two outer rings with or without a hole, members in any order
    mc::run("multi:" + tag, [&] { Env e(css); size_t i = 0; Ring box{{-1, -1}, {4, -1}, {4, 4}, {-1, 4}}, ell{{-2, -1}, {4, -1}, {4, 4}, {1, 4}, {1, 3}, {-2, 3}}, far{{6, 0}, {8, 0}, {8, 2}};
      for (int len = 3; len <= 4; ++len) rings(3, 3, len, [&](const Ring &r0) { ++i; if (area2(r0) > 0 || (light && i % 4)) return; for (int k = 0; k < 5; ++k) { if (!th && (i + k) % 3) continue;
        Foot p; p.outer = {k == 4 ? Ring{{-1, -1}, {8, -1}, {8, 4}, {-1, 4}} : k % 2 ? ell : box}; p.holes = {r0}; if (k == 4) p.holes.push_back({{4, 0}, {4, 3}, {6, 2}}); else if (k >= 2) p.outer.push_back(far); const Frame &f = Fs[(i + k) % Fs.size()]; std::vector<El> ms; for (auto &r : p.outer) ms.push_back(area(e.st, 0, {}, coords(f, r))); for (auto &h : p.holes) ms.push_back(area(e.st, 0, {}, coords(f, h)));
        auto got = build<BuildingBuilder>(e, f, {relation(e.st, 50 + i % 4, {{"building", "1"}, {"type", "multipolygon"}}, ms)}); if (got.size() != 1) mc::fail("%zu meshes", got.size());
        try { building(got[0], f, p, l, mc::fmt("building:%d", int(50 + i % 4))); } catch (mc::Fail &x) { throw mc::Fail{x.msg + " for hole " + show(r0) + mc::fmt("variant %d", k)}; } } }); });
    // relations of parts: one mesh which holds every part exactly as if it was built alone; further elements of the same builder are not affected
    mc::run("parts:" + tag, [&] { Look l2 = looks[(li + 4) % looks.size()]; Env e(rule("area|z1-19[building=1]", l) + rule("area|z1-19[building=2]", l2) + rule("relation|z1-19[building=3]", l) + "relation|z1-19[building=3]{multipolygon:true;}" + "area|z1-19[x=1]{builder:building;}relation|z1-19[type=b]{builder:building;building:true;}");
      std::vector<Ring> rs{{{0, 0}, {2, 0}, {2, 2}, {0, 2}}, {{3, 0}, {5, 0}, {5, 1}, {4, 3}}, {{0, 3}, {2, 3}, {1, 5}}}; const Frame &f = Fs[li % Fs.size()];
      mc::words(5, 3, [&](const std::vector<int> &w) {
        auto make = [&](int kind, size_t i) -> El { auto c = coords(f, rs[i]); if (kind == 0) return area(e.st, 10 + i, {{"building", "1"}}, c); if (kind == 1) return area(e.st, 10 + i, {{"building", "2"}}, c); if (kind == 2) return area(e.st, 10 + i, {{"x", "1"}}, c); if (kind == 3) return relation(e.st, 10 + i, {{"building", "3"}}, {area(e.st, 0, {}, c)}); return relation(e.st, 10 + i, {{"type", "b"}}, {area(e.st, 20 + i, {{"building", "1"}}, c)}); };
        std::vector<El> ms; for (size_t i = 0; i < 3; ++i) ms.push_back(make(w[i], i)); auto all = build<BuildingBuilder>(e, f, {relation(e.st, 77, {{"type", "b"}}, ms), ms[0], ms[1], ms[2]});
        size_t at = 0; if (all.empty() || all[0].name != "building:77") mc::fail("relation of parts is not built as one mesh"); auto &m = all[0]; wellFormed(m, {{"roof", Roof}, {"facade", Wall}}); size_t next = 1, tri = 0;
        // textures depend on the id of the mesh, everything else must be as alone
        for (size_t i = 0; i < 3; ++i) { auto one = build<BuildingBuilder>(e, f, {ms[i]}); if (w[i] == 2) { if (!one.empty()) mc::fail("element which is not a building is built"); continue; }
          if (one.size() != 1 || one[0].v.empty()) mc::fail("part is not built alone"); auto &o = one[0]; if (w[i] < 2) building(o, f, {{rs[i]}, {}}, w[i] == 0 ? l : l2, mc::fmt("building:%d", int(10 + i)));
          if (next >= all.size() || all[next].name != o.name || all[next].v != o.v || all[next].t != o.t || all[next].c != o.c || all[next].uv != o.uv || all[next].map != o.map) mc::fail("building after others differs from the one built alone"); ++next;
          if (m.v.size() < at * 3 + o.v.size() || !std::equal(o.v.begin(), o.v.end(), m.v.begin() + at * 3) || !std::equal(o.c.begin(), o.c.end(), m.c.begin() + at) || !std::equal(o.uv.begin(), o.uv.end(), m.uv.begin() + at * 2)) mc::fail("part %zu of the relation differs from the one built alone", i);
          for (size_t k = 0; k < o.t.size(); ++k) if (tri + k >= m.t.size() || m.t[tri + k] != o.t[k] + (int)at) mc::fail("triangles of part %zu differ from the ones built alone", i); at += o.v.size() / 3; tri += o.t.size(); }
        if (m.v.size() != at * 3 || m.t.size() != tri || next != all.size()) mc::fail("relation of parts has %zu vertices, expected %zu", m.v.size() / 3, at); }); });
    // degenerate outlines never break anything
    for (int len = 1; len <= 4; ++len) mc::run(mc::fmt("odd:%s:%d", tag.c_str(), len), [&] { Env e(css); size_t i = 0; mc::words(4, len, [&](const std::vector<int> &w) { ++i; if (!th && len == 4 && i % 3) return; const I2 P[] = {{0, 0}, {1, 0}, {2, 0}, {1, 2}}; Ring r; for (int x : w) r.push_back(P[x]); const Frame &f = Fs[i % Fs.size()];
      std::string err; std::vector<Got> got; for (int m = 0; m < 2; ++m) { El a = area(e.st, 5, {{"building", "1"}}, coords(f, r)); El x = m ? relation(e.st, 6, {{"building", "1"}, {"type", "multipolygon"}}, {a}) : a; got = build<BuildingBuilder>(e, f, {x}); for (auto &g : got) wellFormed(g, {{"roof", Roof}, {"facade", Wall}}, true); } }); });
  }
  // the low side of a skillion roof looks into its direction
  { std::vector<std::pair<std::string, double>> dirs{{"", 0}, {"N", 0}, {"NNE", 22.5}, {"NE", 45}, {"ENE", 67.5}, {"E", 90}, {"ESE", 112.5}, {"SE", 135}, {"SSE", 157.5}, {"S", 180}, {"SSW", 202.5}, {"SW", 225}, {"WSW", 247.5}, {"W", 270}, {"WNW", 292.5}, {"NW", 315}, {"NNW", 337.5}}; for (double d : {0., 1., 10., 45., 80., 100., 123.5, 179., 200., 271., 359., 360., 400., -30.}) dirs.push_back({mc::fmt("%g", d), d});
    for (auto &dir : dirs) mc::run("skillion:" + dir.first, [&] { Look l{"skillion", "flat", dir.first.c_str(), 10, 2, 3}; Env e(rule("area|z1-19[building]", l)); size_t i = 0; const double rad = dir.second * M_PI / 180, dx = sin(rad), dy = cos(rad);
      for (int len = 3; len <= 5; ++len) rings(4, 4, len, [&](const Ring &r) { if (area2(r) < 0 || !strict(r) || !convex(r)) return; ++i; if (!th && i % (len == 3 ? 5 : len == 4 ? 17 : 29)) return; const Frame &f = Fs[i % Fs.size()];
        double cx[2] = {}, cy[2] = {}, a2 = area2(r); for (size_t k = 0; k < r.size(); ++k) { auto a = r[k], b = r[(k + 1) % r.size()]; double w = double(a.first) * b.second - double(b.first) * a.second; cx[0] += (a.first + b.first) * w; cy[0] += (a.second + b.second) * w; cx[1] += a.first; cy[1] += a.second; } cx[0] /= 3 * a2; cy[0] /= 3 * a2; cx[1] /= r.size(); cy[1] /= r.size();
        int front = -1, back = -1, top = -1; bool clear = true;   // edges on the line through the center (of the area and of the corners: they have to agree), far enough from corners to be sure
        for (int c = 0; c < 2; ++c) { int fr = -1, ba = -1, to = -1;
          for (size_t k = 0; k < r.size(); ++k) { auto a = r[k], b = r[(k + 1) % r.size()]; double ax = a.first - cx[c], ay = a.second - cy[c], bx = b.first - cx[c], by = b.second - cy[c], sa = dx * ay - dy * ax, sb = dx * by - dy * bx; if (fabs(sa) < 0.03) clear = false; if ((sa > 0) == (sb > 0)) continue; double t = sa / (sa - sb), along = dx * (ax + t * (bx - ax)) + dy * (ay + t * (by - ay)); if (along > 0) fr = k; else { ba = k; to = t < 0.45 ? (int)k : t > 0.55 ? int((k + 1) % r.size()) : -1; } }
          if (c && (fr != front || ba != back)) clear = false; top = c && to != top ? -1 : to; front = fr; back = ba; }
        if (!clear || front < 0 || back < 0) return; mc::count("roof directions");
        auto got = build<BuildingBuilder>(e, f, {area(e.st, 9, {{"building", "1"}}, coords(f, r))}); if (got.size() != 1) mc::fail("%zu meshes", got.size()); auto &m = got[0]; building(m, f, {{r}, {}}, l, "building:9");
        auto height = [&](I2 p) { double z = -1e300; for (size_t k = 0; k < m.v.size(); k += 3) if (fabs((m.v[k] - f.lon) / f.step - p.first) < 1e-4 && fabs((m.v[k + 1] - f.lat) / f.step - p.second) < 1e-4) z = std::max(z, m.v[k + 2]); return z; };
        auto g0 = geo(f, r[0]); double low = Slope::at(g0.latitude, g0.longitude) + 10; I2 f0 = r[front], f1 = r[(front + 1) % r.size()];
        std::string what = show(r) + mc::fmt("direction %s: ", dir.first.c_str()); for (auto &p : {f0, f1}) if (fabs(height(p) - low) > 1e-5) mc::fail("%scorner %d,%d of the low side is %.4f above it", what.c_str(), p.first, p.second, height(p) - low);
        if (top >= 0) { I2 p = r[top]; if (p != f0 && p != f1 && fabs(height(p) - low - 3) > 1e-5) mc::fail("%scorner %d,%d of the high side is %.4f above the low one", what.c_str(), p.first, p.second, height(p) - low); } }); }); }
  // walls: boxes follow every edge of the line from its start, each one as long as asked for, and stand on the ground
  struct WallLook { double length, gap, width, height; }; static const WallLook Ws[] = {{3, 0.5, 0.2, 1.8}, {5, 0, 1, 3}, {40, 10, 0.05, 2}, {0, 0, 0.5, 2}, {1, 3, 0.3, 2}};
  auto barCss = [](const std::string &s) { return "node,way,area,relation|z1-19[b]{builder:barrier;color:" + rgb(Wall) + ";texture-index:3;texture-type:bar;texture-scale:50;" + s + "}"; };
  auto lsysCss = [](const char *b, const std::string &s) { return std::string("node,way,area,relation|z1-19[b]{builder:") + b + ";lsys:tree;lsys-size:1.5m;lsys-colors:" + rgb(Roof) + "," + rgb(Wall) + ";lsys-texture-indices:3,3;lsys-texture-types:trunk,leaf;lsys-texture-scales:50,50;" + s + "}"; };
  static const I2 P[] = {{0, 0}, {3, 0}, {1, 4}, {-2, 1}, {-1, -3}}; int most = th ? 4 : 3;
  auto line = [&](const std::vector<int> &w) { Ring r; for (int x : w) r.push_back(P[x]); return r; };
  auto each = [&](const std::function<void(const Ring &, int kind, const Frame &)> &f) { for (int len = 0; len <= most; ++len) mc::words(5, len, [&](const std::vector<int> &w) { for (int kind = 0; kind < 4; ++kind) for (auto &fr : Fs) { if (kind == 0 && len != 1) continue; f(line(w), kind, fr); } }); };
  auto element = [&](Env &e, int kind, uint64_t id, const Ring &r, const Frame &f) -> El { std::vector<std::pair<std::string, std::string>> t{{"b", "1"}}; if (kind == 0) return node(e.st, id, t, geo(f, r[0])); if (kind == 1) return way(e.st, id, t, coords(f, r)); if (kind == 2) return area(e.st, id, t, coords(f, r)); return relation(e.st, id, t, {way(e.st, id, t, coords(f, r))}); };
  auto edges = [&](const Ring &r, int kind) { Ring x = r; if (kind == 2 && x.size() > 2 && x.front() != x.back()) x.push_back(x[0]); return x; };
  for (size_t k = 0; k < sizeof(Ws) / sizeof(*Ws); ++k) mc::run(mc::fmt("wall:%zu", k), [&] {
    const WallLook &l = Ws[k]; Env e(barCss("type:wall;" + (l.length ? mc::fmt("length:%gm;gap:%gm;", l.length, l.gap) : "") + mc::fmt("width:%gm;height:%gm;", l.width, l.height)));
    each([&](const Ring &r, int kind, const Frame &f) {
      auto got = build<BarrierBuilder>(e, f, {element(e, kind, 9, r, f)}); if (got.size() != 1) mc::fail("%zu meshes", got.size()); auto &m = got[0]; if (m.name != "barrier:9") mc::fail("mesh is named %s", m.name.c_str()); wellFormed(m, {{"bar", Wall}});
      double mlat = 1 / 110000.0, w = l.width * mlat; size_t at = 0; Ring x = edges(r, kind);
      for (size_t i = 0; i + 1 < x.size(); ++i) { auto a = geo(f, x[i]), b = geo(f, x[i + 1]); double dist = utils::GeoUtils::distance(a, b); int n = l.length ? std::max(1, int(dist / (l.length + l.gap))) : 1; double part = l.length ? l.length / (l.length + l.gap) : 1, dx = b.longitude - a.longitude, dy = b.latitude - a.latitude, len = sqrt(dx * dx + dy * dy);
        for (int j = 0; j < n; ++j, at += 30) { if (m.v.size() / 3 < at + 30) mc::fail("edge %zu: wall has %zu vertices", i, m.v.size() / 3); double t0 = 1e9, t1 = -1e9, s0 = 1e9, s1 = -1e9; int low = 0, high = 0;
          for (size_t q = at; q < at + 30; ++q) { double X = m.v[3 * q] - a.longitude, Y = m.v[3 * q + 1] - a.latitude, Z = m.v[3 * q + 2] - Slope::at(m.v[3 * q + 1], m.v[3 * q]); if (len > 0) { double t = (X * dx + Y * dy) / len / len, s = (X * dy - Y * dx) / len; t0 = std::min(t0, t); t1 = std::max(t1, t); s0 = std::min(s0, s); s1 = std::max(s1, s); } else if (fabs(X) > 1e-9 || fabs(Y) > 1e-9) mc::fail("wall of an empty edge is somewhere else"); if (fabs(Z) < 1e-7) ++low; else if (fabs(Z - l.height) < 1e-7) ++high; else mc::fail("edge %zu: wall stands %.9f above the ground", i, Z); }
          if (len > 0 && (fabs(t0 - double(j) / n) > 1e-6 || fabs(t1 - (j + part) / n) > 1e-6)) mc::fail("edge %zu: box %d of %d lasts from %.6f to %.6f", i, j, n, t0, t1); if (len > 0 && (s0 > -w * .9 || s0 < -w * 1.1 || s1 < w * .9 || s1 > w * 1.1)) mc::fail("edge %zu: box %d is %.9f..%.9f wide, expected %.9f", i, j, s0, s1, w); if (low != 12 || high != 18) mc::fail("edge %zu: box %d has %d vertices on the ground and %d above", i, j, low, high); } }
      if (at * 3 != m.v.size()) mc::fail("wall has %zu vertices, expected %zu", m.v.size() / 3, at); }); });
  // copies along a line: the mesh of the line is that many copies of a single one, each on the ground at its place
  auto copies = [&](const Got &m, const std::vector<double> &one, const std::vector<int> &tri, const std::vector<GeoCoordinate> &at) {
    size_t n = one.size() / 3; if (m.v.size() != one.size() * at.size() || m.t.size() != tri.size() * at.size()) mc::fail("%s: %zu vertices, expected %zu copies of %zu", m.name.c_str(), m.v.size() / 3, at.size(), n);
    for (size_t c = 0; c < at.size(); ++c) { for (size_t q = 0; q < n; ++q) { const double *v = &m.v[3 * (c * n + q)], *o = &one[3 * q]; if (fabs(v[0] - o[0] - at[c].longitude) > 1e-10 || fabs(v[1] - o[1] - at[c].latitude) > 1e-10 || fabs(v[2] - o[2] - Slope::at(at[c].latitude, at[c].longitude)) > 1e-6) mc::fail("%s: vertex %zu of copy %zu is %.7f,%.7f,%.4f away, expected %.7f,%.7f,%.4f", m.name.c_str(), q, c, v[0] - at[c].longitude, v[1] - at[c].latitude, v[2] - Slope::at(at[c].latitude, at[c].longitude), o[0], o[1], o[2]); }
      for (size_t q = 0; q < tri.size(); ++q) if (m.t[c * tri.size() + q] != tri[q] + int(c * n)) mc::fail("%s: triangles of copy %zu differ", m.name.c_str(), c); } };
  auto along = [&](const Ring &x, const Frame &f, double step) { std::vector<GeoCoordinate> out; for (size_t i = 0; i + 1 < x.size(); ++i) { auto a = geo(f, x[i]), b = geo(f, x[i + 1]); int n = int(utils::GeoUtils::distance(a, b) / step); for (int j = 0; j < n; ++j) out.push_back(GeoCoordinate(a.latitude + (b.latitude - a.latitude) * j / n, a.longitude + (b.longitude - a.longitude) * j / n)); } return out; };
  auto relative = [](const Got &m, double lat, double lon, double z) { std::vector<double> o = m.v; for (size_t i = 0; i < o.size(); i += 3) { o[i] -= lon; o[i + 1] -= lat; o[i + 2] -= z; } return o; };
  static const double Steps[] = {4, 9, 60};
  for (double step : Steps) for (double height : {1.0, 12.0}) mc::run(mc::fmt("pillar:%g:%g", step, height), [&] {
    Env e(barCss(mc::fmt("type:pillar;radius:0.5m;step:%gm;height:%gm;", step, height)));
    each([&](const Ring &r, int kind, const Frame &f) {
      auto got = build<BarrierBuilder>(e, f, {element(e, kind, 9, r, f)}); if (r.empty() && got.empty()) return; if (got.size() != 1) mc::fail("%zu meshes", got.size()); auto &m = got[0]; if (m.name != "barrier:9") mc::fail("mesh is named %s", m.name.c_str()); wellFormed(m, {{"bar", Wall}}); if (r.empty()) { if (!m.v.empty()) mc::fail("pillar is built from nothing"); return; }
      auto c = geo(f, r[0]); auto base = build<BarrierBuilder>(e, f, {element(e, 0, 9, {r[0]}, f)}); auto &b = base[0]; double g = Slope::at(c.latitude, c.longitude), z0 = 1e9, z1 = -1e9, rad = 0.5 / 110000 * 1.6; size_t side = 0;
      for (size_t i = 0; i < b.v.size(); i += 3) { if (fabs(b.v[i] - c.longitude) > rad || fabs(b.v[i + 1] - c.latitude) > rad) mc::fail("pillar is wider than asked for"); if (hypot(b.v[i] - c.longitude, b.v[i + 1] - c.latitude) > 0.4 / 112000) ++side; z0 = std::min(z0, b.v[i + 2]); z1 = std::max(z1, b.v[i + 2]); }
      if (fabs(z0 - g) > 1e-6 || fabs(z1 - g - height) > 1e-6 || !side) mc::fail("pillar lasts from %.4f to %.4f above the ground, expected 0..%g", z0 - g, z1 - g, height);
      if (r.size() == 1) { if (m.v != b.v || m.t != b.t) mc::fail("pillars of single points differ"); return; } copies(m, relative(b, c.latitude, c.longitude, g), b.t, along(edges(r, kind), f, step)); }); });
  for (double step : Steps) for (int which = 0; which < 2; ++which) for (double width : {0.0, 3.0}) { if (!which && width) continue; mc::run(mc::fmt("%s:%g:%g", which ? "lamp" : "tree", step, width), [&] {
    Env e(lsysCss(which ? "lamp" : "tree", mc::fmt("%s-step:%gm;", which ? "lamp" : "tree", step) + (width ? mc::fmt("width:%gm;", width) : ""))); std::map<std::string, int> colors{{"trunk", Roof}, {"leaf", Wall}};
    auto make = [&](const Frame &f, El x) { return which ? build<LampBuilder>(e, f, {x}) : build<TreeBuilder>(e, f, {x}); };
    each([&](const Ring &r, int kind, const Frame &f) {
      auto got = make(f, element(e, kind, 9, r, f)); if (kind == 2) { if (!got.empty()) mc::fail("area is built"); return; } std::string prefix = which ? "lamp" : "tree"; if (got.empty() && (which || r.empty()) && kind) got.push_back({prefix + "s:9"}); if (got.size() != 1) mc::fail("%zu meshes", got.size()); auto &m = got[0]; if (m.name != prefix + (kind ? "s:9" : ":9")) mc::fail("mesh is named %s", m.name.c_str()); wellFormed(m, colors);
      if (kind == 0) { auto c = geo(f, r[0]); double g = Slope::at(c.latitude, c.longitude), cs = cos(c.latitude * 3.14159265358979 / 180), z0 = 1e9; size_t trunk = 0, leaf = 0; for (size_t i = 0; i < m.v.size(); i += 3) { double X = (m.v[i] - c.longitude) * 111000 * cs, Y = (m.v[i + 1] - c.latitude) * 111000, Z = m.v[i + 2] - g; z0 = std::min(z0, Z); if (hypot(X, Y) > 8 || Z > 8 || Z < -1e-6) mc::fail("vertex of %s is at %.2f,%.2f,%.2f m from its place", prefix.c_str(), X, Y, Z); ++((m.c[i / 3] & 0xffffff) == Roof || (m.c[i / 3] >> 8 & 0xffffff) == Roof ? trunk : leaf); } if (fabs(z0) > 1e-6 || trunk != 84 + 63 || leaf != 240) mc::fail("%s begins at %.4f with %zu and %zu vertices", prefix.c_str(), z0, trunk, leaf); return; }
      auto q = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(f.lat, f.lon), f.lod); auto c = utils::GeoUtils::quadKeyToBoundingBox(q).center(); auto base = make(f, node(e.st, 9, {{"b", "1"}}, c)); auto one = relative(base[0], c.latitude, c.longitude, Slope::at(c.latitude, c.longitude));
      if (!width) copies(m, one, base[0].t, along(r, f, step));
      else { std::vector<GeoCoordinate> at; std::vector<double> v = m.v; size_t k = 0; double w = width / 110000;   // both sides of the road in turn, not at its ends
        for (size_t i = 0; i + 1 < r.size(); ++i) { auto a = geo(f, r[i]), b = geo(f, r[i + 1]); int n = int(utils::GeoUtils::distance(a, b) / step); double dx = b.longitude - a.longitude, dy = b.latitude - a.latitude, len = hypot(dx, dy), last = 0; for (int j = 1; j < n - 1; ++j, ++k) { if (m.v.size() < (k + 1) * one.size()) mc::fail("%zu lamps at least are expected", k + 1); double X = m.v[k * one.size()] - one[0]; double Y = m.v[k * one.size() + 1] - one[1]; double t = ((X - a.longitude) * dx + (Y - a.latitude) * dy) / len / len; double s = ((X - a.longitude) * dy - (Y - a.latitude) * dx) / len; if (fabs(t - double(j) / n) > 1e-6 || fabs(s) < w * .9 || fabs(s) > w * 1.1 || s * last > 0) mc::fail("lamp %d of edge %zu is at %.6f along the road and %.8f off it", j, i, t, s); last = s; at.push_back(GeoCoordinate(Y, X)); } }
        copies(m, one, base[0].t, at); } }); }); }
  return mc::finish();
}
