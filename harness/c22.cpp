// C22: triangulation covers exactly the polygon; planes and triangles have exactly the given corners.
#include "uty.hpp"
#include "builders/MeshBuilder.hpp"
#include "heightmap/ElevationProvider.hpp"
#include "mapcss/ColorGradient.hpp"
#include "mapcss/StyleSheet.hpp"
#include "math/Mesh.hpp"
#include "math/Polygon.hpp"
#include "math/Vector2.hpp"
#include "math/Vector3.hpp"
#include <cmath>
using namespace uty; using namespace utymap::builders; using namespace utymap::mapcss; using namespace utymap::math;
typedef long double L; typedef std::pair<int, int> I2; typedef std::vector<I2> Ring;
struct Slope : utymap::heightmap::ElevationProvider {
  double getElevation(const QuadKey &, const GeoCoordinate &c) const override { return 3 + c.latitude * 2 + c.longitude; }
  double getElevation(const QuadKey &q, double lat, double lon) const override { return getElevation(q, GeoCoordinate(lat, lon)); }
};
static long cross(I2 a, I2 b, I2 c) { return long(b.first - a.first) * (c.second - a.second) - long(b.second - a.second) * (c.first - a.first); }
static int sgn(long v) { return (v > 0) - (v < 0); }
static bool onSeg(I2 p, I2 a, I2 b) { return cross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
static bool touch(I2 a, I2 b, I2 c, I2 d) { if (onSeg(a, c, d) || onSeg(b, c, d) || onSeg(c, a, b) || onSeg(d, a, b)) return true; return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0; }
static long area2(const Ring &r) { long s = 0; for (size_t i = 0; i < r.size(); ++i) { auto a = r[i], b = r[(i + 1) % r.size()]; s += long(a.first) * b.second - long(b.first) * a.second; } return s; }
static bool simple(const Ring &r) {   // straight vertices are allowed
  int n = r.size(); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { I2 a = r[i], b = r[(i + 1) % n], c = r[j], d = r[(j + 1) % n]; if (a == c) return false;
    if (j == i + 1) { if (cross(a, b, d) == 0 && onSeg(d, a, b)) return false; if (n > 2 && onSeg(a, c, d) && cross(a, b, d) == 0) return false; } else if (i == 0 && j == n - 1) { if (onSeg(c, a, b) || onSeg(b, c, d)) { if (c != b) return false; } } else if (touch(a, b, c, d)) return false; }
  return area2(r) != 0;
}
static void rings(int w, int h, int len, int ox, int oy, const std::function<void(const Ring &)> &f) {
  Ring r; std::vector<char> used(w * h); std::function<void(int)> go = [&](int first) { if ((int)r.size() == len) { if (simple(r)) f(r); return; } for (int i = first + 1; i < w * h; ++i) if (!used[i]) { used[i] = 1; r.push_back({ox + i % w, oy + i / w}); bool ok = true; int n = r.size(); for (int k = 0; ok && k + 2 < n - 1; ++k) ok = !touch(r[k], r[k + 1], r[n - 2], r[n - 1]); if (ok) go(first); r.pop_back(); used[i] = 0; } };
  for (int i = 0; i < w * h; ++i) { r.assign(1, {ox + i % w, oy + i / w}); used.assign(w * h, 0); used[i] = 1; go(i); }
}
static int inRing(L x, L y, const Ring &r) {   // 2x resolution points off the lattice lines are never on an edge check: distance to edges decides
  bool c = false; for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) { L ax = r[j].first, ay = r[j].second, bx = r[i].first, by = r[i].second; L d = fabsl((bx - ax) * (y - ay) - (by - ay) * (x - ax)) / hypotl(bx - ax, by - ay); L t = ((x - ax) * (bx - ax) + (y - ay) * (by - ay)); if (d < 1e-6L && t > -1e-6L && t < hypotl(bx - ax, by - ay) * hypotl(bx - ax, by - ay) + 1e-6L) return 2; if ((by > y) != (ay > y) && x < (ax - bx) * (y - by) / (ay - by) + bx) c = !c; }
  return c;
}
struct Frame { double lat, lon, step; int lod; };
struct Opt { double area; int split; bool flip; double ele, off, noise; bool tex; };
struct Case { std::vector<Ring> outer, holes; bool closed; };
static std::string text(const Case &c) { std::string s; for (auto *v : {&c.outer, &c.holes}) { for (auto &r : *v) { s += "["; for (auto &p : r) s += mc::fmt("%d,%d ", p.first, p.second); s += "]"; } s += v == &c.outer ? " holes " : ""; } return s + (c.closed ? "closed" : ""); }

static const ColorGradient Grad(ColorGradient::GradientData{{0, Color(100, 50, 0, 255)}, {1, Color(200, 150, 0, 255)}});
static void polygon(const Frame &f, const Case &c, const Opt &o) {
  auto P = [&](I2 p) { return Vector2(f.lon + p.first * f.step, f.lat + p.second * f.step); };
  Polygon pg(64); auto conv = [&](const Ring &r) { std::vector<Vector2> v; for (auto &p : r) v.push_back(P(p)); if (c.closed) v.push_back(v[0]); return v; };
  for (auto &r : c.outer) pg.addContour(conv(r)); for (auto &r : c.holes) pg.addHole(conv(r));
  QuadKey q = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(f.lat, f.lon), f.lod); auto bb = bboxOf(q); Slope ele; MeshBuilder mb(q, ele); Mesh m("m");
  m.vertices = {1, 2, 3}; m.colors = {4}; m.uvs = {5, 6};   // something is in the mesh already
  double cell = f.step * f.step; TextureRegion reg(512, 256, 1, 2, 30, 40), none; MeshBuilder::GeometryOptions g(o.area * cell, o.noise, o.ele, o.off, o.split); g.flipSide = o.flip; MeshBuilder::AppearanceOptions a(Grad, 0, 3, o.tex ? reg : none, 7);
  std::string what = text(c) + mc::fmt(" at %g %g step %g area %g split %d flip %d", f.lat, f.lon, f.step, o.area, o.split, o.flip);
  mb.addPolygon(m, pg, g, a);
  size_t n = m.vertices.size() / 3; if (m.vertices.size() % 3 || m.colors.size() != n || m.uvs.size() != 2 * n) mc::fail("%s: %zu coordinates, %zu colors, %zu uvs", what.c_str(), m.vertices.size(), m.colors.size(), m.uvs.size());
  if (m.vertices[0] != 1 || m.colors[0] != 4 || m.uvs[1] != 6) mc::fail("%s: content of mesh is changed", what.c_str()); if (m.triangles.size() % 3 || m.triangles.empty()) mc::fail("%s: %zu indices", what.c_str(), m.triangles.size());
  auto X = [&](int i) { return (L(m.vertices[3 * i]) - f.lon) / f.step; }; auto Y = [&](int i) { return (L(m.vertices[3 * i + 1]) - f.lat) / f.step; }; const L tol = std::max<L>(1e-7L, 1e-12L / f.step * 10);
  auto where = [&](L x, L y) { bool in = false, edge = false; for (auto &r : c.outer) { int k = inRing(x, y, r); in |= k == 1; edge |= k == 2; } for (auto &r : c.holes) { int k = inRing(x, y, r); if (k == 1) return 0; edge |= k == 2; } return edge ? 2 : in ? 1 : 0; };
  std::vector<Ring> all = c.outer; all.insert(all.end(), c.holes.begin(), c.holes.end()); std::set<I2> seen, corner; std::map<I2, int> idx; for (auto &r : all) corner.insert(r.begin(), r.end());
  auto nearEdge = [&](L x, L y) { for (auto &r : all) for (size_t i = 0; i < r.size(); ++i) { L ax = r[i].first, ay = r[i].second, bx = r[(i + 1) % r.size()].first, by = r[(i + 1) % r.size()].second, d = hypotl(bx - ax, by - ay), t = ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / d; if (t > -tol && t < d + tol && fabsl((bx - ax) * (y - ay) - (by - ay) * (x - ax)) / d < 100 * tol) return true; } return false; };
  for (size_t i = 1; i < n; ++i) {
    L x = X(i), y = Y(i); I2 r{(int)lroundl(x), (int)lroundl(y)}; bool isCorner = corner.count(r) && fabsl(x - r.first) < 10 * tol && fabsl(y - r.second) < 10 * tol; if (isCorner) { seen.insert(r); idx[r] = i; } bool edge = isCorner || nearEdge(x, y);
    if (!edge && where(x, y) == 0) mc::fail("%s: vertex %.3Lf,%.3Lf is outside", what.c_str(), x, y); if (!isCorner && o.area == 0) mc::fail("%s: vertex %.3Lf,%.3Lf was not asked for", what.c_str(), x, y);
    double base = o.off + (o.ele > std::numeric_limits<double>::lowest() ? o.ele : 3 + m.vertices[3 * i + 1] * 2 + m.vertices[3 * i]), h = m.vertices[3 * i + 2];
    if (o.noise == 0 || isCorner ? fabs(h - base) > 1e-9 * (1 + fabs(base)) : fabs(h - base) > 1.5) mc::fail("%s: height %g of %.3Lf,%.3Lf, expected %g", what.c_str(), h, x, y, base);
    if ((uint32_t)m.colors[i] != (uint32_t)int(Grad.evaluate(0.5))) mc::fail("%s: color %x", what.c_str(), m.colors[i]);
    double u = o.tex ? (m.vertices[3 * i] - bb.minPoint.longitude) / bb.width() * 7 : 0, v = o.tex ? (m.vertices[3 * i + 1] - bb.minPoint.latitude) / bb.height() * 7 : 0; if (fabs(u - m.uvs[2 * i]) > 1e-9 || fabs(v - m.uvs[2 * i + 1]) > 1e-9) mc::fail("%s: texture coordinates %g %g, expected %g %g", what.c_str(), m.uvs[2 * i], m.uvs[2 * i + 1], u, v);
  }
  if (seen.size() != corner.size()) mc::fail("%s: %zu of %zu corners are used", what.c_str(), seen.size(), corner.size());
  L want = 0; for (auto &r : c.outer) want += labs(area2(r)) / 2.0L; for (auto &r : c.holes) want -= labs(area2(r)) / 2.0L; L sum = 0; std::set<std::pair<int, int>> half;
  struct T { L x[3], y[3]; }; std::vector<T> ts;
  for (size_t t = 0; t < m.triangles.size(); t += 3) {
    int k[3]; T tr; for (int i = 0; i < 3; ++i) { k[i] = m.triangles[t + i]; if (k[i] < 1 || k[i] >= (int)n) mc::fail("%s: index %d of %zu vertices", what.c_str(), k[i], n); tr.x[i] = X(k[i]); tr.y[i] = Y(k[i]); }
    L a2 = (tr.x[1] - tr.x[0]) * (tr.y[2] - tr.y[0]) - (tr.y[1] - tr.y[0]) * (tr.x[2] - tr.x[0]); if (o.flip ? a2 <= 0 : a2 >= 0) mc::fail("%s: triangle %zu is oriented the other way (%.3Lg)", what.c_str(), t / 3, a2);
    if (o.area > 0 && o.split == 0 && fabsl(a2) / 2 > o.area * 1.0001L) mc::fail("%s: triangle of area %.3Lg", what.c_str(), fabsl(a2) / 2);
    L cx = (tr.x[0] + tr.x[1] + tr.x[2]) / 3, cy = (tr.y[0] + tr.y[1] + tr.y[2]) / 3; if (where(cx, cy) == 0 && !nearEdge(cx, cy)) mc::fail("%s: triangle around %.3Lf,%.3Lf lies outside", what.c_str(), cx, cy);
    for (int i = 0; i < 3; ++i) if (!half.insert({k[i], k[(i + 1) % 3]}).second) mc::fail("%s: edge %d-%d is used twice in the same direction", what.c_str(), k[i], k[(i + 1) % 3]);
    sum += fabsl(a2) / 2; ts.push_back(tr);
  }
  if (o.split > 0 || o.area == 0) for (auto &r : all) for (size_t i = 0; i < r.size(); ++i) { int x = idx[r[i]], y = idx[r[(i + 1) % r.size()]]; if (!half.count({x, y}) && !half.count({y, x})) mc::fail("%s: border from %d,%d to %d,%d is split", what.c_str(), r[i].first, r[i].second, r[(i + 1) % r.size()].first, r[(i + 1) % r.size()].second); }
  if (fabsl(sum - want) > 1e-4L * tol / 1e-7L + tol * 100) mc::fail("%s: triangles cover %.6Lf, expected %.6Lf", what.c_str(), sum, want);
  for (int i = -3; i < 15; ++i) for (int j = -3; j < 15; ++j) { L x = i * 0.5L + 0.237L, y = j * 0.5L + 0.181L; if (nearEdge(x, y)) continue; int k = 0; bool edge = false; for (auto &t : ts) { L s = 1; bool in = true; for (int e = 0; e < 3; ++e) { L d = (t.x[(e + 1) % 3] - t.x[e]) * (y - t.y[e]) - (t.y[(e + 1) % 3] - t.y[e]) * (x - t.x[e]); if (fabsl(d) < 1e-6L) edge = true; in &= o.flip ? d > 0 : d < 0; } (void)s; k += in; } if (!edge && k != where(x, y)) mc::fail("%s: point %.3Lf,%.3Lf is covered %d times", what.c_str(), x, y, k); }
  mc::transition(); mc::outcome(m.triangles.size() * 31 + n);
}

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(120); bool th = mc::thorough();
  std::vector<Frame> fs{{52.53, 13.38, 1e-4, 16}, {-33.9, -70.6, 1e-5, 19}, {10, 20, 1, 2}, {40.7, -74.1, 1e-3, 12}};
  std::vector<Opt> os{{0, 0, false, -1e400, 0, 0, false}, {0, 1, true, 12, 5, 0, true}, {0.4, 0, false, -1e400, 2, 0, true}, {0.3, 1, true, 7, 0, 0.1, false}, {0.6, 2, false, -3, 1, 0, false}};
  for (auto &o : os) if (std::isinf(o.ele)) o.ele = std::numeric_limits<double>::lowest();
  auto each = [&](const Case &c, size_t salt) { for (size_t i = 0; i < fs.size(); ++i) for (size_t k = 0; k < os.size(); ++k) if (th || (i + k + salt) % 5 == 0) polygon(fs[i], c, os[k]); };
  // single outer ring: all simple rings of the 3x3 lattice and rings of few points of the 4x4 lattice
  for (int len = 3; len <= 9; ++len) for (int part = 0; part < 8; ++part) mc::run(mc::fmt("ring3:%d:%d", len, part), [&] { size_t i = 0; rings(3, 3, len, 0, 0, [&](const Ring &r) { if (++i % 8 == size_t(part)) each({{r}, {}, (i / 8) % 2 == 1}, i / 8); }); if (!i) mc::trivial(); });
  for (int len = 3; len <= (th ? 6 : 5); ++len) for (int part = 0; part < 32; ++part) mc::run(mc::fmt("ring4:%d:%d", len, part), [&] { size_t i = 0; rings(4, 4, len, 0, 0, [&](const Ring &r) { if (++i % 32 == size_t(part) && (th ? len < 6 || (i / 32) % 8 == 0 : len < 5 || (i / 32) % 4 == 0)) each({{r}, {}, (i / 32) % 2 == 1}, i / 32); }); });
  Ring box{{-1, -1}, {5, -1}, {5, 5}, {-1, 5}}, ell{{-1, -1}, {5, -1}, {5, 3}, {4, 5}, {2, 3}, {-1, 5}};
  for (int len = 3; len <= 9; ++len) for (int part = 0; part < 8; ++part) mc::run(mc::fmt("hole3:%d:%d", len, part), [&] { size_t i = 0; rings(3, 3, len, 0, 0, [&](const Ring &r) { if (++i % 8 == size_t(part)) each({{i % 3 ? box : ell}, {r}, (i / 8) % 2 == 1}, i / 8); }); if (!i) mc::trivial(); });
  for (int len = 3; len <= 4; ++len) for (int part = 0; part < 8; ++part) mc::run(mc::fmt("hole4:%d:%d", len, part), [&] { size_t i = 0; rings(4, 4, len, 0, 0, [&](const Ring &r) { if (++i % 8 == size_t(part)) each({{box}, {r}, (i / 8) % 2 == 1}, i / 8); }); });
  // two rings side by side: two outer ones, two holes, one with a hole
  for (int la = 3; la <= 4; ++la) for (int lb = 3; lb <= 4; ++lb) mc::run(mc::fmt("pair:%d:%d", la, lb), [&] { std::vector<Ring> A, B; rings(2, 3, la, 0, 0, [&](const Ring &r) { A.push_back(r); }); rings(2, 3, lb, 3, 0, [&](const Ring &r) { B.push_back(r); }); size_t i = 0; for (auto &a : A) for (auto &b : B) { ++i; each({{a, b}, {}, i % 2 == 1}, i); each({{box}, {a, b}, i % 2 == 0}, i + 1); Ring far{{7, 0}, {9, 0}, {9, 2}}; if (i % 3 == 0) each({{far, box}, {a, b}, i % 2 == 0}, i + 2); } });
  // extrusions and single triangles
  for (size_t fi = 0; fi < fs.size(); ++fi) mc::run(mc::fmt("plane:%zu", fi), [&] { Frame f = fs[fi]; QuadKey q = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(f.lat, f.lon), f.lod); Slope ele; MeshBuilder mb(q, ele); TextureRegion none;
    for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) if (a != b) for (double e : {std::numeric_limits<double>::lowest(), 5.0}) for (double h : {1.0, 30.5}) for (int v3 = 0; v3 < 2; ++v3) for (int pre = 0; pre < 2; ++pre) {
      Mesh m("m"); if (pre) { m.vertices = {1, 2, 3}; m.colors = {4}; m.uvs = {5, 6}; m.triangles = {0, 0, 0}; }
      Vector2 p(f.lon + a % 3 * f.step, f.lat + a / 3 * f.step), r(f.lon + b % 3 * f.step, f.lat + b / 3 * f.step); MeshBuilder::GeometryOptions g(0, 0, e, h); MeshBuilder::AppearanceOptions ap(Grad, 0, 0, none, 1);
      double ep, er; if (v3) { ep = 4; er = 6.5; mb.addPlane(m, Vector3(p.x, ep, p.y), Vector3(r.x, er, r.y), g, ap); } else { ep = e > -1e300 ? e : 3 + p.y * 2 + p.x; er = e > -1e300 ? e : 3 + r.y * 2 + r.x; mb.addPlane(m, p, r, g, ap); }
      typedef std::tuple<double, double, double> V; V c0{p.x, p.y, ep}, c1{r.x, r.y, er}, c2{r.x, r.y, er + h}, c3{p.x, p.y, ep + h};
      if (m.triangles.size() != size_t(6 + pre * 3) || m.vertices.size() != size_t(18 + pre * 3) || m.colors.size() != size_t(6 + pre) || m.uvs.size() != size_t(12 + pre * 2)) mc::fail("plane of %zu indices, %zu coordinates", m.triangles.size(), m.vertices.size());
      double nx = p.y - r.y, ny = r.x - p.x; int side = 0; std::set<std::set<V>> tri;
      for (int t = pre; t < pre + 2; ++t) { V k[3]; std::set<V> s; for (int i = 0; i < 3; ++i) { int x = m.triangles[3 * t + i]; if (x < pre || x >= pre + 6) mc::fail("plane uses vertex %d", x); k[i] = V{m.vertices[3 * x], m.vertices[3 * x + 1], m.vertices[3 * x + 2]}; s.insert(k[i]); } tri.insert(s);
        double ux = std::get<0>(k[1]) - std::get<0>(k[0]), uy = std::get<1>(k[1]) - std::get<1>(k[0]), uz = std::get<2>(k[1]) - std::get<2>(k[0]), vx = std::get<0>(k[2]) - std::get<0>(k[0]), vy = std::get<1>(k[2]) - std::get<1>(k[0]), vz = std::get<2>(k[2]) - std::get<2>(k[0]); double cx = uy * vz - uz * vy, cy = uz * vx - ux * vz; int sd = cx * nx + cy * ny > 0 ? 1 : -1; if (side && sd != side) mc::fail("triangles of a plane face different sides"); side = sd; }
      if (side != 1) mc::fail("plane faces the other side"); bool ok = tri == std::set<std::set<V>>{{c0, c1, c2}, {c0, c2, c3}} || tri == std::set<std::set<V>>{{c0, c1, c3}, {c1, c2, c3}}; if (!ok) mc::fail("plane from lattice point %d to %d (height %g) does not have its four corners", a, b, h); mc::transition(); mc::outcome(a * 9 + b); } });
  mc::run("triangle", [&] { Slope ele; MeshBuilder mb(QuadKey(1, 0, 0), ele); TextureRegion none; for (bool back : {false, true}) for (int pre = 0; pre < 2; ++pre) mc::words(4, 3, [&](const std::vector<int> &w) {
    Mesh m("m"); if (pre) { m.vertices = {1, 2, 3}; m.colors = {4}; m.uvs = {5, 6}; m.triangles = {0, 0, 0}; } Vector3 v[4]{Vector3(0, 0, 0), Vector3(1, 2, 0), Vector3(0, 3, 1), Vector3(-1, 1, -2)}; Vector2 t[3]{Vector2(0, 0), Vector2(1, 0), Vector2(0, 1)}; MeshBuilder::GeometryOptions g(0, 0, 0, 0); g.hasBackSide = back; MeshBuilder::AppearanceOptions ap(Grad, 0, 0, none, 1);
    mb.addTriangle(m, v[w[0]], v[w[1]], v[w[2]], t[0], t[1], t[2], g, ap); size_t n = back ? 2 : 1; if (m.triangles.size() != 3 * (n + pre) || m.vertices.size() != 9 * n + 3 * pre || m.colors.size() != 3 * n + pre || m.uvs.size() != 6 * n + 2 * pre) mc::fail("triangle has %zu indices", m.triangles.size());
    auto rot = [&](size_t k, bool rev) { for (int s = 0; s < 3; ++s) { bool ok = true; for (int i = 0; i < 3; ++i) { int c = rev ? (s + 3 - i) % 3 : (s + i) % 3; int x = m.triangles[3 * (k + pre) + i]; if (x < pre || x >= int(3 * n) + pre) mc::fail("vertex %d is used", x); ok &= m.vertices[3 * x] == v[w[c]].x && m.vertices[3 * x + 1] == v[w[c]].z && m.vertices[3 * x + 2] == v[w[c]].y && m.uvs[2 * x] == t[c].x && m.uvs[2 * x + 1] == t[c].y; } if (ok) return true; } return false; };
    if (!rot(0, false)) mc::fail("corners %d %d %d are not used in order", w[0], w[1], w[2]); if (back && !rot(1, true)) mc::fail("back side of corners %d %d %d is not the reverse triangle", w[0], w[1], w[2]); mc::outcome(w[0] * 16 + w[1] * 4 + w[2]); mc::transition(); }); });
  // every vertex is mapped to the texture it was added with, whatever was added before: appearances differ in one field each, also in scale and gradient only
  for (int len = 1; len <= (th ? 5 : 4); ++len) for (int first = 0; first < 9; ++first) mc::run(mc::fmt("texture:%d:%d", len, first), [&] { Slope ele; MeshBuilder mb(QuadKey(1, 0, 0), ele); int base[7] = {7, 100, 50, 10, 20, 30, 40};
    mc::words(9, len - 1, [&](const std::vector<int> &rest) { std::vector<int> w{first}; w.insert(w.end(), rest.begin(), rest.end()); Mesh m("m"); std::vector<std::vector<int>> want; size_t drawn = 0;
      for (size_t i = 0; i < w.size(); ++i) { int f[7]; std::copy(base, base + 7, f); if (w[i] < 7) f[w[i]] += 1; TextureRegion r(f[1], f[2], f[3], f[4], f[5], f[6]); MeshBuilder::AppearanceOptions ap(Grad, 0, f[0], r, w[i] == 8 ? 2 : 1); MeshBuilder::GeometryOptions g(0, 0, 0, 0);
        size_t k = (i + first) % 3; for (size_t t = 0; t < k; ++t) mb.addTriangle(m, Vector3(0, 0, 0), Vector3(1, 2, 0), Vector3(0, 3, 1), Vector2(0, 0), Vector2(1, 0), Vector2(0, 1), g, ap); mb.writeTextureMappingInfo(m, ap); drawn += k; want.resize(m.uvs.size() / 2, std::vector<int>(f, f + 7));
        if (m.uvMap.size() % 8 || m.uvMap.empty() || m.uvMap[m.uvMap.size() - 8] != (int)m.uvs.size()) mc::fail("texture mapping does not end with the mesh"); size_t at = 0; for (size_t e = 0; e < m.uvMap.size(); e += 8) { if (m.uvMap[e] < (int)at) mc::fail("texture mapping goes back"); for (; (int)at < m.uvMap[e]; at += 2) if (std::vector<int>(m.uvMap.begin() + e + 1, m.uvMap.begin() + e + 8) != want[at / 2]) { std::string d; for (int x : w) d += mc::fmt(" %d", x); mc::fail("vertex %zu has another texture after appearances%s", at / 2, d.c_str()); } } }
      if (want.size() != 3 * drawn) mc::fail("%zu vertices of %zu triangles", want.size(), drawn); mc::transition(); mc::outcome(m.uvMap.size()); }); });
  return mc::finish();
}
