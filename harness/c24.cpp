// C24: tile arithmetic and geodesy against independently computed tile borders.
#include "uty.hpp"
#include <cmath>
using namespace uty; using utymap::utils::GeoUtils;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
static ld lonAt(ld x, int z) { return x / std::pow(2.0L, z) * 360 - 180; }
static ld latAt(ld y, int z) { return std::atan(std::sinh(PI * (1 - 2 * y / std::pow(2.0L, z)))) * 180 / PI; }
static const double Tol = 1e-9;
static void near(ld a, ld b, ld tol, const std::string &what) { if (!(std::fabs(a - b) <= tol)) mc::fail("%s: %.15Lg, expected %.15Lg", what.c_str(), a, b); }

static std::vector<int> picks(int z) {
  std::set<long> s; long n = 1L << z;
  auto add = [&](long v) { if (v >= 0 && v < n) s.insert(v); };
  if (n <= 64) { for (long i = 0; i < n; ++i) add(i); }
  else {
    for (int b = 0; b <= z; ++b) for (int d = -1; d <= 1; ++d) { add((1L << b) + d); add(n - (1L << b) + d); }
    for (int k = 0; k <= 16; ++k) for (int d = -1; d <= 0; ++d) add(n * k / 16 + d);
    for (int k = 1; k < 7; ++k) add((long)(n * 0.142857142857 * k));
  }
  return std::vector<int>(s.begin(), s.end());
}

static void tile(int z, int x, int y) {
  QuadKey q(z, x, y); BoundingBox b = bboxOf(q); std::string n = "tile " + show(q);
  near(b.minPoint.longitude, lonAt(x, z), Tol, n + " west"); near(b.maxPoint.longitude, lonAt(x + 1, z), Tol, n + " east");
  near(b.minPoint.latitude, latAt(y + 1, z), Tol, n + " south"); near(b.maxPoint.latitude, latAt(y, z), Tol, n + " north");
  long m = 1L << z;
  if (x + 1 < m) { auto e = bboxOf(QuadKey(z, x + 1, y)); if (e.minPoint.longitude != b.maxPoint.longitude) mc::fail("%s and its east neighbour do not share a border", n.c_str()); }
  if (y + 1 < m) { auto e = bboxOf(QuadKey(z, x, y + 1)); if (e.maxPoint.latitude != b.minPoint.latitude) mc::fail("%s and its south neighbour do not share a border", n.c_str()); }
  if (z < 19) for (int c = 0; c < 4; ++c) {
    auto k = bboxOf(QuadKey(z + 1, 2 * x + (c & 1), 2 * y + (c >> 1)));
    if (k.minPoint.longitude < b.minPoint.longitude - Tol || k.maxPoint.longitude > b.maxPoint.longitude + Tol || k.minPoint.latitude < b.minPoint.latitude - Tol || k.maxPoint.latitude > b.maxPoint.latitude + Tol) mc::fail("child %d of %s leaves it", c, n.c_str());
  }
  static const double F[] = {1e-5, .25, .5, .9, 1 - 1e-5};
  for (double fx : F) for (double fy : F) {
    GeoCoordinate c((double)latAt(y + fy, z), (double)lonAt(x + fx, z));
    QuadKey r = GeoUtils::GeoCoordinateToQuadKey(c, z); mc::transition();
    if (!(r == q)) mc::fail("coordinate %.12f,%.12f inside %s is assigned to %s", c.latitude, c.longitude, n.c_str(), show(r).c_str());
    int hit = 0; GeoUtils::visitTileRange(BoundingBox(c, c), z, [&](const QuadKey &v, const BoundingBox &) { if (!(v == q)) mc::fail("point in %s visits %s", n.c_str(), show(v).c_str()); ++hit; });
    if (hit != 1) mc::fail("point in %s visits %d tiles", n.c_str(), hit);
    if (!b.contains(c)) mc::fail("%s does not contain its point", n.c_str());
  }
  std::string code = GeoUtils::quadKeyToString(q);
  if ((int)code.size() != z) mc::fail("name of %s is '%s'", n.c_str(), code.c_str());
  int dx = 0, dy = 0; for (char ch : code) { if (ch < '0' || ch > '3') mc::fail("name of %s is '%s'", n.c_str(), code.c_str()); dx = dx * 2 + ((ch - '0') & 1); dy = dy * 2 + ((ch - '0') >> 1); }
  if (dx != x || dy != y) mc::fail("name '%s' of %s decodes to %d,%d", code.c_str(), n.c_str(), dx, dy);
  mc::outcome(code); mc::state(mc::hash(show(q)));
}

static void range(int z, int x0, int y0, int w, int h, double fx0, double fy0, double fx1, double fy1) {
  int m = 1 << z; int x1 = x0 + w, y1 = y0 + h; if (x1 >= m || y1 >= m) return;
  if ((w == 0 && fx1 < fx0) || (h == 0 && fy1 < fy0)) return;
  BoundingBox b(GeoCoordinate((double)latAt(y1 + fy1, z), (double)lonAt(x0 + fx0, z)), GeoCoordinate((double)latAt(y0 + fy0, z), (double)lonAt(x1 + fx1, z)));
  std::map<std::pair<int, int>, int> seen;
  GeoUtils::visitTileRange(b, z, [&](const QuadKey &q, const BoundingBox &bb) {
    if (q.levelOfDetail != z) mc::fail("tile of another level visited");
    auto e = bboxOf(q); if (!(e.minPoint.latitude == bb.minPoint.latitude && e.maxPoint.longitude == bb.maxPoint.longitude && e.minPoint.longitude == bb.minPoint.longitude && e.maxPoint.latitude == bb.maxPoint.latitude)) mc::fail("visitor gets a wrong box for %s", show(q).c_str());
    seen[{q.tileX, q.tileY}]++; });
  std::string d = mc::fmt("level %d box tiles x %d+%g..%d+%g y %d+%g..%d+%g", z, x0, fx0, x1, fx1, y0, fy0, y1, fy1);
  for (int x = x0; x <= x1; ++x) for (int y = y0; y <= y1; ++y) if (seen[{x, y}] != 1) mc::fail("%s: tile %d,%d visited %d times", d.c_str(), x, y, seen[{x, y}]);
  if ((int)seen.size() != (w + 1) * (h + 1)) mc::fail("%s: %zu tiles visited, expected %d", d.c_str(), seen.size(), (w + 1) * (h + 1));
  mc::transition(); mc::outcome(mc::hash(d));
}

static double hav(const GeoCoordinate &a, const GeoCoordinate &b) {
  auto r = [](double d) { return d * (double)PI / 180; };
  double s1 = sin(r(b.latitude - a.latitude) / 2), s2 = sin(r(b.longitude - a.longitude) / 2);
  double h = s1 * s1 + cos(r(a.latitude)) * cos(r(b.latitude)) * s2 * s2; return 2 * 6371000 * asin(std::min(1.0, sqrt(h)));
}

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(120);
  for (int z = 1; z <= 19; ++z) {
    auto p = picks(z); long m = 1L << z;
    if (z <= (mc::thorough() ? 10 : 8)) for (int x = 0; x < m; x += 1) mc::run(mc::fmt("col:%d/%d", z, x), [&] { for (int y = 0; y < m; ++y) tile(z, x, y); });
    else for (int x : p) mc::run(mc::fmt("pick:%d/%d", z, x), [&] { for (int y : p) tile(z, x, y); });
    static const double F[] = {1e-4, .5, 1 - 1e-4};
    for (int x : p) mc::run(mc::fmt("range:%d/%d", z, x), [&] {
      size_t step = mc::thorough() ? 1 : std::max<size_t>(1, p.size() / 24);
      for (size_t i = 0; i < p.size(); i += step) for (int w : {0, 1, 3}) for (int h : {0, 1, 2}) for (double a : F) for (double b : F) for (double c : F) for (double d : F) range(z, x, p[i], w, h, a, b, c, d); });
  }
  for (int z = 1; z <= 7; ++z) for (double la : {85.05, 86.0, 90.0}) for (double lo : {179.99, 180.0})
    mc::run(mc::fmt("world:%d %g %g", z, la, lo), [&] {
      std::set<std::pair<int, int>> s; int n = 0; GeoUtils::visitTileRange(BoundingBox(GeoCoordinate(-la, -lo), GeoCoordinate(la, lo)), z, [&](const QuadKey &q, const BoundingBox &) { s.insert({q.tileX, q.tileY}); ++n; });
      if (n != (1 << (2 * z)) || (int)s.size() != n) mc::fail("box of the whole world visits %d tiles (%zu different)", n, s.size());
      mc::outcome(n); });
  // every coordinate of a one degree lattice, all levels; also beyond the limits the tile is a valid one
  for (int lat = -90; lat <= 90; lat += 1) mc::run(mc::fmt("lat:%d", lat), [&] {
    for (int lon = -180; lon <= 180; lon += 3) for (int z = 1; z <= 19; ++z) for (double e : {0.0, 0.333333}) {
      double la = std::min(90.0, lat + e), lo = std::min(180.0, lon + e); QuadKey q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(la, lo), z); int m = 1 << z;
      if (q.levelOfDetail != z || q.tileX < 0 || q.tileX >= m || q.tileY < 0 || q.tileY >= m) mc::fail("coordinate %g,%g has tile %s", la, lo, show(q).c_str());
      ld cla = std::max(-85.05112L, std::min(85.05112L, (ld)la));
      if (lo < lonAt(q.tileX, z) - 1e-6L || lo > lonAt(q.tileX + 1, z) + 1e-6L) mc::fail("coordinate %g,%g is outside of its tile %s", la, lo, show(q).c_str());
      if (cla > latAt(q.tileY, z) + 1e-5L || cla < latAt(q.tileY + 1, z) - 1e-5L) mc::fail("coordinate %g,%g is outside of its tile %s", la, lo, show(q).c_str());
      mc::transition();
    }
    mc::outcome(lat); });
  // ordering of tiles: a strict total order
  mc::run("order", [&] {
    std::vector<QuadKey> v; for (int z = 0; z < 3; ++z) for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) v.push_back(QuadKey(z + 1, x, y));
    QuadKey::Comparator lt;
    for (auto &a : v) for (auto &b : v) {
      bool same = a.levelOfDetail == b.levelOfDetail && a.tileX == b.tileX && a.tileY == b.tileY;
      if ((a == b) != same) mc::fail("equality of %s and %s", show(a).c_str(), show(b).c_str());
      if (int(lt(a, b)) + int(lt(b, a)) + int(same) != 1) mc::fail("%s and %s are not ordered", show(a).c_str(), show(b).c_str());
      for (auto &c : v) if (lt(a, b) && lt(b, c) && !lt(a, c)) mc::fail("tile order is not transitive");
    }
    mc::outcome(v.size()); });
  for (int s = -3; s <= 24; ++s) mc::run(mc::fmt("lodrange:%d", s), [&] { for (int e = -3; e <= 24; ++e) {
    bool bad = s < 1 || s > 19 || e < 1 || e > 19; std::string t = mc::threw([&] { LodRange r(s, e); if (r.start != s || r.end != e) mc::fail("range altered"); });
    if (bad != !t.empty()) mc::fail("level range %d..%d %s", s, e, bad ? "accepted" : "refused"); } mc::outcome(s); });
  // boxes on a lattice
  for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) mc::run(mc::fmt("box:%d,%d", a, b), [&] {
    double V[] = {-60, -0.5, 0.25, 70}; auto inside = [](double x, double l, double h) { return x >= l && x <= h; };
    std::vector<BoundingBox> all; for (int c = 0; c < 4; ++c) for (int d = c; d < 4; ++d) for (int e = 0; e < 4; ++e) for (int f = e; f < 4; ++f) all.push_back(BoundingBox(GeoCoordinate(V[c], V[e]), GeoCoordinate(V[d], V[f])));
    for (int c = a; c < 4; ++c) for (int d = b; d < 4; ++d) {
      BoundingBox x(GeoCoordinate(V[a], V[b]), GeoCoordinate(V[c], V[d]));
      if (!x.isValid()) mc::fail("valid box reported as invalid");
      near(x.width(), V[d] - V[b], 1e-12, "width"); near(x.height(), V[c] - V[a], 1e-12, "height"); near(x.center().latitude, (V[a] + V[c]) / 2, 1e-12, "center"); near(x.center().longitude, (V[b] + V[d]) / 2, 1e-12, "center");
      for (auto &y : all) {
        bool in = std::max(x.minPoint.latitude, y.minPoint.latitude) <= std::min(x.maxPoint.latitude, y.maxPoint.latitude) && std::max(x.minPoint.longitude, y.minPoint.longitude) <= std::min(x.maxPoint.longitude, y.maxPoint.longitude);
        if (x.intersects(y) != in || y.intersects(x) != in) mc::fail("intersects");
        BoundingBox u = x; u.expand(y); BoundingBox u2 = x; u2 += y; BoundingBox u3 = x; u3.expand(y.minPoint); u3.expand(y.maxPoint); std::vector<GeoCoordinate> cs{x.minPoint, y.maxPoint, x.maxPoint, y.minPoint}; BoundingBox u4; u4.expand(cs.begin(), cs.end());
        double w0 = std::min(x.minPoint.latitude, y.minPoint.latitude), w1 = std::min(x.minPoint.longitude, y.minPoint.longitude), w2 = std::max(x.maxPoint.latitude, y.maxPoint.latitude), w3 = std::max(x.maxPoint.longitude, y.maxPoint.longitude);
        for (auto *p : {&u, &u2, &u3, &u4}) if (p->minPoint.latitude != w0 || p->minPoint.longitude != w1 || p->maxPoint.latitude != w2 || p->maxPoint.longitude != w3) mc::fail("expand");
        bool strictly = y.minPoint.latitude > x.minPoint.latitude && y.maxPoint.latitude < x.maxPoint.latitude && y.minPoint.longitude > x.minPoint.longitude && y.maxPoint.longitude < x.maxPoint.longitude;
        bool loosely = inside(y.minPoint.latitude, x.minPoint.latitude, x.maxPoint.latitude) && inside(y.maxPoint.latitude, x.minPoint.latitude, x.maxPoint.latitude) && inside(y.minPoint.longitude, x.minPoint.longitude, x.maxPoint.longitude) && inside(y.maxPoint.longitude, x.minPoint.longitude, x.maxPoint.longitude);
        if ((strictly && !x.contains(y)) || (!loosely && x.contains(y))) mc::fail("contains");
        mc::transition();
      }
    }
    mc::outcome(a * 4 + b); });
  mc::run("box:invalid", [&] { if (BoundingBox().isValid()) mc::fail("empty box is valid"); int n = 0; for (int z = 1; z < 5; ++z) GeoUtils::visitTileRange(BoundingBox(), z, [&](const QuadKey &, const BoundingBox &) { ++n; }); if (n) mc::fail("empty box visits tiles"); mc::outcome(1); });
  // geodesy (relative accuracy of one percent, the flattening of the earth included)
  for (int la = -80; la <= 80; la += 10) mc::run(mc::fmt("dist:%d", la), [&] {
    for (int lo = -180; lo <= 170; lo += 35) for (int la2 = -80; la2 <= 80; la2 += 20) for (int lo2 = -170; lo2 <= 180; lo2 += 35) {
      GeoCoordinate a(la, lo), b(la2, lo2); double d = GeoUtils::distance(a, b), e = hav(a, b);
      if (std::fabs(d - e) > .01 * e + 1e-6) mc::fail("distance %d,%d to %d,%d is %f, expected about %f", la, lo, la2, lo2, d, e);
      if (std::fabs(d - GeoUtils::distance(b, a)) > 1e-6 * d + 1e-9) mc::fail("distance not symmetric");
      mc::transition();
    }
    for (int lo = -180; lo < 180; lo += 45) for (double m : {0.5, 10.0, 1000.0, 50000.0}) for (int k = 0; k < 8; ++k) {
      GeoCoordinate o(la, lo); double x = m * cos(k * PI / 4), y = m * sin(k * PI / 4); if (m > 5000 && std::abs(la) > 60) continue;
      GeoCoordinate p = GeoUtils::worldToGeo(o, x, y); double e = hav(o, p);
      if (std::fabs(e - m) > .012 * m) mc::fail("moving %f m from %d,%d direction %d gives a point %f m away", m, la, lo, k, e);
      if ((x > 1e-6 && p.longitude <= lo) || (x < -1e-6 && p.longitude >= lo) || (y > 1e-6 && p.latitude <= la) || (y < -1e-6 && p.latitude >= la)) mc::fail("moving from %d,%d by %g,%g goes the wrong way", la, lo, x, y);
      double off = GeoUtils::getOffset(o, m); double em = hav(o, GeoCoordinate(la + off, lo)); if (la + off < 90 && std::fabs(em - m) > .012 * m) mc::fail("offset of %f m at %d is %g degrees", m, la, off);
      if (GeoUtils::getOffset(o, -m) != -off) mc::fail("offset not odd");
      BoundingBox bb(GeoCoordinate(la - .5, lo), GeoCoordinate(la + .5, lo + 2)); double sc = GeoUtils::getScaled(bb, 8, m); near(sc, GeoUtils::getOffset(bb.center(), m) * 8 / 2, 1e-9 * std::fabs(sc), "scaled value");
      for (double f : {0.0, .25, 1.0}) { auto q = GeoUtils::newPoint(o, p, f); if (std::fabs(GeoUtils::distance(o, q) - f * GeoUtils::distance(o, p)) > .002 * m + 1e-6) mc::fail("point at %f between is misplaced", f); }
      mc::transition();
    }
    mc::outcome(la); });
  // point in polygon, all triangles and quads of a 4x4 lattice
  for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) mc::run(mc::fmt("pip:%d,%d", a, b), [&] {
    if (a == b) { mc::trivial(); return; }
    for (int c = 0; c < 16; ++c) for (int d = -1; d < 16; ++d) {
      std::vector<int> v{a, b, c}; if (d >= 0) v.push_back(d); std::set<int> u(v.begin(), v.end()); if (u.size() != v.size()) continue;
      Coords p; for (int k : v) p.push_back(GeoCoordinate(k / 4, k % 4));
      for (double y = -.27; y < 4; y += .61) for (double x = -.31; x < 4; x += .53) {
        // even-odd crossing count towards +y as the independent oracle
        bool in = false; for (size_t i = 0; i < p.size(); ++i) { auto s = p[i], t = p[(i + 1) % p.size()]; if ((s.longitude > x) != (t.longitude > x)) { double yy = s.latitude + (t.latitude - s.latitude) * (x - s.longitude) / (t.longitude - s.longitude); if (std::fabs(yy - y) < 1e-9) { in = GeoUtils::isPointInPolygon(GeoCoordinate(y, x), p.begin(), p.end()); break; } if (yy > y) in = !in; } }
        if (GeoUtils::isPointInPolygon(GeoCoordinate(y, x), p.begin(), p.end()) != in) mc::fail("point %g,%g against %d %d %d %d", y, x, a, b, c, d);
      }
      mc::transition();
    }
    mc::outcome(a * 16 + b); });
  return mc::finish();
}
