// C19: elevation of the real SRTM and grid providers against the samples their files were written from.
#include "uty.hpp"
#include "heightmap/FlatElevationProvider.hpp"
#include "heightmap/GridElevationProvider.hpp"
#include "heightmap/SrtmElevationProvider.hpp"
using namespace uty; using namespace utymap::heightmap;
typedef long double L;

// height of a sample of the global raster (dense in values whose bytes have their sign bit set, both signs)
static int sample(long gx, long gy) {
  static const int special[] = {0, 1, -1, 127, 128, 129, 200, 255, 256, 257, 383, 384, -127, -128, -129, -255, -256, -257, 8848, -430, 32767, -32767};
  uint64_t h = mc::hash(&gx, sizeof gx); h = mc::hash(&gy, sizeof gy, h); h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  return h % 3 ? int(h / 7 % 9300) - 430 : special[h / 7 % 22];
}
static std::string hgtName(int lat, int lon) { return mc::fmt("%c%02d%c%03d.hgt", lat < 0 ? 'S' : 'N', abs(lat), lon < 0 ? 'W' : 'E', abs(lon)); }
static void writeHgt(const std::string &dir, int lat, int lon, int px) {
  std::string s; s.reserve(px * px * 2); long n = px - 1;
  for (int r = 0; r < px; ++r) for (int c = 0; c < px; ++c) { int v = sample(lon * n + c, (lat + 1) * n - r); s += char(uint16_t(v) >> 8); s += char(v & 255); }
  mc::writeFile(dir + hgtName(lat, lon), s);
}
static double wantSrtm(double lat, double lon, int px) {   // bilinear over the global raster
  long n = px - 1; L y = (L)lat * n, x = (L)lon * n; long y0 = (long)floorl(y), x0 = (long)floorl(x); L dy = y - y0, dx = x - x0;
  return (1 - dx) * (1 - dy) * sample(x0, y0) + dx * (1 - dy) * sample(x0 + 1, y0) + (1 - dx) * dy * sample(x0, y0 + 1) + dx * dy * sample(x0 + 1, y0 + 1);
}
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-3 * std::max(1.0, std::fabs(b) * 1e-3) + 1e-3; }

struct Cell { int lat, lon; };
static std::vector<double> offs(int px) { double n = px - 1; std::vector<double> v; for (double p : {0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 17.75, n / 2 - 1, n / 2 + 0.125, n - 2, n - 1, n - 0.75, n - 1e-6, 255.5, 256.0}) v.push_back(p / n); return v; }

static void srtm(const std::vector<Cell> &cells, int px) {
  std::string base = mc::scratch("idx"); mc::mkdirs(base + "data"); for (auto &c : cells) writeHgt(base + "data/", c.lat, c.lon, px);
  auto o = offs(px); std::vector<double> vals;
  for (int lodi = 0; lodi < 3; ++lodi) {
    SrtmElevationProvider p(base); int lod = lodi == 0 ? 16 : lodi == 1 ? 9 : 1;
    for (size_t k = 0; k < cells.size(); ++k) { auto &c = cells[lodi == 1 ? cells.size() - 1 - k : k];
      for (double fy : o) for (double fx : o) {
        GeoCoordinate g(c.lat + fy, c.lon + fx); auto q = utils::GeoUtils::GeoCoordinateToQuadKey(g, lod);
        double got = lodi % 2 ? p.getElevation(q, g) : p.getElevation(q, g.latitude, g.longitude), want = wantSrtm(g.latitude, g.longitude, px); mc::transition();
        if (!same(got, want)) mc::fail("height at %.10f %.10f is %.6f, expected %.6f", g.latitude, g.longitude, got, want);
        if (!lodi) mc::outcome((uint64_t)llround(want * 100));
      } }
  }
}

static int gridSample(int i, int salt) { return sample(i * 7 + salt, i + salt * 3) ; }
static void grid(const QuadKey &q, int res, int sep) {
  std::string base = mc::scratch("idx"), d = base + "data/" + std::to_string(q.levelOfDetail) + "/"; mc::mkdirs(d);
  int n = res + 1, salt = res + (q.tileX * 31 + q.tileY * 17 + q.levelOfDetail) % 1009; std::string s; for (int i = 0; i < n * n; ++i) { s += (i ? (sep == 0 ? " " : sep == 1 ? "\n" : i % n ? " " : " \r\n") : "") + std::to_string(gridSample(i, salt)); } if (sep) s += "\n";
  mc::writeFile(d + utils::GeoUtils::quadKeyToString(q) + ".ele", s);
  GridElevationProvider p(base); auto bb = bboxOf(q); std::vector<L> ys{0, 0.5L, 1, 1.25L, (L)res - 1, res - 0.5L, (L)res, res / 2.0L, res / 3.0L}; for (int i = 0; i <= res && res <= 8; ++i) { ys.push_back(i); ys.push_back(std::min<L>(i + 0.625L, res)); }
  for (int i = 0; i < 12; ++i) ys.push_back(i * 977 % res + 0.5L * (i % 2));
  for (L fy : ys) for (L fx : ys) {
    if (fy < 0 || fx < 0 || fy > res || fx > res) continue;
    double lat = bb.minPoint.latitude + (L)(bb.maxPoint.latitude - bb.minPoint.latitude) * fy / res, lon = bb.minPoint.longitude + (L)(bb.maxPoint.longitude - bb.minPoint.longitude) * fx / res;
    int y0 = std::min((int)floorl(fy), res - 1), x0 = std::min((int)floorl(fx), res - 1); L dy = fy - y0, dx = fx - x0;
    auto h = [&](int x, int y) { return (L)gridSample(x + y * n, salt); };
    double want = (1 - dx) * (1 - dy) * h(x0, y0) + dx * (1 - dy) * h(x0 + 1, y0) + (1 - dx) * dy * h(x0, y0 + 1) + dx * dy * h(x0 + 1, y0 + 1);
    double got = p.getElevation(q, GeoCoordinate(lat, lon)), got2 = p.getElevation(q, lat, lon); mc::transition();
    if (std::fabs(got - want) > 0.1) mc::fail("height at cell %.4Lf %.4Lf of %d is %.6f, expected %.6f", fy, fx, res, got, want);
    if (got != got2) mc::fail("both overloads differ");
    mc::outcome((uint64_t)llround(want * 100));
  }
}

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(120); bool th = mc::thorough();
  std::vector<std::vector<Cell>> groups;
  for (Cell c : {Cell{0, 0}, Cell{-1, 0}, Cell{0, -1}, Cell{-1, -1}, Cell{52, 13}, Cell{-34, -71}, Cell{10, -100}, Cell{-9, 99}, Cell{59, 179}, Cell{-10, -180}, Cell{84, 9}, Cell{-85, 100}}) groups.push_back({c});
  groups.push_back({{0, 0}, {-1, 0}, {0, -1}, {-1, -1}}); groups.push_back({{52, 12}, {52, 13}, {53, 12}, {53, 13}}); groups.push_back({{-2, -2}, {-2, -1}, {-1, -2}, {-1, -1}}); groups.push_back({{-35, -72}, {-35, -71}, {-34, -72}, {-34, -71}});
  groups.push_back({{0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}}); groups.push_back({{-1, 8}, {-1, 9}, {-1, 10}, {-1, 11}, {-1, 99}, {-1, 100}});
  for (size_t i = 0; i < groups.size(); ++i) mc::run(mc::fmt("srtm3:%zu", i), [&] { srtm(groups[i], 1201); });
  for (size_t i = 0; i < groups.size(); ++i) if (th || groups[i].size() == 1) mc::run(mc::fmt("srtm1:%zu", i), [&] { srtm(groups[i], 3601); });
  // all histories of queries over points of present, absent and damaged cells; a cell file may appear later
  { struct Q { double lat, lon; int cell; }; // cell 0..2 present, 3 absent, 4 damaged
    std::vector<Q> qs{{0.3, 0.7, 0}, {-0.3, 0.7, 1}, {-0.6, -0.2, 2}, {0.3, -0.7, 3}, {1.5, 0.5, 4}, {0.9999999, 0.0000001, 0}};
    int A = qs.size() + 1;   // last operation: the absent cell's file appears / disappears
    for (int len = 1; len <= (th ? 4 : 3); ++len) for (int first = 0; first < A; ++first) mc::run(mc::fmt("order:%d:%d", len, first), [&] {
      std::string base = mc::scratch("idx"), d = base + "data/"; mc::mkdirs(d); writeHgt(d, 0, 0, 1201); writeHgt(d, -1, 0, 1201); writeHgt(d, -1, -1, 1201); mc::writeFile(d + hgtName(1, 0), std::string(1201 * 1201 * 2 - 2, 'x'));
      std::string late = mc::scratch("late"); writeHgt(late, 0, -1, 1201);
      mc::words(A, len - 1, [&](const std::vector<int> &rest) { std::vector<int> w{first}; w.insert(w.end(), rest.begin(), rest.end());
        unlink((d + hgtName(0, -1)).c_str()); bool there = false, loaded = false; SrtmElevationProvider p(base); std::string h;
        for (int o : w) {
          if (o == A - 1) { there = !there; if (there) (void)!link((late + hgtName(0, -1)).c_str(), (d + hgtName(0, -1)).c_str()); else unlink((d + hgtName(0, -1)).c_str()); continue; }
          auto &q = qs[o]; double got = 0; auto quad = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(q.lat, q.lon), 14);
          std::string e = mc::threw([&] { got = p.getElevation(quad, q.lat, q.lon); }); mc::transition();
          bool ok = q.cell < 3 || (q.cell == 3 && (there || loaded)); if (q.cell == 3 && ok) loaded = true;
          if (ok != e.empty()) mc::fail("query %d of history %d%d..: %s", o, first, len, e.empty() ? "absent or damaged file is not reported" : e.c_str());
          if (ok && !same(got, wantSrtm(q.lat, q.lon, 1201))) mc::fail("height at %g %g is %g after other queries, expected %g", q.lat, q.lon, got, wantSrtm(q.lat, q.lon, 1201));
          h += ok ? 'y' : 'n';
        }
        if (!there && mc::exists(d + hgtName(0, -1))) mc::fail("a query created an elevation file"); mc::outcome(h); mc::state(mc::hash(h));
      }); });
  }
  // a tile with missing neighbour cells: only the covering cell is needed
  for (int dy : {-1, 0}) for (int dx : {-1, 0}) mc::run(mc::fmt("alone:%d:%d", dy, dx), [&] {
    std::string base = mc::scratch("idx"); mc::mkdirs(base + "data"); writeHgt(base + "data/", dy, dx, 1201);
    for (int lod : {1, 8, 12, 16}) { SrtmElevationProvider p(base); double lat = dy ? -1e-4 : 1e-4, lon = dx ? -1e-4 : 1e-4; auto q = utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), lod); double got = p.getElevation(q, lat, lon); if (!same(got, wantSrtm(lat, lon, 1201))) mc::fail("height next to the corner is %g", got); mc::transition(); }
    mc::outcome(dy * 2 + dx); });
  // grids
  std::vector<QuadKey> qs; for (int lod : {1, 5, 10, 14, 16, 19}) { int m = (1 << lod) - 1; for (double fy : {0.02, 0.4, 0.6, 0.98}) for (double fx : {0.0, 0.3, 0.55, 1.0}) qs.push_back(QuadKey(lod, int(m * fx), int(m * fy))); qs.push_back(QuadKey(lod, (m + 1) / 2, (m + 1) / 2)); qs.push_back(QuadKey(lod, m / 2, m / 2)); }
  for (auto &q : qs) mc::run("grid:" + show(q), [&] { for (int res : {1, 2, 3, 5, 8, 31, 64, 255}) if (th || res < 100 || q.tileX % 2) grid(q, res, res % 3); if (th) grid(q, 1023, 0); });
  // several tiles, in every order, with missing and damaged files
  for (int first = 0; first < 5; ++first) mc::run(mc::fmt("gorder:%d", first), [&] {
    std::string base = mc::scratch("idx"); QuadKey t[] = {{16, 35205, 21489}, {16, 35206, 21489}, {15, 17602, 10744}, {16, 35205, 21490}, {16, 35207, 21489}};
    for (int i = 0; i < 5; ++i) { std::string d = base + "data/" + std::to_string(t[i].levelOfDetail) + "/"; mc::mkdirs(d); std::string f = d + utils::GeoUtils::quadKeyToString(t[i]) + ".ele"; if (i == 0) mc::writeFile(f, "1 2 3 4"); if (i == 1) mc::writeFile(f, "10 20 30 40"); if (i == 2) mc::writeFile(f, "100 200 300 400"); if (i == 3) mc::writeFile(f, "1000 x 5 6"); }
    mc::words(5, 3, [&](const std::vector<int> &r) { std::vector<int> w{first}; w.insert(w.end(), r.begin(), r.end()); GridElevationProvider p(base);
      for (int i : w) { auto c = at(bboxOf(t[i]), 0.5, 0.5); double got = 0; auto e = mc::threw([&] { got = p.getElevation(t[i], c); }); mc::transition(); bool ok = i < 3; if (ok != e.empty()) mc::fail("tile %d: %s", i, ok ? e.c_str() : "absent or damaged file is not reported"); double want = i == 0 ? 2.5 : i == 1 ? 25 : 250; if (ok && std::fabs(got - want) > 0.01 * want) mc::fail("tile %d has height %g, expected %g", i, got, want); mc::outcome(i); }
    }); });
  for (int n : {0, 1, 2, 3}) mc::run(mc::fmt("gsmall:%d", n), [&] { std::string base = mc::scratch("idx"), d = base + "data/16/"; QuadKey q(16, 35205, 21489); mc::mkdirs(d); std::string s; for (int i = 0; i < n; ++i) s += "5 "; mc::writeFile(d + utils::GeoUtils::quadKeyToString(q) + ".ele", s);
    GridElevationProvider p(base); for (int k = 0; k < 2; ++k) { double got = 0; auto e = mc::threw([&] { got = p.getElevation(q, at(bboxOf(q), 0.5, 0.5)); }); if (e.empty() && got != 5) mc::fail("height %g from %d samples", got, n); mc::outcome(n); } });
  mc::run("flat", [] { FlatElevationProvider p; for (int i = -80; i < 80; ++i) if (p.getElevation(QuadKey(1, 0, 0), i, i) != 0 || p.getElevation(QuadKey(1, 0, 0), GeoCoordinate(i, i)) != 0) mc::fail("flat is not flat"); mc::outcome(1); });
  return mc::finish();
}
