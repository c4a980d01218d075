// the native side of C25: tile arithmetic of core/src/utils/GeoUtils.hpp behind a C interface
#include "utils/GeoUtils.hpp"
#include <cstring>
using namespace utymap; using namespace utymap::utils;
extern "C" {
void geo_qk(double lat, double lon, int lod, int *x, int *y) { auto q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), lod); *x = q.tileX; *y = q.tileY; }
void geo_bbox(int x, int y, int lod, double *b) { auto r = GeoUtils::quadKeyToBoundingBox(QuadKey(lod, x, y)); b[0] = r.minPoint.latitude; b[1] = r.minPoint.longitude; b[2] = r.maxPoint.latitude; b[3] = r.maxPoint.longitude; }
int geo_visit(double a, double b, double c, double d, int lod, int *out, int max) {
  int n = 0;
  GeoUtils::visitTileRange(BoundingBox(GeoCoordinate(a, b), GeoCoordinate(c, d)), lod, [&](const QuadKey &q, const BoundingBox &) { if (n < max) { out[2 * n] = q.tileX; out[2 * n + 1] = q.tileY; } ++n; });
  return n;
}
void geo_name(int x, int y, int lod, char *out) { strcpy(out, GeoUtils::quadKeyToString(QuadKey(lod, x, y)).c_str()); }
double geo_distance(double a, double b, double c, double d) { return GeoUtils::distance(GeoCoordinate(a, b), GeoCoordinate(c, d)); }
void geo_world(double lat, double lon, double x, double y, double *out) { auto g = GeoUtils::worldToGeo(GeoCoordinate(lat, lon), x, y); out[0] = g.latitude; out[1] = g.longitude; }
int geo_intersects(const double *p, const double *q) { return BoundingBox(GeoCoordinate(p[0], p[1]), GeoCoordinate(p[2], p[3])).intersects(BoundingBox(GeoCoordinate(q[0], q[1]), GeoCoordinate(q[2], q[3]))); }
int geo_contains(const double *p, double lat, double lon) { return BoundingBox(GeoCoordinate(p[0], p[1]), GeoCoordinate(p[2], p[3])).contains(GeoCoordinate(lat, lon)); }
}
