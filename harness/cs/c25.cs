// C25: the managed tile and coordinate arithmetic against the native one, on the same lattice of coordinates, levels and regions
using System;
using System.Collections.Generic;
using System.Linq;
using System.Runtime.InteropServices;
using System.Text;
using UnityEngine;
using UtyMap.Unity;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyMap.Unity.Utils;

public static class C25
{
    [DllImport("geonative")] static extern void geo_qk(double lat, double lon, int lod, out int x, out int y);
    [DllImport("geonative")] static extern void geo_bbox(int x, int y, int lod, [Out] double[] b);
    [DllImport("geonative")] static extern int geo_visit(double a, double b, double c, double d, int lod, [Out] int[] o, int max);
    [DllImport("geonative")] static extern void geo_name(int x, int y, int lod, StringBuilder o);
    [DllImport("geonative")] static extern double geo_distance(double a, double b, double c, double d);
    [DllImport("geonative")] static extern void geo_world(double lat, double lon, double x, double y, [Out] double[] o);
    [DllImport("geonative")] static extern int geo_intersects(double[] p, double[] q);
    [DllImport("geonative")] static extern int geo_contains(double[] p, double lat, double lon);

    static int[] Levels { get { return new[] { 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 15, 16, 17, 18, 19 }; } }

    // is the latitude so close to a border of tiles that rounding may decide?
    static bool NearLatBorder(double lat, int lod, out int above)
    {
        int x, y; geo_qk(lat, 0, lod, out x, out y); var b = new double[4]; above = -1;
        geo_bbox(0, y, lod, b);
        if (b[2] - lat < 1e-12) { above = y - 1; return true; }
        if (lat - b[0] < 1e-12) { above = y; return true; }
        return false;
    }

    static QuadKey SameTile(double lat, double lon, int lod)
    {
        int x, y; geo_qk(lat, lon, lod, out x, out y);
        var q = GeoUtils.CreateQuadKey(new GeoCoordinate(lat, lon), lod); Mc.Transition();
        int above;
        bool ok = q.LevelOfDetail == lod && q.TileX == x && (q.TileY == y || (lat != 0 && NearLatBorder(lat, lod, out above) && (q.TileY == above || q.TileY == above + 1)));
        Mc.Check(ok, "({0:R}, {1:R}) at level {2} is in tile {3}:{4} here and in {5}:{6} in native code", lat, lon, lod, q.TileX, q.TileY, x, y);
        return q;
    }

    static readonly double[] Lats = { -90, -85.0511288, -85.05112878, -85.05112877, -85.0511, -85, -80.5, -66.51326044311186, -60, -45, -40.97989806962013, -33.9, -21.943045533438177, -11.178401873711785, -1e-6, -1e-13, 0,
        1e-13, 1e-6, 0.3, 5.61598581915534, 21.943045533438177, 33.3, 45, 52.5317429, 55.7766, 66.51326044311186, 71.2, 80, 84.9, 85.05112, 85.05112877, 85.0511287799, 85.06, 90 };
    static readonly double[] Lons = { -180, -179.9999999, -179.99999995, -179.5, -135, -122.4, -90.00000001, -90, -45, -11.25, -1e-9, 0, 1e-9, 0.005, 11.25, 13.3871987, 45, 89.9999999, 90, 121, 135.0000001, 179, 179.9999999, 179.99999995, 180 };

    static void Coordinates()
    {
        foreach (int level in Levels) for (int i = 0; i < Lats.Length; ++i)
        {
            int lod = level; double lat = Lats[i];
            Mc.Run(Mc.F("point:{0}:{1:R}", lod, lat), () => { foreach (var lon in Lons) { var q = SameTile(lat, lon, lod); Mc.Outcome(q.ToString()); } });
        }
        // whole lattice of every level up to 6 (thorough 8): centres, corners and points next to them of all tiles
        for (int l = 1; l <= (Mc.Thorough ? 9 : 7); ++l) for (int row = 0; row < 1 << l; ++row)
        {
            int lod = l, y = row;
            Mc.Run(Mc.F("row:{0}:{1}", lod, y), () => { for (int x = 0; x < 1 << lod; ++x) Tile(x, y, lod, x % 8 == 0); });
        }
        // deep levels: tiles around the borders of their ancestors
        foreach (int level in Levels.Where(x => x > 8)) for (int k = 0; k <= 16; ++k)
        {
            int lod = level, part = k;
            Mc.Run(Mc.F("deep:{0}:{1}", lod, part), () =>
            {
                int n = 1 << lod, y0 = (int)Math.Min(n - 1L, (long)n * part / 16);
                for (int d = -2; d <= 2; ++d) for (int kx = 0; kx <= 16; ++kx) for (int dx = -1; dx <= 1; ++dx)
                {
                    int y = y0 + d, x = (int)Math.Min(n - 1L, (long)n * kx / 16) + dx;
                    if (x >= 0 && y >= 0 && x < n && y < n) Tile(x, y, lod, kx == 3);
                }
            });
        }
    }

    static void Tile(int x, int y, int lod, bool outcome)
    {
        var q = new QuadKey(x, y, lod); Mc.State((ulong)lod << 48 | (ulong)x << 24 | (ulong)y);
        // names
        var name = new StringBuilder(64); geo_name(x, y, lod, name);
        Mc.Check(q.ToString() == name.ToString(), "name of {0}:{1}:{2} is {3} here and {4} in native code", x, y, lod, q.ToString(), name.ToString());
        var back = QuadKey.FromString(name.ToString());
        Mc.Check(back.Equals(q) && back.Equals((object)q) && back.GetHashCode() == q.GetHashCode(), "{0} is read back as {1}:{2}:{3}", name, back.TileX, back.TileY, back.LevelOfDetail);
        Mc.Check(!q.Equals(new QuadKey(x + 1, y, lod)) && !q.Equals(new QuadKey(x, y + 1, lod)) && !q.Equals(new QuadKey(x, y, lod + 1)) && !q.Equals("x"), "equality of tile {0}", q);
        // box
        var b = new double[4]; geo_bbox(x, y, lod, b); var m = GeoUtils.QuadKeyToBoundingBox(q); Mc.Transition(3);
        var mine = new[] { m.MinPoint.Latitude, m.MinPoint.Longitude, m.MaxPoint.Latitude, m.MaxPoint.Longitude };
        for (int i = 0; i < 4; ++i) Mc.Check(Math.Abs(mine[i] - b[i]) < 1e-12 * 180, "border {0} of tile {1} is {2:R} here and {3:R} in native code", i, q, mine[i], b[i]);
        Mc.Check(m.MinPoint.Latitude < m.MaxPoint.Latitude && m.MinPoint.Longitude < m.MaxPoint.Longitude, "box of tile {0} is not valid", q);
        // points of the tile
        var c = m.Center();
        Mc.Check(SameTile(c.Latitude, c.Longitude, lod).Equals(q), "centre of tile {0} is in another tile", q);
        Mc.Check(m.Contains(c), "box of tile {0} does not contain its centre", q);
        foreach (double lat in new[] { b[0], b[2], b[0] + 1e-9, b[2] - 1e-9 }) foreach (double lon in new[] { b[1], b[3], b[1] + 1e-9, b[3] - 1e-9 })
        {
            if (lon >= 180 && lat <= -90) continue;
            SameTile(lat, lon, lod);
            Mc.Check(m.Contains(new GeoCoordinate(lat, lon)) == (lat > mine[0] && lat < mine[2] && lon > mine[1] && lon < mine[3]), "({0:R}, {1:R}) in box of {2}", lat, lon, q);
        }
        if (outcome) Mc.Outcome(q.ToString());
    }

    // regions of w x h tiles anywhere on the map, with every position of the corners inside of or on the border of the tiles
    static void Regions()
    {
        int max = Mc.Thorough ? 7 : 5;
        foreach (int level in new[] { 1, 2, 3, 4, 10, 16, 19 })
        {
            int lod = level, n = 1 << lod;
            var starts = new List<int>();
            if (n <= 8) starts.AddRange(Enumerable.Range(0, n)); else starts.AddRange(new[] { 0, 1, n / 4 - 1, n / 2 - 2, n / 2 - 1, n / 2, n - 4, n - 2, n - 1 });
            foreach (int sx in starts) foreach (int sy in starts)
            {
                int x = sx, y = sy;
                for (int ww = 1; ww <= max; ++ww)
                {
                    int w = ww;
                    Mc.Run(Mc.F("region:{0}:{1}:{2}:{3}", lod, x, y, w), () =>
                    {
                        for (int h = 1; h <= max; ++h) for (int place = 0; place < 16; ++place)
                        {
                            int x1 = Math.Min(n - 1, x + w - 1), y1 = Math.Min(n - 1, y + h - 1);
                            var nw = GeoUtils.QuadKeyToBoundingBox(new QuadKey(x, y, lod)); var se = GeoUtils.QuadKeyToBoundingBox(new QuadKey(x1, y1, lod));
                            double dx = (nw.MaxPoint.Longitude - nw.MinPoint.Longitude), dy0 = nw.MaxPoint.Latitude - nw.MinPoint.Latitude, dy1 = se.MaxPoint.Latitude - se.MinPoint.Latitude;
                            double[] fr = { 0.25, 0.75 };
                            double minLon = nw.MinPoint.Longitude + dx * fr[place & 1], maxLon = se.MinPoint.Longitude + dx * (x1 == x ? 0.9 : fr[place >> 1 & 1]);
                            double maxLat = nw.MaxPoint.Latitude - dy0 * (y1 == y ? 0.1 : fr[place >> 2 & 1]), minLat = se.MaxPoint.Latitude - dy1 * fr[place >> 3 & 1];
                            Same(minLat, minLon, maxLat, maxLon, lod, false);
                        }
                    });
                }
            }
        }
        // corners on the lattice of all tile borders of a level, and on other special coordinates
        for (int l = 1; l <= 4; ++l)
        {
            int lod = l, n = 1 << lod; int step = lod == 4 ? 3 : 1;
            for (int a = 0; a < n; a += step) for (int c = a + 1; c <= n; c += step)
            {
                int x0 = a, x1 = c;
                Mc.Run(Mc.F("border:{0}:{1}:{2}", lod, x0, x1), () =>
                {
                    for (int y0 = 0; y0 < n; y0 += step) for (int y1 = y0 + 1; y1 <= n; y1 += step)
                    {
                        var nw = GeoUtils.QuadKeyToBoundingBox(new QuadKey(x0, y0, lod)); var se = GeoUtils.QuadKeyToBoundingBox(new QuadKey(x1 - 1, y1 - 1, lod));
                        Same(se.MinPoint.Latitude, nw.MinPoint.Longitude, nw.MaxPoint.Latitude, se.MaxPoint.Longitude, lod, true);
                    }
                });
            }
        }
    }

    // managed set of tiles against the native one; regions which end at a border of tiles may or may not include the tiles
    // which they only touch there (rounding of the border decides), but never miss or add others
    static void Same(double minLat, double minLon, double maxLat, double maxLon, int lod, bool touching)
    {
        var got = GeoUtils.BoundingBoxToQuadKeys(new BoundingBox(new GeoCoordinate(minLat, minLon), new GeoCoordinate(maxLat, maxLon)), lod).ToList(); Mc.Transition();
        var o = new int[2 * 4096]; int cnt = geo_visit(minLat, minLon, maxLat, maxLon, lod, o, 4096);
        var want = new HashSet<QuadKey>(); for (int i = 0; i < cnt; ++i) want.Add(new QuadKey(o[2 * i], o[2 * i + 1], lod));
        string where = Mc.F("tiles of ({0:R}, {1:R}, {2:R}, {3:R}) at level {4}", minLat, minLon, maxLat, maxLon, lod);
        Mc.Check(got.Distinct().Count() == got.Count, "{0} have duplicates", where);
        var set = new HashSet<QuadKey>(got);
        Func<QuadKey, bool> onlyTouched = q =>
        {
            var b = GeoUtils.QuadKeyToBoundingBox(q);
            return Math.Min(b.MaxPoint.Latitude, maxLat) - Math.Max(b.MinPoint.Latitude, minLat) < 1e-11 || Math.Min(b.MaxPoint.Longitude, maxLon) - Math.Max(b.MinPoint.Longitude, minLon) < 1e-11;
        };
        foreach (var q in want) if (!set.Contains(q) && !(touching && onlyTouched(q))) Mc.Check(false, "{0}: {1}:{2} is missing, native code visits {3} tiles, managed code {4}", where, q.TileX, q.TileY, want.Count, got.Count);
        foreach (var q in set)
        {
            if (want.Contains(q)) continue;
            var b = GeoUtils.QuadKeyToBoundingBox(q); bool touched = q.TileX >= 0 && q.TileY >= 0 && q.TileX < 1 << lod && q.TileY < 1 << lod && Math.Min(b.MaxPoint.Latitude, maxLat) - Math.Max(b.MinPoint.Latitude, minLat) > -1e-11 && Math.Min(b.MaxPoint.Longitude, maxLon) - Math.Max(b.MinPoint.Longitude, minLon) > -1e-11;
            Mc.Check(touching && touched, "{0}: {1}:{2} is not touched by the region, native code visits {3} tiles, managed code {4}", where, q.TileX, q.TileY, want.Count, got.Count);
        }
        Mc.State(Mc.Hash(where)); Mc.Outcome((ulong)got.Count);
    }

    static void Projections()
    {
        double[] zeroLat = { -84, -60.25, -33.9, -1e-3, 0, 11, 52.5317429, 80 }, zeroLon = { -180, -179.9, -58.4, 0, 13.3871987, 151.2, 180 };
        double[] off = { 0, 1e-7, -1e-7, 1e-5, -3e-5, 0.001, -0.0012345, 0.05, -0.3, 1, -2.5 };
        foreach (var zla in zeroLat) foreach (var zlo in zeroLon)
        {
            double la = zla, lo = zlo;
            Mc.Run(Mc.F("proj:{0:R}:{1:R}", la, lo), () =>
            {
                var zero = new GeoCoordinate(la, lo); var flat = new CartesianProjection(zero);
                double mLat = 40008000 / 360.0, mLon = 40075160 * Math.Cos(la * Math.PI / 180) / 360;   // metres per degree at the null point
                foreach (var dla in off) foreach (var dlo in off)
                {
                    var g = new GeoCoordinate(la + dla, lo + dlo); Mc.Transition(6);
                    double x = (g.Longitude - lo) * mLon, y = (g.Latitude - la) * mLat;
                    double tx = Math.Abs(x) * 1.3e-7 + 1.1e-5, ty = Math.Abs(y) * 1.3e-7 + 1.1e-5;
                    var v = GeoUtils.ToMapCoordinate(zero, g);
                    Mc.Check(Math.Abs(v.x - x) <= tx && Math.Abs(v.y - y) <= ty, "{0} relative to {1} is ({2:R}, {3:R}), expected ({4:R}, {5:R})", g, zero, v.x, v.y, x, y);
                    foreach (var h in new[] { 0, 12.5, -3.25 })
                    {
                        var p = flat.Project(g, h);
                        Mc.Check(Math.Abs(p.x - x) <= tx && Math.Abs(p.z - y) <= ty && p.y == (float)h, "projection of {0} at {1}", g, h);
                        var back = flat.Project(p);
                        Mc.Check(Math.Abs(back.Latitude - g.Latitude) * mLat <= 2 * ty + 1e-8 && Math.Abs(back.Longitude - g.Longitude) * mLon <= 2 * tx + 1e-8, "{0} comes back as {1} from the flat projection of {2}", g, back, zero);
                        foreach (var s in new[] { 0.01f, 1f, 3f, 1000f })
                        {
                            var sp = new ScaledProjection(flat, s); var w = sp.Project(g, h);
                            Mc.Check(Math.Abs(w.x - p.x * s) <= Math.Abs(p.x * s) * 1e-6 && Math.Abs(w.z - p.z * s) <= Math.Abs(p.z * s) * 1e-6 && Math.Abs(w.y - p.y * s) <= Math.Abs(p.y * s) * 1e-6, "scale {0} of {1}", s, g);
                            var sb = sp.Project(w);
                            Mc.Check(Math.Abs(sb.Latitude - g.Latitude) * mLat <= 5 * ty + 1e-8 && Math.Abs(sb.Longitude - g.Longitude) * mLon <= 5 * tx + 1e-8, "{0} comes back as {1} from the scaled projection", g, sb);
                        }
                    }
                    // native code converts map coordinates back in the same way
                    var n = new double[2]; geo_world(la, lo, v.x, v.y, n); var mg = GeoUtils.ToGeoCoordinate(zero, v); var mg2 = GeoUtils.ToGeoCoordinate(zero, (double)v.x, (double)v.y);
                    Mc.Check(Math.Abs(mg.Latitude - n[0]) < 1e-12 * 180 && Math.Abs(mg.Longitude - n[1]) < 1e-12 * 180 && mg.Equals(mg2), "map point ({0:R}, {1:R}) is {2} here and ({3:R}, {4:R}) in native code", v.x, v.y, mg, n[0], n[1]);
                    double d = GeoUtils.Distance(zero, g), dn = geo_distance(la, lo, g.Latitude, g.Longitude);
                    Mc.Check(Math.Abs(d - dn) <= 1e-9 * (1 + dn) + 1e-3 * (dn < 1 ? 1 : 0), "distance between {0} and {1} is {2:R} here and {3:R} in native code", zero, g, d, dn);
                    Mc.Outcome((ulong)(v.x * 1000) ^ (ulong)(v.y * 1000));
                }
                // tiles as rectangles
                foreach (int lod in new[] { 10, 14, 16, 19 })
                {
                    if (lo == 180) continue;
                    var q = GeoUtils.CreateQuadKey(zero, lod); var b = GeoUtils.QuadKeyToBoundingBox(q); var r = GeoUtils.QuadKeyToRect(flat, q);
                    double l = (b.MinPoint.Longitude - lo) * mLon, t = (b.MaxPoint.Latitude - la) * mLat, ri = (b.MaxPoint.Longitude - lo) * mLon, bo = (b.MinPoint.Latitude - la) * mLat;
                    double tol = (Math.Abs(l) + Math.Abs(t) + Math.Abs(ri) + Math.Abs(bo)) * 3e-7 + 4e-5;
                    Mc.Check(Math.Abs(r.Left - l) < tol && Math.Abs(r.Right - ri) < tol && Math.Abs(r.Top - t) < tol && Math.Abs(r.Bottom - bo) < tol, "rectangle of tile {0}: {1}", q, r);
                    Mc.Check(Math.Abs(r.Width - (ri - l)) < tol && Math.Abs(r.Height - (t - bo)) < tol && Math.Abs(r.Center.x - (l + ri) / 2) < tol && Math.Abs(r.Center.y - (t + bo) / 2) < tol, "size of the rectangle of tile {0}", q);
                    Mc.Check(r.TopLeft.x == r.Left && r.TopLeft.y == r.Top && r.TopRight.x == r.Right && r.TopRight.y == r.Top && r.BottomLeft.x == r.Left && r.BottomLeft.y == r.Bottom && r.BottomRight.x == r.Right && r.BottomRight.y == r.Bottom, "corners of the rectangle of tile {0}", q);
                    var bb = GeoUtils.RectToBoundingBox(flat, r);
                    Mc.Check(Math.Abs(bb.MinPoint.Latitude - b.MinPoint.Latitude) * mLat < 2 * tol && Math.Abs(bb.MaxPoint.Latitude - b.MaxPoint.Latitude) * mLat < 2 * tol &&
                        Math.Abs(bb.MinPoint.Longitude - b.MinPoint.Longitude) * mLon < 2 * tol && Math.Abs(bb.MaxPoint.Longitude - b.MaxPoint.Longitude) * mLon < 2 * tol, "tile {0} comes back from its rectangle as {1}, expected {2}", q, bb, b);
                }
                // sphere
                foreach (var rad in new[] { 1f, 6371f }) foreach (var h in new[] { 0, 0.5 })
                {
                    var p = new SphericalProjection(rad).Project(zero, h); double len = Math.Sqrt((double)p.x * p.x + (double)p.y * p.y + (double)p.z * p.z);
                    Mc.Check(Math.Abs(len - rad - h) < rad * 1e-5 && Math.Abs(Math.Asin(p.y / len) * 180 / Math.PI - la) < 1e-3, "{0} on a sphere", zero);
                    double lon = Math.Atan2(p.z, p.x) * 180 / Math.PI; Mc.Check(Math.Abs(Math.IEEERemainder(lon - lo, 360)) < 1e-3, "longitude of {0} on a sphere is {1}", zero, lon);
                }
            });
        }
    }

    static void Boxes()
    {
        double[] g = { -170, -0.5, 0, 20, 170 };
        for (int a = 0; a < 5; ++a) for (int b = a; b < 5; ++b) for (int c = 0; c < 5; ++c) for (int d = c; d < 5; ++d)
        {
            int i0 = a, i1 = b, j0 = c, j1 = d;
            Mc.Run(Mc.F("box:{0}{1}{2}{3}", i0, i1, j0, j1), () =>
            {
                Func<int, int, int, int, BoundingBox> mk = (p, q, r, s) => new BoundingBox(new GeoCoordinate(g[p] / 2, g[r]), new GeoCoordinate(g[q] / 2, g[s]));
                var x = mk(i0, i1, j0, j1); var xn = new[] { g[i0] / 2, g[j0], g[i1] / 2, g[j1] };
                for (int p = 0; p < 5; ++p) for (int q = 0; q < 5; ++q)
                {
                    var pt = new GeoCoordinate(g[p] / 2, g[q]); Mc.Transition();
                    Mc.Check(x.Contains(pt) == (geo_contains(xn, g[p] / 2, g[q]) != 0), "{0} contains {1}: {2} here, not so in native code", x, pt, x.Contains(pt));
                    // extending makes the smallest box with both
                    var e = mk(i0, i1, j0, j1); e.Extend(pt); var e2 = mk(i0, i1, j0, j1) + pt;
                    var m = mk(Math.Min(i0, p), Math.Max(i1, p), Math.Min(j0, q), Math.Max(j1, q));
                    Mc.Check(e.MinPoint == m.MinPoint && e.MaxPoint == m.MaxPoint && e2.MinPoint == m.MinPoint && e2.MaxPoint == m.MaxPoint, "{0} extended by {1}", x, pt);
                    for (int r = p; r < 5; ++r) for (int s = q; s < 5; ++s)
                    {
                        var y = mk(p, r, q, s); var yn = new[] { g[p] / 2, g[q], g[r] / 2, g[s] };
                        Mc.Check(x.Intersects(y) == (geo_intersects(xn, yn) != 0) && y.Intersects(x) == x.Intersects(y), "{0} intersects {1}: {2} here, not so in native code", x, y, x.Intersects(y));
                        var u = mk(i0, i1, j0, j1) + y; var w = mk(Math.Min(i0, p), Math.Max(i1, r), Math.Min(j0, q), Math.Max(j1, s));
                        Mc.Check(u.MinPoint == w.MinPoint && u.MaxPoint == w.MaxPoint, "{0} + {1} is {2}", x, y, u);
                    }
                }
                var n = new BoundingBox(); n.Extend(x.MinPoint); n.Extend(x.MaxPoint); var z = BoundingBox.Empty() + x;
                Mc.Check(n.MinPoint == x.MinPoint && n.MaxPoint == x.MaxPoint && z.MinPoint == x.MinPoint && z.MaxPoint == x.MaxPoint, "box made of {0} and {1}", x.MinPoint, x.MaxPoint);
                Mc.Check(x.Center() == new GeoCoordinate((g[i0] + g[i1]) / 4, (g[j0] + g[j1]) / 2), "centre of {0}", x);
                Mc.Outcome(x.ToString());
            });
        }
        double[] v = { 0, -0.0, 1e-300, 52.1, 52.1 + 1e-14, -52.1, double.Epsilon };
        for (int a = 0; a < v.Length; ++a) for (int b = 0; b < v.Length; ++b)
        {
            int i = a, j = b;
            Mc.Run(Mc.F("equal:{0}:{1}", i, j), () =>
            {
                foreach (var o in v) foreach (bool swap in new[] { false, true })
                {
                    var p = swap ? new GeoCoordinate(o, v[i]) : new GeoCoordinate(v[i], o); var q = swap ? new GeoCoordinate(o, v[j]) : new GeoCoordinate(v[j], o);
                    bool same = v[i] == v[j];
                    Mc.Check((p == q) == same && (p != q) == !same && p.Equals(q) == same && !p.Equals("x"), "equality of {0:R},{1:R} and {2:R},{3:R}", p.Latitude, p.Longitude, q.Latitude, q.Longitude);
                    Mc.Check(!same || p.GetHashCode() == q.GetHashCode(), "equal coordinates {0:R},{1:R} and {2:R},{3:R} have different hash codes", p.Latitude, p.Longitude, q.Latitude, q.Longitude);
                }
                Mc.Outcome((ulong)(i * 10 + j));
            });
        }
        foreach (var la in new[] { -60.0, 0, 52.5 }) foreach (var size in new[] { 10.0, 500, 20000 })
        {
            double lat = la, s = size;
            Mc.Run(Mc.F("around:{0}:{1}", lat, s), () =>
            {
                var c = new GeoCoordinate(lat, 13); var b = BoundingBox.Create(c, (float)s); var m = b.Center();
                Mc.Check(Math.Abs(m.Latitude - lat) < 1e-9 && Math.Abs(m.Longitude - 13) < 1e-9, "centre of the box around {0} is {1}", c, m);
                double h = GeoUtils.Distance(new GeoCoordinate(b.MinPoint.Latitude, 13), new GeoCoordinate(b.MaxPoint.Latitude, 13)), w = GeoUtils.Distance(new GeoCoordinate(lat, b.MinPoint.Longitude), new GeoCoordinate(lat, b.MaxPoint.Longitude));
                Mc.Check(Math.Abs(h / s - 1) < 0.01 && Math.Abs(w / s - 1) < 0.01, "box of {0} m around {1} is {2} x {3}", s, c, w, h);
                var r = BoundingBox.Create(c, s, 3 * s);
                double h2 = GeoUtils.Distance(new GeoCoordinate(r.MinPoint.Latitude, 13), new GeoCoordinate(r.MaxPoint.Latitude, 13)), w2 = GeoUtils.Distance(new GeoCoordinate(lat, r.MinPoint.Longitude), new GeoCoordinate(lat, r.MaxPoint.Longitude));
                Mc.Check(Math.Abs(w2 / s - 1) < 0.01 && Math.Abs(h2 / s / 3 - 1) < 0.01, "box {0} m wide and {1} m high around {2} is {3} x {4}", s, 3 * s, c, w2, h2);
                Mc.Outcome((ulong)s);
            });
        }
        foreach (var t in new[] { "", "0", "3", "4", "01a", "120 ", "-", "012301230123012301", "333333333333333333333", "+1" })
        {
            var s = t;
            Mc.Run("name:" + s, () =>
            {
                bool threw = false, valid = s.All(ch => ch >= '0' && ch <= '3');
                try { var q = QuadKey.FromString(s); Mc.Check(q.ToString() == s, "{0} is read as {1}", s, q); } catch (ArgumentException) { threw = true; }
                Mc.Check(threw == !valid, "name '{0}' is {1}", s, threw ? "rejected" : "accepted");
                Mc.Outcome(s);
            });
        }
    }

    public static int Main(string[] args) { Mc.Init(args); Coordinates(); Regions(); Projections(); Boxes(); return Mc.Finish(); }
}
