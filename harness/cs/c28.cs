// C28: download of map and height data: what is asked for covers the tile, files are stored where they are looked for,
// every request is answered once whatever the order of downloads is, and failed downloads leave nothing behind
using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.IO.Compression;
using System.Linq;
using System.Net;
using System.Runtime.InteropServices;
using System.Text;
using UtyDepend.Config;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Data.Providers;
using UtyMap.Unity.Infrastructure.Config;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.IO.Compression;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyMap.Unity.Utils;
using UtyRx;
using CancellationToken = UtyMap.Unity.CancellationToken;
using TilePath = UtyRx.Tuple<UtyMap.Unity.Tile, string>;

public static class C28
{
    // stands for the thread pool and for the clock
    class Pool : IScheduler, ISchedulerQueueing
    {
        public static readonly List<Action> Pending = new List<Action>(), Timers = new List<Action>();
        public static void Install()
        {
            typeof(Scheduler).GetField("ThreadPool").SetValue(null, new Pool());
            Scheduler.MainThread = new Clock(); if (!(Scheduler.ThreadPool is Pool)) throw new InvalidOperationException("thread pool cannot be replaced");
        }
        public static void Clear() { Pending.Clear(); Timers.Clear(); }
        public static void Run(int i) { var a = Pending[i]; Pending.RemoveAt(i); a(); }
        public static void Tick() { var t = Timers.ToArray(); Timers.Clear(); foreach (var a in t) a(); }
        public DateTimeOffset Now { get { return DateTimeOffset.UtcNow; } }
        public IDisposable Schedule(Action a) { Pending.Add(a); return Disposable.Empty; }
        public IDisposable Schedule(TimeSpan t, Action a) { Timers.Add(a); return Disposable.Empty; }
        public void ScheduleQueueing<T>(ICancelable c, T state, Action<T> a) { Pending.Add(() => { if (!c.IsDisposed) a(state); }); }
    }

    class Clock : IScheduler
    {
        public DateTimeOffset Now { get { return DateTimeOffset.UtcNow; } }
        public IDisposable Schedule(Action a) { Pool.Timers.Add(a); return Disposable.Empty; }
        public IDisposable Schedule(TimeSpan t, Action a) { Pool.Timers.Add(a); return Disposable.Empty; }
    }

    class Silent : DefaultTrace { public Silent() : base(TraceLevel.Error) { } protected override void OnWriteRecord(TraceLevel type, string category, string message, Exception exception) { } }
    class Paths : IPathResolver { public string Root = ""; public string Resolve(string p) { return Path.Combine(Root, p); } }

    class Library : IMapDataLibrary
    {
        public readonly HashSet<QuadKey> Stored = new HashSet<QuadKey>();
        public void Configure(string p) { } public void EnableCache() { } public void DisableCache() { } public void Dispose() { }
        public bool Exists(QuadKey q) { return Stored.Contains(q); }
        public UtyRx.IObservable<int> Get(Tile t, IList<UtyRx.IObserver<MapData>> o) { return Observable.Return(100); }
        public UtyRx.IObservable<int> Get(MapQuery q, IList<UtyRx.IObserver<Element>> o) { return Observable.Return(100); }
        public void Register(string k) { } public void Register(string k, string p) { }
        public UtyRx.IObservable<int> AddTo(string k, string p, Stylesheet s, Range<int> l, CancellationToken c) { return Observable.Return(100); }
        public UtyRx.IObservable<int> AddTo(string k, string p, Stylesheet s, QuadKey q, CancellationToken c) { return Observable.Return(100); }
        public UtyRx.IObservable<int> AddTo(string k, Element e, Stylesheet s, Range<int> l, CancellationToken c) { return Observable.Return(100); }
        public double GetElevation(ElevationDataType t, QuadKey q, GeoCoordinate c) { return 0; }
    }

    // file is there as soon as it is opened for writing, its content is what is written until it is closed
    class Files : IFileSystemService
    {
        public readonly Dictionary<string, byte[]> Data = new Dictionary<string, byte[]>(); public readonly Dictionary<string, int> Writes = new Dictionary<string, int>();
        class Out : MemoryStream { public Files F; public string P; protected override void Dispose(bool d) { F.Data[P] = ToArray(); base.Dispose(d); } }
        public Stream WriteStream(string p) { int n; Writes.TryGetValue(p, out n); Writes[p] = n + 1; Data[p] = new byte[0]; return new Out { F = this, P = p }; }
        public Stream ReadStream(string p) { return new MemoryStream(Data[p]); }
        public string ReadText(string p) { return Encoding.UTF8.GetString(Data[p]); }
        public byte[] ReadBytes(string p) { return Data[p]; }
        public bool Exists(string p) { return Data.ContainsKey(p); }
        public string[] GetFiles(string p, string s) { return new string[0]; } public string[] GetDirectories(string p, string s) { return new string[0]; }
        public void CreateDirectory(string p) { }
    }

    class Download : UtyRx.IObservable<byte[]>
    {
        public string Url; public readonly List<UtyRx.IObserver<byte[]>> O = new List<UtyRx.IObserver<byte[]>>();
        public IDisposable Subscribe(UtyRx.IObserver<byte[]> o) { O.Add(o); return Disposable.Empty; }
    }
    class Network : INetworkService
    {
        public readonly List<Download> Pending = new List<Download>(); public readonly List<string> All = new List<string>();
        public UtyRx.IObservable<string> Get(string url, Dictionary<string, string> h) { throw new InvalidOperationException("text is not expected"); }
        public UtyRx.IObservable<byte[]> GetAndGetBytes(string url, Dictionary<string, string> h) { Mc.Check(url != null, "address of the data is null"); All.Add(url); var d = new Download { Url = url }; Pending.Add(d); return d; }
    }

    // ------------------------------------------------------------------ the servers
    const string Osm = "osm?data=", Query = "bbox({0},{1},{2},{3})", Map = "map/{0}/{1}/{2}/{3}.json?api_key={4}", Ele = "ele?json={0}&api_key={1}", Srtm = "srtm";
    static string N(double d) { return d.ToString("R", CultureInfo.InvariantCulture); }

    static List<GeoCoordinate> Polyline(string s)
    {
        var r = new List<GeoCoordinate>(); int i = 0; long[] v = new long[2];
        while (i < s.Length) { for (int k = 0; k < 2; ++k) { long n = 0; int sh = 0, c; do { c = s[i++] - 63; n |= (long)(c & 31) << sh; sh += 5; } while (c >= 32); v[k] += (n & 1) != 0 ? ~(n >> 1) : n >> 1; } r.Add(new GeoCoordinate(v[0] / 1e6, v[1] / 1e6)); }
        return r;
    }
    static List<GeoCoordinate> Points(string url)
    {
        const string a = "ele?json={\"range\":false,\"encoded_polyline\":\"", b = "\"}&api_key=key"; var u = Uri.UnescapeDataString(url);
        Mc.Check(u.StartsWith(a) && u.EndsWith(b), "heights are asked for by {0}", url); return Polyline(u.Substring(a.Length, u.Length - a.Length - b.Length));
    }
    // slope differs by direction, so that transposed or flipped grids are seen
    static double Height(QuadKey q, double lat, double lon)
    {
        var b = GeoUtils.QuadKeyToBoundingBox(q); double u = (lat - b.MinPoint.Latitude) / (b.MaxPoint.Latitude - b.MinPoint.Latitude), v = (lon - b.MinPoint.Longitude) / (b.MaxPoint.Longitude - b.MinPoint.Longitude);
        return 3000 * u + 700 * v * v - 200;
    }
    static int CellBase(string cell) { return (int)(Mc.Hash(cell) % 3000) - 500; }
    static byte[] Hgt(string cell)
    {
        var d = new byte[1201 * 1201 * 2]; int b = CellBase(cell);
        for (int r = 0, i = 0; r < 1201; ++r) for (int c = 0; c < 1201; ++c) { int h = b + 2 * (1200 - r) + c; d[i++] = (byte)(h >> 8); d[i++] = (byte)h; }
        return d;
    }

    static uint[] crcTable;
    static uint Crc(byte[] d) { if (crcTable == null) { crcTable = new uint[256]; for (uint n = 0; n < 256; ++n) { uint c = n; for (int k = 0; k < 8; ++k) c = (c & 1) != 0 ? 0xedb88320 ^ c >> 1 : c >> 1; crcTable[n] = c; } } uint r = 0xffffffff; foreach (var x in d) r = crcTable[(r ^ x) & 255] ^ r >> 8; return ~r; }
    static byte[] Deflate(byte[] d) { if (d.Length == 0) return new byte[] { 3, 0 }; var m = new MemoryStream(); using (var s = new DeflateStream(m, CompressionMode.Compress, true)) s.Write(d, 0, d.Length); return m.ToArray(); }
    // method: 0 stored, 8 deflated, 9 deflated with stored blocks of the given size only
    static byte[] Zip(List<KeyValuePair<string, byte[]>> files, int[] methods, string comment)
    {
        var m = new MemoryStream(); var w = new BinaryWriter(m); var dir = new MemoryStream(); var dw = new BinaryWriter(dir); int i = 0;
        foreach (var f in files)
        {
            int method = methods[i++ % methods.Length]; var name = Encoding.UTF8.GetBytes(f.Key); var packed = method == 0 ? f.Value : method == 8 ? Deflate(f.Value) : StoredBlocks(f.Value, 5); uint crc = Crc(f.Value); int pos = (int)m.Position; if (method == 9) method = 8;
            Action<BinaryWriter> common = x => { x.Write((ushort)20); x.Write((ushort)0); x.Write((ushort)method); x.Write((ushort)0x6000); x.Write((ushort)0x3a21); x.Write(crc); x.Write(packed.Length); x.Write(f.Value.Length); x.Write((ushort)name.Length); x.Write((ushort)0); };
            w.Write(0x04034b50); common(w); w.Write(name); w.Write(packed);
            dw.Write(0x02014b50); dw.Write((ushort)20); common(dw); dw.Write((ushort)0); dw.Write((ushort)0); dw.Write((ushort)0); dw.Write(0); dw.Write(pos); dw.Write(name);
        }
        int at = (int)m.Position; w.Write(dir.ToArray()); var c = Encoding.ASCII.GetBytes(comment);
        w.Write(0x06054b50); w.Write((ushort)0); w.Write((ushort)0); w.Write((ushort)files.Count); w.Write((ushort)files.Count); w.Write((int)dir.Length); w.Write(at); w.Write((ushort)c.Length); w.Write(c);
        return m.ToArray();
    }
    static byte[] StoredBlocks(byte[] d, int size)
    {
        var m = new MemoryStream(); int i = 0; do { int n = Math.Min(size, d.Length - i); m.WriteByte((byte)(i + n >= d.Length ? 1 : 0)); m.WriteByte((byte)n); m.WriteByte((byte)(n >> 8)); m.WriteByte((byte)~n); m.WriteByte((byte)(~n >> 8)); m.Write(d, i, n); i += n; } while (i < d.Length); return m.ToArray();
    }

    static string[] schema; static readonly string[] Continents = { "Eurasia", "South_America", "Africa", "North_America", "Australia", "Islands" };
    static string SchemaText()
    {
        // every cell of the world; some names of the archives lack the point, as they do on the real server
        var s = new StringBuilder(); int k = 0;
        for (int lat = -60; lat < 84; ++lat) for (int lon = -180; lon < 180; ++lon) s.AppendFormat("{0}{1} {2}\n", Cell(lat, lon), k % 7 == 3 ? "hgt.zip" : "", k++ % 6);
        return s.ToString();
    }
    static string Cell(int lat, int lon) { return Mc.F("{0}{1:00}{2}{3:000}", lat >= 0 ? 'N' : 'S', Math.Abs(lat), lon >= 0 ? 'E' : 'W', Math.Abs(lon)); }
    static string schemaText; static readonly Dictionary<string, string> byCell = new Dictionary<string, string>();
    static string SrtmUrl(string cell)
    {
        if (schema == null) { schemaText = SchemaText(); schema = schemaText.Split('\n'); foreach (var l in schema) if (l != "") byCell[l.Substring(0, 7)] = l; }
        var p = byCell[cell].Split(' '); return Srtm + "/" + Continents[int.Parse(p[1])] + "/" + (p[0].EndsWith("zip") ? p[0] : p[0] + ".hgt.zip");
    }

    static byte[] Answer(string url, QuadKey tile)
    {
        if (url.StartsWith("ele")) return Encoding.UTF8.GetBytes("{\"encoded_polyline\":\"x\",\"height\":[" + string.Join(",", Points(url).Select(p => Math.Round(Height(tile, p.Latitude, p.Longitude)).ToString(CultureInfo.InvariantCulture)).ToArray()) + "]}");
        if (url.StartsWith(Srtm)) { var n = url.Substring(url.LastIndexOf('/') + 1).Substring(0, 7); return Zip(new List<KeyValuePair<string, byte[]>> { new KeyValuePair<string, byte[]>(n + ".hgt", Hgt(n)) }, new[] { 8 }, ""); }
        return Encoding.UTF8.GetBytes("data of " + url);
    }

    class World
    {
        public readonly Library Lib = new Library(); public IFileSystemService Fs; public readonly Network Net = new Network(); public readonly AggregateMapDataProvider P; public readonly List<TilePath> Answers = new List<TilePath>();
        public World(IFileSystemService fs, int grid, bool limit, string ele)
        {
            Pool.Clear(); Fs = fs; P = new AggregateMapDataProvider(fs, Net, Lib, new Silent());
            SrtmUrl("N00E000");
            var c = new ConfigBuilder().SetLocalElevationData(ele).SetSrtmEleData(Srtm, "schema.txt").SetOsmMapData(Osm, Query, "xml").SetMapzenMapData(Map, "all", "json", "key").SetMapzenEleData(Ele, grid, "ele", "key").SetImport("index/import");
            c.Add("data/mapzen/limit", limit); P.Configure(c.Build()); P.Subscribe(new Sink { A = Answers });
            RunAll(); // what providers start in the pool is there before the first request
        }
    }
    class Sink : UtyRx.IObserver<TilePath> { public List<TilePath> A; public void OnNext(TilePath t) { A.Add(t); } public void OnCompleted() { } public void OnError(Exception e) { } }

    static readonly IProjection Flat = new CartesianProjection(new GeoCoordinate(52.53, 13.38)); static readonly Stylesheet NoStyle = new Stylesheet("none");
    static void Reply(Download d, byte[] b) { foreach (var o in d.O.ToArray()) o.OnNext(b); }
    static void RunAll() { for (int n = 0; Pool.Pending.Count > 0; ++n) { Mc.Check(n < 1000, "pool is never idle"); Pool.Run(0); } }

    // ------------------------------------------------------------------ what is asked for
    static int[] LodMap = { 0, 1, 1, 3, 3, 4, 5, 6, 7 };

    static void CheckMapUrl(QuadKey q, string url, string path)
    {
        var b = GeoUtils.QuadKeyToBoundingBox(q); string file;
        if (q.LevelOfDetail == 16)
        {
            var u = Uri.UnescapeDataString(url); Mc.Check(u.StartsWith(Osm + "bbox(") && u.EndsWith(")"), "map data is asked for by {0}", url);
            var v = u.Substring(Osm.Length + 5, u.Length - Osm.Length - 6).Split(',').Select(x => double.Parse(x, CultureInfo.InvariantCulture)).ToArray();
            Mc.Check(v.Length == 4 && v[0] <= b.MinPoint.Latitude && v[1] <= b.MinPoint.Longitude && v[2] >= b.MaxPoint.Latitude && v[3] >= b.MaxPoint.Longitude, "{0} does not cover {1}", url, b);
            Mc.Check(v[2] - v[0] < .1 && v[3] - v[1] < .1, "{0} asks for far more than the tile", url);
            file = q + ".xml";
        }
        else
        {
            var v = url.Split('/', '.', '?'); Mc.Check(url.StartsWith("map/all/") && url.EndsWith(".json?api_key=key"), "map data is asked for by {0}", url);
            int lod = int.Parse(v[2]), x = int.Parse(v[3]), y = int.Parse(v[4]), want = q.LevelOfDetail < LodMap.Length ? LodMap[q.LevelOfDetail] : q.LevelOfDetail;
            Mc.Check(lod == want && x == q.TileX >> q.LevelOfDetail - lod && y == q.TileY >> q.LevelOfDetail - lod, "{0} is asked for, which is not the tile of level {1} covering it", url, want);
            file = new QuadKey(x, y, lod) + ".json";
        }
        if (path != null) Mc.Check(path == "index/import/" + file, "map data is stored in {0} instead of {1}", path, file);
    }

    static void Ask(QuadKey q, ElevationDataType ele, int grid, bool stored)
    {
        Mc.Run(Mc.F("ask:{0}:{1}/{2}/{3}:{4}:{5}", ele, q.LevelOfDetail, q.TileX, q.TileY, grid, stored ? 1 : 0), () =>
        {
            var fs = new Files(); var w = new World(fs, grid, false, "index/data"); fs.Data["schema.txt"] = Encoding.UTF8.GetBytes(schemaText); if (stored) w.Lib.Stored.Add(q);
            var b = GeoUtils.QuadKeyToBoundingBox(q); var t = new Tile(q, NoStyle, Flat, ele); w.P.OnNext(t); RunAll();
            if (ele != ElevationDataType.Flat)
            {
                Mc.Check(w.Net.Pending.Count == 1 && w.Answers.Count == 0, "heights are asked for {0} times", w.Net.Pending.Count); var d = w.Net.Pending[0]; w.Net.Pending.Clear(); byte[] want; string path;
                if (ele == ElevationDataType.Grid)
                {
                    var p = Points(d.Url); int n = grid + 1; Mc.Check(p.Count == n * n, "{0} heights are asked for", p.Count);
                    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
                    {
                        var g = p[i * n + j]; double lat = b.MinPoint.Latitude + (b.MaxPoint.Latitude - b.MinPoint.Latitude) * i / grid, lon = b.MinPoint.Longitude + (b.MaxPoint.Longitude - b.MinPoint.Longitude) * j / grid;
                        Mc.Check(Math.Abs(g.Latitude - lat) < 1.1e-6 && Math.Abs(g.Longitude - lon) < 1.1e-6, "point {0},{1} of the grid is {2}, expected {3} {4}", i, j, g, N(lat), N(lon));
                    }
                    Reply(d, Answer(d.Url, q)); path = "index/data/" + q.LevelOfDetail + "/" + q + ".ele"; want = Encoding.UTF8.GetBytes(string.Join(" ", p.Select(g => Math.Round(Height(q, g.Latitude, g.Longitude)).ToString(CultureInfo.InvariantCulture)).ToArray()));
                }
                else
                {
                    var c = Cell((int)Math.Floor((b.MinPoint.Latitude + b.MaxPoint.Latitude) / 2), (int)Math.Floor((b.MinPoint.Longitude + b.MaxPoint.Longitude) / 2));
                    Mc.Check(d.Url == SrtmUrl(c), "heights are asked for by {0}, expected {1}", d.Url, SrtmUrl(c));
                    want = Encoding.UTF8.GetBytes("heights of " + c); Reply(d, Zip(new List<KeyValuePair<string, byte[]>> { new KeyValuePair<string, byte[]>(c + ".hgt", want) }, new[] { 8 }, "")); path = "index/data/" + c + ".hgt";
                }
                RunAll(); Mc.Check(fs.Data.ContainsKey(path), "heights are stored in {0} instead of {1}", string.Join(" ", fs.Data.Keys.Where(k => k != "schema.txt").ToArray()), path);
                Mc.Check(fs.Data[path].SequenceEqual(want), "stored heights are not the ones which are downloaded"); Mc.Transition();
            }
            if (!stored)
            {
                Mc.Check(w.Net.Pending.Count == 1 && w.Answers.Count == 0, "map data is asked for {0} times", w.Net.Pending.Count); var d = w.Net.Pending[0]; w.Net.Pending.Clear(); CheckMapUrl(q, d.Url, null);
                Reply(d, Answer(d.Url, q)); RunAll(); Mc.Check(w.Answers.Count == 1, "{0} answers", w.Answers.Count); CheckMapUrl(q, d.Url, w.Answers[0].Item2);
                Mc.Check(fs.Data[w.Answers[0].Item2].SequenceEqual(Answer(d.Url, q)), "stored map data is not the one which is downloaded"); Mc.Transition();
            }
            Mc.Check(w.Answers.Count == 1 && ReferenceEquals(w.Answers[0].Item1, t) && (w.Answers[0].Item2 == "") == stored, "{0} answers, file {1}", w.Answers.Count, w.Answers.Count > 0 ? w.Answers[0].Item2 : "");
            // all is there now
            w.P.OnNext(new Tile(q, NoStyle, Flat, ele)); RunAll(); Mc.Check(w.Net.Pending.Count == 0 && w.Answers.Count == 2 && w.Answers[1].Item2 == w.Answers[0].Item2, "data is downloaded again");
            Mc.Outcome(w.Net.All.Count > 0 ? w.Net.All[0] : "none"); Mc.State(q + ele.ToString());
        });
    }

    // ------------------------------------------------------------------ histories
    class Req { public Tile T; public int I; }
    static readonly QuadKey[] Keys = { new QuadKey(35206, 21494, 16), new QuadKey(8, 5, 4), new QuadKey(9, 4, 4), new QuadKey(35207, 21494, 16) };

    static string PathOf(int i) { var q = Keys[i]; return "index/import/" + (q.LevelOfDetail == 16 ? q + ".xml" : new QuadKey(q.TileX >> 1, q.TileY >> 1, 3) + ".json"); }
    static string ElePath(int i) { return "index/data/" + Keys[i].LevelOfDetail + "/" + Keys[i] + ".ele"; }
    static QuadKey Owner(string url) { var p = Points(url); double lat = (p[0].Latitude + p[p.Count - 1].Latitude) / 2, lon = (p[0].Longitude + p[p.Count - 1].Longitude) / 2; return Keys.OrderBy(k => { var b = GeoUtils.QuadKeyToBoundingBox(k); return Math.Abs((b.MinPoint.Latitude + b.MaxPoint.Latitude) / 2 - lat) + Math.Abs((b.MinPoint.Longitude + b.MaxPoint.Longitude) / 2 - lon); }).First(); }

    // R0..R3 request, o/n: the oldest/newest download is done, e: the oldest one fails, b: the newest one brings garbage, p/q: the pool runs its oldest/newest action, t: time passes
    const string Ops = "0123onebpqt";

    static void Histories(int depth, ElevationDataType ele, bool limit, int tiles)
    {
        var ops = Ops.Where(c => !(c >= '0' && c <= '3' && c - '0' >= tiles) && (limit || c != 't')).ToArray();
        Mc.Words(ops.Length, depth, word =>
        {
            if (ops[word[0]] > '9') return;
            var w = new string(word.Select(x => ops[x]).ToArray());
            Mc.Run(Mc.F("history:{0}:{1}:{2}:{3}", ele, limit ? 1 : 0, tiles, w), () => History(w, ele, limit));
        });
    }

    static void History(string word, ElevationDataType ele, bool limit)
    {
        var fs = new Files(); var w = new World(fs, 2, limit, "index/data"); var made = new List<Req>(); int failed = 0, bad = 0, seen = 0; string h = ""; bool useless = false;
        Action<int> request = i => { var t = new Tile(Keys[i], NoStyle, Flat, ele); made.Add(new Req { T = t, I = i }); w.P.OnNext(t); };
        Action<Download, bool, bool> done = (d, error, garbage) =>
        {
            w.Net.Pending.Remove(d); bool isEle = d.Url.StartsWith("ele");
            if (error) { ++failed; foreach (var o in d.O.ToArray()) o.OnError(new WebException("connection is lost")); return; }
            if (garbage && isEle) ++bad;
            Reply(d, garbage && isEle ? Encoding.UTF8.GetBytes("{\"error\":\"try again later\"}") : Answer(d.Url, isEle ? Owner(d.Url) : Keys[0]));
        };
        Action check = () =>
        {
            for (; seen < w.Answers.Count; ++seen)
            {
                var a = w.Answers[seen]; var r = made.Where(x => ReferenceEquals(x.T, a.Item1)).ToArray(); Mc.Check(r.Length == 1, "{0}: answer to what was not requested", h);
                Mc.Check(w.Answers.Take(seen).All(x => !ReferenceEquals(x.Item1, a.Item1)), "{0}: request {1} is answered twice", h, made.IndexOf(r[0]));
                Mc.Check(a.Item2 == PathOf(r[0].I), "{0}: answer is {1}, expected {2}", h, a.Item2, PathOf(r[0].I));
                Mc.Check(fs.Data.ContainsKey(a.Item2), "{0}: there is no file {1} when it is reported", h, a.Item2);
                if (ele == ElevationDataType.Grid) Mc.Check(fs.Data.ContainsKey(ElePath(r[0].I)), "{0}: there are no heights when map data is reported", h);
            }
            foreach (var f in fs.Data)
            {
                if (f.Key.EndsWith(".ele")) Mc.Check(Encoding.UTF8.GetString(f.Value).Split(' ').Length == 9, "{0}: file {1} is '{2}'", h, f.Key, Encoding.UTF8.GetString(f.Value));
                else Mc.Check(Encoding.UTF8.GetString(f.Value).StartsWith("data of ") && f.Key == MapPath(Encoding.UTF8.GetString(f.Value).Substring(8)), "{0}: file {1} is '{2}'", h, f.Key, Encoding.UTF8.GetString(f.Value));
            }
            foreach (var n in fs.Writes) Mc.Check(n.Value == 1, "{0}: file {1} is written {2} times", h, n.Key, n.Value);
        };
        foreach (char c in word)
        {
            int all = w.Net.All.Count; h += c; Mc.Transition();
            if (c <= '3') request(c - '0');
            else if (c == 'p' || c == 'q') { if (Pool.Pending.Count < (c == 'q' ? 2 : 1)) { useless = true; break; } Step(c == 'p' ? 0 : Pool.Pending.Count - 1, h); }
            else if (c == 't') { if (Pool.Timers.Count == 0) { useless = true; break; } Pool.Tick(); Mc.Check(w.Net.All.Count(u => u.StartsWith("ele")) <= w.Net.All.Take(all).Count(u => u.StartsWith("ele")) + 1, "{0}: more than one request for heights is made at once", h); }
            else { if (w.Net.Pending.Count < (c == 'n' || c == 'b' ? 2 : 1) && c != 'b' || w.Net.Pending.Count == 0) { useless = true; break; } done(w.Net.Pending[c == 'n' || c == 'b' ? w.Net.Pending.Count - 1 : 0], c == 'e', c == 'b'); }
            check(); Mc.State(w.Answers.Count + " " + w.Net.Pending.Count + " " + Pool.Pending.Count + " " + string.Join(" ", fs.Data.Keys.OrderBy(k => k).ToArray()));
        }
        if (useless) { Mc.Trivial(); return; }
        // everything still under way comes to its end
        for (int n = 0; n < 60; ++n)
        {
            while (Pool.Pending.Count > 0) { h += "p"; Step(0, h); check(); }
            if (w.Net.Pending.Count > 0) { h += "o"; done(w.Net.Pending[0], false, false); check(); }
            else if (n > 2 * made.Count + 2 && w.Answers.Count >= made.Count - failed - bad) break;
            else if (Pool.Timers.Count > 0) Pool.Tick();
            Mc.Transition();
        }
        Mc.Check(w.Answers.Count <= made.Count - failed && w.Answers.Count >= made.Count - failed - bad, "{0}: {1} requests, {2} downloads failed, {3} brought garbage, {4} answers", h, made.Count, failed, bad, w.Answers.Count);
        // what failed can be requested again
        for (int i = 0; i < Keys.Length; ++i) if (made.Any(r => r.I == i)) { h += i; request(i); int have = w.Answers.Count; for (int n = 0; n < 60 && !w.Answers.Any(a => ReferenceEquals(a.Item1, made.Last().T)); ++n) { while (Pool.Pending.Count > 0) Step(0, h); if (w.Net.Pending.Count > 0) done(w.Net.Pending[0], false, false); else Pool.Tick(); } check(); Mc.Check(w.Answers.Any(a => ReferenceEquals(a.Item1, made.Last().T)), "{0}: request made later is not answered", h); }
        Mc.Outcome(string.Join(" ", w.Answers.Select(a => a.Item2).ToArray()) + failed); Mc.Count("answers", (ulong)w.Answers.Count);
    }

    static void Step(int i, string h) { try { Pool.Run(i); } catch (Mc.Fail) { throw; } catch (Exception e) { Mc.Check(false, "{0}: {1} leaves the thread pool: {2}", h, e.GetType().Name, e.Message); } }
    static string MapPath(string url)
    {
        if (url.StartsWith("map")) { var v = url.Split('/', '.', '?'); return "index/import/" + new QuadKey(int.Parse(v[3]), int.Parse(v[4]), int.Parse(v[2])) + ".json"; }
        var u = Uri.UnescapeDataString(url); var b = u.Substring(Osm.Length + 5, u.Length - Osm.Length - 6).Split(',').Select(x => double.Parse(x, CultureInfo.InvariantCulture)).ToArray();
        return "index/import/" + GeoUtils.CreateQuadKey(new GeoCoordinate((b[0] + b[2]) / 2, (b[1] + b[3]) / 2), 16) + ".xml";
    }

    // ------------------------------------------------------------------ archives
    static void Archives()
    {
        var contents = new List<byte[]> { new byte[0], new byte[] { 0 }, Encoding.ASCII.GetBytes("abcabcabcabcabc"), Enumerable.Range(0, 256).Select(i => (byte)i).ToArray(), new byte[40000], Enumerable.Range(0, 70000).Select(i => (byte)(i * i >> 7 ^ i)).ToArray(), Enumerable.Range(0, 100000).Select(i => (byte)(Mc.Hash(i.ToString()) >> 13)).ToArray() };
        // all texts over three letters up to a length
        for (int len = 2; len <= (Mc.Thorough ? 9 : 7); ++len) Mc.Words(3, len, w => contents.Add(w.Select(c => (byte)("ab\0"[c])).ToArray()));
        int[][] methods = { new[] { 0 }, new[] { 8 }, new[] { 9 }, new[] { 8, 0 }, new[] { 9, 8 } }; string[] names = { "N52E013.hgt", "a", "N52E014.hgt" };
        for (int c = 0; c < contents.Count; ++c) for (int m = 0; m < methods.Length; ++m) for (int n = 1; n <= 3; ++n) for (int z = 0; z < 2; ++z)
        {
            int ci = c, mi = m, count = n, cm = z;
            Mc.Run(Mc.F("zip:{0}:{1}:{2}:{3}", ci, mi, count, cm), () =>
            {
                var files = Enumerable.Range(0, count).Select(i => new KeyValuePair<string, byte[]>(names[i], contents[(ci + i) % contents.Count])).ToList();
                var r = CompressionUtils.Unzip(Zip(files, methods[mi], cm == 0 ? "" : "made by PK")).ToList(); Mc.Transition((ulong)count);
                Mc.Check(r.Count == count, "{0} files of {1}", r.Count, count);
                foreach (var f in files) Mc.Check(r.Count(x => x.Key == f.Key && x.Value.SequenceEqual(f.Value)) == 1, "file {0} ({1} bytes) is not among {2}", f.Key, f.Value.Length, string.Join(" ", r.Select(x => x.Key + "=" + x.Value.Length).ToArray()));
                Mc.Outcome(Mc.F("{0}:{1}", ci, count));
            });
        }
    }

    // ------------------------------------------------------------------ native code reads what is stored
    [UnmanagedFunctionPointer(CallingConvention.Cdecl)] delegate void RawError(IntPtr m);
    [DllImport("UtyMap.Shared")] static extern void connect(byte[] path, RawError e);
    [DllImport("UtyMap.Shared")] static extern void disconnect();
    [DllImport("UtyMap.Shared")] static extern double getElevationByQuadKey(int x, int y, int lod, int ele, double lat, double lon);

    static void Read(QuadKey q, ElevationDataType ele, int grid)
    {
        Mc.Run(Mc.F("read:{0}:{1}/{2}/{3}:{4}", ele, q.LevelOfDetail, q.TileX, q.TileY, grid), () =>
        {
            var dir = Mc.Work + "/w"; if (Directory.Exists(dir)) Directory.Delete(dir, true);
            Directory.CreateDirectory(dir + "/index/import"); Directory.CreateDirectory(dir + "/index/data/" + q.LevelOfDetail);
            var fs = new FileSystemService(new Paths { Root = dir }, new Silent()); var w = new World(fs, grid, false, "index/data"); File.WriteAllText(dir + "/schema.txt", schemaText); w.Lib.Stored.Add(q);
            w.P.OnNext(new Tile(q, NoStyle, Flat, ele)); RunAll(); Mc.Check(w.Net.Pending.Count == 1, "heights are asked for {0} times", w.Net.Pending.Count); Reply(w.Net.Pending[0], Answer(w.Net.Pending[0].Url, q)); RunAll(); Mc.Check(w.Answers.Count == 1, "{0} answers", w.Answers.Count);
            var stored = Directory.GetFiles(dir + "/index/data", "*", SearchOption.AllDirectories); Mc.Check(stored.Length == 1, "{0} files with heights", stored.Length);
            var b = GeoUtils.QuadKeyToBoundingBox(q); int n = ele == ElevationDataType.Grid ? grid : 1;
            // native code stops the program when it does not find the file
            var path = ele == ElevationDataType.Grid ? dir + "/index/data/" + q.LevelOfDetail + "/" + q + ".ele" : dir + "/index/data/" + Cell((int)Math.Floor((b.MinPoint.Latitude + b.MaxPoint.Latitude) / 2), (int)Math.Floor((b.MinPoint.Longitude + b.MaxPoint.Longitude) / 2)) + ".hgt";
            Mc.Check(File.Exists(path), "heights are stored in {0}, native code reads {1}", stored[0], path);
            RawError er = m => { }; connect(Encoding.UTF8.GetBytes(dir + "/index\0"), er);
            try
            {
                for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j)
                {
                    double lat, lon, want, tolerance;
                    if (ele == ElevationDataType.Grid) { lat = b.MinPoint.Latitude + (b.MaxPoint.Latitude - b.MinPoint.Latitude) * i / n; lon = b.MinPoint.Longitude + (b.MaxPoint.Longitude - b.MinPoint.Longitude) * j / n; want = Height(q, lat, lon); tolerance = .6 + 7e-3 / (b.MaxPoint.Latitude - b.MinPoint.Latitude); }
                    else
                    {
                        double clat = (b.MinPoint.Latitude + b.MaxPoint.Latitude) / 2, clon = (b.MinPoint.Longitude + b.MaxPoint.Longitude) / 2; lat = clat + (i - .5) * 1e-4; lon = clon + (j - .5) * 1e-4; var c = Cell((int)Math.Floor(clat), (int)Math.Floor(clon));
                        if (Math.Floor(lat) != Math.Floor(clat) || Math.Floor(lon) != Math.Floor(clon)) continue;
                        want = CellBase(c) + 2400 * (lat - Math.Floor(lat)) + 1200 * (lon - Math.Floor(lon)); tolerance = 1e-3;
                    }
                    double got = getElevationByQuadKey(q.TileX, q.TileY, q.LevelOfDetail, (int)ele, lat, lon); Mc.Transition();
                    Mc.Check(Math.Abs(got - want) <= tolerance, "height at {0} {1} is {2}, expected {3}", N(lat), N(lon), N(got), N(want)); Mc.Outcome(Math.Round(got).ToString(CultureInfo.InvariantCulture));
                }
            }
            finally { disconnect(); GC.KeepAlive(er); Directory.Delete(dir, true); }
        });
    }

    public static int Main(string[] args)
    {
        Mc.Init(args); Pool.Install(); bool th = Mc.Thorough; var all = new[] { ElevationDataType.Flat, ElevationDataType.Grid, ElevationDataType.Srtm };
        int dense = th ? 6 : 4;
        for (int lod = 1; lod <= 19; ++lod)
        {
            int n = 1 << lod, step = Math.Max(1, n >> (lod <= 8 || th ? dense : dense - 1)); // levels beyond the dense ones are sampled on a grid of tiles with their corners
            for (int x0 = 0; x0 < n; x0 += step) for (int y0 = 0; y0 < n; y0 += step) foreach (int o in step == 1 ? new[] { 0 } : new[] { 0, step / 3, step - 1 })
            {
                var q = new QuadKey(x0 + o, y0 + o, lod); var b = GeoUtils.QuadKeyToBoundingBox(q); double lat = (b.MinPoint.Latitude + b.MaxPoint.Latitude) / 2; bool land = lat > -60 && lat < 84;
                Ask(q, ElevationDataType.Flat, 4, false); Ask(q, ElevationDataType.Grid, 1 + (x0 + y0) / step % 5, o == 0); if (land && (step == 1 || o != 0 && (x0 / step + y0 / step) % (th ? 2 : 5) == 0)) Ask(q, ElevationDataType.Srtm, 4, o != 0);
                if (lod <= 16 && lod > 6 && o != 0 && (x0 / step + y0 / step * 5) % (th ? 3 : 17) == 0) Read(q, ElevationDataType.Grid, 1 + x0 / step % 6);
            }
        }
        double[] lats = { 52.53, -33.45, .4, -.4, -55.2 }, lons = { 13.38, -70.66, .3, -.3, 179.9 }; int k = 0;
        foreach (var lat in lats) foreach (var lon in lons) if (th || ++k % 2 == 1) Read(GeoUtils.CreateQuadKey(new GeoCoordinate(lat, lon), 16), ElevationDataType.Srtm, 1);
        Archives();
        int d = th ? 6 : 5;
        for (int len = 1; len <= d; ++len) { Histories(len, ElevationDataType.Flat, false, 4); Histories(len, ElevationDataType.Grid, false, 3); Histories(len, ElevationDataType.Grid, true, 2); }
        if (th) Histories(7, ElevationDataType.Grid, true, 2);
        return Mc.Finish();
    }
}
