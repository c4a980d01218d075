// C27: tiles and their objects on the managed side: registry of shown elements, delivery of what native code built, disposal
using System;
using System.Collections.Generic;
using System.IO;
using System.Linq;
using System.Runtime.InteropServices;
using System.Text;
using System.Threading;
using UnityEngine;
using UtyDepend.Config;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyMap.Unity.Utils;
using UtyRx;
using Mesh = UtyMap.Unity.Mesh;
using CancellationToken = UtyMap.Unity.CancellationToken;

public static class C27
{
    // ------------------------------------------------------------------ registry of shown elements
    static readonly IProjection Flat = new CartesianProjection(new GeoCoordinate(52.53, 13.38));
    static readonly Stylesheet NoStyle = new Stylesheet("none");

    static void Registry(int tiles, int ids, int depth)
    {
        int ops = tiles * (ids + 1);
        Mc.Words(ops, depth, w =>
        {
            var word = (int[])w.Clone();
            Mc.Run(Mc.F("ids:{0}:{1}:{2}", tiles, ids, string.Join(",", word.Select(i => i.ToString()).ToArray())), () =>
            {
                var t = new Tile[tiles]; var own = new HashSet<int>[tiles]; var dead = new bool[tiles]; long[] id = { 7, -1234567890123L, long.MaxValue };
                for (int i = 0; i < tiles; ++i) { t[i] = new Tile(new QuadKey(i % 2, 0, 3), NoStyle, Flat, ElevationDataType.Flat); own[i] = new HashSet<int>(); }
                try
                {
                    string h = "";
                    foreach (int op in word)
                    {
                        int k = op / (ids + 1), e = op % (ids + 1); Mc.Transition();
                        if (e < ids) { t[k].Register(id[e]); if (!dead[k]) own[k].Add(e); h += Mc.F(" +{0}@{1}", e, k); }
                        else { t[k].Dispose(); dead[k] = true; own[k].Clear(); h += Mc.F(" x{0}", k); Mc.Check(t[k].IsDisposed && t[k].CancelationToken.IsCancelled != 0, "{0}: tile is not disposed", h); }
                        for (int j = 0; j < tiles; ++j) for (int f = 0; f < ids; ++f)
                        {
                            bool want = own.Any(o => o.Contains(f));
                            Mc.Check(t[j].Has(id[f]) == want, "after{0}: tile {1} says element {2} is {3}", h, j, f, want ? "not shown although a live tile registered it" : "shown although no live tile registered it");
                        }
                        for (int j = 0; j < tiles; ++j) Mc.Check(t[j].IsDisposed == dead[j] && (t[j].CancelationToken.IsCancelled != 0) == dead[j], "after{0}: state of tile {1}", h, j);
                        Mc.State("reg" + string.Join("|", own.Select(o => string.Join(",", o.OrderBy(x => x).Select(x => x.ToString()).ToArray())).ToArray()) + string.Concat(dead.Select(d => d ? "x" : "-").ToArray()));
                    }
                    Mc.Outcome(string.Join("|", own.Select(o => string.Join(",", o.OrderBy(x => x).Select(x => x.ToString()).ToArray())).ToArray()) + string.Concat(dead.Select(d => d ? "x" : "-").ToArray()));
                }
                finally { foreach (var x in t) x.Dispose(); }
            });
        });
    }

    // ------------------------------------------------------------------ native library seen without the code under test
    [UnmanagedFunctionPointer(CallingConvention.Cdecl)]
    delegate void RawMesh(int tag, IntPtr name, IntPtr v, int nv, IntPtr t, int nt, IntPtr c, int nc, IntPtr u, int nu, IntPtr m, int nm);
    [UnmanagedFunctionPointer(CallingConvention.Cdecl)]
    delegate void RawElement(int tag, long id, IntPtr tags, int nt, IntPtr v, int nv, IntPtr styles, int ns);
    [UnmanagedFunctionPointer(CallingConvention.Cdecl)]
    delegate void RawError(IntPtr message);
    [DllImport("UtyMap.Shared")] static extern void disconnect();
    [DllImport("UtyMap.Shared")] static extern void getDataByQuadKey(int tag, byte[] style, int x, int y, int lod, int ele, RawMesh m, RawElement e, RawError er, ref int cancel);
    [DllImport("UtyMap.Shared")] static extern void getDataByText(int tag, byte[] not, byte[] and, byte[] or, double a, double b, double c, double d, int s, int e, RawElement el, RawError er, ref int cancel);

    class Item
    {
        public string Kind, Name; public long Id; public double[] V; public int[] T, C; public SortedDictionary<string, string> Tags, Styles;
        public override string ToString()
        {
            Func<SortedDictionary<string, string>, string> d = x => string.Join(";", x.Select(p => p.Key + "=" + p.Value).ToArray());
            return Kind == "mesh" ? Mc.F("mesh {0} {1}v {2}t {3}", Name, V.Length / 3, T.Length, Mc.Hash(string.Join(",", V.Select(x => x.ToString("R")).ToArray()) + "|" + string.Join(",", T.Select(x => x.ToString()).ToArray()) + "|" + string.Join(",", C.Select(x => x.ToString()).ToArray())))
                : Mc.F("element {0} tags[{1}] styles[{2}] at {3}", Id, d(Tags), d(Styles), string.Join(",", V.Select(x => x.ToString("R")).ToArray()));
        }
    }

    static byte[] Utf(string s) { return Encoding.UTF8.GetBytes(s + "\0"); }
    static string Str(IntPtr p) { var b = new List<byte>(); for (int i = 0; ; ++i) { byte c = Marshal.ReadByte(p, i); if (c == 0) break; b.Add(c); } return Encoding.UTF8.GetString(b.ToArray()); }
    static double[] Doubles(IntPtr p, int n) { var r = new double[n]; if (n > 0) Marshal.Copy(p, r, 0, n); return r; }
    static int[] Ints(IntPtr p, int n) { var r = new int[n]; if (n > 0) Marshal.Copy(p, r, 0, n); return r; }
    static SortedDictionary<string, string> Dict(IntPtr p, int n) { var d = new SortedDictionary<string, string>(StringComparer.Ordinal); for (int i = 0; i < n; i += 2) { var k = Str(Marshal.ReadIntPtr(p, i * IntPtr.Size)); d[k] = Str(Marshal.ReadIntPtr(p, (i + 1) * IntPtr.Size)); } return d; }

    static List<Item> Raw(string style, QuadKey q)
    {
        var r = new List<Item>(); int cancel = 0; string error = null;
        RawMesh m = (tag, name, v, nv, t, nt, c, nc, u, nu, mm, nm) => r.Add(new Item { Kind = "mesh", Name = Str(name), V = Doubles(v, nv), T = Ints(t, nt), C = Ints(c, nc) });
        RawElement e = (tag, id, tags, nt, v, nv, st, ns) => r.Add(new Item { Kind = "element", Id = id, V = Doubles(v, nv), Tags = Dict(tags, nt), Styles = Dict(st, ns) });
        RawError er = msg => error = Str(msg);
        getDataByQuadKey(0, Utf(style), q.TileX, q.TileY, q.LevelOfDetail, 0, m, e, er, ref cancel);
        GC.KeepAlive(m); GC.KeepAlive(e); GC.KeepAlive(er);
        Mc.Check(error == null, "native code reports {0}", error);
        return r;
    }

    // ------------------------------------------------------------------ the session
    class Trace : DefaultTrace { public List<string> Errors = new List<string>(); public Trace() : base(TraceLevel.Error) { } protected override void OnWriteRecord(TraceLevel type, string category, string message, Exception exception) { if (type == TraceLevel.Error) lock (Errors) Errors.Add(message + " " + (exception == null ? "" : exception.Message)); } }
    class Paths : IPathResolver { public string Resolve(string p) { return p; } }

    // stands for download of map data: answers every tile with the file chosen by the case
    class Provider : IMapDataProvider
    {
        readonly List<UtyRx.IObserver<UtyRx.Tuple<Tile, string>>> o = new List<UtyRx.IObserver<UtyRx.Tuple<Tile, string>>>(); public string File = "";
        public void OnNext(Tile t) { foreach (var x in o) x.OnNext(new UtyRx.Tuple<Tile, string>(t, t.QuadKey.LevelOfDetail == 5 ? "" : File)); }
        public void OnCompleted() { } public void OnError(Exception e) { } public void Configure(IConfigSection c) { }
        public IDisposable Subscribe(UtyRx.IObserver<UtyRx.Tuple<Tile, string>> x) { o.Add(x); return Disposable.Empty; }
    }

    class Observer : UtyRx.IObserver<MapData>, UtyRx.IObserver<Tile>, UtyRx.IObserver<Element>
    {
        public readonly List<MapData> Data = new List<MapData>(); public readonly List<Tile> Tiles = new List<Tile>(); public readonly List<Element> Found = new List<Element>();
        public Action<MapData> OnData; public Action<Element> OnFound; public string Problem;
        public void OnNext(MapData d) { lock (Data) { if (d.Tile.IsDisposed) Problem = Problem ?? "data of a disposed tile is delivered"; Data.Add(d); } if (OnData != null) OnData(d); }
        public void OnNext(Tile t) { lock (Data) Tiles.Add(t); if (t.QuadKey.LevelOfDetail == 5) lock (t) Monitor.PulseAll(t); }
        public void OnNext(Element e) { lock (Data) Found.Add(e); if (OnFound != null) OnFound(e); }
        public void OnCompleted() { } public void OnError(Exception e) { Problem = Problem ?? e.Message; }
    }

    static readonly QuadKey A = new QuadKey(35206, 21494, 16), B = new QuadKey(35207, 21494, 16);
    static string dir, style, file;

    static void Prepare()
    {
        if (dir != null) return;
        dir = Mc.Work + "/w"; Directory.CreateDirectory(dir + "/index/data"); Directory.CreateDirectory(dir + "/index/cache");
        style = dir + "/s.mapcss"; file = dir + "/map.xml";
        System.IO.File.WriteAllText(style, "canvas|z16{grid-cell-size:20%;ele-noise-freq:0;color-noise-freq:0;color:gradient(#00ff00);max-area:20%;}" +
            "area|z16[natural=water]{builder:terrain;sort-order:0;color:gradient(#0102fe);max-area:20%;ele-noise-freq:0;color-noise-freq:0;mesh-name:lake;}" +
            "area|z16[building]{building:true;builder:building;height:10m;min-height:0m;roof-type:flat;roof-height:0m;roof-color:#ff0000;facade-type:flat;facade-color:#00ff00;}" +
            "node|z16[shop]{builder:poster;size:3;label:eval(\"tag('name')\");}way|z16[power]{builder:line;kind:wire;clip:true;}node,way,area|z14-17[any]{builder:thing;note:plain;}");
        var xml = new StringBuilder("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n"); int nid = 1; var ways = new StringBuilder();
        Func<QuadKey, double, double, string> pt = (q, x, y) => { var b = GeoUtils.QuadKeyToBoundingBox(q); return Mc.F("lat=\"{0:F7}\" lon=\"{1:F7}\"", b.MinPoint.Latitude + (b.MaxPoint.Latitude - b.MinPoint.Latitude) * y, b.MinPoint.Longitude + (b.MaxPoint.Longitude - b.MinPoint.Longitude) * x); };
        WayFn way = (q, id, p, tags, closed) =>
        {
            ways.AppendFormat("<way id=\"{0}\">", id); int first = nid;
            for (int i = 0; i < p.Length; i += 2) { xml.AppendFormat("<node id=\"{0}\" {1}/>\n", nid, pt(q, p[i], p[i + 1])); ways.AppendFormat("<nd ref=\"{0}\"/>", nid++); }
            if (closed) ways.AppendFormat("<nd ref=\"{0}\"/>", first);
            ways.Append(tags + "</way>\n");
        };
        Func<string, string, string> tag = (k, v) => Mc.F("<tag k=\"{0}\" v=\"{1}\"/>", k, v);
        xml.AppendFormat("<node id=\"9001\" {0}>{1}</node>\n", pt(A, .5, .8), tag("shop", "books") + tag("name", "Größe 東京"));
        xml.AppendFormat("<node id=\"9002\" {0}>{1}</node>\n", pt(B, .6, .9), tag("shop", "cars"));
        way(A, 101, new[] { .2, .2, .6, .2, .6, .7, .2, .6 }, tag("natural", "water"), true);
        way(A, 300, new[] { .1, .1, .3, .1, .3, .15, .1, .15 }, tag("building", "yes"), true);
        way(A, 201, new[] { .1, .9, 1.5, .5 }, tag("power", "line"), false);
        System.IO.File.WriteAllText(file, xml.ToString() + ways + "</osm>\n", new UTF8Encoding(false));
    }

    // stands for the thread pool: keeps what is to be done until the explorer picks it
    class Pool : IScheduler, ISchedulerQueueing
    {
        public static readonly List<Action> Pending = new List<Action>();
        public static void Install()
        {
            typeof(Scheduler).GetField("ThreadPool").SetValue(null, new Pool());
            if (!(Scheduler.ThreadPool is Pool)) throw new InvalidOperationException("thread pool cannot be replaced");
        }
        public static void Run(int i) { var a = Pending[i]; Pending.RemoveAt(i); a(); }
        public DateTimeOffset Now { get { return DateTimeOffset.UtcNow; } }
        public IDisposable Schedule(Action a) { Pending.Add(a); return Disposable.Empty; }
        public IDisposable Schedule(TimeSpan t, Action a) { Pending.Add(a); return Disposable.Empty; }
        public void ScheduleQueueing<T>(ICancelable c, T state, Action<T> a) { Pending.Add(() => { if (!c.IsDisposed) a(state); }); }
    }

    delegate void WayFn(QuadKey q, long id, double[] p, string tags, bool closed);

    class Session : IDisposable
    {
        public readonly Trace Log = new Trace(); public readonly MapDataLibrary Lib; public readonly Provider Files = new Provider(); public readonly MapDataStore Store; public readonly Observer[] Obs;
        public Session(int observers)
        {
            Prepare(); Lib = new MapDataLibrary(new Paths(), Log); Lib.Configure(dir + "/index"); Lib.DisableCache();
            Store = new MapDataStore(Files, Lib); Store.Register("store");
            Obs = Enumerable.Range(0, observers).Select(_ => new Observer()).ToArray();
            foreach (var o in Obs) { Store.Subscribe((UtyRx.IObserver<MapData>)o); Store.Subscribe((UtyRx.IObserver<Tile>)o); Store.Subscribe((UtyRx.IObserver<Element>)o); }
        }
        // everything requested before is done
        public void Wait() { while (Pool.Pending.Count > 0) Pool.Run(0); }
        public void Dispose() { Pool.Pending.Clear(); Lib.Dispose(); disconnect(); }
    }

    static Tile MakeTile(QuadKey q) { return new Tile(q, new Stylesheet(style), Flat, ElevationDataType.Flat); }

    // what observers get, in terms of what native code hands over
    static string Compare(Item want, MapData got, Tile tile)
    {
        string bad = null;
        if (!ReferenceEquals(got.Tile, tile)) return "data belongs to another tile";
        got.Variant.Match(e =>
        {
            if (want.Kind != "element") { bad = "an element instead of " + want; return; }
            bad = CompareElement(want, e);
        }, m =>
        {
            if (want.Kind != "mesh") { bad = "a mesh instead of " + want; return; }
            if (m.Name != want.Name || m.Vertices.Length * 3 != want.V.Length || !m.Triangles.SequenceEqual(want.T) || m.Colors.Length != want.C.Length) { bad = "mesh differs from " + want; return; }
            for (int i = 0; i < m.Vertices.Length; ++i)
            {
                var p = tile.Projection.Project(new GeoCoordinate(want.V[3 * i + 1], want.V[3 * i]), want.V[3 * i + 2]);
                if (Math.Abs(p.x - m.Vertices[i].x) > 1e-4 || Math.Abs(p.y - m.Vertices[i].y) > 1e-4 || Math.Abs(p.z - m.Vertices[i].z) > 1e-4) bad = "vertex " + i + " of " + want + " is at " + m.Vertices[i];
            }
            for (int i = 0; i < m.Colors.Length; ++i)
            {
                uint c = (uint)want.C[i]; var k = m.Colors[i];
                if (Math.Abs(k.r - (c >> 24) / 255f) > 1e-6 || Math.Abs(k.g - (c >> 16 & 255) / 255f) > 1e-6 || Math.Abs(k.b - (c >> 8 & 255) / 255f) > 1e-6 || Math.Abs(k.a - (c & 255) / 255f) > 1e-6) bad = "colour " + i + " of " + want + " is " + k;
            }
        });
        return bad;
    }

    static string CompareElement(Item want, Element e)
    {
        var got = new Item { Kind = "element", Id = e.Id, V = new double[e.Geometry.Length * 3], Tags = new SortedDictionary<string, string>(e.Tags, StringComparer.Ordinal), Styles = new SortedDictionary<string, string>(e.Styles, StringComparer.Ordinal) };
        if (e.Heights.Length != e.Geometry.Length) return "element has " + e.Heights.Length + " heights for " + e.Geometry.Length + " points";
        for (int i = 0; i < e.Geometry.Length; ++i) { got.V[3 * i] = e.Geometry[i].Longitude; got.V[3 * i + 1] = e.Geometry[i].Latitude; got.V[3 * i + 2] = e.Heights[i]; }
        return got.ToString() == want.ToString() ? null : "got " + got + ", native code has " + want;
    }

    // ------------------------------------------------------------------ histories of requests, imports and disposals
    class Request { public Tile T; public int K; public string File; public int Index; }
    static readonly string[] Names = { "get A", "get B", "load A", "load B", "dispose the last tile", "dispose the tile before", "run the oldest", "run the newest" };

    // what the observers have to be told when one request is processed
    static void Process(Session s, Request r, bool[] stored, string h, int cut, Tile victim)
    {
        foreach (var o in s.Obs) { o.Data.Clear(); o.Tiles.Clear(); }
        bool gone = r.T.IsDisposed; int n = 0;
        s.Obs[0].OnData = d => { if (n++ == cut) victim.Dispose(); };
        Pool.Run(r.Index); s.Obs[0].OnData = null;
        if (r.File != "" && !gone) stored[r.K] = true;
        var q = r.K == 0 ? A : B; Mc.Check(s.Lib.Exists(q) == stored[r.K], "{0}: data of the tile {1}", h, stored[r.K] ? "is not in the store" : "is in the store");
        var want = Raw(style, q); bool cutHere = cut >= 0 && cut < want.Count && !gone && ReferenceEquals(victim, r.T);
        if (stored[r.K]) Mc.Check(want.Count > 1, "{0}: native code has only {1} items", h, want.Count);
        for (int i = 0; i < s.Obs.Length; ++i)
        {
            var o = s.Obs[i]; int most = gone ? 0 : cutHere ? cut + 1 : want.Count, least = i == 0 || !cutHere ? most : cut;
            Mc.Check(o.Data.Count >= least && o.Data.Count <= most, "{0}: observer {1} gets {2} of {3} items, expected {4}", h, i, o.Data.Count, want.Count, most);
            for (int j = 0; j < o.Data.Count; ++j) { var bad = Compare(want[j], o.Data[j], r.T); Mc.Check(bad == null, "{0}: item {1}: {2}", h, j, bad); }
            bool done = !gone && !cutHere;
            Mc.Check(o.Tiles.Count == (done ? 1 : 0) && (!done || ReferenceEquals(o.Tiles[0], r.T)), "{0}: observer {1} is told {2} times that the tile is loaded, expected {3}", h, i, o.Tiles.Count, done ? 1 : 0);
        }
        Mc.State(Mc.Hash(h + s.Obs[0].Data.Count)); Mc.Outcome((ulong)s.Obs[0].Data.Count); Mc.Count("delivered", (ulong)s.Obs[0].Data.Count);
    }

    static void Deliveries(int depth, int observers, int[] cuts)
    {
        Mc.Words(Names.Length, depth, w =>
        {
            if (w[0] > 3) return; int waiting = 0;
            foreach (int o in w) { if (o < 4) ++waiting; else if (o > 5 && --waiting < (o == 7 ? 1 : 0)) return; }
            var word = (int[])w.Clone();
            for (int c = 0; c < cuts.Length; ++c)
            {
                int cut = cuts[c];
                Mc.Run(Mc.F("tile:{0}:{1}:{2}", observers, cut, string.Concat(word.Select(i => i.ToString()).ToArray())), () =>
                {
                    using (var s = new Session(observers))
                    {
                        var stored = new bool[2]; string h = ""; var all = new List<Request>(); var wait = new List<Request>();
                        Action<int> run = i =>
                        {
                            var r = wait[i]; wait.RemoveAt(i); r.Index = i; Mc.Check(Pool.Pending.Count == wait.Count + 1, "{0}: {1} requests are waiting, expected {2}", h, Pool.Pending.Count, wait.Count + 1);
                            // the observer disposes either the tile being delivered or the last one requested
                            Process(s, r, stored, h, cut, (cut & 1) == 0 ? r.T : all[all.Count - 1].T);
                        };
                        foreach (int op in word)
                        {
                            h += (h == "" ? "" : ", ") + Names[op]; Mc.Transition();
                            if (op < 4)
                            {
                                var r = new Request { K = op % 2, File = op >= 2 ? file : "" }; r.T = MakeTile(r.K == 0 ? A : B); all.Add(r); wait.Add(r);
                                s.Files.File = r.File; s.Store.OnNext(r.T);
                            }
                            else if (op < 6) { int i = all.Count - 1 - (op - 4); if (i >= 0) all[i].T.Dispose(); }
                            else run(op == 6 ? 0 : wait.Count - 1);
                        }
                        while (wait.Count > 0) { h += ", run"; Mc.Transition(); run(0); }
                        Mc.Check(s.Log.Errors.Count == 0, "{0}: error: {1}", h, s.Log.Errors.FirstOrDefault());
                        foreach (var r in all) r.T.Dispose();
                    }
                });
            }
        });
    }

    // ------------------------------------------------------------------ elements handed over to native code and back
    static void Elements()
    {
        string[][] tags = { new string[0], new[] { "any", "1" }, new[] { "any", "" }, new[] { "any", "ä東\U0001F600" }, new[] { "any", "a,b;c:d='\"\\ \t" }, new[] { "any", "x", "Ключ", "Ω" }, new[] { "any", "x", "k2", "v", "k1", "v", "k0", "" } };
        long[] ids = { 1, 0, 7000000000L, long.MaxValue };
        double[][] shapes = { new[] { .5, .5 }, new[] { .1, .1, .9, .8 }, new[] { .1, .1, .9, .1, .5, .7, .1, .1 }, new[] { .25, .25, .25, .75, .75, .75, .75, .25 }, new[] { .1234567, .7654321, .2, .3, .4, .5, .6, .6, .1, .9 } };
        for (int a = 0; a < tags.Length; ++a) for (int b = 0; b < ids.Length; ++b) for (int c = 0; c < shapes.Length; ++c) for (int r = 0; r < 3; ++r)
        {
            int ti = a, ii = b, si = c, ri = r;
            Mc.Run(Mc.F("element:{0}:{1}:{2}:{3}", ti, ii, si, ri), () =>
            {
                using (var s = new Session(1))
                {
                    var box = GeoUtils.QuadKeyToBoundingBox(A); var sh = shapes[si]; var g = new GeoCoordinate[sh.Length / 2];
                    for (int i = 0; i < g.Length; ++i) g[i] = new GeoCoordinate(box.MinPoint.Latitude + (box.MaxPoint.Latitude - box.MinPoint.Latitude) * sh[2 * i + 1], box.MinPoint.Longitude + (box.MaxPoint.Longitude - box.MinPoint.Longitude) * sh[2 * i]);
                    var d = new Dictionary<string, string>(); for (int i = 0; i < tags[ti].Length; i += 2) d[tags[ti][i]] = tags[ti][i + 1];
                    int lo = ri == 2 ? 15 : 16, hi = ri == 1 ? 17 : 16;
                    var e = new Element(ids[ii], g, new double[g.Length], d, new Dictionary<string, string>());
                    s.Lib.AddTo("store", e, new Stylesheet(style), new Range<int>(lo, hi), new CancellationToken());
                    Mc.Check(s.Log.Errors.Count == 0, "error: {0}", s.Log.Errors.FirstOrDefault());
                    bool shown = ti != 0; int center = 0;
                    for (int lod = 14; lod <= 18; ++lod)
                    {
                        var q = GeoUtils.CreateQuadKey(g[0], lod); bool here = shown && lod >= lo && lod <= hi && lod <= 17; Mc.Transition();
                        Mc.Check(s.Lib.Exists(q) == here, "level {0}: element is {1} store", lod, here ? "not in the" : "in the");
                        s.Obs[0].Data.Clear(); var t = MakeTile(q); s.Store.OnNext(t); s.Wait();
                        var els = new List<Element>(); foreach (var m in s.Obs[0].Data) m.Variant.Match(x => els.Add(x), x => { });
                        Mc.Check(els.Count == (here ? 1 : 0), "level {0}: {1} elements are delivered", lod, els.Count);
                        if (here)
                        {
                            var x = els[0]; ++center;
                            Mc.Check(x.Id == ids[ii], "id is {0}, expected {1}", x.Id, ids[ii]);
                            Mc.Check(x.Tags.Count == d.Count && d.All(p => x.Tags.ContainsKey(p.Key) && x.Tags[p.Key] == p.Value), "tags are {0}, expected {1}", string.Join(";", x.Tags.Select(p => p.Key + "=" + p.Value).ToArray()), string.Join(";", d.Select(p => p.Key + "=" + p.Value).ToArray()));
                            Mc.Check(x.Styles.Count == 2 && x.Styles["builder"] == "thing" && x.Styles["note"] == "plain", "styles are {0}", string.Join(";", x.Styles.Select(p => p.Key + "=" + p.Value).ToArray()));
                            // closing point of a polygon may be left out, and its direction is not kept
                            bool closed = g.Length > 2 && g[0].Equals(g[g.Length - 1]); var want = closed ? g.Take(g.Length - 1).ToList() : g.ToList(); var got = x.Geometry.ToList();
                            if (closed && got.Count == want.Count + 1 && got[0].Equals(got[got.Count - 1])) got.RemoveAt(got.Count - 1);
                            Mc.Check(got.Count == want.Count, "element has {0} points, expected {1}", got.Count, want.Count);
                            bool fwd = Enumerable.Range(0, got.Count).Any(o => (closed || o == 0) && Enumerable.Range(0, got.Count).All(i => Near(got[(i + o) % got.Count], want[i]))), back = closed && Enumerable.Range(0, got.Count).Any(o => Enumerable.Range(0, got.Count).All(i => Near(got[(got.Count - i + o) % got.Count], want[i])));
                            Mc.Check(fwd || back, "points are {0}, expected {1}", string.Join(" ", x.Geometry.Select(p => p.ToString()).ToArray()), string.Join(" ", g.Select(p => p.ToString()).ToArray()));
                            Mc.Check(x.Heights.Length == x.Geometry.Length && x.Heights.All(v => v == 0), "heights of an element on flat ground");
                        }
                        t.Dispose();
                    }
                    Mc.Outcome(Mc.F("{0}:{1}:{2}:{3}:{4}", ti, ii, si, ri, center));
                }
            });
        }
    }

    static bool Near(GeoCoordinate a, GeoCoordinate b) { return Math.Abs(a.Latitude - b.Latitude) < 1e-12 && Math.Abs(a.Longitude - b.Longitude) < 1e-12; }

    // ------------------------------------------------------------------ text search
    static void Search()
    {
        string[] terms = { "", "books", "Größe", "東京", "shop", "cars", "line", "nothing" };
        for (int a = 0; a < terms.Length; ++a) for (int o = 0; o < terms.Length; ++o) for (int n = 0; n < terms.Length; n += 3) for (int c = -2; c < 2; ++c)
        {
            int ai = a, oi = o, ni = n, ci = c;
            Mc.Run(Mc.F("search:{0}:{1}:{2}:{3}", ai, oi, ni, ci), () =>
            {
                using (var s = new Session(2))
                {
                    s.Lib.AddTo("store", file, new Stylesheet(style), A, new CancellationToken());
                    var box = GeoUtils.QuadKeyToBoundingBox(A); var query = new MapQuery(terms[ni], terms[ai], terms[oi], box, new Range<int>(16, 16));
                    var want = new List<Item>(); int cancel = 0; string error = null; RawElement e = (tag, id, tags, nt, v, nv, st, ns) => want.Add(new Item { Kind = "element", Id = id, V = Doubles(v, nv), Tags = Dict(tags, nt), Styles = Dict(st, ns) }); RawError er = m => error = Str(m);
                    getDataByText(0, Utf(terms[ni]), Utf(terms[ai]), Utf(terms[oi]), box.MinPoint.Latitude, box.MinPoint.Longitude, box.MaxPoint.Latitude, box.MaxPoint.Longitude, 16, 16, e, er, ref cancel); GC.KeepAlive(e); GC.KeepAlive(er);
                    Mc.Check(error == null && s.Log.Errors.Count == 0, "error {0} {1}", error, s.Log.Errors.FirstOrDefault());
                    if (ci == -1) query.CancelToken.SetCancelled(true);
                    int seen = 0; s.Obs[0].OnFound = x => { if (seen++ == ci) query.CancelToken.SetCancelled(true); };
                    s.Store.OnNext(query); Mc.Transition();
                    bool cut = ci >= 0 && ci < want.Count;
                    for (int i = 0; i < 2; ++i)
                    {
                        var f = s.Obs[i].Found; int most = ci == -1 ? 0 : cut ? ci + 1 : want.Count, least = cut && i > 0 ? ci : most;
                        Mc.Check(f.Count >= least && f.Count <= most, "observer {0} gets {1} of {2} elements, expected {3}", i, f.Count, want.Count, most);
                        for (int j = 0; j < f.Count; ++j) { var bad = CompareElement(want[j], f[j]); Mc.Check(bad == null, "element {0}: {1}", j, bad); }
                    }
                    Mc.Outcome((ulong)want.Count); Mc.Count("found", (ulong)want.Count);
                }
            });
        }
    }

    // ------------------------------------------------------------------ failures: everything asked for afterwards is served
    static void Failures()
    {
        string[] kinds = { "missing", "empty", "broken", "directory", "unknown" };
        for (int k = 0; k < kinds.Length; ++k) for (int m = 0; m < 3; ++m)
        {
            int ki = k, mode = m;
            Mc.Run(Mc.F("failure:{0}:{1}", kinds[ki], mode), () =>
            {
                using (var s = new Session(1))
                {
                    string bad = dir + "/bad.xml";
                    if (kinds[ki] == "missing") bad = dir + "/missing.xml"; else if (kinds[ki] == "empty") System.IO.File.WriteAllText(bad, ""); else if (kinds[ki] == "broken") System.IO.File.WriteAllText(bad, System.IO.File.ReadAllText(file).Substring(0, 700)); else if (kinds[ki] == "directory") Directory.CreateDirectory(bad = dir + "/dir.xml");
                    for (int i = 0; i < 2; ++i)
                    {
                        if (mode == 0) { s.Files.File = bad; var x = MakeTile(A); s.Store.OnNext(x); s.Wait(); x.Dispose(); }
                        else if (mode == 1) s.Lib.AddTo(kinds[ki] == "unknown" ? "other" : "store", kinds[ki] == "unknown" ? file : bad, new Stylesheet(style), A, new CancellationToken());
                        else s.Lib.AddTo(kinds[ki] == "unknown" ? "other" : "store", kinds[ki] == "unknown" ? file : bad, new Stylesheet(style), new Range<int>(16, 16), new CancellationToken());
                        Mc.Transition();
                        if (mode > 0) Mc.Check(s.Log.Errors.Count == i + 1, "error is reported {0} times", s.Log.Errors.Count);
                    }
                    s.Files.File = file; s.Obs[0].Data.Clear(); s.Obs[0].Tiles.Clear(); var t = MakeTile(B); s.Store.OnNext(t); s.Wait();
                    var want = Raw(style, B); Mc.Check(want.Count > 1 && s.Obs[0].Data.Count == want.Count && s.Obs[0].Tiles.Count == 1, "next tile gets {0} of {1} items", s.Obs[0].Data.Count, want.Count);
                    t.Dispose(); Mc.Outcome((ulong)(ki * 10 + mode));
                }
            });
        }
    }

    public static int Main(string[] args)
    {
        Mc.Init(args); Pool.Install(); bool th = Mc.Thorough;
        Registry(2, 2, th ? 8 : 6); Registry(3, 1, th ? 7 : 6); Registry(3, 2, th ? 6 : 4);
        Elements(); Search(); Failures();
        Deliveries(1, 2, new[] { -1, 0, 2, 4, 6 });
        Deliveries(2, 1, new[] { -1, 0, 1, 2, 3, 4 });
        Deliveries(3, 2, new[] { -1, 0, 1, 2, 5 });
        Deliveries(4, 1, new[] { -1, 0, 1, 2, 5 });
        Deliveries(5, 1, th ? new[] { -1, 0, 1, 2, 5 } : new[] { -1 });
        if (th) Deliveries(5, 2, new[] { -1, 1 });
        if (th) Deliveries(6, 1, new[] { 1 });
        return Mc.Finish();
    }
}
