// Managed counterpart of ../mc.hpp: bounded exhaustive exploration driver of the C# harnesses.
using System;
using System.Collections.Generic;
using System.Diagnostics;
using System.Globalization;
using System.IO;
using System.Text;
using System.Threading;

public static class Mc
{
    public class Fail : Exception { public Fail(string m) : base(m) { } }

    public static string Tier = "quick", Work, Out, Replay; public static bool ReplayMode; static bool replayHit;
    static int shard, shards = 1; static ulong seen, evaluations, nontrivial, transitions, traces; static bool capped; static double budget;
    static readonly HashSet<ulong> outcomes = new HashSet<ulong>(), states = new HashSet<ulong>();
    static readonly SortedDictionary<string, ulong> counters = new SortedDictionary<string, ulong>();
    static readonly List<string> samples = new List<string>();
    static readonly List<KeyValuePair<string, string>> violations = new List<KeyValuePair<string, string>>();
    static ulong cur; static bool curTrivial; static string curNote;
    public static double CaseLimit = 20; static readonly Stopwatch clock = Stopwatch.StartNew();
    static FileStream crumb; static double deadline = double.MaxValue;

    public static bool Thorough { get { return Tier == "thorough"; } }
    public static void Check(bool ok, string msg, params object[] a) { if (!ok) throw new Fail(F(msg, a)); }
    public static string F(string m, params object[] a) { return a.Length == 0 ? m : string.Format(CultureInfo.InvariantCulture, m, a); }
    public static ulong Hash(string s, ulong h = 1469598103934665603ul) { foreach (var c in s) { h ^= c; h *= 1099511628211ul; } return h; }
    public static void Outcome(ulong h) { cur = cur * 1000003ul ^ h; }
    public static void Outcome(string s) { Outcome(Hash(s)); }
    public static void Trivial() { curTrivial = true; }
    public static void Note(string s) { curNote = s; }
    public static void Count(string k, ulong n = 1) { ulong v; counters.TryGetValue(k, out v); counters[k] = v + n; }
    public static void Transition(ulong n = 1) { transitions += n; }
    public static void Trace(ulong n = 1) { traces += n; }
    public static void State(ulong h) { states.Add(h); }
    public static void State(string s) { states.Add(Hash(s)); }

    static bool Mine(string desc)
    {
        if (ReplayMode) { if (desc == Replay) { replayHit = true; return true; } return false; }
        return (int)(seen++ % (ulong)shards) == shard;
    }

    public static void Run(string desc, Action f)
    {
        if (!Mine(desc) || violations.Count >= 15) return;
        if (budget > 0 && clock.Elapsed.TotalSeconds > budget) { capped = true; return; }
        cur = 0; curTrivial = false; curNote = "";
        if (crumb != null) { var b = Encoding.GetEncoding("latin1").GetBytes(desc); crumb.Seek(0, SeekOrigin.Begin); crumb.Write(b, 0, b.Length); crumb.WriteByte(0); crumb.Flush(); }
        deadline = clock.Elapsed.TotalSeconds + (ReplayMode ? CaseLimit * 4 : CaseLimit);
        try { f(); }
        catch (Fail e) { violations.Add(new KeyValuePair<string, string>(desc, e.Message)); }
        catch (Exception e) { violations.Add(new KeyValuePair<string, string>(desc, "unexpected exception: " + e.ToString().Replace("\n", " | "))); }
        deadline = double.MaxValue;
        ++evaluations;
        if (!curTrivial) { ++nontrivial; outcomes.Add(cur); }
        if (samples.Count < 3 || (samples.Count < 6 && evaluations % 997 == 0)) samples.Add(Cut(desc) + (curNote == "" ? "" : " -> " + Cut(curNote)));
    }
    static string Cut(string s) { return s.Length > 300 ? s.Substring(0, 300) : s; }

    static string Esc(string s)
    {
        var r = new StringBuilder();
        foreach (var c in s) if (c == '"' || c == '\\') r.Append('\\').Append(c); else if (c < 32 || c >= 127) r.AppendFormat("\\u{0:x4}", (int)c); else r.Append(c);
        return r.ToString();
    }

    public static void Init(string[] a)
    {
        Thread.CurrentThread.CurrentCulture = CultureInfo.InvariantCulture;
        for (int i = 0; i < a.Length; ++i)
            switch (a[i])
            {
                case "--tier": Tier = a[++i]; break;
                case "--shard": shard = int.Parse(a[++i]); shards = int.Parse(a[++i]); break;
                case "--work": Work = a[++i]; break;
                case "--out": Out = a[++i]; break;
                case "--budget": budget = double.Parse(a[++i], CultureInfo.InvariantCulture); break;
                case "--replay": ReplayMode = true; Replay = a[++i]; break;
                case "--replay-file": ReplayMode = true; Replay = File.ReadAllText(a[++i], Encoding.GetEncoding("latin1")); break;
            }
        if (Work == null) { Work = "/dev/shm/mccs" + Process.GetCurrentProcess().Id; Directory.CreateDirectory(Work); }
        if (Out != null) { crumb = new FileStream(Out + ".crumb", FileMode.Create, FileAccess.Write, FileShare.ReadWrite); var s = Encoding.ASCII.GetBytes("(setup)\0"); crumb.Write(s, 0, s.Length); crumb.Flush(); }
        var t = new Thread(() => { for (;;) { Thread.Sleep(200); if (clock.Elapsed.TotalSeconds > deadline) { Console.Error.WriteLine("\nMC-HANG"); Process.GetCurrentProcess().Kill(); } } });
        t.IsBackground = true; t.Start();
    }

    public static int Finish()
    {
        if (crumb != null) { crumb.Seek(0, SeekOrigin.Begin); crumb.WriteByte(0); crumb.Flush(); }
        if (ReplayMode && !replayHit) { Console.Error.WriteLine("MC-NOCASE " + Replay); return Exit(3); }
        if (Out != null)
        {
            var s = new StringBuilder();
            s.AppendFormat("{{\"evaluations\":{0},\"nontrivial\":{1},\"transitions\":{2},\"traces\":{3},\"capped\":{4},\"states\":{5},\"counters\":{{", evaluations, nontrivial, transitions, traces, capped ? "true" : "false", states.Count);
            string sep = ""; foreach (var c in counters) { s.AppendFormat("{0}\"{1}\":{2}", sep, Esc(c.Key), c.Value); sep = ","; }
            s.Append("},\"samples\":["); sep = ""; foreach (var c in samples) { s.AppendFormat("{0}\"{1}\"", sep, Esc(c)); sep = ","; }
            s.Append("],\"violations\":["); sep = ""; foreach (var v in violations) { s.Append(sep).Append("{\"case\":\"").Append(Esc(v.Key)).Append("\",\"msg\":\"").Append(Esc(v.Value)).Append("\"}"); sep = ","; }
            s.Append("]}\n");
            Dump(".outcomes", outcomes); Dump(".states", states);
            File.WriteAllText(Out + ".tmp", s.ToString()); if (File.Exists(Out)) File.Delete(Out); File.Move(Out + ".tmp", Out);
        }
        foreach (var v in violations) Console.Error.WriteLine("MC-FAIL " + v.Key + " :: " + v.Value);
        return Exit(violations.Count == 0 ? 0 : 1);
    }
    // threads of the code under test may still wait for something
    static int Exit(int rc) { Console.Error.Flush(); Console.Out.Flush(); Environment.Exit(rc); return rc; }
    static void Dump(string suffix, HashSet<ulong> set) { using (var w = new BinaryWriter(File.Create(Out + suffix))) foreach (var h in set) w.Write(h); }

    // all words over an alphabet of size n with length exactly len
    public static void Words(int n, int len, Action<int[]> f)
    {
        var w = new int[len];
        for (;;) { f(w); int i = len - 1; while (i >= 0 && ++w[i] == n) w[i--] = 0; if (i < 0) return; }
    }
}
