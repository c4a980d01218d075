// C26: the interval tree against a plain list, after every bounded history; ranges and the shared containers against their models
using System;
using System.Collections.Generic;
using System.Linq;
using UtyMap.Unity.Infrastructure.Primitives;

public static class C26
{
    class Diff : IComparer<int> { public int Compare(int a, int b) { return (a - b) * 7; } }
    class Back : IComparer<int> { public int Compare(int a, int b) { return (b - a) * 3; } }

    struct Rng { public int F, T; public string V; }

    // what differs between the key types: how lattice point i becomes a key, and how keys are ordered
    class Kind<K>
    {
        public string Name; public Func<int, K> Key; public Func<RangeTree<K, string>> Make; public bool Reversed;
    }

    static List<Rng> all = new List<Rng>();   // all valid ranges over an even lattice 2,4,6,8,10 (odd points lie between)

    static string Show(IEnumerable<string> s) { return string.Join(",", s.ToArray()); }

    // items: what the tree holds, synced: what queries have to answer from
    static void CheckTree<K>(Kind<K> k, RangeTree<K, string> t, List<Rng> items, List<Rng> synced, string where, bool minmaxFirst, int points = 12)
    {
        if (minmaxFirst) MinMax(k, t, synced, where);
        for (int p = 1; p <= points - 1; ++p)
        {
            var got = t[k.Key(p)].Select(x => x.Value).OrderBy(x => x).ToList();
            var want = synced.Where(r => r.F <= p && p <= r.T).Select(r => r.V).OrderBy(x => x).ToList();
            Mc.Check(got.SequenceEqual(want), "{0}: items at {1} are [{2}], expected [{3}]", where, p, Show(got), Show(want));
            if (p == 5) Mc.Outcome(Show(got));
        }
        for (int p = 1; p <= points - 1; ++p)
            for (int q = p; q <= points - 1; ++q)
            {
                int a = k.Reversed ? q : p, b = k.Reversed ? p : q;
                var got = t[k.Key(a), k.Key(b)].Select(x => x.Value).OrderBy(x => x).ToList();
                var want = synced.Where(r => r.F <= q && p <= r.T).Select(r => r.V).OrderBy(x => x).ToList();
                Mc.Check(got.SequenceEqual(want), "{0}: items in {1}..{2} are [{3}], expected [{4}]", where, p, q, Show(got), Show(want));
            }
        MinMax(k, t, synced, where);
        Mc.Check(t.Count == items.Count, "{0}: count is {1}, expected {2}", where, t.Count, items.Count);
        Mc.Check(t.Values.OrderBy(x => x).SequenceEqual(items.Select(r => r.V).OrderBy(x => x)), "{0}: values differ", where);
        Mc.Check(t.Select(x => x.Value).OrderBy(x => x).SequenceEqual(items.Select(r => r.V).OrderBy(x => x)), "{0}: enumeration differs", where);
        var arr = new RangeValuePair<K, string>[items.Count + 1]; t.CopyTo(arr, 1);
        Mc.Check(arr.Skip(1).Select(x => x.Value).OrderBy(x => x).SequenceEqual(items.Select(r => r.V).OrderBy(x => x)), "{0}: copy differs", where);
        foreach (var r in all.Take(4)) Mc.Check(t.Contains(Pair(k, r)) == items.Any(i => i.F == r.F && i.T == r.T && i.V == r.V), "{0}: Contains {1}..{2}", where, r.F, r.T);
    }

    static void MinMax<K>(Kind<K> k, RangeTree<K, string> t, List<Rng> synced, string where)
    {
        int lo = synced.Count == 0 ? 0 : synced.Min(r => r.F), hi = synced.Count == 0 ? 0 : synced.Max(r => r.T);
        if (k.Reversed) { int x = lo; lo = hi; hi = x; }
        K min = synced.Count == 0 ? default(K) : k.Key(lo), max = synced.Count == 0 ? default(K) : k.Key(hi);
        Mc.Check(Equals(t.Min, min), "{0}: minimum is {1}, expected {2}", where, t.Min, min);
        Mc.Check(Equals(t.Max, max), "{0}: maximum is {1}, expected {2}", where, t.Max, max);
    }

    static RangeValuePair<K, string> Pair<K>(Kind<K> k, Rng r) { return k.Reversed ? new RangeValuePair<K, string>(k.Key(r.T), k.Key(r.F), r.V) : new RangeValuePair<K, string>(k.Key(r.F), k.Key(r.T), r.V); }

    static void Sets<K>(Kind<K> k, int max, int min)
    {
        var pick = new List<int>();
        Action<int> rec = null;
        rec = from =>
        {
            if (pick.Count >= min)
            {
                var order = pick.ToArray();
                for (int o = 0; o < (pick.Count < 2 ? 1 : 2); ++o)
                {
                    var ids = o == 0 ? order : order.Reverse().ToArray();
                    Mc.Run(k.Name + ":set:" + string.Join(",", ids.Select(i => i.ToString()).ToArray()), () =>
                    {
                        var t = k.Make(); var items = new List<Rng>();
                        for (int i = 0; i < ids.Length; ++i) { var r = all[ids[i]]; r.V += "#" + i; items.Add(r); t.Add(Pair(k, r)); Mc.Transition(); }
                        CheckTree(k, t, items, items, "after adding", ids.Sum() % 2 == 0);
                        // empty it again one by one
                        while (items.Count > 0)
                        {
                            var r = items[items.Count / 2]; items.RemoveAt(items.Count / 2);
                            Mc.Check(t.Remove(Pair(k, r)), "item {0}..{1} cannot be removed", r.F, r.T);
                            Mc.Check(!t.Remove(Pair(k, r)), "item {0}..{1} is removed twice", r.F, r.T); Mc.Transition(2);
                            MinMax(k, t, items, "after removal");
                            for (int p = 1; p < 12; ++p) Mc.Check(t[k.Key(p)].Count() == items.Count(x => x.F <= p && p <= x.T), "after removal: number of items at {0}", p);
                        }
                    });
                }
            }
            if (pick.Count == max) return;
            for (int i = from; i < all.Count; ++i) { pick.Add(i); rec(i); pick.RemoveAt(pick.Count - 1); }
        };
        rec(0);
    }

    static void Histories<K>(Kind<K> k, int depth, bool auto, int[] ranges)
    {
        int n = ranges.Length, ops = 2 * n + 4;
        Mc.Words(ops, depth, w =>
        {
            var word = (int[])w.Clone();
            Mc.Run(k.Name + (auto ? ":seq:" : ":manual:") + string.Join(",", word.Select(i => i.ToString()).ToArray()), () =>
            {
                var t = k.Make(); t.AutoRebuild = auto; var items = new List<Rng>(); var synced = new List<Rng>();
                string h = "";
                foreach (int op in word)
                {
                    Mc.Transition();
                    if (op < n) { var r = all[ranges[op]]; items.Add(r); t.Add(Pair(k, r)); h += "+" + op; }
                    else if (op < 2 * n)
                    {
                        var r = all[ranges[op - n]]; int at = items.FindIndex(x => x.F == r.F && x.T == r.T); bool was = at >= 0; if (was) items.RemoveAt(at);
                        Mc.Check(t.Remove(Pair(k, r)) == was, "{0}: removal reported wrongly", h); h += "-" + (op - n);
                    }
                    else if (op == 2 * n) { t.Clear(); items.Clear(); synced.Clear(); h += "C"; Mc.Check(t.IsInSync, "{0}: cleared tree is out of sync", h); }
                    else if (op == 2 * n + 1)
                    {   // a query in between
                        if (auto) synced = items.ToList();
                        Mc.Check(t[k.Key(4)].Count() == synced.Count(x => x.F <= 4 && 4 <= x.T), "{0}: items at 4", h); h += "Q";
                    }
                    else if (op == 2 * n + 2) { t.Rebuild(); synced = items.ToList(); h += "R"; Mc.Check(t.IsInSync, "{0}: rebuilt tree is out of sync", h); }
                    else { if (auto) synced = items.ToList(); MinMax(k, t, synced, h); h += "M"; }
                    Mc.State(string.Join(";", items.Select(x => x.F + "-" + x.T).OrderBy(x => x).ToArray()) + "|" + string.Join(";", synced.Select(x => x.F + "-" + x.T).OrderBy(x => x).ToArray()) + auto);
                    Mc.Check(t.Count == items.Count, "{0}: count is {1}, expected {2}", h, t.Count, items.Count);
                }
                if (auto) synced = items.ToList();
                CheckTree(k, t, items, synced, h, false);
            });
        });
    }

    static void Invalid<K>(Kind<K> k)
    {
        for (int f = 1; f < 12; ++f) for (int g = 1; g < 12; ++g)
        {
            int a = f, b = g;
            Mc.Run(k.Name + ":valid:" + a + "-" + b, () =>
            {
                var t = k.Make(); bool threw = false; var x = k.Reversed ? b : a; var y = k.Reversed ? a : b;
                try { t.Add(k.Key(x), k.Key(y), "v"); } catch (ArgumentOutOfRangeException) { threw = true; }
                Mc.Check(threw == a > b, "range {0}..{1} is {2}", a, b, threw ? "rejected" : "accepted");
                Mc.Check(t.Count == (threw ? 0 : 1), "count after adding {0}..{1} is {2}", a, b, t.Count);
                Mc.Outcome((ulong)(a * 100 + b));
            });
        }
    }

    static void AllOf<K>(Kind<K> k, int sets, int depth)
    {
        Invalid(k);
        Sets(k, sets, 0);
        Histories(k, depth, true, new[] { 2, 4, 9 });
        Histories(k, depth, false, new[] { 2, 4, 9 });
        Histories(k, depth, true, new[] { 0, 13, 7 });
    }

    public static int Main(string[] args)
    {
        Mc.Init(args);
        for (int f = 2; f <= 10; f += 2) for (int t = f; t <= 10; t += 2) all.Add(new Rng { F = f, T = t, V = f + "-" + t });
        bool th = Mc.Thorough;
        AllOf(new Kind<float> { Name = "float", Key = i => i - 4.5f, Make = () => new RangeTree<float, string>() }, th ? 6 : 4, th ? 5 : 4);
        AllOf(new Kind<int> { Name = "diff", Key = i => i * 3, Make = () => new RangeTree<int, string>(new Diff()) }, th ? 4 : 3, th ? 5 : 3);
        AllOf(new Kind<int> { Name = "back", Key = i => i, Make = () => new RangeTree<int, string>(new Back()), Reversed = true }, 3, 3);
        AllOf(new Kind<string> { Name = "string", Key = i => ((char)('a' + 2 * i)).ToString(), Make = () => new RangeTree<string, string>(StringComparer.Ordinal) }, 3, 3);
        Ranges(); Containers(th ? 6 : 5);
        return Mc.Finish();
    }

    static void Ranges()
    {
        for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b)
        {
            int f = a, t = b;
            Mc.Run("range:" + f + "-" + t, () =>
            {
                var r = new Range<int>(f, t);
                Mc.Check(r.Minimum == f && r.Maximum == t && r.IsValid() == f <= t, "range {0}..{1}", f, t);
                for (int v = -1; v < 6; ++v) Mc.Check(r.Contains(v) == (f <= v && v <= t), "{0}..{1} contains {2}", f, t, v);
                for (int c = 0; c < 5; ++c) for (int d = 0; d < 5; ++d)
                {
                    var s = new Range<int>(c, d); bool inside = f <= t && c <= d && c <= f && t <= d;
                    Mc.Check(r.IsInside(s) == inside, "{0}..{1} inside {2}..{3}", f, t, c, d);
                    Mc.Check(s.Contains(r) == inside, "{2}..{3} contains {0}..{1}", f, t, c, d);
                    Mc.Transition(2);
                }
                Mc.Outcome((ulong)(f * 10 + t));
            });
        }
    }

    static void Containers(int depth)
    {
        // 3 keys: add, remove, look at; clear
        Mc.Words(7, depth, w =>
        {
            var word = (int[])w.Clone();
            Mc.Run("cont:" + string.Concat(word.Select(i => i.ToString()).ToArray()), () =>
            {
                var s = new SafeHashSet<long>(); var d = new SafeDictionary<long, int>(); var m = new Dictionary<long, int>(); int stamp = 0;
                foreach (int op in word)
                {
                    long key = op % 3; ++stamp; Mc.Transition();
                    if (op < 3) { bool n = !m.ContainsKey(key); if (n) m[key] = stamp; Mc.Check(s.Add(key) == n && d.TryAdd(key, stamp) == n, "adding {0} reported wrongly", key); }
                    else if (op < 6) { bool o = m.Remove(key); Mc.Check(s.Remove(key) == o && d.TryRemove(key) == o, "removing {0} reported wrongly", key); }
                    else { s.Clear(); d.Clear(); m.Clear(); }
                    for (long k = 0; k < 3; ++k)
                    {
                        int v, x; bool has = m.TryGetValue(k, out x);
                        Mc.Check(s.Contains(k) == has, "set contains {0}: {1}", k, !has);
                        Mc.Check(d.TryGetValue(k, out v) == has && (!has || v == x), "dictionary value of {0}", k);
                    }
                    Mc.Check(s.Count == m.Count && s.OrderBy(x => x).SequenceEqual(m.Keys.OrderBy(x => x)), "content of the set");
                    Mc.State("cont" + string.Join(",", m.Keys.OrderBy(x => x).Select(x => x.ToString()).ToArray()));
                }
                Mc.Outcome(string.Join(",", m.OrderBy(x => x.Key).Select(x => x.Key + "=" + x.Value).ToArray()));
            });
        });
    }
}
