//BUILD variant=asan
// C07: the same data written as XML, PBF, GeoJSON tiles and shape files in many layouts, imported and compared with the data itself.
#include "fmtw.hpp"
static imp::Importer *im; static std::string dir;
static std::vector<std::string> load(const Data &d, const std::string &path) {
  std::vector<std::string> got; std::set<long> ids; for (auto &w : d.ways) ids.insert(w.id);
  im->load(path, [&](const Element &e) { Canon c(*im, ids); e.accept(c); got.push_back(c.out); });
  std::sort(got.begin(), got.end()); return got;
}

// ---------------------------------------------------------------- data sets
static const double Places[][2] = {{52, 13}, {-33, 151}, {-22, -43}, {40, -74}, {0.5, 0.5}, {-0.5, -179.5}, {84.5, 179.5}, {-84.5, 0.25}};
static const std::vector<Tags> TagSets = {
  {}, {{"k", "v"}}, {{"name", "Stra\xc3\x9f" "e \xe6\x9d\xb1\xe4\xba\xac"}, {"b", "1"}, {"a", "2"}}, {{"name", "Fish & Chips <\"best\"> 'x'"}}, {{"a&b", "&amp;"}, {"x;y:z_-.", "a = b; c"}, {"e", " two  spaces "}}, {{"aa", "1"}, {"a", "a"}, {"ab", "aa"}, {"b", "a"}, {"long", std::string(300, 'x')}}, {{"note", ""}, {"x", "y"}},
};
static const int Shapes = 16;
static Data shape(int s, const Tags &t, const Tags &t2) {
  Data d;
  switch (s) {
    case 0: d.nodes = {{1, {1, 2}, t}}; break;
    case 1: d.nodes = {{1, {1, 2}, t}, {2, {3, 4}, {}}, {3, {-5, -6}, t2}}; break;
    case 2: d.nodes = {{9, {1, 2}, {}}, {3, {3, 4}, t}, {7000000001L, {5, 6}, t2}, {4, {-3, 4}, {}}}; break;
    case 3: d.ways = {{1, {{0, 0}, {0, 4}}, t}}; break;
    case 4: d.ways = {{1, {{0, 0}, {0, 4}, {4, 4}, {4, 0}, {0, 0}}, t}}; break;
    case 5: d.ways = {{1, {{0, 0}, {4, 0}, {4, 4}, {0, 4}, {0, 0}}, t}}; break;
    case 6: d.ways = {{1, {{0, 0}, {4, 0}, {4, 4}, {0, 0}}, t}, {2, {{7, 7}, {7, 8}, {7, 7}}, t2}}; break;
    case 7: d.ways = {{3000000000L, {{0, 0}, {0, 4}, {4, 4}}, t}, {2, {{4, 4}, {0, 4}, {-9, -9}}, t2}, {5, {{4, 4}}, t}}; break;
    case 8: d.nodes = {{1, {1, 2}, t}}; d.ways = {{1, {{0, 0}, {0, 4}}, t2}}; d.rels = {{1, 'p', {{'n', 1, "via"}, {'w', 1, "from & to"}}, t}}; break;
    case 9: d.ways = {{1, {{0, 0}, {0, 9}, {9, 9}, {9, 0}, {0, 0}}, t}, {2, {{2, 2}, {2, 4}, {4, 4}, {4, 2}, {2, 2}}, t2}}; d.rels = {{1, 'm', {{'w', 1, "outer"}, {'w', 2, "inner"}}, {{"type", "multipolygon"}, {"landuse", "x"}}}}; break;
    case 10: d.ways = {{1, {{0, 0}, {0, 9}, {9, 9}}, t}, {2, {{9, 9}, {9, 0}, {0, 0}}, t2}}; d.rels = {{1, 'm', {{'w', 2, "outer"}, {'w', 1, "outer"}}, {{"type", "multipolygon"}, {"landuse", "x"}}}}; break;
    case 11: d.nodes = {{4000000005L, {1, 2}, t}}; d.rels = {{8, 'p', {{'r', 9, ""}, {'n', 4000000005L, "a"}}, t2}, {9, 'p', {{'n', 4000000005L, ""}, {'n', 17, "gone"}}, t}}; break;
    case 12: d.nodes = {{1, {1, 2}, t}}; d.ways = {{2, {{0, 0}, {0, 9}, {9, 9}, {9, 0}, {0, 0}}, t}, {3, {{0, 0}, {0, 9}, {5, 9}, {5, 0}, {0, 0}}, t2}}; d.rels = {{5, 'b', {{'w', 2, "outline"}, {'w', 3, "part"}, {'n', 1, "entrance"}}, {{"type", "building"}, {"building", "yes"}}}}; break;
    case 13: for (int i = 0; i < 60; ++i) d.nodes.push_back({100 + (i * 37) % 60 * (i % 2 ? 1 : 1000), {i * 13 % 61 - 30, i * 29 % 59 - 30}, i % 3 == 1 ? t : i % 5 == 2 ? t2 : Tags{}}); break;
    case 14: d.ways = {{1, {}, t}}; for (int i = 0; i < 200; ++i) d.ways[0].p.push_back({i * 17 % 211 - 100, i * 5 % 199 - 100}); break;
    case 15: for (int i = 0; i < 20; ++i) { d.ways.push_back({10 + i, {{i, 0}, {i + 1, i}, {0, 30}}, i % 2 ? t : t2}); d.rels.push_back({10 + i, 'p', {{'w', 10 + i, "r"}, {'w', 10 + (i + 7) % 20, ""}}, i % 2 ? t2 : t}); } break;
  }
  for (auto &w : d.ways) for (auto &p : w.p) d.at(p);
  return d;
}
static void check(int place, int s, int ti, const std::string &file, const std::string &name, const std::function<std::string(const Data &)> &write) {
  mc::run(mc::fmt("place %d shape %d tags %d %s", place, s, ti, name.c_str()), [&] {
    Y0 = Places[place][0]; X0 = Places[place][1]; Data d = shape(s, TagSets[ti], TagSets[(ti + 1) % TagSets.size()]);
    Expect e(d); if (s == 9 || s == 10) { Pts o = oriented({{0, 0}, {0, 9}, {9, 9}, {9, 0}}, true); std::vector<Pts> in; if (s == 9) in.push_back(oriented({{2, 2}, {2, 4}, {4, 4}, {4, 2}}, false)); e.rings[1] = groups({{o, in}}); }
    std::string f = dir + "/" + file; mc::writeFile(f, write(d)); compare(load(d, f), e.all());
  });
}
static void xmlPart() {
  std::vector<XmlLayout> all; for (int ws = 0; ws < 3; ++ws) for (int a = 0; a < 4; ++a) for (int b = 0; b < 2; ++b) for (int h = 0; h < 2; ++h) for (int e = 0; e < 3; ++e) for (int s = 0; s < 2; ++s) all.push_back({ws, a, b, h, e, s});
  for (int p = 0; p < 8; ++p) for (int s = 0; s < Shapes; ++s) for (int t = 0; t < int(TagSets.size()); ++t) for (size_t i = 0; i < all.size(); ++i) {
    if (!mc::thorough() && p > 1 && (i + p + s) % 12) continue;
    auto &l = all[i]; check(p, s, t, "d.xml", mc::fmt("xml ws%d attrs%d bounds%d head%d esc%d self%d", l.ws, l.attrs, l.bounds, l.head, l.esc, l.self), [&](const Data &d) { return xml(d, l); });
  }
}
static void pbfPart() {
  std::vector<PbfLayout> all; for (int g : {100, 1000, 1, 50000}) for (long o : {0L, 5000000000L, -1000000L}) for (int de = 0; de < 3; ++de) for (int b = 0; b < 4; ++b) for (int z = 0; z < 3; ++z) all.push_back({g, o, de, b, z});
  size_t n = 0;
  for (int p = 0; p < 8; ++p) for (int s = 0; s < Shapes; ++s) for (int t = 0; t < int(TagSets.size()); ++t) for (size_t i = 0; i < all.size(); ++i) {
    bool full = t == 2 && p == 2 && (s == 1 || s == 8 || s == 13);   // every layout; otherwise a varying one in 27 (thorough: in 6)
    if (!full && (n++ * 7 + p + s + t) % (mc::thorough() ? 12 : 109)) continue;
    auto &l = all[i]; check(p, s, t, "d.pbf", mc::fmt("pbf gran%d off%ld dense%d blocks%d zip%d", l.gran, l.off, l.dense, l.blocks, l.zip), [&](const Data &d) { return pbf(d, l); });
  }
}

static std::string expectRings(const std::vector<Pts> &poly) { std::string s; for (auto &r : poly) { bool closed = r.size() > 3 && r.front() == r.back(); s += (closed ? "a0{}" + Loose::ring(r) : "w0{}" + Loose::line(r)) + ";"; } return s; }
static std::string expect(const Feature &f) {
  Tags t = f.t; t.push_back({"feature", f.layer}); std::string id = f.id.empty() ? "0" : f.id[0] == '-' ? f.id.substr(1) : f.id, h = id + txt(t);
  switch (f.kind) {
    case 'P': return "n" + h + txt(Pts{f.g[0][0][0]});
    case 'L': return "w" + h + Loose::line(f.g[0][0]);
    case 'Z': { std::string s = "r" + h + "["; for (auto &p : f.g) s += p.size() == 1 ? expectRings(p) : "r0{}[" + expectRings(p) + "];"; return s + "]"; }
    default: { auto &p = f.g[0]; if (p.size() == 1) { bool closed = p[0].size() > 3 && p[0].front() == p[0].back(); return (closed ? "a" : "w") + h + (closed ? Loose::ring(p[0]) : Loose::line(p[0])); } return "r" + h + "[" + expectRings(p) + "]"; }
  }
}
static void jsonPart() {
  Pts sq = {{0, 0}, {0, 9}, {9, 9}, {9, 0}, {0, 0}}, hole = {{2, 2}, {4, 2}, {4, 4}, {2, 4}, {2, 2}}, far = {{20, 20}, {25, 20}, {25, 25}, {20, 20}}, l1 = {{0, 0}, {5, 5}, {7, 1}}, l2 = {{1, 1}, {-8, -9}};
  struct G { char k; std::vector<std::vector<Pts>> g; };
  std::vector<G> gs = {{'P', {{{{3, -4}}}}}, {'L', {{l1}}}, {'L', {{l2}}}, {'L', {{sq}}}, {'M', {{l1, l2}}}, {'M', {{l1}}}, {'M', {{sq, l2}}}, {'Y', {{sq}}}, {'Y', {{sq, hole}}}, {'Y', {{far}}}, {'Z', {{sq}, {far}}}, {'Z', {{sq, hole}, {far}}}, {'Z', {{sq, hole}}}, {'Z', {{far}}}};
  for (int place = 0; place < 8; ++place) for (size_t a = 0; a < gs.size(); ++a) for (int b = -1; b < int(gs.size()); ++b) for (int t = 0; t < int(TagSets.size()); ++t) for (int lay = 0; lay < 8; ++lay) {
    if (!mc::thorough() && place > 1 && (place + a + b + t + lay) % 8) continue;
    mc::run(mc::fmt("json place %d first %zu second %d tags %d layout %d", place, a, b, t, lay), [&] {
      Y0 = Places[place][0]; X0 = Places[place][1]; std::vector<Feature> fs = {{"roads", gs[a].k, gs[a].g, TagSets[t], t == 0 ? "" : "12345678901"}};
      if (b >= 0) fs.push_back({b % 2 ? "roads" : "water", gs[b].k, gs[b].g, TagSets[(t + 2) % TagSets.size()], "-77"});
      std::vector<std::string> want, got; for (auto &f : fs) want.push_back(expect(f)); std::sort(want.begin(), want.end());
      std::string f = dir + "/d.json"; mc::writeFile(f, json(fs, lay)); im->load(f, [&](const Element &e) { Loose l(*im); e.accept(l); got.push_back(l.out); });
      std::sort(got.begin(), got.end()); compare(got, want);
    });
  }
}

static void shapePart() {
  std::vector<Field> all = {{"NAME", FTString, 40, 0}, {"COUNT", FTInteger, 9, 0}, {"SIZE", FTDouble, 18, 6}, {"FLAG", FTLogical, 1, 0}};
  std::vector<std::vector<std::string>> values = {{"road", "x y", "Stra\xc3\x9f" "e", ""}, {"7", "-12345678", "", "0"}, {"0.5", "12345678.25", "-3.125", ""}, {"T", "", "F", "T"}};
  Pts sq = {{0, 0}, {9, 0}, {9, 9}, {0, 9}, {0, 0}}, hole = {{2, 2}, {2, 4}, {4, 4}, {4, 2}, {2, 2}}, far = {{20, 20}, {25, 20}, {25, 25}, {20, 20}}, l1 = {{0, 0}, {5, 5}, {7, 1}}, l2 = {{1, 1}, {-8, -9}};
  std::map<int, std::vector<std::vector<Pts>>> geo = {{1, {{{{3, -4}}}, {{{0, 0}}}, {{{-7, 8}}}}}, {3, {{l1}, {l2}, {sq}, {far}}}, {5, {{sq}, {sq, hole}, {far}, {sq, far}}}};
  for (int place = 0; place < 8; ++place) for (auto &g : geo) for (int dim : {0, 10, 20}) for (int mask = 1; mask < 16; ++mask) for (int n = 1; n <= 3; ++n) for (size_t first = 0; first < g.second.size(); ++first) for (int v = 0; v < 4; ++v) {
    if (!mc::thorough() && place > 1 && (place + mask + int(first) + v) % 6) continue;
    mc::run(mc::fmt("shape place %d type %d fields %d records %d from %zu values %d", place, g.first + dim, mask, n, first, v), [&] {
      Y0 = Places[place][0]; X0 = Places[place][1]; std::vector<Field> fs; std::vector<int> fi; for (int i = 0; i < 4; ++i) if (mask >> i & 1) { fs.push_back(all[i]); fi.push_back(i); }
      std::vector<Record> recs; std::vector<std::string> want, got;
      for (int k = 0; k < n; ++k) {
        Record r; r.parts = g.second[(first + k) % g.second.size()]; Tags t; for (int i : fi) { auto &x = values[i][(v + k) % 4]; r.values.push_back(x); if (!x.empty()) t.push_back({all[i].name, i == 2 ? "#" + mc::fmt("%.15g", atof(x.c_str())) : x}); }
        recs.push_back(r); std::string h = "0" + txt(t);
        if (g.first == 1) want.push_back("n" + h + txt(r.parts[0])); else if (g.first == 3) { auto &p = r.parts[0]; want.push_back((p.front() == p.back() ? "a" + h + Loose::ring(p) : "w" + h + Loose::line(p))); } else { std::string s = "r" + h + "["; for (auto &p : r.parts) s += "a0{}" + Loose::ring(p) + ";"; want.push_back(s + "]"); }
      }
      std::string f = dir + "/d.shp"; for (const char *x : {".shp", ".shx", ".dbf"}) unlink((dir + "/d" + x).c_str());
      writeShape(f, g.first + dim, fs, recs);
      struct Num : Loose { using Loose::Loose; };
      im->load(f, [&](const Element &e) { Loose l(*im); e.accept(l); std::string s = l.out; size_t a = s.find("SIZE="); if (a != std::string::npos) { size_t b = s.find(',', a); s = s.substr(0, a + 5) + "#" + mc::fmt("%.15g", atof(s.substr(a + 5, b - a - 5).c_str())) + s.substr(b); } got.push_back(s); });
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); compare(got, want);
    });
  }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); imp::Importer importer(mc::scratch("st")); im = &importer; dir = mc::scratch("f");
  shapePart(); jsonPart(); xmlPart(); pbfPart();
  return mc::finish();
}
