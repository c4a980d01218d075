// C11: a tile delivered with the mesh cache is the tile delivered without it; cached meshes and elements read back as written.
//BUILD variant=asan
#include "world.hpp"
#include "builders/BuilderContext.hpp"
#include "builders/MeshCache.hpp"
#include "heightmap/FlatElevationProvider.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
using namespace uty; using namespace utymap::builders; using namespace utymap::mapcss; using namespace utymap::math;

// ---- round trip through a cache file
struct Sheet { StringTable st; StyleSheet ss; StyleProvider sp; MeshPool pool; utymap::heightmap::FlatElevationProvider ele; CancellationToken token; explicit Sheet(const std::string &css) : st(mc::scratch("st")), ss(MapCssParser("").parse(css)), sp(ss, st) {} };
static std::string text(const Mesh &m) { std::string s = "[" + m.name + "]"; auto num = [&](const std::vector<double> &v) { for (double d : v) { float f = (float)d; s += mc::fmt("%a,", (double)f); } s += ";"; }; auto in = [&](const std::vector<int> &v) { for (int d : v) s += mc::fmt("%d,", d); s += ";"; }; num(m.vertices); in(m.triangles); in(m.colors); num(m.uvs); in(m.uvMap); return s; }
struct Item { std::shared_ptr<Mesh> mesh; El el; };
static void roundTrip(Sheet &sh, const std::string &dir, const QuadKey &q, const std::vector<Item> &items) {
  std::vector<std::string> first, second, again; std::vector<std::string> *to = &first; MeshCache cache(dir, "x");
  auto ctx = [&] { return BuilderContext(q, sh.sp, sh.st, sh.pool, sh.ele, [&](const Mesh &m) { to->push_back(text(m)); }, [&](const Element &e) { to->push_back(show(e)); }, sh.token); };
  std::vector<std::string> want; for (auto &i : items) want.push_back(i.mesh ? text(*i.mesh) : show(*i.el));
  BuilderContext c = ctx(); if (cache.fetch(c)) mc::fail("something was cached before"); if (!first.empty()) mc::fail("delivered from nothing");
  { BuilderContext w = cache.wrap(c); for (auto &i : items) if (i.mesh) w.meshCallback(*i.mesh); else w.elementCallback(*i.el);
    BuilderContext c2 = ctx(); to = &again; if (cache.fetch(c2) || !again.empty()) mc::fail("unfinished entry is delivered"); to = &first; cache.unwrap(w); }
  if (first != want) mc::fail("delivered %s while caching, expected %s", join(first).c_str(), join(want).c_str());
  to = &second; if (!cache.fetch(c)) mc::fail("nothing is cached of %s", join(want).c_str()); if (second != want) mc::fail("read back %s, expected %s", join(second).c_str(), join(want).c_str());
  MeshCache other(dir, "x"); to = &again; if (!other.fetch(c) || again != want) mc::fail("another session reads back %s, expected %s", join(again).c_str(), join(want).c_str());
  MeshCache ext(dir, "y"); again.clear(); if (ext.fetch(c) || !again.empty()) mc::fail("entry of another builder is delivered");
  mc::transition(); mc::outcome(join(want));
}

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(200); bool th = mc::thorough();
  std::unique_ptr<World> wp; auto world = [&]() -> World & { if (!wp) wp.reset(new World()); return *wp; };
  std::map<std::string, std::string> ref; auto refs = [&] { if (!ref.empty()) return; Driver d(world(), mc::scratch("ref"), false); for (int t = 0; t < 4; ++t) for (int s = 0; s < 6; ++s) for (int e = 0; e < 3; ++e) { Req r{t, s, e}; std::string x = d.get(r); if (x.find("mesh") == std::string::npos || x.find("error") != std::string::npos) mc::fail("reference of %s: %s", nameOf(r).c_str(), x.c_str()); ref[nameOf(r)] = x; } };
  auto reference = [&](const Req &r) -> const std::string & { return ref[nameOf(r)]; };
  int serial = 0;
  auto history = [&](const std::vector<std::function<void(Driver &, std::string &)>> &ops) { refs(); std::string dir = mc::scratch("h"); Driver d(world(), dir, true); std::string log; for (auto &o : ops) o(d, log); mc::transition(ops.size()); ++serial; };
  auto req = [&](Req r) { return [&reference, r](Driver &d, std::string &log) { log += nameOf(r) + " "; std::string x = d.get(r); const std::string &y = reference(r); if (x != y) mc::fail("after %s: delivered %s, without cache %s", log.c_str(), x.c_str(), y.c_str()); mc::outcome(x); }; };
  typedef std::function<void(Driver &, std::string &)> Op;
  Op restart = [](Driver &d, std::string &log) { log += "restart "; d.start(); }, off = [](Driver &d, std::string &log) { log += "off "; d.cache = false; enableMeshCache(0); }, on = [](Driver &d, std::string &log) { log += "on "; d.cache = true; enableMeshCache(1); };
  // every request is different enough from its neighbours: otherwise interference cannot be seen
  mc::run("distinct", [&] { refs(); std::map<std::string, std::string> seen; for (int t = 0; t < 3; ++t) for (int s = 0; s < 6; ++s) { if (s == 3 && t != 2) continue; if (s == 5 && t == 1) continue; for (int e = 0; e < 3; ++e) { Req r{t, s, e}; auto i = seen.insert({reference(r), nameOf(r)}); if (!i.second) mc::fail("%s and %s cannot be told apart", i.first->second.c_str(), nameOf(r).c_str()); } } mc::outcome(seen.size()); });
  // all pairs of requests over everything, second one also after a restart; third one repeats the first
  std::vector<Req> all; for (int t = 0; t < 4; ++t) for (int s = 0; s < 6; ++s) for (int e = 0; e < 3; ++e) all.push_back({t, s, e});
  for (size_t i = 0; i < all.size(); ++i) mc::run("pairs:" + nameOf(all[i]), [&] { for (size_t j = 0; j < all.size(); ++j) { if (!th && (i * 7 + j) % 3 && all[i].tile != all[j].tile) continue; std::vector<Op> ops{req(all[i]), req(all[j])}; if ((i + j) % 2) ops.push_back(restart); ops.push_back(req(all[i])); ops.push_back(req(all[j])); history(ops); } });
  // all words over a small alphabet
  std::vector<Op> alpha{req({0, 0, 0}), req({2, 0, 0}), req({0, 1, 0}), req({0, 0, 2}), restart, off, on};
  for (int len = 3; len <= (th ? 5 : 4); ++len) for (int f = 0; f < 7; ++f) for (int g = 0; g < 7; ++g) mc::run(mc::fmt("words:%d:%d%d", len, f, g), [&] { mc::words(7, len - 2, [&](const std::vector<int> &w) { std::vector<Op> ops{alpha[f], alpha[g]}; for (int x : w) ops.push_back(alpha[x]); if (w.back() > 3) return; history(ops); }); });

  // meshes
  { std::vector<std::vector<double>> D{{}, {0}, {1.5, -2.25, 3}, {52.123456789, 1e-30, -1e30, 0.1}, std::vector<double>(9, 1), std::vector<double>(10, 2), std::vector<double>(13, .5), std::vector<double>(32, 7), std::vector<double>(300, 3)};
    std::vector<std::vector<int>> I{{}, {0}, {1, -1, 2147483647, -2147483647 - 1}, {32, 10, 13, 9, 538976288}, std::vector<int>(10, 1), std::vector<int>(32, 2), std::vector<int>(256, 3)};
    std::vector<std::string> N{"", "a", "terrain_surface", " lead", "tab\tnew\nline", "\xc3\xa9\xff", std::string(300, 'n')};
    auto mesh = [](const std::string &n, const std::vector<double> &v, const std::vector<int> &t, const std::vector<int> &c, const std::vector<double> &u, const std::vector<int> &m) { auto r = std::make_shared<Mesh>(n); r->vertices = v; r->triangles = t; r->colors = c; r->uvs = u; r->uvMap = m; return r; };
    for (size_t n = 0; n < N.size(); ++n) mc::run(mc::fmt("mesh:%zu", n), [&] { Sheet sh("area|z1[a]{b:c;}"); std::string dir = mc::scratch("c"); mc::mkdirs(dir + "/cache/" + sh.sp.getTag() + "/16"); int k = 0;
      for (size_t v = 0; v < D.size(); ++v) for (size_t u = 0; u < D.size(); ++u) for (size_t t = 0; t < I.size(); ++t) { if (!th && (v + u + t + n) % 4) continue; size_t c = (v + 2 * u + t) % I.size(), m = (u + 3 * t) % I.size(); roundTrip(sh, dir, QuadKey(16, 100 + k % 200, 100 + k / 200), {{mesh(N[n], D[v], I[t], I[c], D[u], I[m]), nullptr}}); ++k; } });
    // elements and mixtures
    mc::run("elements", [&] { Sheet sh("area|z1[a]{b:c;}"); std::string dir = mc::scratch("c"); mc::mkdirs(dir + "/cache/" + sh.sp.getTag() + "/16"); auto &st = sh.st; std::vector<El> E; std::vector<Tags> T{{}, {{"k", "v"}}, {{"k", ""}, {"", "w"}, {"z", "v"}}};
      for (int i = 0; i < 40; ++i) st.getId(mc::fmt("filler%d", i));   // ids which look like white space
      for (uint64_t id : {0ull, 9ull, 10ull, 32ull, 0x2020202020202020ull, ~0ull}) for (auto &t : T) { E.push_back(node(st, id, t, {1.25, -3})); for (int n : {0, 1, 2, 5, 10, 32}) { Coords c; for (int i = 0; i < n; ++i) c.push_back({52.1 + i, 13.4 - i}); E.push_back(way(st, id, t, c)); E.push_back(area(st, id, t, c)); } }
      size_t base = E.size(); for (uint64_t id : {0ull, 32ull}) for (auto &t : T) for (int n = 0; n <= 3; ++n) for (size_t i = 0; i < base; i += 7) { std::vector<El> m; for (int k = 0; k < n; ++k) m.push_back(E[(i + k * 5) % base]); E.push_back(relation(st, id, t, m)); } E.push_back(relation(st, 1, T[1], {E.back(), E[base]}));
      int k = 0; for (size_t i = 0; i < E.size(); ++i) { roundTrip(sh, dir, QuadKey(16, 5 + k % 200, k / 200), {{nullptr, E[i]}}); ++k; }
      std::vector<Item> P{{nullptr, E[1]}, {nullptr, E[base + 9]}, {mesh("m", D[2], I[2], I[1], D[1], I[3]), nullptr}, {mesh("", {}, {}, {}, {}, {}), nullptr}, {nullptr, E[30]}}; for (int len = 0; len <= (th ? 5 : 4); ++len) mc::words(P.size(), len, [&](const std::vector<int> &w) { std::vector<Item> v; for (int x : w) v.push_back(P[x]); roundTrip(sh, dir, QuadKey(16, 500 + k % 200, k / 200), v); ++k; }); }); }

  // stylesheets which style some element differently never share cache entries
  mc::run("styles", [&] {
    std::vector<std::string> conds{"[1]", "[11]", "[1=1]", "[1=11]", "[11=1]", "[1!=1]", "[1<1]", "[1>1]", "[1][11]", "[a]", "[b]"}, decls{"{1:1;}", "{1:11;}", "{11:1;}", "{1:1;11:1;}", "{1:1;1:11;}", "{a:1;}", "{builder:terrain;}", "{a:eval(\"tag('1')\");}"};
    std::vector<std::string> kinds{"node", "way", "area", "relation", "canvas", "element"}, zooms{"1", "11", "1-2", "2"}; std::vector<std::string> sheets;
    for (auto &k : kinds) for (auto &z : zooms) for (auto &c : conds) for (auto &d : decls) { if (k == "canvas" && c != conds[0]) continue; if (k == "element") { if (c.find('=') == std::string::npos || c.find('!') != std::string::npos) continue; sheets.push_back("element|z" + z + "[id" + c.substr(c.find('='), 20) + d); } else sheets.push_back(k + "|z" + z + (k == "canvas" ? "" : c) + d); }
    size_t single = sheets.size(); for (size_t i = 0; i < single; i += 13) for (size_t j = 0; j < single; j += (th ? 11 : 41)) sheets.push_back(sheets[i] + sheets[j]);
    StringTable st(mc::scratch("st")); std::vector<El> probes; std::vector<Tags> T{{}, {{"1", "1"}}, {{"1", "11"}}, {{"11", "1"}}, {{"1", "0"}}, {{"1", "2"}}, {{"1", "1"}, {"11", "1"}}, {{"a", "1"}}, {{"b", "1"}}}; auto tagsOf = [&](Tags t) { return t; };
    for (auto &t : T) for (uint64_t id : {0ull, 1ull, 11ull}) { auto fix = [](El e) { std::sort(e->tags.begin(), e->tags.end(), [](const Tag &x, const Tag &y) { return x.key < y.key; }); return e; }; probes.push_back(fix(node(st, id, tagsOf(t), {0, 0}))); probes.push_back(fix(way(st, id, t, {}))); probes.push_back(fix(area(st, id, t, {}))); probes.push_back(fix(relation(st, id, t, {}))); }
    std::map<std::string, std::pair<std::string, std::string>> byTag; size_t same = 0;
    for (auto &css : sheets) { std::string src = css; StyleSheet ss; try { ss = MapCssParser("").parse(src); } catch (std::exception &) { mc::fail("cannot parse %s", src.c_str()); } StyleProvider sp(ss, st); std::string beh; 
      auto add = [&](const Style &s) { std::vector<std::string> v; for (auto &d : s.declarations()) v.push_back(*st.getString(d->key()) + ":" + d->value()); std::sort(v.begin(), v.end()); beh += join(v) + "/"; };
      std::string tag = sp.getTag(); for (int z : {1, 2, 11}) { for (auto &p : probes) add(sp.forElement(*p, z)); add(sp.forCanvas(z)); } mc::transition();
      auto i = byTag.insert({tag, {beh, src}}); if (!i.second) { ++same; if (i.first->second.first != beh) mc::fail("stylesheets %s and %s style elements differently but have the same tag", src.c_str(), i.first->second.second.c_str()); } mc::outcome(beh); }
    if (byTag.size() < 100) mc::fail("only %zu different tags", byTag.size()); });
  // ids of strings differ between sessions which did not end well: the strings matter, not their ids
  mc::run("ids", [&] { std::map<std::string, std::string> byTag; for (auto k : {"natural", "landuse", "aa"}) for (auto v : {"water", "wood"}) for (auto d : {"color", "width"}) { std::string css = std::string("area|z1[") + k + "=" + v + "]{" + d + ":1;}"; Sheet sh(css); auto i = byTag.insert({sh.sp.getTag(), css}); if (!i.second) mc::fail("%s and %s have the same tag in fresh sessions", css.c_str(), i.first->second.c_str()); } mc::outcome(byTag.size()); });
  return mc::finish();
}
