//BUILD variant=asan
// C09, requests: all pairs of invalid calls of the exported functions, damaged stylesheets with their included files, damaged height files.
// Afterwards all earlier data is delivered as before and the repaired file works.
#include "world.hpp"
static const char *K(const std::string &s) { return s.c_str(); }
struct Fault { std::string name; std::function<void()> f; int kind; };   // kind 1: an error has to be reported, 0: no error needed
static World *w; static std::string junk;
static std::vector<std::string> tree(const std::string &dir) { return mc::listDir(dir); }
static std::vector<Fault> faults(const std::string &store) {
  static utymap::CancellationToken tok; static const double tri[] = {52.1, 13.1, 52.1, 13.2, 52.2, 13.2}; static const char *tags[] = {"natural", "water"}; std::string S = w->styles[0]; std::vector<Fault> r; auto add = [&](const std::string &n, int kind, std::function<void()> f) { r.push_back({n, f, kind}); };
  static std::map<int, std::string> *file = nullptr; if (!file) { file = new std::map<int, std::string>(); std::string x = mc::readFile(w->osm); (*file)[0] = junk + "/none.xml"; (*file)[1] = junk + "/none.pbf"; (*file)[2] = junk + "/none.json"; (*file)[3] = junk + "/none.shp"; (*file)[4] = junk + "/cut.xml"; mc::writeFile((*file)[4], x.substr(0, x.size() - 9)); (*file)[5] = junk + "/cut.json"; mc::writeFile((*file)[5], "{\"a\":{\"features\":[{\"properties\":{\"natural\":\"water\"},\"geometry\":{\"type\":\"Point\",\"coordinates\":[13.4,52.5]}},{\"properties\":{},\"geometry\":{\"type\":\"Point\",\"coordinates\":[13.4]}}]}}"); (*file)[6] = junk + "/cut.pbf"; mc::writeFile((*file)[6], std::string("\0\0\0", 3)); mc::writeFile(junk + "/bad.mapcss", "area|z1-19[a=b]{k:v"); mc::writeFile(junk + "/late.mapcss", "area|z1-19[natural=water]{builder:terrain;}\n%%"); mc::writeFile(junk + "/noinclude.mapcss", "@texture url(\"gone.txt\");\n"); }
  for (int i = 0; i < 7; ++i) { std::string p = (*file)[i]; add(mc::fmt("range file %d", i), 1, [=] { addDataInRange(K(store), K(S), K(p), 15, 17, api::onError, &tok); }); add(mc::fmt("tile file %d", i), 1, [=] { addDataInQuadKey(K(store), K(S), K(p), w->a.tileX, w->a.tileY, 16, api::onError, &tok); }); if (i < 4) add(mc::fmt("box file %d", i), 1, [=] { addDataInBoundingBox(K(store), K(S), K(p), 50, 10, 54, 15, 15, 16, api::onError, &tok); }); }
  for (std::string k : {"", "nostore", "M "}) { add("store '" + k + "' range", 1, [=] { addDataInRange(K(k), K(S), K(w->osm), 15, 16, api::onError, &tok); }); add("store '" + k + "' box", 1, [=] { addDataInBoundingBox(K(k), K(S), K(w->osm), 50, 10, 54, 15, 15, 16, api::onError, &tok); }); add("store '" + k + "' tile", 1, [=] { addDataInQuadKey(K(k), K(S), K(w->osm), w->a.tileX, w->a.tileY, 16, api::onError, &tok); }); add("store '" + k + "' element", 1, [=] { addDataInElement(K(k), K(S), 5, tri, 6, tags, 2, 15, 16, api::onError, &tok); }); }
  for (std::string s : {"none.mapcss", "bad.mapcss", "late.mapcss", "noinclude.mapcss"}) { std::string p = junk + "/" + s; add("style " + s + " range", 1, [=] { addDataInRange(K(store), K(p), K(w->osm), 15, 16, api::onError, &tok); }); add("style " + s + " tile", 1, [=] { addDataInQuadKey(K(store), K(p), K(w->osm), w->a.tileX, w->a.tileY, 16, api::onError, &tok); }); add("style " + s + " element", 1, [=] { addDataInElement(K(store), K(p), 5, tri, 6, tags, 2, 15, 16, api::onError, &tok); }); add("style " + s + " request", 1, [=] { getDataByQuadKey(9, K(p), w->a.tileX, w->a.tileY, 16, 0, api::onMesh, api::onElement, api::onError, &tok); }); }
  for (auto l : std::vector<std::pair<int, int>>{{0, 3}, {5, 20}, {-1, 4}, {0, 0}, {20, 20}, {1000000, -1000000}}) { int a = l.first, b = l.second; std::string n = mc::fmt("levels %d-%d ", a, b);
    add(n + "range", 1, [=] { addDataInRange(K(store), K(S), K(w->osm), a, b, api::onError, &tok); }); add(n + "box", 1, [=] { addDataInBoundingBox(K(store), K(S), K(w->osm), 50, 10, 54, 15, a, b, api::onError, &tok); }); add(n + "element", 1, [=] { addDataInElement(K(store), K(S), 5, tri, 6, tags, 2, a, b, api::onError, &tok); }); add(n + "text", 1, [=] { getDataByText(9, "", "natural", "", 50, 10, 54, 15, a, b, api::onElement, api::onError, &tok); }); }
  add("element without vertices", 1, [=] { addDataInElement(K(store), K(S), 5, tri, 0, tags, 2, 15, 16, api::onError, &tok); });
  add("reversed levels", 0, [=] { addDataInRange(K(store), K(S), K(w->osm), 17, 15, api::onError, &tok); });
  add("reversed levels text", 0, [=] { getDataByText(9, "", "natural", "", 50, 10, 54, 15, 17, 15, api::onElement, api::onError, &tok); }); add("reversed box", 0, [=] { getDataByText(9, "", "natural", "", 52.54, 13.5, 52.5, 13.3, 15, 15, api::onElement, api::onError, &tok); });
  add("no heights", 1, [=] { getDataByQuadKey(9, K(S), w->p.tileX, w->p.tileY, w->p.levelOfDetail, 2, api::onMesh, api::onElement, api::onError, &tok); }); add("no srtm", 1, [=] { getDataByQuadKey(9, K(S), w->a.tileX, w->a.tileY, 16, 1, api::onMesh, api::onElement, api::onError, &tok); });
  add("empty style", 1, [=] { getDataByQuadKey(9, "", w->a.tileX, w->a.tileY, 16, 0, api::onMesh, api::onElement, api::onError, &tok); });
  for (auto &q : std::vector<std::vector<int>>{{-1, 0, 5}, {0, -1, 5}, {32, 0, 5}, {0, 32, 5}, {1 << 30, 1 << 30, 16}, {0, 0, 0}, {0, 0, 20}, {0, 0, -1}, {0, 0, 31}, {5, 5, 40}}) { add(mc::fmt("tile %d/%d/%d", q[2], q[0], q[1]), 0, [=] { getDataByQuadKey(9, K(S), q[0], q[1], q[2], 0, api::onMesh, api::onElement, api::onError, &tok); }); if (q[2] >= 0) add(mc::fmt("tile %d/%d/%d hasData", q[2], q[0], q[1]), 0, [=] { if (hasData(q[0], q[1], q[2])) mc::fail("a tile which does not exist has data"); }); add(mc::fmt("tile %d/%d/%d import", q[2], q[0], q[1]), 0, [=] { addDataInQuadKey(K(store), K(S), K(w->osm), q[0], q[1], q[2], api::onError, &tok); }); }
  return r;
}
static std::string probe() {
  std::string r; for (auto &q : {w->a, w->b, w->p}) r += api::sorted(api::request(3, w->styles[0], q, 0)) + "\n"; r += api::sorted(api::request(3, w->styles[0], w->a, 2)) + "\n";
  utymap::CancellationToken t; api::gots()[4] = api::Got(); getDataByText(4, "", "natural", "", 52, 13, 53, 14, 15, 16, api::onElement, api::onError, &t); r += api::sorted(api::gots()[4]); api::gots().erase(4); return r + mc::fmt("%d%d%d", hasData(w->a.tileX, w->a.tileY, 16), hasData(w->d.tileX, w->d.tileY, 17), hasData(1, 1, 5));
}
static void one(const Fault &f, const std::string &base) {
  size_t e = api::errors.size(); api::gots().erase(9);
  try { f.f(); } catch (std::exception &x) { mc::fail("%s: exception instead of a reported error: %s", f.name.c_str(), x.what()); }
  if (f.kind == 1 && api::errors.size() == e) mc::fail("%s: no error reported", f.name.c_str());
  if (f.name.compare(0, 5, "tile ") == 0 && api::gots().count(9)) for (auto &i : api::gots()[9].items) if (i.compare(0, 7, "element") == 0) mc::fail("%s: %s delivered", f.name.c_str(), i.c_str());
  std::string p = probe(); if (p != base) mc::fail("after %s (%s) delivered %s instead of %s", f.name.c_str(), api::errors.empty() ? "no error" : api::errors.back().c_str(), p.c_str(), base.c_str());
}
struct Live {
  std::string dir; std::unique_ptr<api::Session> s; std::string base;
  Live(const std::string &name, bool disk, bool cache = false) : dir(mc::scratch(name)) {
    w->grid(dir); unlink(K(dir + "/data/N52E013.hgt")); unlink(K(dir + mc::fmt("/data/%d/", w->p.levelOfDetail) + utils::GeoUtils::quadKeyToString(w->p) + ".ele")); s.reset(new api::Session(dir)); registerStylesheet(K(w->styles[0]), api::onDir); if (disk) { mc::mkdirs(dir + "/store"); registerPersistentStore("m", K(dir + "/store"), api::onDir); } else registerInMemoryStore("m");
    utymap::CancellationToken t; addDataInRange("m", K(w->styles[0]), K(w->osm), 15, 16, api::onError, &t); enableMeshCache(cache); base = probe();
  }
  ~Live() { s.reset(); mc::rmTree(dir); }
};
static void calls() {
  for (int disk = 0; disk < 2; ++disk) { size_t n = faults("m").size();
    for (size_t i = 0; i < n; ++i) mc::run(mc::fmt("%s store, call %zu first", disk ? "disk" : "memory", i), [&] { Live l(mc::fmt("c%d", disk), disk != 0); auto fs = faults("m"); if (l.base.find("element") == std::string::npos) mc::fail("nothing to probe: %s", l.base.c_str()); one(fs[i], l.base); size_t step = mc::thorough() ? 1 : 7; for (size_t j = i % step; j < n; j += step) { mc::note(fs[i].name + ", " + fs[j].name); one(fs[j], l.base); } mc::outcome(api::errors.empty() ? "" : api::errors.back()); api::errors.clear(); });
  }
  std::string none = mc::scratch("idx") + "/gone/deep"; auto bad = [&] { size_t e = api::errors.size(); connect(K(none), api::onError); return api::errors.size() > e; };
  mc::words(3, 5, [&](const std::vector<int> &v) { if (v.size() < 2) return; std::string d = "connections "; for (int x : v) d += "CXD"[x]; mc::run(d, [&] { bool open = false; for (int x : v) { if (x == 0 && !open) { connect(K(w->dir + "/../idx"), api::onError); open = true; } else if (x == 1 && !open) { if (!bad()) mc::fail("index directory is missing but no error is reported"); } else if (x == 2) { disconnect(); open = false; } } if (open) disconnect(); mc::outcome(d); }); });
}
// ---------------------------------------------------------------- stylesheets
static const char *Css = R"(/* head */
@import url("more.mapcss");
@texture url("a.txt");
@lsystem url("tree.lsys");
canvas|z14-17 { grid-cell-size: 10%; ele-noise-freq: 0; color-noise-freq: 0; color: gradient(#00ff00, #0000ff 50%, red); max-area: 20%; road-ele-noise-freq: 0; road-color-noise-freq: 0; road-color: gradient(#111111); road-max-area: 10%; road-sort-order: 1; }
area|z16[natural=water], area|z15[natural] { builder: terrain; sort-order: 0; color: gradient(#0000ff); max-area: 20%; ele-noise-freq: 0; color-noise-freq: 0; mesh-name: lake; mesh-extras: water; texture-index: 3; texture-type: pond; texture-scale: 50; }
way|z16[highway][!tunnel] { builder: terrain; terrain-layer: road; width: 2e-5; clip: true; }
/* building */
area|z16[building=yes] { building: true; builder: building; height: eval("tag('levels') * 3 + 1"); min-height: 0m; roof-type: dome; roof-height: 2m; roof-color: gradient(#ff0000); roof-texture-index: 3; roof-texture-type: pond; roof-texture-scale: 1; facade-type: flat; facade-color: #00ff00; facade-texture-index: 3; facade-texture-type: pond; facade-texture-scale: 1; }
node|z16[shop] { builder: poster, tree; size: 3; lsystem: tree; lsys-colors: gradient(#00ff00), gradient(#0000ff); lsys-texture-indices: 3,3; lsys-texture-types: pond,pond; lsys-texture-scales: 1,1; trunk-radius: 0.5m; lsys-size: 1m; }
)";
static const char *More = "relation|z16[natural=wood]{builder:terrain;color:gradient(#005500);max-area:20%;ele-noise-freq:0;color-noise-freq:0;}";
static const char *Lsys = "generations: 2\nangle: 45\nscale: 2\naxiom: root\nroot(0.5) -> ! cylinder [ + cylinder ] > G $ sphere\nroot -> ! cylinder\n";
static const char *Atlas = "3,100,200\npond,10,20,30,40\npond,1,2,3,4\nlake,1,2,3,4\n";
static std::string styleDir(int n, const std::string &file, const std::string &text) {
  std::string d = junk + mc::fmt("/s%d/", n); mc::mkdirs(d); for (auto &p : std::map<std::string, std::string>{{"s.mapcss", Css}, {"more.mapcss", More}, {"tree.lsys", Lsys}, {"a.txt", Atlas}}) if (p.first != file) mc::writeFile(d + p.first, p.second); else if (text != "-") mc::writeFile(d + p.first, text); return d;
}
struct Styles {
  std::unique_ptr<api::Session> s; std::string good, base; int n = 0;
  std::string get(const std::string &style) { std::string r; for (auto &q : {w->a, w->p}) r += api::sorted(api::request(3, style, q, 0)); return r; }
  Styles() { std::string d = mc::scratch("styles"); s.reset(new api::Session(d)); good = styleDir(0, "", "") + "s.mapcss"; registerInMemoryStore("m"); utymap::CancellationToken t; size_t e = api::errors.size(); addDataInRange("m", K(good), K(w->osm), 15, 16, api::onError, &t); base = get(good); if (api::errors.size() != e || base.find("tree") == std::string::npos || base.find("lake") == std::string::npos || base.find("error") != std::string::npos) mc::fail("the intact stylesheet does not work: %s", base.c_str()); }
};
static std::unique_ptr<Styles> live;
static void style(const std::string &name, const std::string &file, const std::string &text, int must) {
  mc::run(file + " " + name, [&] {
    if (!live || live->n > 300) { live.reset(); live.reset(new Styles()); }
    std::string dir = styleDir(++live->n, file, text), r = live->get(dir + "s.mapcss"); bool failed = r.find("error ") != std::string::npos; mc::outcome(r);
    if (must && !failed) mc::fail("no error reported: %s", r.c_str());
    if (live->n % 8 == 0 || failed) { std::string b = live->get(live->good); if (b != live->base) { live.reset(); mc::fail("the intact stylesheet delivers %s afterwards", b.c_str()); } }
    if (must) { styleDir(live->n, "", ""); std::string b = live->get(dir + "s.mapcss"); if (b != live->base) mc::fail("the repaired stylesheet delivers %s instead of %s", b.c_str(), live->base.c_str()); }
    mc::rmTree(dir);
  });
}
static std::vector<std::pair<size_t, size_t>> tokens(const std::string &s) { std::vector<std::pair<size_t, size_t>> r; for (size_t i = 0; i < s.size();) { size_t j = i + 1; auto word = [](char c) { return isalnum((unsigned char)c) || c == '-' || c == '_' || c == '.'; }; if (isspace((unsigned char)s[i])) { ++i; continue; } if (word(s[i])) while (j < s.size() && word(s[j])) ++j; r.push_back({i, j - i}); i = j; } return r; }
static void styles() {
  std::string css = Css; int depth = 0; char comment = 0; bool open = false; std::set<size_t> whole = {0};   // lengths after which the text is a complete stylesheet
  for (size_t i = 0; i < css.size(); ++i) { char c = css[i]; if (comment == '*') { if (c == '/' && css[i - 1] == '*') { comment = 0; if (!open) whole.insert(i + 1); } } else if (comment == '/') { if (c == '\n') { comment = 0; } if (!open) whole.insert(i + 1); } else if (c == '/' && i + 1 < css.size() && (css[i + 1] == '*' || css[i + 1] == '/')) comment = css[i + 1]; else if (c == '{') { depth++; open = true; } else if (c == '}') { depth--; open = false; whole.insert(i + 1); } else if (c == ';' && !depth) { open = false; whole.insert(i + 1); } else if (!isspace((unsigned char)c)) open = true; else if (!open) whole.insert(i + 1); }
  for (size_t n = 1; n < css.size(); ++n) style(mc::fmt("cut to %zu", n), "s.mapcss", css.substr(0, n), !whole.count(n));
  for (auto &p : std::vector<std::pair<std::string, std::string>>{{"more.mapcss", More}, {"tree.lsys", Lsys}, {"a.txt", Atlas}}) { style("missing", p.first, "-", p.first == "more.mapcss" ? 0 : 1); /* stylesheets of the demo rely on imports which are not there */ style("empty", p.first, "", p.first == "more.mapcss" ? 0 : 1); for (size_t n = 1; n < p.second.size(); ++n) style(mc::fmt("cut to %zu", n), p.first, p.second.substr(0, n), p.first == "more.mapcss" || (p.first == "a.txt" ? n < 22 : n < p.second.size() / 2)); }
  for (auto &p : std::vector<std::pair<std::string, std::string>>{{"s.mapcss", Css}, {"more.mapcss", More}, {"tree.lsys", Lsys}, {"a.txt", Atlas}}) { int i = 0; auto &s = p.second;
    for (auto &t : tokens(s)) { for (const char *x : {"", "x", "-", "}", "{", ";", ":", "\"", "(", "[", "#zz", "gradient(", "\x80", ",", "5"}) { if (isdigit((unsigned char)s[t.first]) && p.first == "tree.lsys" && *x == '5') continue; if (!mc::thorough() && (i + *x) % 3) continue; std::string y = s; y.replace(t.first, t.second, x); style(mc::fmt("token %d replaced by '%s'", i, x), p.first, y, 0); } ++i; } }
  for (const char *x : {"%%", "}", "area", "area|z1", "area|z1[a", "area|z1[a]{", "@import url(\"more.mapcss\")", "\"", "\xc3\xa4", "node|z16[x]{builder}", "foo|z16[x]{a:b;}", "node[x]{a:b;}", "node|16[x]{a:b;}", "node|z16[x]{a:b}", "node|z16[x]a:b;"}) { style(mc::fmt("'%s' at the end", x), "s.mapcss", css + x, 1); size_t at = css.find("way|z16"); style(mc::fmt("'%s' in between", x), "s.mapcss", css.substr(0, at) + x + "\n" + css.substr(at), !strstr(x, "|z1[a") && strcmp(x, "node|z16[x]{a:b}")); }
  live.reset();
}
// ---------------------------------------------------------------- heights
static void heights() {
  std::string text = "10 20 30\n40 50 60\n70 80 90\n"; auto qs = utils::GeoUtils::quadKeyToString(w->a);
  auto test = [&](const std::string &name, int ele, const std::string &file, const std::string &bad, const std::string &good, int must, bool fast) { mc::run(name, [&] {
    std::string d = mc::scratch("h"); mc::rmTree(d); mc::mkdirs(d + "/data/16"); api::Session s(d); registerInMemoryStore("m"); utymap::CancellationToken t; addDataInRange("m", K(w->styles[0]), K(w->osm), 15, 16, api::onError, &t); std::string flat = api::sorted(api::request(3, w->styles[0], w->a, 0)), f = d + "/data/" + file; (void)fast;
    if (bad != "-") mc::writeFile(f, bad); std::string r = api::sorted(api::request(3, w->styles[0], w->a, ele)); mc::outcome(r); bool failed = r.find("error ") != std::string::npos; if (must && !failed) mc::fail("no error: %s", r.c_str());
    if (api::sorted(api::request(3, w->styles[0], w->a, 0)) != flat) mc::fail("the tile without heights changed");
    if (failed) { mc::writeFile(f, good); r = api::sorted(api::request(3, w->styles[0], w->a, ele)); if (r.find("error ") != std::string::npos || r.find("mesh") == std::string::npos) mc::fail("the repaired height file does not work: %s", r.c_str()); }
  }); };
  std::string ele = "16/" + qs + ".ele"; test("grid missing", 2, ele, "-", text, 1, true);
  for (size_t n = 0; n < text.size(); ++n) { std::string x = text.substr(0, n); size_t c = 0; for (size_t i = 0; i < x.size(); ++i) if (isdigit((unsigned char)x[i]) && (i == 0 || !isdigit((unsigned char)x[i - 1]))) ++c; test(mc::fmt("grid cut to %zu", n), 2, ele, x, text, c < 4, true); for (const char *y : {"x", "-", ".", "1e9", "99999999999", "\x80", ",", "--", "0x1"}) { std::string z = text; z.replace(n, 1, y); test(mc::fmt("grid '%s' at %zu", y, n), 2, ele, z, text, (*y == 'x' || *y == '\x80' || *y == ',' || *y == '.' || !strcmp(y, "--")), true); } }
  std::string hgt(1201 * 1201 * 2, 0); for (size_t n : std::vector<size_t>{0, 1, 2, 1201 * 2, 1201 * 1201, 1201 * 1201 * 2 - 1, 1201 * 1200 * 2}) test(mc::fmt("srtm cut to %zu", n), 1, "N52E013.hgt", hgt.substr(0, n), hgt, 1, false);
  test("srtm missing", 1, "N52E013.hgt", "-", hgt, 1, false); test("srtm too long", 1, "N52E013.hgt", hgt + "x", hgt, 1, false);
}
int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(30); World world; w = &world; junk = mc::scratch("junk");
  calls(); styles(); heights();
  return mc::finish();
}
