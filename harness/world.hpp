// a small map in two neighbouring tiles, their parent and a deeper one, several stylesheets and elevation files
#pragma once
#include "api.hpp"
using namespace uty;

// the map: two neighbouring tiles of level 16, their parent of level 15 and a tile of level 17 (deeper than what is cached)
struct World {
  QuadKey a, b, p, d; std::string dir, osm; std::vector<std::string> styles;
  static std::string css(const std::string &water, const std::string &head, const char *extra = "") {
    return head + "canvas|z14-17{grid-cell-size:10%;ele-noise-freq:0;color-noise-freq:0;color:gradient(#00ff00);max-area:20%;road-ele-noise-freq:0;road-color-noise-freq:0;road-color:gradient(#111111);road-max-area:10%;road-sort-order:1;}"
      "area|z14-17[natural=water]{builder:terrain;sort-order:0;color:gradient(" + water + ");max-area:20%;ele-noise-freq:0;color-noise-freq:0;mesh-name:lake;texture-index:3;texture-type:pond;texture-scale:50;}"
      "relation|z14-17[natural=wood]{builder:terrain;color:gradient(#005500);max-area:20%;ele-noise-freq:0;color-noise-freq:0;}"
      "way|z14-17[highway]{builder:terrain;terrain-layer:road;width:2e-5;clip:true;}"
      "area|z14-17[building]{building:true;builder:building;height:10m;min-height:0m;roof-type:flat;roof-height:0m;roof-color:#ff0000;roof-texture-index:9;roof-texture-type:x;roof-texture-scale:1;facade-type:flat;facade-color:#00ff00;facade-texture-index:9;facade-texture-type:x;facade-texture-scale:1;}"
      "node|z14-17[shop]{builder:poster;size:3;}" + extra;
  }
  World() : a(16, 35206, 21494), b(16, 35207, 21494), p(15, 17603, 10747), d(17, 70413, 42989), dir(mc::scratch("world")) {
    auto style = [&](const std::string &name, const std::string &atlas, const std::string &text) { std::string d = dir + "/" + name + "/"; mc::mkdirs(d); mc::writeFile(d + "a.txt", atlas); mc::writeFile(d + "s.mapcss", text); styles.push_back(d + "s.mapcss"); };
    std::string t1 = "3,100,200\npond,10,20,30,40\n", t2 = "3,100,200\npond,11,20,30,40\n", tex = "@texture url(\"a.txt\");\n";
    style("s0", t1, css("#0000ff", tex)); style("s1", t1, css("#0000fe", tex)); style("s2", t2, css("#0000ff", tex)); style("s3", t1, css("#0000ff", tex, "area|z15[natural=water]{texture-scale:25;}"));
    style("s4", t1, css("#0000ff", "")); style("s5", t1, css("#0000ff", tex, "element|z14-17[id=300]{builder:terrain;color:gradient(#777777);max-area:20%;ele-noise-freq:0;color-noise-freq:0;}"));
    BoundingBox A = bboxOf(a), B = bboxOf(b); api::Osm o;
    o.way(101, {at(A, .2, .2), at(A, .2, .6), at(A, .7, .6), at(A, .6, .2)}, {{"natural", "water"}}, true);
    o.way(102, {at(B, .3, -.3), at(B, .3, .5), at(B, .8, .5), at(B, .8, -.2)}, {{"natural", "water"}}, true);
    o.way(201, {at(A, .9, .1), at(B, .5, .5), at(B, .1, .9)}, {{"highway", "primary"}});
    o.way(300, {at(A, .1, .1), at(A, .1, .3), at(A, .15, .3), at(A, .15, .1)}, {{"building", "yes"}}, true);
    o.way(301, {at(B, .85, .6), at(B, .85, .8), at(B, .9, .8), at(B, .9, .6)}, {{"building", "yes"}}, true);
    o.way(401, {at(B, .05, -.5), at(B, .05, .4), at(B, .25, .4), at(B, .25, -.5)}, {}, true); o.way(402, {at(B, .1, .1), at(B, .1, .2), at(B, .2, .2), at(B, .2, .1)}, {}, true);
    o.relation(500, {std::make_tuple("way", 401, "outer"), std::make_tuple("way", 402, "inner")}, {{"type", "multipolygon"}, {"natural", "wood"}});
    o.node(at(A, .5, .8), {{"shop", "book"}}, 9001); o.node(at(B, .6, .9), {{"shop", "car"}}, 9002);
    osm = dir + "/map.xml"; mc::writeFile(osm, o.text());
  }
  void grid(const std::string &index) const {   // elevation files
    for (auto &q : {a, b, p, d}) { std::string f = index + "/data/" + std::to_string(q.levelOfDetail); mc::mkdirs(f); mc::writeFile(f + "/" + utils::GeoUtils::quadKeyToString(q) + ".ele", mc::fmt("%d %d %d %d", q.levelOfDetail, q.tileX % 7, 30, 40)); }
    std::string f = dir + "/N52E013.hgt"; if (!mc::exists(f)) { std::string hgt(1201 * 1201 * 2, 0); for (size_t i = 0; i < hgt.size(); i += 2) hgt[i + 1] = char(i / 2 % 97); mc::writeFile(f, hgt); } if (symlink(f.c_str(), (index + "/data/N52E013.hgt").c_str())) {}
  }
  std::string open(const std::string &index, int s) const { (void)index; return styles[s]; }
};
struct Req { int tile, style, ele; };
static std::string nameOf(const Req &r) { return mc::fmt("t%ds%de%d", r.tile, r.style, r.ele); }
struct Driver {
  const World &w; std::string index; std::unique_ptr<api::Session> s; bool cache;
  Driver(const World &w_, const std::string &index_, bool cache_) : w(w_), index(index_), cache(cache_) { w.grid(index); start(); }
  void start() { s.reset(); s.reset(new api::Session(index)); known.clear(); use(0); registerInMemoryStore("m"); utymap::CancellationToken t; size_t e = api::errors.size();
    addDataInRange("m", w.styles[0].c_str(), w.osm.c_str(), 15, 17, api::onError, &t); if (api::errors.size() != e) mc::fail("import failed: %s", api::errors.back().c_str()); enableMeshCache(cache); }
  std::set<int> known; void use(int i) { if (known.insert(i).second) registerStylesheet(w.styles[i].c_str(), api::onDir); }
  std::string get(const Req &r) { use(r.style); return api::sorted(api::request(7, w.styles[r.style], tile(r), r.ele)); }
  QuadKey tile(const Req &r) const { return r.tile == 0 ? w.a : r.tile == 1 ? w.b : r.tile == 2 ? w.p : w.d; }
};

