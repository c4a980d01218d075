//BUILD variant=mcrt src=mcrt_rt.cpp
// C13: requests through the exported functions by several threads at once, together with at most one import (the Unity
// side lets imports follow each other), all schedules up to a number of preemptions on the real code.
#include "api.hpp"
#include "sched.hpp"
using namespace uty;

static const QuadKey A(16, 35206, 21494), B(16, 35207, 21494), C(16, 35206, 21495);
static std::string Dir, Plain, Other;      // scratch, stylesheets
static const char *Css = "canvas|z16{grid-cell-size:100%;ele-noise-freq:0;color-noise-freq:0;color:gradient(#00ff00);max-area:100%;}"
  "area|z16[natural=water]{builder:terrain;sort-order:0;color:gradient(#0000ff);max-area:100%;ele-noise-freq:0;color-noise-freq:0;mesh-name:lake;texture-index:0;}"
  "way|z16[barrier]{builder:barrier;width:1m;height:2m;color:gradient(#00ff00);}node|z16[shop]{builder:poster;size:3;}";
static const char *CssPoster = "node|z16[shop]{builder:poster;size:3;}area|z16[natural=water]{builder:poster;}way|z16[barrier]{builder:poster;}";
static const char *CssOther = "node|z16[shop]{builder:poster;label:other;}";

struct Mode { bool disk, cache, terrain; };
static std::vector<std::string> Got[rt::MaxThreads + 2]; static double Height[rt::MaxThreads + 2];
static void note(int t, const std::string &s) { Got[t].push_back(s); }
static void onMesh(int tag, const char *name, const double *v, int nv, const int *t, int nt, const int *c, int nc, const double *u, int nu, const int *m, int nm) {
  { rt::Quiet q; api::onMesh(tag, name, v, nv, t, nt, c, nc, u, nu, m, nm); note(tag, api::gots()[tag].items.back()); } rt::yield();
}
static void onElement(int tag, std::uint64_t id, const char **t, int nt, const double *v, int nv, const char **s, int ns) {
  { rt::Quiet q; api::onElement(tag, id, t, nt, v, nv, s, ns); note(tag, api::gots()[tag].items.back()); } rt::yield();
}
static void onError(const char *m) { rt::Quiet q; note(std::max(0, rt::self()), std::string("error ") + m); }
static void onDir(const char *p) { rt::Quiet q; mc::mkdirs(p); }
static void put(int id, const std::vector<GeoCoordinate> &c, std::vector<const char *> tags, const std::string &style) {
  std::vector<double> v; { rt::Quiet q; for (auto &x : c) { v.push_back(x.latitude); v.push_back(x.longitude); } } utymap::CancellationToken t;
  addDataInElement("m", style.c_str(), id, v.data(), v.size(), tags.data(), tags.size(), 16, 16, onError, &t);
}
// what a thread can do
enum Op { TileA, TileB, TileNew, Text, TextAll, HeightA, HeightB, Has, NewStyle, SameStyle, AddC, AddA, AddA2, TileGrid, TileBGrid, Srtm, Srtm2, Ops };
static const char *OpName[] = {"tileA", "tileB", "tileNew", "text", "textAll", "heightA", "heightB", "has", "newStyle", "sameStyle", "addC", "addA", "addA2", "tileGrid", "tileBGrid", "srtm", "srtm2"};
static bool isAdd(int op) { return op == AddC || op == AddA || op == AddA2; }
static const std::string &first(const Mode &m) { return m.terrain ? Plain : Dir; }
static void act(int op, int tag, const std::string &style, const std::string &other) {
  utymap::CancellationToken none; static const BoundingBox a = bboxOf(A), c = bboxOf(C);
  auto tile = [&](const std::string &s, const QuadKey &q, int ele) { getDataByQuadKey(tag, s.c_str(), q.tileX, q.tileY, q.levelOfDetail, ele, onMesh, onElement, onError, &none); };
  switch (op) {
    case TileA: tile(style, A, 0); break; case TileB: tile(style, B, 0); break; case TileNew: tile(other, A, 0); break; case TileGrid: tile(style, A, 2); break; case TileBGrid: tile(style, B, 2); break;
    case Text: getDataByText(tag, "", "shop", "", a.minPoint.latitude - .01, a.minPoint.longitude - .01, a.maxPoint.latitude + .01, a.maxPoint.longitude + .02, 16, 16, onElement, onError, &none); break;
    case TextAll: getDataByText(tag, "car", "", "natural shop fence", a.minPoint.latitude - .01, a.minPoint.longitude - .01, a.maxPoint.latitude + .01, a.maxPoint.longitude + .02, 15, 16, onElement, onError, &none); break;
    case HeightA: Height[tag] = getElevationByQuadKey(A.tileX, A.tileY, 16, 2, a.center().latitude, a.center().longitude); break;
    case HeightB: Height[tag] = getElevationByQuadKey(B.tileX, B.tileY, 16, 2, a.center().latitude, a.maxPoint.longitude + .001); break;
    case Srtm: Height[tag] = getElevationByQuadKey(A.tileX, A.tileY, 16, 1, 52.5, 13.25); break; case Srtm2: Height[tag] = getElevationByQuadKey(A.tileX, A.tileY, 16, 1, 52.6, 13.75); break;
    case Has: Height[tag] = hasData(A.tileX, A.tileY, 16) + 2 * hasData(A.tileX, A.tileY + 7, 16) + 4 * hasData(B.tileX, B.tileY, 16); break;
    case NewStyle: registerStylesheet(other.c_str(), onDir); break; case SameStyle: registerStylesheet(style.c_str(), onDir); break;
    case AddC: put(50, {at(c, .5, .5)}, {"shop", "new", "lamp", "yes"}, style); break;
    case AddA: put(60, {at(a, .5, .5)}, {"shop", "added"}, style); break;
    case AddA2: put(60, {at(a, .5, .5)}, {"shop", "added"}, style); put(61, {at(a, .6, .6)}, {"shop", "again"}, style); break;
  }
}
static std::string result(int tag) { std::vector<std::string> v = Got[tag]; std::string s; s = join(v, true); if (Height[tag] != -1) s += mc::fmt(" value %.6f", Height[tag]); return s; }
struct Run { std::unique_ptr<api::Session> s; std::string style, other; std::vector<std::vector<int>> ops; };
static void clear() { for (auto &g : Got) g.clear(); for (auto &h : Height) h = -1; }
static sched::Scenario scenario(const std::vector<int> &ops, const Mode &m, const std::vector<int> &before) {
  std::string index = Dir + "/index"; mc::rmTree(index); mc::mkdirs(index + "/data/16"); mc::mkdirs(index + "/data/1");
  for (auto &q : {A, B}) mc::writeFile(index + "/data/16/" + utils::GeoUtils::quadKeyToString(q) + ".ele", mc::fmt("%d 20 30 40", q.tileX % 7));
  if (symlink((Dir + "N52E013.hgt").c_str(), (index + "/data/N52E013.hgt").c_str())) throw std::runtime_error("link");
  auto r = std::make_shared<Run>(); r->style = Dir + (m.terrain ? "/s0/s.mapcss" : "/s1/s.mapcss"); r->other = Dir + "/s2/s.mapcss"; clear();
  r->s.reset(new api::Session(index)); registerStylesheet(r->style.c_str(), onDir); enableMeshCache(m.cache);
  if (m.disk) registerPersistentStore("m", (index + "/store").c_str(), onDir); else registerInMemoryStore("m");
  BoundingBox a = bboxOf(A), b = bboxOf(B);
  put(1, {at(a, .2, .2), at(a, .2, .6), at(a, .7, .6), at(a, .6, .2), at(a, .2, .2)}, {"natural", "water"}, r->style); put(2, {at(a, .8, .5), at(b, .5, .3), at(b, .6, .6)}, {"barrier", "fence"}, r->style);
  put(3, {at(a, .5, .8)}, {"shop", "book"}, r->style); put(4, {at(b, .5, .8)}, {"shop", "car"}, r->style); put(5, {at(b, .4, .8)}, {"shop", "tea", "name", "car park"}, r->style);
  for (int op : before) act(op, rt::MaxThreads, r->style, r->other);
  clear(); sched::Scenario s;
  for (size_t i = 0; i < ops.size(); ++i) { int op = ops[i]; Run *p = r.get(); s.bodies.push_back([op, p, i]() { try { act(op, i, p->style, p->other); } catch (std::exception &e) { rt::Quiet q; note(i, std::string("exception ") + e.what()); } }); }
  s.finish = [r, ops]() {
    std::string out; for (size_t i = 0; i < ops.size(); ++i) out += result(i) + "\n";
    // everything still works
    for (int op : {TileA, TileB, TextAll, HeightA, TileNew}) { clear(); act(op, 0, r->style, r->other); out += mc::fmt("%llx\n", (unsigned long long)mc::hash(result(0))); }
    r->s.reset(); return out;
  };
  return s;
}
static std::string nameOf(const std::vector<int> &o) { std::string s; for (int x : o) s += std::string(s.empty() ? "" : "+") + OpName[x]; return s.empty() ? "none" : s; }
static std::vector<std::string> lines(const std::string &t) { std::vector<std::string> v; std::stringstream s(t); std::string l; while (std::getline(s, l)) v.push_back(l); return v; }

int main(int argc, char **argv) {
  mc::init(argc, argv); {
    mc::setLimit(800); Dir = mc::scratch("c13"); bool deep = mc::thorough();
    for (int i = 0; i < 3; ++i) { std::string d = mc::fmt("%s/s%d", Dir.c_str(), i); mc::mkdirs(d); mc::writeFile(d + "/s.mapcss", i == 0 ? Css : i == 1 ? CssPoster : CssOther); }
    { std::string hgt(1201 * 1201 * 2, 0); for (size_t i = 0; i < hgt.size(); i += 2) hgt[i + 1] = char(i / 2 % 97); mc::writeFile(Dir + "N52E013.hgt", hgt); }
    auto run = [&](const std::vector<int> &ops, Mode m, const std::vector<int> &before, int bound, int parts = 1) {
      std::string name = mc::fmt("%s%s%s:", m.disk ? "disk" : "memory", m.cache ? "-cache" : "", m.terrain ? "-terrain" : "") + nameOf(before) + ":" + nameOf(ops);
      sched::explore(name, [=]() { return scenario(ops, m, before); }, [=](const std::string &out) {
        // what each does alone, after each part of what the import adds, and what is there at the end
        static std::map<std::string, std::vector<std::string>> memo; auto alone = [&](const std::vector<int> &pre, int op) -> std::vector<std::string> & {
          std::vector<std::string> &v = memo[mc::fmt("%d%d%d:", m.disk, m.cache, m.terrain) + nameOf(before) + ":" + nameOf(pre) + ":" + OpName[op]];
          if (v.empty()) { std::vector<int> b = before; b.insert(b.end(), pre.begin(), pre.end()); auto r = sched::once([=]() { return scenario({op}, m, b); }, {}); if (!r.error.empty()) mc::fail("alone: %s", sched::named(r.error).c_str()); v = lines(r.out); }
          return v; };
        auto got = lines(out); std::vector<int> adds; for (int o : ops) if (isAdd(o)) adds.push_back(o);
        for (size_t i = 0; i < ops.size(); ++i) {
          std::vector<std::string> ok{alone({}, ops[i])[0]};
          if (!isAdd(ops[i])) for (int a : adds) { if (a == AddA2) ok.push_back(alone({AddA}, ops[i])[0]); ok.push_back(alone({a}, ops[i])[0]); }
          if (std::find(ok.begin(), ok.end(), got[i]) == ok.end()) mc::fail("%s got '%s', alone '%s'", OpName[ops[i]], got[i].c_str(), ok[0].c_str());
        }
        int plain = ops[0]; for (int o : ops) if (!isAdd(o)) plain = o; std::vector<std::string> end = alone(adds, plain); for (size_t i = 1; i < end.size(); ++i) if (got.size() != ops.size() + end.size() - 1 || got[ops.size() + i - 1] != end[i]) if (!(m.cache && !adds.empty())) mc::fail("request %zu afterwards is not what it is alone", i);
      }, bound, parts);
    };
    std::vector<int> light{TileA, TileB, TileNew, Text, TextAll, HeightA, HeightB, Has, NewStyle, SameStyle, AddC, AddA, AddA2};
    for (auto &o : std::vector<std::vector<int>>{std::vector<int>{Srtm, Srtm}, std::vector<int>{Srtm, Srtm2}, std::vector<int>{Srtm, Srtm2, Srtm}}) run(o, Mode{false, false, false}, {}, deep ? 2 : 1);
    for (int disk = 0; disk < 2; ++disk) {
      Mode m{disk == 1, false, false};
      for (size_t i = 0; i < light.size(); ++i) for (size_t k = 0; k <= i; ++k) {
        if (isAdd(light[i]) && isAdd(light[k])) continue;
        run({light[i], light[k]}, m, {}, deep ? 3 : 2, deep ? 16 : 1); if (light[k] == TileA || deep) run({light[i], light[k]}, m, {Text, HeightA, NewStyle}, deep ? 2 : 1);
      }
      for (auto &o : std::vector<std::vector<int>>{{TileA, Text, AddA}, {TileA, TileA, AddC}, {TextAll, Text, TileB}, {HeightA, HeightB, HeightA}, {TileNew, NewStyle, TileNew}}) run(o, m, {}, 1);
      for (int cache = 0; cache < 2; ++cache) {
        Mode t{disk == 1, cache == 1, true};
        for (auto &o : std::vector<std::vector<int>>{{TileA, TileA}, {TileA, TileB}, {TileGrid, TileA}, {TileGrid, TileGrid}, {TileGrid, TileBGrid}, {TileA, Text}, {TileA, AddC}, {TileA, NewStyle}}) { run(o, t, {}, 1); if (cache) run(o, t, {TileA}, 1); }
      }
    }
  }
  return mc::finish();
}
