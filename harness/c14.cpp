//BUILD variant=mcrt src=mcrt_rt.cpp
// C14: string table, style provider, mesh pool and triangulation used by several threads, all schedules up to a number
// of preemptions on the real code.
#include "uty.hpp"
#include "sched.hpp"
#include "builders/MeshBuilder.hpp"
#include "builders/MeshPool.hpp"
#include "heightmap/FlatElevationProvider.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include "utils/GradientUtils.hpp"
#include "math/Mesh.hpp"
#include "math/Polygon.hpp"
#include "hashing/MurmurHash3.h"
using namespace uty; using namespace utymap::mapcss; using namespace utymap::math; using namespace utymap::builders;

static void wipe(const std::string &dir) { unlink((dir + "string.idx").c_str()); unlink((dir + "string.dat").c_str()); }

// ---- string table: op < T: id of text, else text of id
static const std::vector<std::string> &texts() {
  static std::vector<std::string> t; if (!t.empty()) return t;
  // two texts with the same hash
  std::map<uint32_t, std::string> seen; for (int i = 0; t.empty(); ++i) { std::string s = "k" + std::to_string(i); uint32_t h; MurmurHash3_x86_32(s.c_str(), s.size(), 0, &h); auto r = seen.emplace(h, s); if (!r.second) t = {r.first->second, s, "other", "known"}; }
  return t;
}
typedef std::vector<int> Ops;     // 0..3 id of text, 4..6 text of id 0..2
struct TableRun { std::unique_ptr<StringTable> st; std::vector<std::vector<std::string>> res; };
static sched::Scenario table(const std::vector<Ops> &ops, int known, const std::string &dir) {
  wipe(dir); auto run = std::make_shared<TableRun>(); run->st.reset(new StringTable(dir)); auto &t = texts(); std::vector<std::string> pre; if (known) pre.push_back(t[3]); if (known > 1) pre.push_back(t[0]);
  for (auto &s : pre) run->st->getId(s);
  if (known > 2) run->st.reset(), run->st.reset(new StringTable(dir));     // nothing is in memory
  run->res.resize(ops.size()); sched::Scenario s;
  for (size_t i = 0; i < ops.size(); ++i) { run->res[i].resize(ops[i].size()); Ops o = ops[i]; auto *res = &run->res[i]; StringTable *st = run->st.get();
    s.bodies.push_back([o, res, st]() { for (size_t k = 0; k < o.size(); ++k) (*res)[k] = o[k] < 4 ? "#" + std::to_string(st->getId(texts()[o[k]])) : "=" + *st->getString(o[k] - 4); }); }
  s.finish = [run, ops, dir, pre]() {
    auto &t = texts(); std::map<std::string, std::string> ids; std::string out;
    for (size_t i = 0; i < pre.size(); ++i) ids[pre[i]] = "#" + std::to_string(i);
    std::map<std::string, std::string> back; for (auto &p : ids) back[p.second] = p.first;
    for (size_t i = 0; i < ops.size(); ++i) for (size_t k = 0; k < ops[i].size(); ++k) if (ops[i][k] < 4) {
      const std::string &x = t[ops[i][k]], &id = run->res[i][k]; out += id + " ";
      if (!ids.emplace(x, id).second && ids[x] != id) mc::fail("text '%s' got ids %s and %s", x.c_str(), ids[x].c_str(), id.c_str());
      if (!back.emplace(id, x).second && back[id] != x) mc::fail("id %s stands for '%s' and '%s'", id.c_str(), back[id].c_str(), x.c_str());
    }
    for (size_t i = 0; i < ids.size(); ++i) if (!back.count("#" + std::to_string(i))) mc::fail("id %zu of %zu texts is not used", i, ids.size());
    for (size_t i = 0; i < ops.size(); ++i) for (size_t k = 0; k < ops[i].size(); ++k) if (ops[i][k] >= 4) {
      std::string id = "#" + std::to_string(ops[i][k] - 4), got = run->res[i][k].substr(1), want = back.count(id) ? back[id] : ""; out += "=" + got + " ";
      bool before = false; for (size_t j = 0; j < pre.size(); ++j) before |= pre[j] == want; for (size_t j = 0; j < k; ++j) before |= ops[i][j] < 4 && t[ops[i][j]] == want;
      if (got != want && (before || !got.empty())) mc::fail("text of id %s is '%s' but was recorded as '%s'", id.c_str(), got.c_str(), want.c_str());
    }
    for (int again = 0; again < 2; ++again) {
      for (auto &p : ids) { std::string g = *run->st->getString(std::stoi(p.second.substr(1))); if (g != p.first) mc::fail("%s: id %s is '%s', not '%s'", again ? "reopened" : "afterwards", p.second.c_str(), g.c_str(), p.first.c_str()); }
      for (auto &p : ids) if ("#" + std::to_string(run->st->getId(p.first)) != p.second) mc::fail("%s: '%s' has another id", again ? "reopened" : "afterwards", p.first.c_str());
      run->st.reset(); if (!again) run->st.reset(new StringTable(dir));
    }
    return out;
  };
  return s;
}
static std::string nameOf(const std::vector<Ops> &o) { std::string s; for (auto &x : o) { s += s.empty() ? "" : "|"; for (int k : x) s += char('a' + k); } return s; }

// ---- style provider
static const char *Css = "node|z1-16[a=1]{color:red;size:5m;ref:eval(\"tag('h') * 2\");g:gradient(#ff0000, #00ff00 50%, #0000ff);}\nway|z1-16[b]{w:3;}area|z1-16[c>3]{x:gradient(#00ff00 0%, #ff0000);}element|z1-16[id=5]{y:1;}canvas|z1-10{k:1;}\n";
static std::string gradient(const StyleProvider &p, const std::string &key) { std::string s; try { const ColorGradient &g = p.getGradient(key); for (double t = 0; t <= 1; t += .25) { auto c = g.evaluate(t); s += mc::fmt("%d.%d.%d ", c.r, c.g, c.b); } } catch (std::exception &) { s = "invalid"; } return s; }
struct StyleRun { std::unique_ptr<StringTable> st; std::unique_ptr<StyleProvider> sp; std::vector<El> els; std::vector<std::string> res; };
enum { StyleOps = 11 };
static std::string styleOp(StyleRun &r, int op) {
  auto st = [&](const El &e) { if (!r.sp->hasStyle(*e, 10)) return std::string("none"); Style s = r.sp->forElement(*e, 10); std::string o = "style"; for (const char *k : {"color", "size", "ref", "w", "x", "y", "g"}) { auto id = r.st->getId(k); if (s.has(id)) o += std::string(" ") + k + "=" + *r.st->getString(id) + ":" + (std::string(k) == "ref" || std::string(k) == "w" ? mc::fmt("%g", s.getValue(k)) : s.getString(k)); } return o; };
  switch (op) {
    case 0: return gradient(*r.sp, "gradient(#ff0000, #00ff00 50%, #0000ff)");   // known from the stylesheet
    case 1: return gradient(*r.sp, "gradient(#112233, #445566)");                // new
    case 2: return gradient(*r.sp, "gradient(#778899, #aabbcc)");                // new
    case 3: return gradient(*r.sp, "nonsense");
    case 4: return st(r.els[0]); case 5: return st(r.els[1]); case 6: return st(r.els[2]); case 7: return st(r.els[3]);
    case 8: { Style s = r.sp->forCanvas(5); return mc::fmt("canvas %g", s.getValue("k")); }
    case 9: { Style s = r.sp->forCanvas(12); return std::string("canvas ") + (s.has(r.st->getId("k")) ? "k" : "-"); }   // no rule on that level
    default: { std::string s = std::to_string(r.sp->getTexture(7, "none").random(1).width); try { r.sp->getLsystem("tree"); } catch (std::exception &) { s += " no lsystem"; } return s; }
  }
}
static sched::Scenario styles(const std::vector<Ops> &ops, const std::string &dir) {
  wipe(dir); auto r = std::make_shared<StyleRun>(); r->st.reset(new StringTable(dir)); std::string css = Css; r->sp.reset(new StyleProvider(MapCssParser().parse(css), *r->st));
  r->els = {node(*r->st, 1, {{"a", "1"}, {"h", "7"}}, {}), way(*r->st, 2, {{"b", "x"}}, {}), area(*r->st, 3, {{"c", "4"}}, {}), node(*r->st, 5, {{"a", "1"}}, {})};
  r->res.resize(ops.size()); sched::Scenario s;
  for (size_t i = 0; i < ops.size(); ++i) { Ops o = ops[i]; StyleRun *p = r.get(); s.bodies.push_back([o, p, i]() { std::string x; for (int k : o) x += styleOp(*p, k) + "; "; p->res[i] = x; }); }
  s.finish = [r, ops]() { std::string out; for (auto &x : r->res) out += x + "|"; out += "\n"; for (int k = 0; k < StyleOps; ++k) out += styleOp(*r, k) + "; "; return out; };
  return s;
}

// ---- mesh pool: words over s(mall) l(arge) r(elease)
struct PoolRun { MeshPool pool; std::set<const void *> busy; std::string error; };
static sched::Scenario pool(const std::vector<std::string> &words) {
  auto r = std::make_shared<PoolRun>(); sched::Scenario s;
  for (int i = 0; i < 2; ++i) { Mesh m("x"); m.vertices.resize(i ? 50000 : 100, 1); r->pool.release(std::move(m)); }
  for (size_t i = 0; i < words.size(); ++i) { std::string w = words[i]; PoolRun *p = r.get();
    s.bodies.push_back([w, p, i]() {
      std::vector<Mesh> mine; int n = 0;
      for (char c : w) {
        if (c == 'r') { if (!mine.empty()) { Mesh m = std::move(mine.back()); mine.pop_back(); if (m.vertices.size() != 3 || m.vertices[0] != double(i) || m.triangles.size() != 1) { rt::Quiet q; p->error = "a mesh in use was changed"; } { rt::Quiet q; p->busy.erase(m.vertices.data()); } p->pool.release(std::move(m)); } }
        else { std::string name = mc::fmt("t%zu.%d", i, n++); Mesh m = c == 's' ? p->pool.getSmall(name) : p->pool.getLarge(name); if (m.name != name || !m.vertices.empty() || !m.triangles.empty() || !m.colors.empty() || !m.uvs.empty() || !m.uvMap.empty()) { rt::Quiet q; p->error = "a mesh taken from the pool is not a fresh one"; }
          for (int k = 0; k < 3; ++k) m.vertices.push_back(double(i)); m.triangles.push_back(1); { rt::Quiet q; if (!p->busy.insert(m.vertices.data()).second) p->error = "a mesh was handed to two users"; } mine.push_back(std::move(m)); }
        rt::yield();
      }
      rt::Quiet q; for (auto &m : mine) p->busy.erase(m.vertices.data());
    }); }
  s.finish = [r]() { if (!r->error.empty()) mc::fail("%s", r->error.c_str()); return std::string("ok"); };
  return s;
}

// ---- triangulation of different polygons
struct TriRun { std::vector<std::string> res; };
static std::string triangulate(int which) {
  static const utymap::heightmap::FlatElevationProvider flat; static const std::unique_ptr<const ColorGradient> grad = utymap::utils::GradientUtils::parseGradient("gradient(#ff0000, #00ff00)"); static const TextureRegion none;
  QuadKey q(16, 35206, 21494); BoundingBox b = bboxOf(q); Polygon p(8, 0); std::vector<Vector2> v; for (auto &c : {at(b, .1, .1), at(b, .1, .8), at(b, which ? .5 : .9, .9), at(b, .8, .1)}) v.push_back(Vector2(c.longitude, c.latitude)); p.addContour(v);
  if (which == 2) { std::vector<Vector2> h; for (auto &c : {at(b, .3, .3), at(b, .3, .4), at(b, .4, .4), at(b, .4, .3)}) h.push_back(Vector2(c.longitude, c.latitude)); p.addHole(h); }
  MeshBuilder::GeometryOptions g(which == 1 ? 0 : b.width() * b.height() / 20, 0, 0, 0); MeshBuilder::AppearanceOptions a(*grad, 0, 0, none, 1); Mesh m("x"); MeshBuilder(q, flat).addPolygon(m, p, g, a);
  return mc::fmt("%zu %zu %llx %llx", m.vertices.size(), m.triangles.size(), (unsigned long long)mc::hash(m.vertices.data(), m.vertices.size() * 8), (unsigned long long)mc::hash(m.triangles.data(), m.triangles.size() * 4));
}
static sched::Scenario triangles(const std::vector<int> &which) {
  auto r = std::make_shared<TriRun>(); r->res.resize(which.size()); sched::Scenario s;
  for (size_t i = 0; i < which.size(); ++i) { int w = which[i]; TriRun *p = r.get(); s.bodies.push_back([p, w, i]() { p->res[i] = triangulate(w); }); }
  s.finish = [r]() { return join(r->res); };
  return s;
}

int main(int argc, char **argv) {
  mc::init(argc, argv); texts(); {
    mc::setLimit(600); std::string dir = mc::scratch("c14"); bool deep = mc::thorough();
    auto any = [](const std::string &) {};
    // string table
    std::vector<Ops> w1, w2; for (int a = 0; a < 7; ++a) { w1.push_back({a}); for (int b = 0; b < 7; ++b) w2.push_back({a, b}); }
    for (int known = 0; known < 4; ++known) {
      for (size_t i = 0; i < w2.size(); ++i) for (size_t k = 0; k <= i; ++k) if (deep || (i * 7 + k) % 4 == size_t(known))
        { std::vector<Ops> o{w2[i], w2[k]}; sched::explore(mc::fmt("table%d:", known) + nameOf(o), [=]() { return table(o, known, dir); }, any, deep ? 4 : 2); }
      for (int a = 0; a < 7; ++a) for (int b = 0; b <= a; ++b) for (int c = 0; c <= b; ++c) if (deep || (a + b + c) % 2 == 0) { std::vector<Ops> o{{a}, {b}, {c}}; sched::explore(mc::fmt("table%d:", known) + nameOf(o), [=]() { return table(o, known, dir); }, any, 2); }
    }
    // styles: every thread gets what it gets alone
    auto style = [&](const std::vector<Ops> &o, int bound) {
      sched::explore("style:" + nameOf(o), [=]() { return styles(o, dir); }, [=](const std::string &out) {
        static std::map<std::string, std::string> alone; std::string want, tail;
        for (auto &x : o) { std::string &w = alone[nameOf({x})]; if (w.empty()) { auto r = sched::once([=]() { return styles({x}, dir); }, {}); if (!r.error.empty()) mc::fail("alone: %s", r.error.c_str()); w = r.out; } size_t n = w.find('\n'); want += w.substr(0, n); tail = w.substr(n); }
        if (out != want + tail) mc::fail("threads got '%s', alone '%s'", out.c_str(), (want + tail).c_str()); }, bound);
    };
    for (int a = 0; a < StyleOps; ++a) for (int b = 0; b <= a; ++b) { style({{a}, {b}}, 2); if (deep) for (int c = 0; c <= b; ++c) style({{a}, {b}, {c}}, 2); }
    for (int a = 0; a < StyleOps; ++a) for (int b = 0; b < StyleOps; ++b) if (deep || (a < 4 && b < 4)) for (int c = 0; c < StyleOps; c += deep ? 1 : 3) for (int d = 0; d < (deep ? 4 : 3); ++d) style({{a, b}, {c, d}}, deep ? 2 : 1);
    // mesh pool
    { std::vector<std::string> w; std::function<void(std::string)> grow = [&](std::string s) { if (!s.empty()) w.push_back(s); if (s.size() < (deep ? 4u : 3u)) for (char c : {'s', 'l', 'r'}) if (!(s.empty() && c == 'r')) grow(s + c); }; grow("");
      for (size_t i = 0; i < w.size(); ++i) for (size_t k = 0; k <= i; ++k) { std::vector<std::string> o{w[i], w[k]}; sched::explore("pool:" + w[i] + "|" + w[k], [=]() { return pool(o); }, any, 2); } 
      for (auto &x : w) for (auto &y : w) if (x.size() <= 2 && y.size() <= 2) { std::vector<std::string> o{x, y, "sr"}; sched::explore("pool:" + x + "|" + y + "|sr", [=]() { return pool(o); }, any, deep ? 2 : 1); } }
    // triangulation
    for (int a = 0; a < 3; ++a) for (int b = 0; b <= a; ++b) for (int c = -1; c <= b; ++c) {
      std::vector<int> o{a, b}; if (c >= 0) o.push_back(c);
      sched::explore(mc::fmt("triangle:%d%d%d", a, b, c), [=]() { return triangles(o); }, [=](const std::string &out) { std::vector<std::string> v; for (int x : o) { auto r = sched::once([=]() { return triangles({x}); }, {}); if (!r.error.empty()) mc::fail("alone: %s", r.error.c_str()); v.push_back(r.out.substr(0, r.out.size() - 1)); } if (out != join(v)) mc::fail("triangulated together '%s', alone '%s'", out.c_str(), join(v).c_str()); }, deep ? (c >= 0 ? 2 : 3) : c >= 0 ? 1 : 2);
    }
  }
  return mc::finish();
}
