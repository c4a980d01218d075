// C18: L-system grammar, rewriting, 3d turtle and the shapes drawn by it against independent models.
#include "uty.hpp"
#include "builders/BuilderContext.hpp"
#include "builders/MeshPool.hpp"
#include "builders/generators/LSystemGenerator.hpp"
#include "heightmap/FlatElevationProvider.hpp"
#include "lsys/LSystem.hpp"
#include "lsys/LSystemParser.hpp"
#include "lsys/Turtle3d.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
using namespace uty; using namespace utymap::lsys; using utymap::math::Vector3; using utymap::math::Mesh;
typedef long double L;
struct V3 { L x, y, z; V3 operator+(V3 o) const { return {x + o.x, y + o.y, z + o.z}; } V3 operator*(L k) const { return {x * k, y * k, z * k}; } };
static L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static V3 rot(V3 v, V3 k, L a) { return v * cosl(a) + cross(k, v) * sinl(a) + k * (dot(k, v) * (1 - cosl(a))); }   // Rodrigues
static const char *Cmd = "FG+-|^&\\/$!><@[]";
static const L Pi = acosl(-1.0L);

struct Frame { L length = 2, width = 3; size_t texture = 0; V3 p{0, 0, 0}, d{0, 1, 0}, r{1, 0, 0}; };
struct Model {
  Frame s; std::vector<Frame> saved; L angle, scale; bool ok = true;
  void turn(L a) { V3 u = cross(s.d, s.r); s.d = rot(s.d, u, a); s.r = rot(s.r, u, a); }
  bool step(char c, bool drawJumps) {
    switch (c) {
      case 'F': if (!drawJumps) break;  // fall through
      case 'G': s.p = s.p + s.d * s.length; break;
      case '+': turn(-angle); break; case '-': turn(angle); break; case '|': turn(Pi); break;
      case '^': s.d = rot(s.d, s.r, angle); break; case '&': s.d = rot(s.d, s.r, -angle); break;
      case '\\': s.r = rot(s.r, s.d, -angle); break; case '/': s.r = rot(s.r, s.d, angle); break;
      case '$': s.width *= scale; break; case '!': s.width /= scale; break;
      case '>': s.length *= scale; break; case '<': s.length /= scale; break;
      case '@': ++s.texture; break; case '[': saved.push_back(s); break;
      case ']': if (saved.empty()) return ok = false; s = saved.back(); saved.pop_back(); break;
      default: mc::fail("harness: command");
    }
    return true;
  }
};
// turtle which exposes its state and records what it is told
struct Rec : Turtle3d {
  std::string log; int forward = 0;
  Rec() { state_.length = 2; state_.width = 3; }
  void moveForward() override { ++forward; Turtle3d::moveForward(); }
  const State &st() const { return state_; }
};
struct Text : Turtle {
  std::string log;
  void moveForward() override { log += "F "; } void jumpForward() override { log += "G "; } void turnLeft() override { log += "+ "; } void turnRight() override { log += "- "; }
  void turnAround() override { log += "| "; } void pitchUp() override { log += "^ "; } void pitchDown() override { log += "& "; } void rollLeft() override { log += "\\ "; }
  void rollRight() override { log += "/ "; } void increment() override { log += "$ "; } void decrement() override { log += "! "; } void scaleUp() override { log += "> "; }
  void scaleDown() override { log += "< "; } void switchStyle() override { log += "@ "; } void save() override { log += "[ "; } void restore() override { log += "] "; }
  void say(const std::string &w) override { log += w + " "; }
};
static bool near(L a, L b) { return fabsl(a - b) <= 1e-9L * std::max<L>(1, fabsl(b)); }
static bool near(const Vector3 &a, V3 b) { return near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z); }

static std::string source(const std::vector<std::string> &axiom, L angle, L scale, int gens = 1, const std::string &prods = "unused -> F", int layout = 0) {
  std::string s = layout ? "# head\n" : "", sep = layout == 2 ? "" : layout == 1 ? "  " : " ";
  s += mc::fmt("generations: %d\nangle:%s%.17g\n", gens, layout == 1 ? "" : " ", (double)angle); if (layout) s += "# more\n";
  s += mc::fmt("scale: %.17g\naxiom:", (double)scale);
  for (auto &a : axiom) s += (isalpha(a[0]) || layout != 2 ? " " : sep) + a;
  return s + "\n" + prods;
}

static void turtle(const std::vector<int> &w, L angle, L scale, int layout) {
  std::vector<std::string> ax; for (int c : w) ax.push_back(std::string(1, Cmd[c]));
  std::string src = source(ax, angle, scale, 1, "unused -> F", layout);
  LSystem ls; auto t = mc::threw([&] { ls = LSystemParser().parse(src); }); if (!t.empty()) mc::fail("not parsed: %s", t.c_str());
  if (ls.axiom.size() != w.size() || ls.angle != (double)angle || ls.scale != (double)scale || ls.generations != 1) mc::fail("parsed as %zu commands, angle %g, scale %g", ls.axiom.size(), ls.angle, ls.scale);
  Model m; m.angle = angle * Pi / 180; m.scale = scale; int fw = 0;
  for (int c : w) { if (!m.step(Cmd[c], false)) break; fw += Cmd[c] == 'F'; }
  Rec r; std::string err = mc::threw([&] { r.run(ls); });
  if (m.ok != err.empty()) mc::fail("%s", err.empty() ? "restoring a state never saved is not reported" : err.c_str());
  auto &s = r.st();
  if (r.forward != fw) mc::fail("%d of %d lines are drawn", r.forward, fw);
  if (!near(s.length, m.s.length) || !near(s.width, m.s.width) || s.texture != m.s.texture) mc::fail("length %g width %g style %zu, expected %g %g %zu", s.length, s.width, s.texture, (double)m.s.length, (double)m.s.width, m.s.texture);
  if (!near(s.position, m.s.p)) mc::fail("position %g %g %g, expected %g %g %g", s.position.x, s.position.y, s.position.z, (double)m.s.p.x, (double)m.s.p.y, (double)m.s.p.z);
  if (!near(s.direction, m.s.d) || !near(s.right, m.s.r)) mc::fail("direction %g %g %g right %g %g %g, expected %g %g %g and %g %g %g", s.direction.x, s.direction.y, s.direction.z, s.right.x, s.right.y, s.right.z, (double)m.s.d.x, (double)m.s.d.y, (double)m.s.d.z, (double)m.s.r.x, (double)m.s.r.y, (double)m.s.r.z);
  mc::transition(w.size()); uint64_t h = m.ok; for (L v : {m.s.p.x, m.s.p.y, m.s.p.z, m.s.d.x, m.s.d.y, m.s.d.z, m.s.r.x, m.s.r.y, m.s.length, m.s.width}) h = h * 1000003 ^ (uint64_t)llroundl(v * 1000); mc::state(h * 31 + m.s.texture); mc::outcome(h);
}

// ---- rewriting
struct Prod { std::string pre, prob; std::vector<std::string> suc; };
static void derive(const std::vector<Prod> &ps, const std::vector<std::string> &ax, int gens, std::set<std::vector<std::string>> &out) {
  std::set<std::vector<std::string>> cur{ax};
  for (int g = 0; g < gens; ++g) {
    std::set<std::vector<std::string>> next;
    for (auto &w : cur) {
      std::set<std::vector<std::string>> part{{}};
      for (auto &s : w) {
        std::vector<std::vector<std::string>> opt; bool has = false;
        for (auto &p : ps) if (p.pre == s) { has = true; if (p.prob != "(0)" && p.prob != "( 0.0 )") opt.push_back(p.suc); }
        if (!has) opt.push_back({s});
        std::set<std::vector<std::string>> np; for (auto &x : part) for (auto &o : opt) { auto y = x; y.insert(y.end(), o.begin(), o.end()); np.insert(y); } part = np;
      }
      next.insert(part.begin(), part.end());
    }
    cur = next;
  }
  out = cur;
}
static std::string str(const std::vector<std::string> &w) { std::string s; for (auto &x : w) s += x + " "; return s; }
static void rewrite(const std::vector<Prod> &ps, const std::vector<std::string> &ax, int gens, int layout, int tries = 1) {
  std::string pt; for (size_t i = 0; i < ps.size(); ++i) { if (i) pt += layout ? "\n# c\n" : "\n"; pt += ps[i].pre + ps[i].prob + (layout == 2 ? "->" : " -> "); pt += layout == 2 ? str(ps[i].suc).substr(0, str(ps[i].suc).size() - 1) : str(ps[i].suc).substr(0, str(ps[i].suc).size() - 1); }
  std::string src = source(ax, 90, 2, gens, pt, layout); LSystem ls; auto t = mc::threw([&] { ls = LSystemParser().parse(src); }); if (!t.empty()) mc::fail("%s in\n%s", t.c_str(), src.c_str());
  size_t n = 0; for (auto &p : ls.productions) n += p.second.size(); if (n != ps.size()) mc::fail("%zu of %zu rules known of\n%s", n, ps.size(), src.c_str());
  std::set<std::vector<std::string>> want; derive(ps, ax, gens, want);
  for (int i = 0; i < tries; ++i) {
    Text tu; tu.run(ls); mc::transition(); bool ok = false; for (auto &w : want) ok |= str(w) == tu.log;
    if (!ok) mc::fail("%s is drawn, expected %s%s of\n%s", tu.log.c_str(), str(*want.begin()).c_str(), want.size() > 1 ? "(or other choices)" : "", src.c_str());
    if (want.size() == 1) mc::outcome(tu.log);
  }
  mc::outcome(src);
}

// ---- shapes
struct Draw {
  StringTable st; utymap::mapcss::StyleSheet ss; utymap::mapcss::StyleProvider sp; utymap::builders::MeshPool pool; utymap::heightmap::FlatElevationProvider ele; CancellationToken token; std::shared_ptr<Element> el;
  Draw() : st(mc::scratch("st")), ss(utymap::mapcss::MapCssParser().parse("node|z1-19[s]{lsys-size:4;lsys-colors:#010203,#040506,#070809;lsys-texture-indices:3,4,5;lsys-texture-types:a,b,c;lsys-texture-scales:1,1,1;}")), sp(ss, st) {
    el = node(st, 1, {{"s", "1"}}, GeoCoordinate(0, 0));
  }
};
static L sphereVolume() {
  L t = (1 + sqrtl(5)) / 2; std::vector<V3> v; for (int a : {-1, 1}) for (int b : {-1, 1}) { v.push_back({0, (L)a, b * t}); v.push_back({(L)a, b * t, 0}); v.push_back({b * t, 0, (L)a}); }
  L k = 1 / sqrtl(1 + t * t), vol = 0; for (auto &x : v) x = x * k; L e = 2 * k; auto n = [](V3 a) { return a * (1 / sqrtl(dot(a, a))); };
  auto d = [&](int i, int j) { V3 q = v[i] + v[j] * -1; return fabsl(sqrtl(dot(q, q)) - e) < 1e-9L; };
  for (int i = 0; i < 12; ++i) for (int j = i + 1; j < 12; ++j) for (int m = j + 1; m < 12; ++m) if (d(i, j) && d(j, m) && d(i, m)) {
    V3 a = n(v[i] + v[j]), b = n(v[j] + v[m]), c = n(v[i] + v[m]); auto tet = [](V3 p, V3 q, V3 r) { return fabsl(dot(p, cross(q, r))) / 6; };
    vol += tet(v[i], a, c) + tet(v[j], a, b) + tet(v[m], b, c) + tet(a, b, c);
  }
  return vol;
}
static const std::vector<std::string> Draws{"F", "cylinder", "cone", "sphere", "G", "+", "^", "\\", "$", ">", "@", "[", "]"};
static void shapes(Draw &e, const std::vector<int> &w, L angle, L scale, GeoCoordinate pos, double elev) {
  std::vector<std::string> ax; for (int c : w) ax.push_back(Draws[c]);
  LSystem ls = LSystemParser().parse(source(ax, angle, scale));
  utymap::builders::BuilderContext ctx(QuadKey(16, 35205, 21489), e.sp, e.st, e.pool, e.ele, nullptr, nullptr, e.token);
  Mesh mesh("m"); auto style = e.sp.forElement(*e.el, 10);
  std::string err = mc::threw([&] { utymap::builders::LSystemGenerator::generate(ctx, style, ls, mesh, pos, elev); });
  Model m; m.angle = angle * Pi / 180; m.scale = scale; m.s.length = m.s.width = 4;
  size_t at = 0; auto gx = utymap::utils::GeoUtils::worldToGeo(pos, 1, 0), gz = utymap::utils::GeoUtils::worldToGeo(pos, 0, 1);
  L kx = 1 / ((L)gx.longitude - pos.longitude), kz = 1 / ((L)gz.latitude - pos.latitude); static const L sv = sphereVolume();
  std::vector<int> wantMap; size_t uvEnd = 0;
  for (auto &c : ax) {
    bool shape = c.size() > 1 || c == "F";
    if (!shape) { if (!m.step(c[0], true)) break; continue; }
    size_t n = c == "cone" ? 63 : c == "sphere" ? 240 : 84; if (mesh.vertices.size() < (at + n) * 3) mc::fail("%s is missing", c.c_str());
    size_t tex = (m.s.texture + (c == "sphere")) % 3; int color = tex == 0 ? 0x010203 : tex == 1 ? 0x040506 : 0x070809;
    L lo = 1e9, hi = -1e9, vol = 0, far = 0; std::vector<V3> p;
    for (size_t i = at; i < at + n; ++i) {
      p.push_back({(mesh.vertices[3 * i] - (L)pos.longitude) * kx, mesh.vertices[3 * i + 2] - (L)elev, (mesh.vertices[3 * i + 1] - (L)pos.latitude) * kz});
      if ((mesh.colors[i] >> 8 & 0xffffff) != color && (mesh.colors[i] & 0xffffff) != color) mc::fail("%s has color %08x, expected %06x", c.c_str(), mesh.colors[i], color);
      V3 q = p.back() + m.s.p * -1;
      if (c == "sphere") { L r = sqrtl(q.x * q.x / (m.s.width * m.s.width) + q.y * q.y / (m.s.length * m.s.length) + q.z * q.z / (m.s.width * m.s.width)); if (fabsl(r - 1) > 1e-4L) mc::fail("sphere vertex at %g radii", (double)r); }
      else { L a = dot(q, m.s.d); V3 x = q + m.s.d * -a; lo = std::min(lo, a); hi = std::max(hi, a); L r = sqrtl(dot(x, x)); far = std::max(far, r); L lim = c == "cone" ? m.s.width * (1 - a / m.s.length) : m.s.width; if (r > lim + 1e-3L * m.s.width + 1e-6L) mc::fail("%s vertex %g off its axis", c.c_str(), (double)r); }
    }
    for (size_t i = 0; i < n; ++i) if (mesh.triangles[at + i] != int(at + i)) { /* any order of own vertices */ if (mesh.triangles[at + i] < int(at) || mesh.triangles[at + i] >= int(at + n)) mc::fail("triangle of %s uses vertex %d", c.c_str(), mesh.triangles[at + i]); }
    V3 o = m.s.p; for (size_t i = 0; i + 2 < n; i += 3) { V3 a = p[mesh.triangles[at + i] - at] + o * -1, b = p[mesh.triangles[at + i + 1] - at] + o * -1, d = p[mesh.triangles[at + i + 2] - at] + o * -1; vol += dot(a, cross(b, d)) / 6; }
    L base = 3.5L * sinl(2 * Pi / 7) * m.s.width * m.s.width * m.s.length, want = c == "sphere" ? sv * m.s.width * m.s.width * m.s.length : c == "cone" ? base / 3 : base;
    if (fabsl(fabsl(vol) - want) > 2e-3L * want) mc::fail("%s encloses %g, expected %g", c.c_str(), (double)vol, (double)want);
    if (c != "sphere" && (fabsl(lo) > 1e-3L * m.s.length || fabsl(hi - m.s.length) > 1e-3L * m.s.length || fabsl(far - m.s.width) > 1e-3L * m.s.width)) mc::fail("%s spans %g..%g, radius %g", c.c_str(), (double)lo, (double)hi, (double)far);
    mc::count(vol > 0 ? "outward" : "inward"); 
    uvEnd += 2 * n; if (wantMap.size() && wantMap[wantMap.size() - 1] == int(tex)) wantMap[wantMap.size() - 2] = uvEnd; else { wantMap.push_back(uvEnd); wantMap.push_back(tex); }
    at += n; m.s.p = m.s.p + m.s.d * m.s.length; mc::transition();
  }
  if (m.ok != err.empty()) mc::fail("%s", err.empty() ? "restoring a state never saved is not reported" : err.c_str());
  if (mesh.vertices.size() != at * 3 || mesh.triangles.size() != at || mesh.colors.size() != at || mesh.uvs.size() != at * 2) mc::fail("%zu vertices, expected %zu", mesh.vertices.size() / 3, at);
  std::vector<int> map; for (size_t i = 0; i + 7 < mesh.uvMap.size(); i += 8) { int tex = mesh.uvMap[i + 1] - 3; if (map.size() && map.back() == tex) map[map.size() - 2] = mesh.uvMap[i]; else { map.push_back(mesh.uvMap[i]); map.push_back(tex); } }
  if (map != wantMap) mc::fail("texture mapping differs from the shapes drawn");
  mc::outcome(mc::hash(mesh.vertices.data(), mesh.vertices.size() * 8));
}

int main(int argc, char **argv) {
  mc::init(argc, argv); bool th = mc::thorough();
  // all command words
  struct AS { L a, s; }; AS as[] = {{90, 2}, {30.5, 0.5}, {-45, 3}};
  for (int len = 1; len <= (th ? 5 : 4); ++len) for (int k = 0; k < 3; ++k) {
    if (len == 5 && k == 0) continue;
    int pre = len > 2 ? len - 2 : 0;
    mc::words(16, pre, [&](const std::vector<int> &p) {
      std::string d; for (int c : p) d += Cmd[c];
      mc::run(mc::fmt("t:%d:%d:%s", len, k, d.c_str()), [&] { mc::words(16, len - pre, [&](const std::vector<int> &q) {
        auto w = p; w.insert(w.end(), q.begin(), q.end()); try { turtle(w, as[k].a, as[k].s, (q[0] + k) % 3); } catch (mc::Fail &f) { std::string x; for (int c : w) x += Cmd[c]; mc::fail("%s: %s", x.c_str(), f.msg.c_str()); } }); });
    });
  }
  // long words of saves, restores and turns
  for (int depth = 1; depth <= 40; ++depth) mc::run(mc::fmt("deep:%d", depth), [&] {
    std::vector<int> w; for (int i = 0; i < depth; ++i) { w.push_back(14); w.push_back(1); w.push_back(2 + i % 7); } for (int i = 0; i < depth; ++i) { w.push_back(15); w.push_back(7); w.push_back(1); } turtle(w, 17, 1.25, depth % 3); });
  // settings
  for (int g : {0, 1, 2, 7, 12}) for (double a : {0.0, 1.0, -1.0, 22.5, 359.999, 1e-3, 720.0}) for (double s : {0.1, 1.0, 2.0, -3.0, 1234.5}) mc::run(mc::fmt("set:%d:%g:%g", g, a, s), [&] {
    LSystem ls = LSystemParser().parse(mc::fmt("generations: %d\nangle: %g\nscale: %g\naxiom: a F\nb -> G", g, a, s));
    if (ls.generations != g || std::fabs(ls.angle - a) > 1e-9 || std::fabs(ls.scale - s) > 1e-9) mc::fail("parsed as %d %g %g", ls.generations, ls.angle, ls.scale);
    Text t; t.run(ls); if (t.log != "a F ") mc::fail("draws %s", t.log.c_str()); mc::outcome(g * 7919 + a * 31 + s); });
  // rule systems
  std::vector<std::string> al{"F", "a", "bc", "+"}; std::vector<std::vector<std::string>> sucs, axs; for (auto &x : al) { sucs.push_back({x}); for (auto &y : al) sucs.push_back({x, y}); } axs = sucs;
  int gmax = th ? 4 : 3;
  for (auto &p1 : al) for (size_t s1 = 0; s1 < sucs.size(); ++s1) mc::run("r1:" + p1 + ">" + str(sucs[s1]), [&] {
    for (auto &ax : axs) for (int g = 0; g <= gmax; ++g) for (const char *pr : {"", "(1)", "(0.3)"}) rewrite({{p1, pr, sucs[s1]}}, ax, g, g % 3);
    for (auto &p2 : al) for (auto &s2 : sucs) if (p2 != p1) for (auto &ax : axs) if (th || ax.size() == 2) rewrite({{p1, "", sucs[s1]}, {p2, "(1)", s2}}, ax, th ? 3 : 2, (s2.size() + ax.size()) % 3);
    for (auto &s2 : sucs) { // two rules for one symbol: a rule of probability 0 is never taken, otherwise one of both
      rewrite({{p1, "(1)", sucs[s1]}, {p1, "(0)", s2}}, {p1, "a"}, 2, 0, 3); rewrite({{p1, "( 0.0 )", s2}, {p1, "", sucs[s1]}}, {"bc", p1}, 2, 1, 3); rewrite({{p1, "(0.5)", sucs[s1]}, {p1, "(0.5)", s2}}, {p1, p1}, 1, 2, 3);
    }
  });
  // three rules over words of every command
  for (int c = 0; c < 16; ++c) mc::run(mc::fmt("cmd:%c", Cmd[c]), [&] { std::string s(1, Cmd[c]);
    for (int d = 0; d < 16; ++d) { std::string u(1, Cmd[d]); for (int g = 0; g < 4; ++g) { rewrite({{s, "", {"a", u}}, {"a", "", {s}}}, {s, u, "a"}, g, g % 3); if (u != s) rewrite({{s, "", {u, s, u}}, {u, "", {"zz"}}, {"zz", "", {s}}}, {s}, g, 0); } } });
  // shapes drawn
  struct Place { GeoCoordinate c; double e; }; std::vector<Place> places{{GeoCoordinate(52.5, 13.4), 0}, {GeoCoordinate(-33.9, -70.6), 120.5}};
  for (int len = 1; len <= (th ? 4 : 3); ++len) for (size_t k = 0; k < places.size(); ++k) {
    int pre = len > 1 ? len - 1 : 0;
    mc::words(Draws.size(), pre, [&](const std::vector<int> &p) { std::string d; for (int c : p) d += Draws[c] + ","; mc::run(mc::fmt("d:%d:%zu:%s", len, k, d.c_str()), [&] {
      Draw e; for (size_t c = 0; c < Draws.size(); ++c) { auto w = p; w.push_back(c); try { shapes(e, w, k ? 40 : 90, k ? 0.5 : 2, places[k].c, places[k].e); } catch (mc::Fail &f) { mc::fail("%s%s: %s", d.c_str(), Draws[c].c_str(), f.msg.c_str()); } } }); });
  }
  return mc::finish();
}
