// OSM data on a lattice, its XML form, and what an import of it has to store
#pragma once
#include "imp.hpp"
namespace osm {
using namespace uty;
typedef std::pair<int, int> Pt;   // lattice point (y, x)
typedef std::vector<Pt> Pts;
struct Mem { char type; long ref; std::string role; };
struct N { long id; Pt p; Tags t; };
struct W { long id; Pts p; Tags t; };
struct R { long id; char kind; std::vector<Mem> m; Tags t; };   // kind: plain, building, multipolygon
struct Ring { Pts p; bool outer; };
static double Y0 = 52, X0 = 13, Step = 0.001;
static Pt toPt(const GeoCoordinate &c) {
  double y = (c.latitude - Y0) / Step, x = (c.longitude - X0) / Step; int iy = lround(y), ix = lround(x);
  if (fabs(y - iy) > 1e-6 || fabs(x - ix) > 1e-6) mc::fail("coordinate %.9f %.9f is not one of the input", c.latitude, c.longitude);
  return {iy, ix};
}
static long area2(const Pts &p) { long s = 0; for (size_t i = 0; i < p.size(); ++i) { auto a = p[i], b = p[(i + 1) % p.size()]; s += long(a.second) * b.first - long(b.second) * a.first; } return s; }
static Pts rot(Pts p) { if (p.empty()) return p; std::rotate(p.begin(), std::min_element(p.begin(), p.end()), p.end()); return p; }
static Pts oriented(Pts p, bool ccw) { if ((area2(p) > 0) != ccw) std::reverse(p.begin(), p.end()); return rot(p); }
static std::string txt(const Pts &p) { std::string s = "("; for (auto &q : p) s += mc::fmt("%d.%d ", q.first, q.second); return s + ")"; }
static std::string txt(Tags t) { std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); std::string s = "{"; for (auto &p : t) s += p.first + "=" + p.second + ","; return s + "}"; }
static Tags kindTags(char k) { return k == 'b' ? Tags{{"type", "building"}} : k == 'm' ? Tags{{"type", "multipolygon"}} : Tags{}; }
static bool has(const Tags &t, const std::string &k, const std::string &v) { for (auto &p : t) if (p.first == k && p.second == v) return true; return false; }
// groups "outer ring with its inner rings", in any order
static std::string groups(std::vector<std::pair<Pts, std::vector<Pts>>> g) { std::vector<std::string> r; for (auto &x : g) { std::vector<std::string> in; for (auto &i : x.second) in.push_back("I" + txt(i)); r.push_back("O" + txt(x.first) + join(in, true)); } return join(r, true); }

struct Data {
  std::vector<N> nodes; std::vector<W> ways; std::vector<R> rels; std::map<Pt, long> pool;
  long at(Pt p) { auto i = pool.find(p); if (i != pool.end()) return i->second; long id = 5000 + int(pool.size()); pool[p] = id; return id; }
  std::string xml() {
    std::string w, r, n; auto tags = [](const Tags &t) { std::string s; for (auto &p : t) s += "<tag k=\"" + p.first + "\" v=\"" + p.second + "\"/>\n"; return s; };
    for (auto &x : ways) { w += mc::fmt("<way id=\"%ld\">\n", x.id); for (auto &p : x.p) w += mc::fmt("<nd ref=\"%ld\"/>\n", at(p)); w += tags(x.t) + "</way>\n"; }
    for (auto &x : rels) { r += mc::fmt("<relation id=\"%ld\">\n", x.id); for (auto &m : x.m) r += mc::fmt("<member type=\"%s\" ref=\"%ld\" role=\"%s\"/>\n", m.type == 'n' ? "node" : m.type == 'w' ? "way" : "relation", m.ref, m.role.c_str()); r += tags(x.t) + "</relation>\n"; }
    auto node = [&](long id, Pt p, const Tags &t) { n += mc::fmt("<node id=\"%ld\" lat=\"%.10f\" lon=\"%.10f\">\n", id, Y0 + p.first * Step, X0 + p.second * Step) + tags(t) + "</node>\n"; };
    for (auto &x : nodes) node(x.id, x.p, x.t);
    for (auto &x : pool) node(x.second, x.first, {});
    return "<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\">\n<bounds minlat=\"-85\" minlon=\"-180\" maxlat=\"85\" maxlon=\"180\"/>\n" + n + w + r + "</osm>\n";
  }
};

struct Canon : ElementVisitor {
  imp::Importer &im; std::string out; const std::set<long> &wayIds; int depth = 0;
  Canon(imp::Importer &i, const std::set<long> &w) : im(i), wayIds(w) {}
  void visitNode(const Node &n) override { out += mc::fmt("n%ld", long(n.id)) + txt(im.tags(n)) + txt(Pts{toPt(n.coordinate)}); }
  void visitWay(const Way &n) override { Pts p; for (auto &c : n.coordinates) p.push_back(toPt(c)); out += mc::fmt("w%ld", long(n.id)) + txt(im.tags(n)) + txt(p); }
  static Pts ring(const Area &n) { Pts p; for (auto &c : n.coordinates) p.push_back(toPt(c)); return p; }
  void visitArea(const Area &n) override { Pts p = ring(n); if (area2(p) < 0) mc::fail("area %d is clockwise", int(n.id)); out += mc::fmt("a%ld", long(n.id)) + txt(im.tags(n)) + txt(rot(p)); }
  void visitRelation(const Relation &n) override {
    if (++depth > 50) mc::fail("relation contains itself");
    Tags t = im.tags(n); out += mc::fmt("r%ld", long(n.id)) + txt(t) + "[";
    if (has(t, "type", "multipolygon")) {
      std::vector<std::pair<Pts, std::vector<Pts>>> g;
      for (auto &e : n.elements) {
        auto a = std::dynamic_pointer_cast<Area>(e); if (!a) mc::fail("multipolygon has a member which is no area");
        if (!a->tags.empty()) mc::fail("ring with tags");
        Pts p = ring(*a); long s = area2(p);
        if (s >= 0) { if (!wayIds.count(long(a->id))) mc::fail("outer ring has id %d", int(a->id)); g.push_back({rot(p), {}}); }
        else { if (g.empty()) mc::fail("inner ring without outer"); g.back().second.push_back(rot(p)); }
      }
      out += groups(g);
    } else for (auto &e : n.elements) { e->accept(*this); out += ";"; }
    out += "]"; --depth;
  }
};
// what the file says; rings: the assembled rings of multipolygon relations (by relation id)
struct Expect {
  Data &d; std::map<long, std::string> rings; std::map<long, Tags> extra; std::set<std::pair<char, long>> ignored;
  explicit Expect(Data &d_) : d(d_) {
    for (auto &r : d.rels) if (r.kind == 'b') for (auto &m : kept(r)) if (find(m)) ignored.insert({m.type, m.ref});
  }
  bool find(const Mem &m) const { if (m.type == 'n') { for (auto &n : d.nodes) if (n.id == m.ref) return true; for (auto &p : d.pool) if (p.second == m.ref) return true; } else if (m.type == 'w') { for (auto &n : d.ways) if (n.id == m.ref) return true; } else for (auto &n : d.rels) if (n.id == m.ref) return true; return false; }
  const R *rel(long id) const { for (auto &r : d.rels) if (r.id == id) return &r; return nullptr; }
  bool reach(long from, long to, std::set<long> &seen) const { if (from == to) return true; auto r = rel(from); if (!r || !seen.insert(from).second) return false; for (auto &m : r->m) if (m.type == 'r' && reach(m.ref, to, seen)) return true; return false; }
  std::vector<Mem> kept(const R &r) const { std::vector<Mem> k; for (auto &m : r.m) { std::set<long> s; if (!find(m) || (m.type == 'r' && reach(m.ref, r.id, s))) continue; k.push_back(m); } return k; }
  Tags tags(char type, long id, Tags t) const { if (ignored.count({type, id})) t.push_back({"!ignore", ""}); return t; }
  std::string text(char type, long id) const {
    if (type == 'n') { for (auto &n : d.nodes) if (n.id == id) return mc::fmt("n%ld", id) + txt(tags('n', id, n.t)) + txt(Pts{n.p}); for (auto &p : d.pool) if (p.second == id) return mc::fmt("n%ld", id) + txt(tags('n', id, {})) + txt(Pts{p.first}); }
    if (type == 'w') for (auto &w : d.ways) if (w.id == id) { if (w.p.size() > 3 && w.p.front() == w.p.back()) { Pts p(w.p.begin(), w.p.end() - 1); return mc::fmt("a%ld", id) + txt(tags('w', id, w.t)) + txt(area2(p) ? oriented(p, true) : rot(p)); } return mc::fmt("w%ld", id) + txt(tags('w', id, w.t)) + txt(w.p); }
    auto r = rel(id); Tags t = r->t; auto x = extra.find(id); if (x != extra.end()) t.insert(t.end(), x->second.begin(), x->second.end());
    std::string s = mc::fmt("r%ld", id) + txt(tags('r', id, t)) + "[";
    if (r->kind == 'm') s += rings.at(id);
    else { std::set<std::pair<char, long>> seen; for (auto &m : kept(*r)) { if (r->kind == 'b' && m.role == "outline") continue; if (!seen.insert({m.type, m.ref}).second) continue; s += text(m.type, m.ref) + ";"; } }
    return s + "]";
  }
  bool located(long id) const { auto r = rel(id); if (r->kind == 'm') return !rings.at(id).empty(); for (auto &m : kept(*r)) if (!(r->kind == 'b' && m.role == "outline") && (m.type != 'r' || located(m.ref))) return true; return false; }
  std::vector<std::string> all() const {
    std::vector<std::string> e; for (auto &n : d.nodes) e.push_back(text('n', n.id)); for (auto &p : d.pool) e.push_back(text('n', p.second));
    for (auto &w : d.ways) e.push_back(text('w', w.id)); for (auto &r : d.rels) if (located(r.id)) e.push_back(text('r', r.id));
    std::sort(e.begin(), e.end()); return e;
  }
};
static void compare(const std::vector<std::string> &got, const std::vector<std::string> &want) {
  mc::outcome(join(got));
  if (got == want) return;
  std::vector<std::string> a, b; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(a)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(b));
  mc::fail("stored but not expected: %s   expected but not stored: %s", join(a).substr(0, 900).c_str(), join(b).substr(0, 900).c_str());
}

}
