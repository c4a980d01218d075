// C16: rule matching and cascade of the real MapCSS parser and style provider against a brute force oracle.
#include "uty.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/Style.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include "utils/ElementUtils.hpp"
using namespace uty; using namespace utymap::mapcss;

struct Cond { std::string k, op, v; };
struct Sel { std::vector<std::string> kinds; int z0, z1; bool single; std::vector<Cond> cs; };
struct Decl { std::string k, v; };
struct RuleT { std::vector<Sel> sels; std::vector<Decl> ds; };
typedef std::map<std::string, std::string> TagMap;

static std::string text(const Sel &s, int layout) {
  std::string sp = layout == 0 ? "" : layout == 1 ? " " : "\n /* c */ ";
  std::string r; for (size_t i = 0; i < s.kinds.size(); ++i) r += (i ? sp + "," + sp : "") + s.kinds[i];
  r += (layout == 2 ? sp : "") + std::string("|z") + std::to_string(s.z0); if (!s.single) r += "-" + std::to_string(s.z1);
  for (auto &c : s.cs) r += sp + "[" + c.k + c.op + c.v + "]";
  return r;
}
static std::string text(const std::vector<RuleT> &rs, int layout) {
  std::string sp = layout == 0 ? "" : layout == 1 ? " " : "\n<!-- x -->\n", r;
  for (auto &u : rs) {
    for (size_t i = 0; i < u.sels.size(); ++i) r += (i ? sp + "," + sp : sp) + text(u.sels[i], layout);
    r += sp + "{"; for (auto &d : u.ds) r += sp + d.k + ":" + (layout ? " " : "") + d.v + ";" + sp; r += "}" + sp;
  }
  return r;
}
static bool num(const std::string &s, double &d) { char *e; d = strtod(s.c_str(), &e); return !s.empty() && !*e; }
static bool holds(const Cond &c, const TagMap &t) {
  auto i = t.find(c.k); if (i == t.end()) return false; double a, b;
  if (c.op == "") return true; if (c.op == "=") return i->second == c.v; if (c.op == "!=") return i->second != c.v;
  if (!num(i->second, a) || !num(c.v, b)) mc::fail("harness: not a number"); return c.op == "<" ? a < b : a > b;
}
struct Want { bool any = false; std::map<std::string, std::string> d; std::set<std::string> builders; };
static Want oracle(const std::vector<RuleT> &rs, const std::string &kind, uint64_t id, const TagMap &t, int lod) {
  Want w; auto put = [&](const RuleT &r) { w.any = true; for (auto &d : r.ds) { w.d[d.k] = d.v; if (d.k == "builder") w.builders.insert(d.v); } };
  for (int pass = 0; pass < 2 && !w.any; ++pass)   // rules for the element itself replace all others
    for (auto &r : rs) for (auto &s : r.sels) for (auto &k : s.kinds) {
      if (lod < s.z0 || lod > s.z1) continue;
      if (pass == 0 ? (k != "element" || s.cs[0].v != std::to_string(id)) : k != kind) continue;
      bool m = true; if (pass) for (auto &c : s.cs) m &= holds(c, t);
      if (m) put(r);
    }
  return w;
}

static std::vector<TagMap> tagSets;
static const char *Kinds[] = {"node", "way", "area", "relation"};
struct Env {
  StringTable st; std::vector<std::vector<El>> els; std::vector<std::string> decl{"p", "q1", "q2", "q3", "builder"};
  static std::string fresh() { return mc::scratch("st"); }
  Env(const std::vector<std::string> &order) : st(fresh()) {
    for (auto &s : order) st.getId(s);
    for (auto &t : tagSets) {
      std::vector<El> v; utymap::formats::Tags ft; for (auto &p : t) { utymap::formats::Tag x; x.key = p.first; x.value = p.second; ft.push_back(x); }
      for (int k = 0; k < 4; ++k) { El e = k == 0 ? node(st, 7, {}, {}) : k == 1 ? way(st, 7, {}, {}) : k == 2 ? area(st, 7, {}, {}) : relation(st, 7, {}, {}); utymap::utils::setTags(st, *e, ft); v.push_back(e); }
      els.push_back(v);
    }
  }
  void compare(const std::vector<RuleT> &rs, const StyleProvider &sp, const std::string &src, const std::vector<int> &lods) {
    for (size_t i = 0; i < els.size(); ++i) for (int k = 0; k < 4; ++k) for (int lod : lods) {
      for (uint64_t id : {7, 8}) {
        if (id == 8 && i > 2) break;
        els[i][k]->id = id;
        auto w = oracle(rs, Kinds[k], id, tagSets[i], lod); bool has = sp.hasStyle(*els[i][k], lod);
        auto where = [&] { std::string t; for (auto &p : tagSets[i]) t += p.first + "=" + p.second + " "; return mc::fmt("%s of id %d {%s} on level %d with\n%s", Kinds[k], (int)id, t.c_str(), lod, src.c_str()); };
        if (has != w.any) mc::fail("hasStyle is %d for %s", has, where().c_str());
        auto s = sp.forElement(*els[i][k], lod); mc::transition();
        if (s.empty() != !w.any) mc::fail("style is %s for %s", s.empty() ? "empty" : "not empty", where().c_str());
        for (auto &d : decl) {
          auto f = w.d.find(d); bool h = s.has(st.getId(d)); if (h != (f != w.d.end())) mc::fail("declaration %s is %s for %s", d.c_str(), h ? "set" : "missing", where().c_str());
          std::string v = s.getString(d); if (v != (h ? f->second : "")) mc::fail("%s is '%s', expected '%s' for %s", d.c_str(), v.c_str(), h ? f->second.c_str() : "", where().c_str());
        }
        auto b = s.getBuilders(); if (std::multiset<std::string>(b.begin(), b.end()) != std::multiset<std::string>(w.builders.begin(), w.builders.end())) mc::fail("builders differ for %s", where().c_str());
        mc::outcome(w.any * 31 + w.d.size()); for (auto &d : w.d) mc::outcome(d.second);
      }
    }
  }
  void sheet(const std::vector<RuleT> &rs, int layout, const std::vector<int> &lods) {
    std::string src = text(rs, layout); StyleSheet ss = MapCssParser().parse(src); StyleProvider sp(ss, st); compare(rs, sp, src, lods);
    for (int l : lods) {
      auto s = sp.forCanvas(l); std::map<std::string, std::string> w; for (auto &r : rs) for (auto &x : r.sels) for (auto &k : x.kinds) if (k == "canvas" && l >= x.z0 && l <= x.z1) for (auto &d : r.ds) w[d.k] = d.v;
      for (auto &d : decl) if (s.getString(d) != (w.count(d) ? w[d] : "")) mc::fail("canvas %s is '%s' on level %d with\n%s", d.c_str(), s.getString(d).c_str(), l, src.c_str());
    }
  }
};

static std::vector<std::vector<Decl>> D{{{"p", "1"}, {"q1", "one"}, {"builder", "b1"}}, {{"q2", "two"}, {"p", "2"}, {"builder", "b2"}}, {{"p", "3"}, {"q3", "x3"}, {"q1", "again"}}};

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(120);
  for (auto k1 : {"", "a", "b"}) for (auto k2 : {"", "3", "5", "7.5", "10"}) for (auto k3 : {"", "x"}) { TagMap t; if (*k1) t["k1"] = k1; if (*k2) t["k2"] = k2; if (*k3) t["k3"] = k3; tagSets.push_back(t); }
  std::vector<std::vector<std::string>> kinds{{"node"}, {"way"}, {"area"}, {"relation"}, {"way", "area"}, {"relation", "area", "way", "node"}};
  struct Z { int a, b; bool s; }; std::vector<Z> zs{{5, 5, true}, {4, 6, false}, {1, 19, false}, {5, 5, false}, {6, 4, false}, {16, 16, true}};
  std::vector<Cond> cs{{"k1", "", ""}, {"k1", "=", "a"}, {"k1", "=", "b"}, {"k1", "!=", "a"}, {"k2", "<", "5"}, {"k2", ">", "5"}, {"k2", "=", "5"}, {"k2", "!=", "5"}, {"k2", ">", "4"}, {"k3", "", ""}, {"k2", "<", "9.5"}};
  std::vector<std::vector<Cond>> cl; for (auto &a : cs) cl.push_back({a}); for (auto &a : cs) for (auto &b : cs) cl.push_back({a, b});
  std::vector<std::string> keys{"k1", "k2", "k3"};
  std::vector<std::vector<std::string>> orders; { std::vector<std::string> o = keys; do orders.push_back(o); while (std::next_permutation(o.begin(), o.end())); }
  std::vector<int> lods{1, 3, 4, 5, 6, 7, 16, 19};
  // one rule
  for (size_t k = 0; k < kinds.size(); ++k) for (size_t z = 0; z < zs.size(); ++z) for (size_t c = 0; c < cl.size(); c += 11)
    mc::run(mc::fmt("one:%zu/%zu/%zu", k, z, c), [&] {
      Env e(orders[(k + z + c) % 6]);
      for (size_t i = c; i < std::min(cl.size(), c + 11); ++i) for (int l = 0; l < 3; ++l) if (mc::thorough() || l == int(i % 3)) e.sheet({{{{kinds[k], zs[z].a, zs[z].b, zs[z].s, cl[i]}}, D[0]}}, l, lods);
    });
  // three conditions, all key orders of the string table
  for (size_t o = 0; o < orders.size(); ++o) for (size_t a = 0; a < cs.size(); ++a) mc::run(mc::fmt("three:%zu/%zu", o, a), [&] {
    Env e(orders[o]); for (auto &b : cs) for (auto &c : cs) if (mc::thorough() || (b.k != c.k && cs[a].k != b.k)) e.sheet({{{{{"way"}, 5, 5, true, {cs[a], b, c}}}, D[0]}}, 0, {5}); });
  // two and three rules, grouped selectors
  std::vector<Sel> red;
  for (auto &k : std::vector<std::vector<std::string>>{{"way"}, {"area"}, {"way", "area"}}) for (auto &z : std::vector<Z>{{5, 5, true}, {4, 6, false}}) for (auto &c : std::vector<std::vector<Cond>>{{{"k1", "", ""}}, {{"k1", "=", "a"}}, {{"k2", ">", "5"}}, {{"k1", "!=", "a"}, {"k3", "", ""}}}) red.push_back({k, z.a, z.b, z.s, c});
  red.push_back({{"element"}, 5, 5, true, {{"id", "=", "7"}}}); red.push_back({{"element"}, 4, 6, false, {{"id", "=", "8"}}}); red.push_back({{"element"}, 4, 5, false, {{"id", "=", "7"}}}); red.push_back({{"canvas"}, 5, 5, true, {}}); red.push_back({{"canvas"}, 3, 6, false, {}});
  for (size_t a = 0; a < red.size(); ++a) mc::run(mc::fmt("two:%zu", a), [&] { Env e(orders[a % 6]); for (size_t b = 0; b < red.size(); ++b) e.sheet({{{red[a]}, D[0]}, {{red[b]}, D[1]}}, (a + b) % 3, {3, 4, 5, 6}); });
  for (size_t a = 0; a < red.size(); ++a) mc::run(mc::fmt("group:%zu", a), [&] { Env e(orders[a % 6]); for (size_t b = 0; b < red.size(); ++b) if (red[a].kinds[0] != "canvas" && red[b].kinds[0] != "canvas") e.sheet({{{red[a], red[b]}, D[1]}, {{red[b]}, D[2]}}, (a + b) % 3, {4, 5}); });
  for (size_t a = 0; a < red.size(); ++a) mc::run(mc::fmt("triple:%zu", a), [&] { Env e(orders[a % 6]); size_t st = mc::thorough() ? 1 : 3; for (size_t b = 0; b < red.size(); b += st) for (size_t c = a % st; c < red.size(); c += st) e.sheet({{{red[a]}, D[0]}, {{red[b]}, D[1]}, {{red[c]}, D[2]}}, (a + b + c) % 3, {4, 5}); });
  // many tags: position of a key among n others
  for (int n = 0; n <= 24; ++n) mc::run(mc::fmt("many:%d", n), [&] {
    StringTable st(mc::scratch("st")); std::vector<std::string> ks; for (int i = 0; i <= n; ++i) { ks.push_back(mc::fmt("t%02d", i)); st.getId(ks.back()); }
    auto own = st.getId("yes"); auto b = st.getId("builder"); (void)own; (void)b;
    std::string src; for (auto &k : ks) src += "node|z1[" + k + "=yes]{d" + k + ":1;}"; src += "node|z1[missing]{dm:1;}"; StyleSheet ss = MapCssParser().parse(src); StyleProvider sp(ss, st);
    for (int skip = -1; skip <= n; ++skip) {
      utymap::formats::Tags ft; for (int i = n; i >= 0; --i) if (i != skip) { utymap::formats::Tag t; t.key = ks[i]; t.value = i % 5 == 4 ? "no" : "yes"; ft.push_back(t); }
      auto e = std::make_shared<Node>(); utymap::utils::setTags(st, *e, ft); auto s = sp.forElement(*e, 1);
      for (int i = 0; i <= n; ++i) if (s.has(st.getId("d" + ks[i])) != (i != skip && i % 5 != 4)) mc::fail("tag %d of %d (without %d): wrong match", i, n + 1, skip);
      if (s.has(st.getId("dm"))) mc::fail("missing tag matched"); mc::transition();
    }
    mc::outcome(n); });
  // numeric comparison of every pair of numbers, incl. ones which differ in late digits
  std::vector<std::string> nums{"0", "1", "-1", "0.1", "-0.5", "1.25", "1.5", "1.5000001", "9.99", "10", "100", "255", "256", "999.999", "1000", "32767", "32768", "65535", "65536", "16777216", "16777217", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "123456789012", "123456789013"};
  for (auto &cnd : nums) mc::run("number:" + cnd, [&] {
    StringTable st(mc::scratch("st")); for (auto op : {"<", ">", "=", "!="}) { StyleProvider sp(MapCssParser().parse("node|z1[n" + std::string(op) + cnd + "]{d:1;}"), st);
      for (auto &v : nums) { Node e; e.id = 1; e.tags.push_back(Tag(st.getId("n"), st.getId(v))); long double a = strtold(v.c_str(), nullptr), b = strtold(cnd.c_str(), nullptr); bool w = *op == '<' ? a < b : *op == '>' ? a > b : (v == cnd) == (*op == '=');
        if (sp.hasStyle(e, 1) != w) mc::fail("condition [n%s%s] is %s for n=%s", op, cnd.c_str(), w ? "not met" : "met", v.c_str()); mc::transition(); mc::outcome(w); } }
    mc::outcome(cnd); });
  // imports: rules of imported files take effect at the place of the import
  for (int m = 0; m < 27; ++m) mc::run(mc::fmt("import:%d", m), [&] {
    Env e(orders[m % 6]); std::string dir = mc::scratch("imp"); std::string src; std::vector<RuleT> rs; int q = m;
    for (int i = 0; i < 3; ++i, q /= 3) {
      RuleT r{{red[(i * 5 + m) % 20]}, D[i]};
      if (q % 3 == 0) { src += text({r}, 0); rs.push_back(r); }
      else if (q % 3 == 1) { std::string f = mc::fmt("f%d.mapcss", i); mc::writeFile(dir + f, text({r}, 1)); src += "@import url(\"" + f + "\");\n"; rs.push_back(r); }
      else { std::string f = mc::fmt("g%d.mapcss", i), g = mc::fmt("h%d.mapcss", i); RuleT r2{{red[(i * 7 + m + 3) % 20]}, D[(i + 1) % 3]}; mc::writeFile(dir + g, text({r}, 2)); mc::writeFile(dir + f, "@import url(\"" + g + "\");\n" + text({r2}, 0)); src += "@import url(\"" + f + "\");"; rs.push_back(r); rs.push_back(r2); }
    }
    StyleSheet ss = MapCssParser(dir).parse(src); StyleProvider sp(ss, e.st); e.compare(rs, sp, src, {4, 5, 6}); });
  return mc::finish();
}
