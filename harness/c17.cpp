// C17: style values, expressions, colors and gradients against independent evaluators.
#include "uty.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/ColorGradient.hpp"
#include "mapcss/Style.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include "mapcss/TextureAtlasParser.hpp"
#include "utils/ElementUtils.hpp"
#include "utils/GradientUtils.hpp"
using namespace uty; using namespace utymap::mapcss; using utymap::utils::GradientUtils;

struct Operand { std::string src; double num; std::string str; bool tag = false, missing = false, isStr = false; };
static std::vector<Operand> ops;
static const std::map<std::string, std::string> TagVals{{"a", "3"}, {"b:c", "-2.5"}, {"d", "10"}, {"s", "text"}, {"e", ""}, {"h", "0.25"}};

struct Env {
  StringTable st; std::shared_ptr<Node> el;
  Env() : st(mc::scratch("st")) { el = std::make_shared<Node>(); utymap::formats::Tags t; for (auto &p : TagVals) { utymap::formats::Tag x; x.key = p.first; x.value = p.second; t.push_back(x); } utymap::utils::setTags(st, *el, t); }
  template <class F> void with(const std::string &value, F f) {
    StyleSheet ss = MapCssParser().parse("node|z1[a]{v:" + value + ";w:7;}"); StyleProvider sp(ss, st); auto s = sp.forElement(*el, 1); f(s, sp); mc::transition();
  }
};
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)) || (std::isnan(a) && std::isnan(b)) || a == b; }

static void expr(Env &e, const std::vector<int> &o, const std::string &opers, int layout) {
  const char *gap = layout == 0 ? "" : layout == 1 ? " " : "  ";
  std::string src = "eval(\""; if (layout == 2) src += " ";
  bool allPlus = true; std::string str; double val = 0;
  for (size_t i = 0; i < o.size(); ++i) {
    auto &x = ops[o[i]]; if (i) src += gap + std::string(1, opers[i - 1]) + gap; src += x.src;
    if (i == 0) val = x.num; else switch (opers[i - 1]) { case '+': val += x.num; break; case '-': val -= x.num; break; case '*': val *= x.num; break; default: val /= x.num; }
    if (i && opers[i - 1] != '+') allPlus = false; str += x.str;
  }
  src += std::string(layout == 2 ? " " : "") + "\")";
  e.with(src, [&](const Style &s, const StyleProvider &) {
    double got = 0; std::string t = mc::threw([&] { got = s.getValue("v"); });
    if (!t.empty()) mc::fail("%s: %s", src.c_str(), t.c_str());
    if (!close(got, val)) mc::fail("%s is %.17g, expected %.17g", src.c_str(), got, val);
    std::string gs; t = mc::threw([&] { gs = s.getString("v"); });
    if (allPlus == !t.empty()) mc::fail("text of %s: %s", src.c_str(), t.empty() ? ("'" + gs + "' instead of an error").c_str() : t.c_str());
    if (t.empty() && gs != str) mc::fail("text of %s is '%s', expected '%s'", src.c_str(), gs.c_str(), str.c_str());
    if (s.getValue("w") != 7) mc::fail("value next to %s is %g", src.c_str(), s.getValue("w"));
    mc::outcome(src);
  });
}

struct Stop { double t; int r, g, b; std::string txt; };
static void colorAt(const ColorGradient &g, const std::vector<Stop> &ss, double t, const std::string &src) {
  double w[3]; size_t i = 0; while (i < ss.size() && ss[i].t < t) ++i;
  if (i == 0) { w[0] = ss[0].r; w[1] = ss[0].g; w[2] = ss[0].b; }
  else if (i == ss.size()) { w[0] = ss.back().r; w[1] = ss.back().g; w[2] = ss.back().b; }
  else { double m = (t - ss[i - 1].t) / (ss[i].t - ss[i - 1].t); w[0] = ss[i - 1].r * (1 - m) + ss[i].r * m; w[1] = ss[i - 1].g * (1 - m) + ss[i].g * m; w[2] = ss[i - 1].b * (1 - m) + ss[i].b * m; }
  Color c = g.evaluate(t); int got[3] = {c.r, c.g, c.b};
  for (int k = 0; k < 3; ++k) if (got[k] > w[k] + 1 || got[k] < w[k] - 2) mc::fail("%s at %g has channel %d = %d, expected %.2f", src.c_str(), t, k, got[k], w[k]);
  if (c.a < 253) mc::fail("%s at %g is transparent (%d)", src.c_str(), t, c.a);
  for (auto &s : ss) if (s.t == t && (got[0] != s.r || got[1] != s.g || got[2] != s.b)) mc::fail("%s has not its own color at the stop %g", src.c_str(), t);
  mc::transition();
}
static const std::vector<Stop> Pal{{0, 255, 0, 0, "red"}, {0, 0, 0, 255, "#0000ff"}, {0, 18, 52, 86, "#123456"}, {0, 171, 205, 239, "#ABCDEF"}, {0, 0, 128, 0, "green"}, {0, 255, 255, 255, "white"}, {0, 240, 230, 140, "khaki"}, {0, 171, 205, 239, "#abcdef"}};

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(120);
  ops = {{"2", 2, "2"}, {"0.5", .5, "0.5"}, {"-3", -3, "-3"}, {"tag('a')", 3, "3", true}, {"tag('b:c')", -2.5, "-2.5", true}, {"tag('d')", 10, "10", true}, {"tag('s')", 0, "text", true}, {"'x_y'", 0, "x_y", false, false, true}, {"'4'", 4, "4", false, false, true}, {"tag('none')", 0, "", true, true}, {"1e2", 100, "100"}, {"tag('h')", .25, "0.25", true}};
  int n = ops.size();
  for (int a = 0; a < n; ++a) mc::run(mc::fmt("e1:%d", a), [&] { Env e; for (int l = 0; l < 3; ++l) expr(e, {a}, "", l); });
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) mc::run(mc::fmt("e2:%d,%d", a, b), [&] { Env e; for (char o : {'+', '-', '*', '/'}) for (int l = 0; l < 3; ++l) expr(e, {a, b}, std::string(1, o), l); });
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) mc::run(mc::fmt("e3:%d,%d", a, b), [&] {
    Env e; std::string oc = "+-*/"; for (int c = 0; c < n; ++c) { if (!mc::thorough() && (a + b + c) % 3) continue; for (char o : oc) for (char p : oc) expr(e, {a, b, c}, std::string{o, p}, (a + c) % 3); } });
  for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) mc::run(mc::fmt("e4:%d,%d", a, b), [&] {
    Env e; std::string oc = "+-*/"; for (int c = 0; c < 5; ++c) for (int d = 0; d < 5; ++d) { if (!mc::thorough() && (a + b + c + d) % 3) continue; for (char o : oc) for (char p : oc) for (char q : oc) expr(e, {a, b, c, d}, std::string{o, p, q}, 1); } });
  // plain values: numbers, meters, percents, texts
  std::vector<std::string> nums{"0", "1", "7", "-1", "0.5", "-0.25", "10", "123.456", "+3", "1e3", "100", "0.001"};
  for (size_t i = 0; i < nums.size(); ++i) mc::run("num:" + nums[i], [&] {
    Env e; double v = strtod(nums[i].c_str(), nullptr);
    e.with(nums[i], [&](const Style &s, const StyleProvider &) {
      if (!close(s.getValue("v"), v) || !close(s.getValue("v", 5.0), v) || s.getString("v") != nums[i]) mc::fail("%s is %g / '%s'", nums[i].c_str(), s.getValue("v"), s.getString("v").c_str());
      if (s.getValue("absent") != 0 || s.getString("absent") != "" || s.has(e.st.getId("absent"))) mc::fail("absent value"); });
    e.with(nums[i] + "%", [&](const Style &s, const StyleProvider &) {
      for (double rel : {0.0, 1.0, 3.0, 250.0}) if (!close(s.getValue("v", rel), rel * v / 100)) mc::fail("%s%% of %g is %g", nums[i].c_str(), rel, s.getValue("v", rel));
      for (int lod : {1, 8, 16}) { auto b = bboxOf(QuadKey(lod, 1, 1)); if (!close(s.getValue("v", b), b.height() * v / 100)) mc::fail("%s%% of a box", nums[i].c_str()); } });
    e.with(nums[i] + "m", [&](const Style &s, const StyleProvider &) {
      if (!close(s.getValue("v"), v) || !close(s.getValue("v", 9.0), v)) mc::fail("%sm is %g", nums[i].c_str(), s.getValue("v"));
      for (int lod : {2, 10, 16}) { auto b = bboxOf(QuadKey(lod, 1, 1 << (lod - 2))); double want = utymap::utils::GeoUtils::getOffset(b.center(), v); if (!close(s.getValue("v", b), want) || std::fabs(s.getValue("v", b) * 111320 - v) > .012 * std::fabs(v)) mc::fail("%sm is %g degrees", nums[i].c_str(), s.getValue("v", b)); } });
    mc::outcome(nums[i]); });
  std::vector<std::string> txts{"flat", "true", "false", "a b", "gable", "x.y-z", "a,b", "url(abc)", "'quoted'", "place_of_worship"};
  for (auto &t : txts) mc::run("txt:" + t, [&] { Env e; e.with(t, [&](const Style &s, const StyleProvider &) { if (s.getString("v") != t || !s.has(e.st.getId("v"), t) || s.has(e.st.getId("v"), t + "x") || s.has(e.st.getId("w"), t)) mc::fail("text %s is %s", t.c_str(), s.getString("v").c_str()); }); mc::outcome(t); });
  // colors: all channel bytes in both cases
  for (int ch = 0; ch < 3; ++ch) for (int hi = 0; hi < 16; ++hi) mc::run(mc::fmt("hex:%d,%d", ch, hi), [&] {
    for (int lo = 0; lo < 16; ++lo) for (int up = 0; up < 2; ++up) for (int o : {0, 0x5a, 255}) {
      int v[3] = {o, o, o}; v[ch] = hi * 16 + lo; std::string s = mc::fmt(up ? "#%02X%02X%02X" : "#%02x%02x%02x", v[0], v[1], v[2]);
      Color c = GradientUtils::parseColor(s); if (c.r != v[0] || c.g != v[1] || c.b != v[2] || c.a != 255) mc::fail("%s is %d %d %d %d", s.c_str(), c.r, c.g, c.b, c.a);
      auto g = GradientUtils::parseGradient(s); for (double t : {0.0, .3, 1.0}) { Color d = g->evaluate(t); if (uint32_t(d) != uint32_t(c)) mc::fail("gradient %s differs from its color at %g", s.c_str(), t); }
      if (uint32_t(c) != (uint32_t(v[0]) << 24 | v[1] << 16 | v[2] << 8 | 255)) mc::fail("%s has value %08x", s.c_str(), uint32_t(c));
      if (uint32_t(Color(int(uint32_t(c)))) != uint32_t(c)) mc::fail("color does not survive its integer form");
      if (!GradientUtils::isGradient(s)) mc::fail("%s is not recognised as a color", s.c_str());
      mc::transition();
    }
    mc::outcome(ch * 16 + hi); });
  { // CSS named colors (independent table of the basic ones)
    struct N { const char *n; uint32_t c; }; static const N names[] = {{"black", 0x000000}, {"silver", 0xc0c0c0}, {"gray", 0x808080}, {"white", 0xffffff}, {"maroon", 0x800000}, {"red", 0xff0000}, {"purple", 0x800080}, {"fuchsia", 0xff00ff}, {"green", 0x008000}, {"lime", 0x00ff00}, {"olive", 0x808000}, {"yellow", 0xffff00}, {"navy", 0x000080}, {"blue", 0x0000ff}, {"teal", 0x008080}, {"aqua", 0x00ffff}, {"orange", 0xffa500}, {"brown", 0xa52a2a}, {"pink", 0xffc0cb}, {"gold", 0xffd700}, {"khaki", 0xf0e68c}, {"indigo", 0x4b0082}, {"beige", 0xf5f5dc}, {"salmon", 0xfa8072}, {"tomato", 0xff6347}, {"skyblue", 0x87ceeb}, {"lightgreen", 0x90ee90}, {"darkgreen", 0x006400}, {"sienna", 0xa0522d}, {"tan", 0xd2b48c}, {"wheat", 0xf5deb3}, {"plum", 0xdda0dd}, {"violet", 0xee82ee}, {"coral", 0xff7f50}, {"crimson", 0xdc143c}, {"cyan", 0x00ffff}, {"magenta", 0xff00ff}, {"ivory", 0xfffff0}, {"lavender", 0xe6e6fa}, {"linen", 0xfaf0e6}, {"orchid", 0xda70d6}, {"peru", 0xcd853f}, {"turquoise", 0x40e0d0}, {"chocolate", 0xd2691e}, {"darkblue", 0x00008b}, {"lightblue", 0xadd8e6}, {"lightgray", 0xd3d3d3}, {"dimgray", 0x696969}, {"gainsboro", 0xdcdcdc}, {"whitesmoke", 0xf5f5f5}, {"steelblue", 0x4682b4}, {"slategray", 0x708090}, {"forestgreen", 0x228b22}, {"seagreen", 0x2e8b57}, {"olivedrab", 0x6b8e23}, {"firebrick", 0xb22222}, {"saddlebrown", 0x8b4513}, {"burlywood", 0xdeb887}, {"cadetblue", 0x5f9ea0}, {"royalblue", 0x4169e1}};
    for (auto &x : names) mc::run(std::string("name:") + x.n, [&] {
      Color c = GradientUtils::parseColor(x.n); if (uint32_t(c) >> 8 != x.c || c.a != 255) mc::fail("color %s is %08x", x.n, uint32_t(c));
      auto g = GradientUtils::parseGradient(x.n); if (uint32_t(g->evaluate(.4)) != uint32_t(c)) mc::fail("gradient of color %s", x.n);
      Env e; e.with(x.n, [&](const Style &s, const StyleProvider &sp) { if (uint32_t(GradientUtils::evaluateGradient(sp, s, "v").evaluate(.7)) != uint32_t(c)) mc::fail("declared color %s", x.n); });
      e.with(std::string("gradient(") + x.n + ")", [&](const Style &s, const StyleProvider &sp) { if (uint32_t(GradientUtils::evaluateGradient(sp, s, "v").evaluate(.7)) != uint32_t(c)) mc::fail("gradient(%s)", x.n); });
      mc::outcome(x.n); });
  }
  // gradients with two to four stops
  std::vector<int> ts{10, 25, 50, 70, 99};
  for (size_t a = 0; a < Pal.size(); ++a) for (size_t b = 0; b < Pal.size(); ++b) mc::run(mc::fmt("grad:%zu,%zu", a, b), [&] {
    auto eval = [&](std::vector<Stop> ss, const std::string &src) {
      auto g = GradientUtils::parseGradient(src); for (int i = 0; i <= 100; ++i) colorAt(*g, ss, i / 100., src); for (auto &s : ss) colorAt(*g, ss, s.t, src);
      mc::outcome(src); };
    auto stop = [&](size_t p, double t) { Stop s = Pal[p]; s.t = t; return s; };
    eval({stop(a, 0), stop(b, 1)}, "gradient(" + Pal[a].txt + ", " + Pal[b].txt + ")");
    eval({stop(a, 0), stop(b, 1)}, "gradient(" + Pal[a].txt + " 0%," + Pal[b].txt + " 100%)");
    eval({stop(a, .2), stop(b, .6)}, "gradient(" + Pal[a].txt + " 20%, " + Pal[b].txt + " 60%)");
    for (size_t c = 0; c < Pal.size(); ++c) for (int t : ts) {
      eval({stop(a, 0), stop(b, t / 100.), stop(c, 1)}, "gradient(" + Pal[a].txt + mc::fmt(", %s %d%%, ", Pal[b].txt.c_str(), t) + Pal[c].txt + ")");
      for (int u : ts) if (u > t && (mc::thorough() || (a + b + c + u) % 4 == 0)) eval({stop(a, 0), stop(b, t / 100.), stop(c, u / 100.), stop((a + b) % Pal.size(), 1)}, "gradient(" + Pal[a].txt + mc::fmt(" 0%%, %s %d%%, %s %d%%, ", Pal[b].txt.c_str(), t, Pal[c].txt.c_str(), u) + Pal[(a + b) % Pal.size()].txt + ")");
    }
    // the same value again through a style provider: several gradients in one stylesheet do not disturb each other
    Env e; std::string g1 = "gradient(" + Pal[a].txt + ", " + Pal[b].txt + " 50%, #000000)", g2 = "gradient(" + Pal[b].txt + ", " + Pal[a].txt + " 50%, #000000)";
    StyleSheet ss = MapCssParser().parse("node|z1[a]{v:" + g1 + ";x:" + g2 + ";u: eval(\"tag('s')\");}"); StyleProvider sp(ss, e.st); auto s = sp.forElement(*e.el, 1);
    for (int k = 0; k < 2; ++k) { colorAt(GradientUtils::evaluateGradient(sp, s, "v"), {stop(a, 0), stop(b, .5), {1, 0, 0, 0, ""}}, .5, g1); colorAt(GradientUtils::evaluateGradient(sp, s, "x"), {stop(b, 0), stop(a, .5), {1, 0, 0, 0, ""}}, .25, g2); colorAt(sp.getGradient(Pal[a].txt), {stop(a, 0)}, .5, "late gradient"); }
    // gradients which are first asked for later on, told apart by their last letters only
    std::string head = "gradient("; std::vector<Stop> hs; for (int k = 0; k < 8; ++k) { head += (k % 2 ? "#010203" : "#fefdfc") + mc::fmt(" %d%%, ", k * 10); hs.push_back({k / 10., k % 2 ? 1 : 254, k % 2 ? 2 : 253, k % 2 ? 3 : 252, ""}); }
    for (int k = 0; k < 2; ++k) for (size_t c = 0; c < Pal.size(); ++c) { auto x = hs; x.push_back(stop(c, 1)); colorAt(sp.getGradient(head + Pal[c].txt + ")"), x, 1, "long gradient"); colorAt(sp.getGradient(head + Pal[c].txt + ")"), x, .85, "long gradient"); }
  });
  // texture atlases: regions as written, groups chosen by seed
  for (int n = 1; n <= 5; ++n) mc::run(mc::fmt("atlas:%d", n), [&] {
    for (int groups = 1; groups <= n; ++groups) for (int nl = 0; nl < 2; ++nl) {
      std::string src = nl ? "7, 1024, 512\n" : "7,1024,512 "; struct R { int x, y, w, h; }; std::map<std::string, std::vector<R>> want;
      for (int i = 0; i < n; ++i) { R r{i * 100, 17 * i, 30 + i, 255 + i}; std::string g = mc::fmt("grp%d", i % groups); want[g].push_back(r); src += g + mc::fmt(nl ? ", %d, %d, %d, %d\n" : ",%d,%d,%d,%d ", r.x, r.y, r.w, r.h); }
      StyleSheet ss; ss.textures.push_back(TextureAtlasParser().parse(src)); StringTable st(mc::scratch("st")); StyleProvider sp(ss, st);
      for (auto &g : want) for (uint64_t seed = 0; seed < 12; ++seed) { auto &t = sp.getTexture(7, g.first).random(seed); auto &r = g.second[seed % g.second.size()]; if (t.x != r.x || t.y != r.y || t.width != r.w || t.height != r.h || t.atlasWidth != 1024 || t.atlasHeight != 512 || t.isEmpty()) mc::fail("region %d of group %s is %d %d %d %d in %dx%d", (int)seed, g.first.c_str(), t.x, t.y, t.width, t.height, t.atlasWidth, t.atlasHeight); mc::transition(); }
      if (!sp.getTexture(7, "other").random(3).isEmpty() || !sp.getTexture(8, "grp0").random(3).isEmpty()) mc::fail("unknown texture is not empty");
    }
    mc::outcome(n); });
  return mc::finish();
}
