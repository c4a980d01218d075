// helpers shared by native harnesses
#pragma once
#include "mc.hpp"
#include "BoundingBox.hpp"
#include "CancellationToken.hpp"
#include "GeoCoordinate.hpp"
#include "LodRange.hpp"
#include "QuadKey.hpp"
#include "entities/Area.hpp"
#include "entities/Element.hpp"
#include "entities/ElementVisitor.hpp"
#include "entities/Node.hpp"
#include "entities/Relation.hpp"
#include "entities/Way.hpp"
#include "index/StringTable.hpp"
#include "utils/GeoUtils.hpp"
#include <memory>

namespace uty {
using namespace utymap;
using namespace utymap::entities;
using namespace utymap::index;
using Tags = std::vector<std::pair<std::string, std::string>>;
using Coords = std::vector<GeoCoordinate>;
using El = std::shared_ptr<Element>;

inline std::vector<Tag> tags(StringTable &st, const Tags &t) { std::vector<Tag> r; for (auto &p : t) { auto k = st.getId(p.first); auto v = st.getId(p.second); r.push_back(Tag(k, v)); } return r; }
inline El node(StringTable &st, uint64_t id, const Tags &t, GeoCoordinate c) { auto n = std::make_shared<Node>(); n->id = id; n->tags = tags(st, t); n->coordinate = c; return n; }
inline El way(StringTable &st, uint64_t id, const Tags &t, const Coords &c) { auto n = std::make_shared<Way>(); n->id = id; n->tags = tags(st, t); n->coordinates = c; return n; }
inline El area(StringTable &st, uint64_t id, const Tags &t, const Coords &c) { auto n = std::make_shared<Area>(); n->id = id; n->tags = tags(st, t); n->coordinates = c; return n; }
inline El relation(StringTable &st, uint64_t id, const Tags &t, const std::vector<El> &m) { auto n = std::make_shared<Relation>(); n->id = id; n->tags = tags(st, t); n->elements = m; return n; }

// canonical text of an element (exact coordinates)
struct Show : ElementVisitor {
  std::string out; bool brief; const StringTable *st;
  explicit Show(bool b = false, const StringTable *s = nullptr) : brief(b), st(s) {}
  void head(char k, const Element &e) {
    out += k; out += mc::fmt("%llu{", (unsigned long long)e.id);
    if (brief && e.tags.size() > 8) out += mc::fmt("#%zu:%llx", e.tags.size(), (unsigned long long)hashTags(e));
    else for (auto &t : e.tags) { if (st) out += *st->getString(t.key) + "=" + *st->getString(t.value) + ","; else out += mc::fmt("%u=%u,", t.key, t.value); }
    out += "}";
  }
  static uint64_t hashTags(const Element &e) { uint64_t h = 1; for (auto &t : e.tags) h = (h * 31 + t.key) * 31 + t.value; return h; }
  void coords(const Coords &c) {
    if (brief && c.size() > 12) { uint64_t h = 1; for (auto &x : c) { h = mc::hash(&x.latitude, 8, h); h = mc::hash(&x.longitude, 8, h); } out += mc::fmt("(#%zu:%llx)", c.size(), (unsigned long long)h); return; }
    out += "("; for (auto &x : c) out += mc::fmt("%.17g %.17g,", x.latitude, x.longitude); out += ")";
  }
  void visitNode(const Node &n) override { head('n', n); coords({n.coordinate}); }
  void visitWay(const Way &n) override { head('w', n); coords(n.coordinates); }
  void visitArea(const Area &n) override { head('a', n); coords(n.coordinates); }
  void visitRelation(const Relation &n) override {
    head('r', n); out += "[";
    size_t i = 0; for (auto &e : n.elements) { if (brief && ++i > 40) { Show s(true, st); uint64_t h = 0; for (auto &x : n.elements) { s.out.clear(); x->accept(s); h = mc::hash(s.out, h); } out += mc::fmt("...#%zu:%llx", n.elements.size(), (unsigned long long)h); break; } e->accept(*this); out += ";"; }
    out += "]";
  }
};
inline std::string show(const Element &e, const StringTable *st = nullptr) { Show s(true, st); e.accept(s); return s.out; }

// collects deep copies / texts of everything visited; can cancel a token after n elements
struct Collect : ElementVisitor {
  std::vector<std::string> texts; std::vector<El> elements; CancellationToken *token = nullptr; int cancelAfter = -1; const StringTable *st = nullptr; bool keep = false;
  template <class T> void add(const T &e) {
    texts.push_back(show(e, st)); if (keep) elements.push_back(std::make_shared<T>(e));
    if (token && cancelAfter >= 0 && int(texts.size()) >= cancelAfter) token->cancel();
  }
  void visitNode(const Node &n) override { add(n); }
  void visitWay(const Way &n) override { add(n); }
  void visitArea(const Area &n) override { add(n); }
  void visitRelation(const Relation &n) override { add(n); }
};
inline std::string join(std::vector<std::string> v, bool sorted = false) { if (sorted) std::sort(v.begin(), v.end()); std::string r; for (auto &s : v) r += s + "|"; return r; }
inline std::string show(const QuadKey &q) { return mc::fmt("%d/%d/%d", q.levelOfDetail, q.tileX, q.tileY); }
// directories 1..19 below a data path
inline void lodDirs(const std::string &p, int from = 1, int to = 19) { mc::mkdirs(p); for (int i = from; i <= to; ++i) mkdir((p + "/" + std::to_string(i)).c_str(), 0755); }
inline GeoCoordinate at(const BoundingBox &b, double fy, double fx) { return GeoCoordinate(b.minPoint.latitude + (b.maxPoint.latitude - b.minPoint.latitude) * fy, b.minPoint.longitude + (b.maxPoint.longitude - b.minPoint.longitude) * fx); }
inline BoundingBox bboxOf(const QuadKey &q) { return utils::GeoUtils::quadKeyToBoundingBox(q); }
}
