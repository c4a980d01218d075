// importing files through GeoStore into a store that records every element it is given
#pragma once
#include "uty.hpp"
#include "index/ElementStore.hpp"
#include "index/GeoStore.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include <functional>
namespace imp {
using namespace uty;
struct Recorder : ElementStore {
  std::function<void(const Element &, const QuadKey &)> got;
  explicit Recorder(const StringTable &st) : ElementStore(st) {}
  void search(const std::string &, const std::string &, const std::string &, const BoundingBox &, const LodRange &, ElementVisitor &, const CancellationToken &) override {}
  void search(const QuadKey &, ElementVisitor &, const CancellationToken &) override {}
  bool hasData(const QuadKey &) const override { return false; }
  void save(const Element &e, const QuadKey &q) override { got(e, q); }
  void erase(const QuadKey &) override {}
  void erase(const BoundingBox &, const LodRange &) override {}
};
// Every element of any kind has a style at level 1, so nothing is filtered out by styling.
struct Importer {
  StringTable st; mapcss::StyleProvider sp; GeoStore store; Recorder *rec;
  static mapcss::StyleSheet sheet() { auto s = mapcss::MapCssParser().parse("node,way,area,relation|z1[x]{k:v;}"); for (auto &r : s.rules) for (auto &x : r.selectors) x.conditions.clear(); return s; }
  explicit Importer(const std::string &dir) : st(dir), sp(sheet(), st), store(st), rec(new Recorder(st)) { store.registerStore("s", std::unique_ptr<ElementStore>(rec)); }
  void load(const std::string &path, const std::function<void(const Element &)> &f) {
    rec->got = [&](const Element &e, const QuadKey &) { f(e); };
    CancellationToken t; store.add("s", path, LodRange(1, 1), sp, t);
  }
  std::string text(uint32_t id) { return id == UINT32_MAX ? "!ignore" : *st.getString(id); }
  Tags tags(const Element &e) { Tags r; for (auto &t : e.tags) r.push_back(t.key == UINT32_MAX ? std::make_pair(std::string("!ignore"), std::string()) : std::make_pair(*st.getString(t.key), *st.getString(t.value))); return r; }
};
}
