// C04: all bounded histories of store operations; on-disk store and in-memory store against a reference model.
#include "uty.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
using namespace uty;

struct Ctx {
  std::string sdir; std::unique_ptr<StringTable> st; std::vector<El> els; std::vector<std::string> text; std::vector<std::set<std::string>> terms;
  std::vector<QuadKey> tiles;
  Ctx() {
    sdir = mc::S().work + "/strings/"; mc::mkdirs(sdir); st.reset(new StringTable(sdir));
    // lod 2 tiles next to each other, lod 3 tile inside the first
    tiles = {QuadKey(2, 1, 1), QuadKey(2, 2, 1), QuadKey(3, 2, 2)};
    // all elements lie within tile 2 and so within tile 0; they are also saved into tile 1 (a store does not look at geometry)
    auto b = bboxOf(tiles[2]);
    els = {node(*st, 1, {{"amenity", "bar"}}, at(b, .5, .5)), way(*st, 2, {{"highway", "bar foo"}}, {at(b, .2, .2), at(b, .8, .7)}),
           relation(*st, 3, {{"type", "foo"}}, {area(*st, 4, {{"x", "y"}}, {at(b, .1, .1), at(b, .1, .9), at(b, .9, .9)}), node(*st, 5, {}, at(b, .3, .3))})};
    for (auto &e : els) text.push_back(show(*e));
    terms = {{"amenity", "bar"}, {"highway", "bar", "foo"}, {"type", "foo"}};
  }
};

struct Sys {
  Ctx &c; std::string dir; std::unique_ptr<PersistentElementStore> p; std::unique_ptr<InMemoryElementStore> m;
  std::map<int, std::vector<int>> model;   // tile -> elements in order
  BoundingBox world{GeoCoordinate(-80, -179), GeoCoordinate(80, 179)};
  std::string hist;
  std::vector<QuadKey> extra;
  Sys(Ctx &c, const std::string &h, bool seed) : c(c), hist(h) {
    dir = mc::scratch("d"); lodDirs(dir, 1, 5); p.reset(new PersistentElementStore(dir, *c.st)); m.reset(new InMemoryElementStore(*c.st));
    if (seed) for (int i = 0; i < 13; ++i) { extra.push_back(QuadKey(5, i, 3)); p->save(*c.els[0], extra.back()); m->save(*c.els[0], extra.back()); }
  }
  void cmp(const char *op, const char *which, const Collect &got, std::vector<std::string> want, bool ordered) {
    auto g = join(got.texts, !ordered), w = join(want, !ordered);
    if (g != w) mc::fail("%s store, %s after %s: %zu elements %s, expected %zu %s", which, op, hist.c_str(), got.texts.size(), g.substr(0, 300).c_str(), want.size(), w.substr(0, 300).c_str());
  }
  std::vector<std::string> in(int t) { std::vector<std::string> r; for (int e : model[t]) r.push_back(c.text[e]); return r; }
  void query(int t) {
    CancellationToken k;
    // as every caller in the library does, a tile is only searched if the store has data for it
    if (!p->hasData(c.tiles[t])) { if (!model[t].empty()) mc::fail("disk store lost all data of tile %d after %s", t, hist.c_str()); return; }
    Collect a, b; p->search(c.tiles[t], a, k); m->search(c.tiles[t], b, k);
    cmp("tile query", "disk", a, in(t), true); cmp("tile query", "memory", b, in(t), true);
  }
  void cancelled(int t) {
    if (!p->hasData(c.tiles[t])) return;
    for (ElementStore *s : {(ElementStore *)p.get(), (ElementStore *)m.get()}) {
      CancellationToken k; Collect a; a.token = &k; a.cancelAfter = 1; s->search(c.tiles[t], a, k);
      size_t want = std::min<size_t>(1, model[t].size());
      if (a.texts.size() != want || (want && a.texts[0] != in(t)[0])) mc::fail("cancelled query delivered %zu elements after %s", a.texts.size(), hist.c_str());
    }
  }
  void text(const std::string &no, const std::string &an, const std::string &orr) {
    CancellationToken k; Collect a, b; LodRange r(2, 3);
    p->search(no, an, orr, world, r, a, k); m->search(no, an, orr, world, r, b, k);
    std::vector<std::string> want;
    for (auto &t : model) for (int e : t.second) {
      bool ok = !(no.size() && c.terms[e].count(no)) && (an.empty() || c.terms[e].count(an)) && (orr.empty() || c.terms[e].count(orr));
      if (ok) want.push_back(c.text[e]);
    }
    cmp(("text search for +" + an + " |" + orr + " -" + no).c_str(), "disk", a, want, false); cmp("text search", "memory", b, want, false);
  }
  void has() {
    for (size_t t = 0; t < c.tiles.size(); ++t) {
      bool w = !model[t].empty();
      if (p->hasData(c.tiles[t]) != w) mc::fail("disk store %s data for tile %zu after %s", w ? "denies" : "claims", t, hist.c_str());
      if (m->hasData(c.tiles[t]) != w) mc::fail("memory store %s data for tile %zu after %s", w ? "denies" : "claims", t, hist.c_str());
    }
  }
  void evict() { CancellationToken k; for (auto &q : extra) { Collect a; p->search(q, a, k); if (a.texts.size() != 1 || a.texts[0] != c.text[0]) mc::fail("other tile changed after %s", hist.c_str()); } }
  uint64_t hash() { uint64_t h = 3; for (auto &t : model) for (int e : t.second) h = (h * 31 + t.first) * 31 + e; return h; }
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
  // the erase of an absent file is reported on stderr by the library: keep logs small
  if (!freopen("/dev/null", "w", stdout)) {}
  std::cerr.rdbuf(nullptr);
  Ctx c;
  struct Op { char n; std::function<void(Sys &)> f; };
  auto add = [](int e, int t) { return [=](Sys &s) { s.p->save(*s.c.els[e], s.c.tiles[t]); s.m->save(*s.c.els[e], s.c.tiles[t]); s.model[t].push_back(e); }; };
  auto era = [](int t) { return [=](Sys &s) { s.p->erase(s.c.tiles[t]); s.m->erase(s.c.tiles[t]); s.model.erase(t); }; };
  std::vector<Op> all = {
    {'a', add(0, 0)}, {'b', add(1, 0)}, {'c', add(2, 0)}, {'d', add(1, 1)}, {'e', add(0, 2)},
    {'q', [](Sys &s) { s.query(0); }}, {'r', [](Sys &s) { s.query(1); s.query(2); }},
    {'s', [](Sys &s) { s.text("", "bar", ""); }}, {'t', [](Sys &s) { s.text("foo", "", "bar"); }},
    {'k', [](Sys &s) { s.cancelled(0); }},
    {'x', era(0)}, {'y', era(1)},
    {'f', [](Sys &s) { s.p->flush(); }}, {'o', [](Sys &s) { s.p.reset(); s.p.reset(new PersistentElementStore(s.dir, *s.c.st)); }},
    {'v', [](Sys &s) { s.evict(); }},
  };
  std::string small = "abqskxov";     // deeper histories over a smaller alphabet
  auto explore = [&](const std::string &name, const std::string &alpha, int len) {
    std::vector<Op *> ops; for (char ch : alpha) for (auto &o : all) if (o.n == ch) ops.push_back(&o);
    mc::words(ops.size(), len, [&](const std::vector<int> &w) {
      std::string h; for (int o : w) h += ops[o]->n;
      if (h.find_first_of("abcde") == std::string::npos && len > 3) return;
      mc::run(name + ":" + h, [&] {
        bool seed = h.find('v') != std::string::npos;
        Sys s(c, h, seed);
        for (int o : w) { ops[o]->f(s); s.has(); mc::transition(); mc::state(s.hash()); }
        for (int t = 0; t < 3; ++t) s.query(t);
        s.text("", "", "bar"); s.text("bar", "foo", ""); for (int t = 0; t < 3; ++t) s.query(t); if (seed) s.evict(); s.has();
        s.p.reset(); s.p.reset(new PersistentElementStore(s.dir, *c.st)); s.text("", "foo", ""); for (int t = 0; t < 3; ++t) s.query(t);
        mc::outcome(s.hash() * 31 + mc::hash(h)); mc::S().traces++;
      });
    });
  };
  std::string allNames; for (auto &o : all) allNames += o.n;
  int d = mc::thorough() ? 5 : 4;
  for (int len = 1; len <= d; ++len) explore("all", allNames, len);
  for (int len = d + 1; len <= d + 1; ++len) explore("deep", mc::thorough() ? small : "abqsxo", len);
  return mc::finish();
}
