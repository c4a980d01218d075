// C12: an interrupted build of a tile never leaves a cache entry which is delivered as the tile.
//BUILD variant=asan
#include "crash.hpp"
#include "world.hpp"
#include "builders/CacheBuilder.hpp"
#include "builders/MeshPool.hpp"
#include "builders/QuadKeyBuilder.hpp"
#include "builders/terrain/TerraBuilder.hpp"
#include "heightmap/ElevationProvider.hpp"
#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace utymap::builders; using namespace utymap::mapcss; using namespace utymap::math;
static const Req Rs[] = {{0, 0, 0}, {1, 1, 2}, {2, 2, 0}};
// the tile builder above a cached terrain builder, with an elevation source which can interrupt the build at any of its queries
struct Steps : utymap::heightmap::ElevationProvider {
  mutable long n = 0; long at = -1; bool fails = false; CancellationToken *token = nullptr;
  double step(double lat, double lon) const { if (n++ == at) { if (fails) throw std::domain_error("no elevation"); token->cancel(); } return 10 + lat + lon; }
  double getElevation(const QuadKey &, const GeoCoordinate &c) const override { return step(c.latitude, c.longitude); }
  double getElevation(const QuadKey &, double lat, double lon) const override { return step(lat, lon); }
};
struct Low {
  std::string dir; StringTable st; StyleSheet ss; StyleProvider sp; GeoStore store; MeshCache cache; QuadKeyBuilder qb;
  static std::string tag(const std::string &d, const StyleProvider &s) { lodDirs(d + "/cache/" + s.getTag(), 15, 16); return d; }
  Low(const World &w, const std::string &d) : dir(d), st(d), ss(MapCssParser(w.styles[0].substr(0, w.styles[0].rfind('/') + 1)).parse(mc::readFile(w.styles[0]))), sp(ss, st), store(st), cache(tag(d, sp), "terrain"), qb(store, st) {
    store.registerStore("m", utymap::utils::make_unique<InMemoryElementStore>(st)); CancellationToken t; store.add("m", w.osm, LodRange(15, 16), sp, t);
    qb.registerElementBuilder("terrain", [this](const BuilderContext &c) { return utymap::utils::make_unique<CacheBuilder<TerraBuilder>>(cache, c); });
    qb.registerElementBuilder("building", [](const BuilderContext &c) { return utymap::utils::make_unique<EmptyBuilder>(c); });
  }
  std::string get(const QuadKey &q, const Steps &e, CancellationToken &t, std::string *err = nullptr, int failAt = -1) {
    std::vector<std::string> got; auto add = [&](const std::string &s) { if ((int)got.size() == failAt) throw std::runtime_error("receiver failed"); got.push_back(s); };
    try { qb.build(q, sp, e, [&](const Mesh &m) { if (!m.vertices.empty()) add(mc::fmt("mesh %s %zu %llx %zu %llx", m.name.c_str(), m.vertices.size(), (unsigned long long)api::hashOf(m.vertices.data(), m.vertices.size()), m.triangles.size(), (unsigned long long)api::hashOf(m.colors.data(), m.colors.size()))); }, [&](const Element &x) { add(show(x)); }, t); }
    catch (std::exception &x) { if (err) *err = x.what(); else mc::fail("request failed: %s", x.what()); }
    return join(got, true);
  }
};

int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(300); bool th = mc::thorough();
  std::unique_ptr<World> wp; auto world = [&]() -> World & { if (!wp) wp.reset(new World()); return *wp; };
  std::map<std::string, std::string> ref; std::map<std::string, api::Got> full; auto refs = [&] { if (!ref.empty()) return; Driver d(world(), mc::scratch("ref"), false); for (auto &r : Rs) { ref[nameOf(r)] = d.get(r); full[nameOf(r)] = api::request(1, world().styles[r.style], d.tile(r), r.ele); } };
  // a later session delivers every tile as if nothing had happened, also when it asks twice
  auto recovered = [&](const std::string &dir, const Req &r, const std::string &what, bool all = false) { for (int session = 0; session < 2; ++session) { Driver d(world(), dir, true); for (auto &x : Rs) if (all || nameOf(x) == nameOf(r)) for (int k = 0; k < 2 - session; ++k) { std::string g = d.get(x); if (g != ref[nameOf(x)]) mc::fail("%s: session %d then delivers %s, expected %s", what.c_str(), session, g.c_str(), ref[nameOf(x)].c_str()); } } mc::transition(); };
  // process death at every write (torn ones, too) of the cache; then at every write of the session that repeats the request
  for (auto &r : Rs) mc::run("crash:" + nameOf(r), [&] { refs(); crash::only = "/cache/"; long k = 0; for (;; ++k) { bool died = false; for (int torn = 0; torn < 3; ++torn) { std::string dir = mc::scratch("h"); died = crash::runChild(k, torn, [&] { Driver d(world(), dir, true); if (d.get(r) != ref[nameOf(r)]) mc::fail("wrong"); }); bool small = crash::small; recovered(dir, r, mc::fmt("death at write %ld (torn %d)", k, torn)); if (!died || small) break;
      for (long k2 = 0; ; ++k2) { bool d2 = false; for (int t2 = 0; t2 < (th ? 3 : 2); ++t2) { std::string dir2 = mc::scratch("h"); crash::runChild(k, torn, [&] { Driver d(world(), dir2, true); d.get(r); }); d2 = crash::runChild(k2, t2, [&] { Driver d(world(), dir2, true); if (d.get(r) != ref[nameOf(r)]) mc::fail("wrong after death at %ld", k); }); recovered(dir2, r, mc::fmt("deaths at writes %ld and %ld", k, k2)); if (!d2 || crash::small) break; } if (!d2) break; } } if (!died) break; } crash::only = ""; mc::count("crash points", k); mc::outcome(k * 31 + r.tile); });
  // death anywhere in the whole session (import, string table, elevation, cache)
  for (int part = 0; part < 16; ++part) mc::run(mc::fmt("anywhere:%d", part), [&] { refs(); crash::only = ""; const Req &r = Rs[part % 2]; for (long k = part / 2; k < 4000; k += th ? 8 : 16) for (int torn = 0; torn < 2; ++torn) { std::string dir = mc::scratch("h"); bool died = crash::runChild(k, torn, [&] { Driver d(world(), dir, true); d.get(r); d.get(Rs[2]); }); recovered(dir, r, mc::fmt("death at call %ld (torn %d)", k, torn), true); mc::count("crash points"); if (!died) { mc::outcome(k); return; } if (crash::small) break; } });
  // the other sides of one write: no space (once, for ever), short writes
  for (auto &r : Rs) for (int mode = 0; mode < 4; ++mode) mc::run(mc::fmt("fault:%s:%d", nameOf(r).c_str(), mode), [&] { refs(); long k = 0; for (;; ++k) { std::string dir = mc::scratch("h"), got; { Driver d(world(), dir, true); crash::only = "/cache/"; crash::faultErrno = mode == 3 ? 0 : ENOSPC; crash::shortWrite = mode == 3; crash::faultCount = mode == 1 ? 1000000 : mode == 2 ? 2 : 1; crash::count = 0; crash::at = k; crash::on = true; try { got = d.get(r); } catch (...) { crash::on = false; crash::faultErrno = 0; crash::shortWrite = false; throw; } crash::on = false; long n = crash::count; crash::faultErrno = 0; crash::shortWrite = false; crash::only = "";
      if (got != ref[nameOf(r)]) mc::fail("write %ld fails: delivered %s, expected %s", k, got.c_str(), ref[nameOf(r)].c_str()); got = d.get(r); if (got != ref[nameOf(r)]) mc::fail("after write %ld failed: delivered %s, expected %s", k, got.c_str(), ref[nameOf(r)].c_str()); if (n <= k) break; } recovered(dir, r, mc::fmt("failed write %ld", k)); mc::count("fault points"); } mc::outcome(k * 4 + mode); });
  // cancellation at every delivery, during the first build or while reading from the cache
  for (auto &r : Rs) for (int warm = 0; warm < 2; ++warm) mc::run(mc::fmt("cancel:%s:%d", nameOf(r).c_str(), warm), [&] { refs(); auto &all = full[nameOf(r)]; for (int k = 0; k <= (int)all.items.size() + 1; ++k) { std::string dir = mc::scratch("h"); { Driver d(world(), dir, true); if (warm) d.get(r); CancellationToken t; int n = 0; if (k == 0) t.cancel(); api::hook = [&](int) { if (++n == k) t.cancel(); }; d.use(r.style); auto g = api::request(3, world().styles[r.style], d.tile(r), r.ele, &t); api::hook = nullptr;
      std::multiset<std::string> rest(all.items.begin(), all.items.end()); for (auto &x : g.items) { auto i = rest.find(x); if (i == rest.end()) mc::fail("cancelled after %d: delivered %s", k, x.c_str()); rest.erase(i); } for (int again = 0; again < 2; ++again) { std::string s = d.get(r); if (s != ref[nameOf(r)]) mc::fail("cancelled after %d deliveries, next request delivers %s, expected %s", k, s.c_str(), ref[nameOf(r)].c_str()); } } recovered(dir, r, mc::fmt("cancelled after %d", k)); mc::transition(); mc::outcome(k); } });
  // elevation which is missing first: the request fails, and is complete later
  mc::run("missing elevation", [&] { refs(); for (auto &r : Rs) if (r.ele == 2) for (int restart = 0; restart < 2; ++restart) { std::string dir = mc::scratch("h"); { Driver d(world(), dir, true); std::string f = dir + "/data/" + std::to_string(d.tile(r).levelOfDetail) + "/" + utils::GeoUtils::quadKeyToString(d.tile(r)) + ".ele", keep = mc::readFile(f); std::remove(f.c_str()); for (int i = 0; i < 2; ++i) if (d.get(r).find("error") == std::string::npos) mc::fail("no error without elevation"); mc::writeFile(f, keep); if (restart) d.start(); for (int i = 0; i < 2; ++i) { std::string s = d.get(r); if (s != ref[nameOf(r)]) mc::fail("after elevation appeared: %s, expected %s", s.c_str(), ref[nameOf(r)].c_str()); } } recovered(dir, r, "missing elevation"); mc::outcome(restart); } });
  // cancellation or failure at every elevation query, failure of the receiver at every delivery
  for (int mode = 0; mode < 3; ++mode) for (int tile = 0; tile < 3; ++tile) for (int part = 0; part < 4; ++part) mc::run(mc::fmt("query:%d:%d:%d", mode, tile, part), [&] {
    World &w = world(); QuadKey q = tile == 0 ? w.a : tile == 1 ? w.b : w.p; Steps base; CancellationToken none; std::string want; { Low l(w, mc::scratch("low")); l.cache.disable(); want = l.get(q, base, none); } long total = mode == 2 ? std::count(want.begin(), want.end(), '|') : base.n; if (total < 2) mc::fail("%ld points", total);
    for (long k = part; k < total; k += 4 * (th || mode == 2 ? 1 : 3)) { std::string dir = mc::scratch("low2"); { Low l(w, dir); Steps e; CancellationToken t; e.token = &t; if (mode != 2) e.at = k; e.fails = mode == 1; std::string err; l.get(q, e, t, &err, mode == 2 ? k : -1); if (mode && err.empty()) mc::fail("failure %ld is not reported", k); Steps ok; for (int i = 0; i < 2; ++i) { CancellationToken n2; std::string s = l.get(q, ok, n2); if (s != want) mc::fail("interrupted at %ld of %ld, then delivers %s, expected %s", k, total, s.c_str(), want.c_str()); } }
      Low l(w, dir); Steps ok; CancellationToken n2; std::string s = l.get(q, ok, n2); if (s != want) mc::fail("interrupted at %ld, then after restart delivers %s, expected %s", k, s.c_str(), want.c_str()); mc::transition(); mc::count("interrupted queries"); }
    mc::outcome(total); });
  // same: but the session ends right after the interrupted request
  for (int mode = 0; mode < 2; ++mode) mc::run(mc::fmt("query-end:%d", mode), [&] { World &w = world(); QuadKey q = w.a; Steps base; CancellationToken none; std::string want; { Low l(w, mc::scratch("low")); l.cache.disable(); want = l.get(q, base, none); } for (long k = 0; k < base.n; k += th ? 1 : 9) { std::string dir = mc::scratch("low2"); { Low l(w, dir); Steps e; CancellationToken t; e.token = &t; e.at = k; e.fails = mode; std::string err; l.get(q, e, t, &err); } Low l(w, dir); Steps ok; for (int i = 0; i < 2; ++i) { CancellationToken n2; std::string s = l.get(q, ok, n2); if (s != want) mc::fail("interrupted at %ld, then after restart delivers %s, expected %s", k, s.c_str(), want.c_str()); } mc::transition(); } mc::outcome(base.n); });
  // a second request of the same tile runs while the first one is delivering (at every delivery); either one may be cancelled
  for (int i = 0; i < 3; ++i) for (int mode = 0; mode < 4; ++mode) mc::run(mc::fmt("while:%d:%d", i, mode), [&] { refs(); const Req &r = Rs[i]; size_t n = full[nameOf(r)].items.size(); const char *M[] = {"", "second is cancelled", "first is cancelled", "second one has another style"}; Req r2 = r; if (mode == 3) r2.style = r.style == 0 ? 1 : 0; std::string want2; if (mode == 3) { Driver d(world(), mc::scratch("ref2"), false); want2 = d.get(r2); } else want2 = ref[nameOf(r)];
    for (size_t k = 1; k <= n; ++k) { std::string dir = mc::scratch("h"), inner; { Driver d(world(), dir, true); d.use(r.style); d.use(r2.style); CancellationToken t1, t2; int c = 0; std::thread th2; std::mutex m; std::condition_variable cv; bool done = false; api::gots()[3]; api::gots()[4];
      api::hook = [&](int tag) { if (tag == 4) { if (mode == 1) t2.cancel(); return; } if (++c != (int)k) return; if (mode == 2) t1.cancel(); th2 = std::thread([&] { getDataByQuadKey(4, world().styles[r2.style].c_str(), d.tile(r2).tileX, d.tile(r2).tileY, d.tile(r2).levelOfDetail, r2.ele, api::onMesh, api::onElement, api::onError, &t2); std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); }); std::unique_lock<std::mutex> l(m); cv.wait_for(l, std::chrono::seconds(5), [&] { return done; }); };
      api::gots()[3] = api::Got(); api::gots()[4] = api::Got(); getDataByQuadKey(3, world().styles[r.style].c_str(), d.tile(r).tileX, d.tile(r).tileY, d.tile(r).levelOfDetail, r.ele, api::onMesh, api::onElement, api::onError, &t1); if (th2.joinable()) th2.join(); api::hook = nullptr;
      if (mode != 2 && api::sorted(api::gots()[3]) != ref[nameOf(r)]) mc::fail("first request delivers %s, expected %s", api::sorted(api::gots()[3]).c_str(), ref[nameOf(r)].c_str()); if (mode != 1 && api::sorted(api::gots()[4]) != want2) mc::fail("request during delivery %zu of the same tile (%s) delivers %s, expected %s", k, M[mode], api::sorted(api::gots()[4]).c_str(), want2.c_str());
      for (int again = 0; again < 2; ++again) { std::string s = d.get(r); if (s != ref[nameOf(r)]) mc::fail("after two requests at once (%s, second at delivery %zu): %s, expected %s", M[mode], k, s.c_str(), ref[nameOf(r)].c_str()); s = d.get(r2); if (s != want2) mc::fail("after two requests at once (%s): %s, expected %s", M[mode], s.c_str(), want2.c_str()); } }
      recovered(dir, r, mc::fmt("two requests at once (%s)", M[mode])); mc::transition(); mc::outcome(k); } });
  // every interleaving of three builds of one tile on one cache; builds end by completion, after cancellation, or are given up; at every state a restarted process reads the cache too
  struct Over {
    std::string dir; StringTable st; StyleSheet ss; StyleProvider sp; utymap::builders::MeshPool pool; Steps ele; QuadKey q; std::vector<std::string> want; std::string path;
    explicit Over() : dir(mc::scratch("over")), st(dir), ss(MapCssParser("").parse(std::string("area|z15[a]{k:v;}"))), sp(ss, st), q(15, 17603, 10743) { lodDirs(dir + "/cache/" + sp.getTag(), 15, 15); path = dir + "/cache/" + sp.getTag() + "/15/" + utils::GeoUtils::quadKeyToString(q) + ".terrain"; }
    static std::string text(const Mesh &m) { return mc::fmt("%s %zu %llx", m.name.c_str(), m.vertices.size(), (unsigned long long)api::hashOf(m.vertices.data(), m.vertices.size())); }
    struct Actor { CancellationToken token; std::vector<std::string> got; std::unique_ptr<BuilderContext> ctx, cached; bool fetched = false; int pc = 0; };
    std::unique_ptr<BuilderContext> context(Actor &a) { return std::unique_ptr<BuilderContext>(new BuilderContext(q, sp, st, pool, ele, [&a](const Mesh &m) { a.got.push_back(text(m)); }, [&a](const Element &e) { a.got.push_back("element " + std::to_string(e.id)); }, a.token)); }
    static void content(int i, const std::function<void(const Mesh &)> &mesh) { Mesh m(i ? "second" : "first"); for (int k = 0; k < (i ? 30 : 3000); ++k) m.vertices.push_back(k * (i + 1.5)); m.triangles = {0, 1, 2}; m.colors = {1, 2, 3}; mesh(m); }
    void restart(const std::string &trace) { std::string dir2 = mc::scratch("over2"), d = dir2 + "/cache/" + sp.getTag() + "/15/"; std::string old = mc::readFile(path); if (old.empty()) return; lodDirs(dir2 + "/cache/" + sp.getTag(), 15, 15); mc::writeFile(d + utils::GeoUtils::quadKeyToString(q) + ".terrain", old);
      MeshCache c(dir2, "terrain"); Actor a; a.ctx = context(a); bool f; try { f = c.fetch(*a.ctx); } catch (std::exception &e) { mc::fail("process ends after %s: the next one cannot read the cache: %s", trace.c_str(), e.what()); } if (f ? a.got != want : !a.got.empty()) mc::fail("process ends after %s: the next one reads %s", trace.c_str(), join(a.got).c_str()); }
  };
  for (int v = 0; v < 27; ++v) for (int first = 0; first < 3; ++first) for (int second = 0; second < 3; ++second) {
    int ends[3] = {v % 3, v / 3 % 3, v / 9}; if (ends[0] > ends[1] || ends[1] > ends[2] || (!th && ends[1])) continue;   // 0 complete, 1 cancelled, 2 given up; the builds are alike, so their order does not matter
    mc::run(mc::fmt("overlap:%d%d%d:%d%d", ends[0], ends[1], ends[2], first, second), [&] {
      Over o; for (int i = 0; i < 2; ++i) Over::content(i, [&](const Mesh &m) { o.want.push_back(Over::text(m)); }); std::set<std::string> seen; std::vector<int> word; const int Len = 4;
      auto execute = [&] {
        std::remove(o.path.c_str()); MeshCache cache(o.dir, "terrain"); Over::Actor as[3]; std::string trace;
        for (int who : word) { auto &a = as[who]; const char *names[] = {"begins", "builds 1", "builds 2", "ends"}; trace += mc::fmt("%c %s; ", 'A' + who, names[a.pc]);
          try { switch (a.pc++) {
            case 0: a.ctx = o.context(a); a.fetched = cache.fetch(*a.ctx); if (a.fetched ? a.got != o.want : !a.got.empty()) mc::fail("%sit reads %s from the cache", trace.c_str(), join(a.got).c_str()); if (!a.fetched) a.cached.reset(new BuilderContext(cache.wrap(*a.ctx))); break;
            case 3: if (a.fetched) break; if (ends[who] == 1) a.token.cancel(); if (ends[who] == 2) cache.abandon(*a.cached); else cache.unwrap(*a.cached); if (a.got != o.want) mc::fail("%sit delivered %s", trace.c_str(), join(a.got).c_str()); break;
            default: if (!a.fetched) Over::content(a.pc - 2, [&](const Mesh &m) { a.cached->meshCallback(m); }); } }
          catch (mc::Fail &) { throw; } catch (std::exception &e) { mc::fail("%sfailure: %s", trace.c_str(), e.what()); }
          if (seen.insert(trace).second) { o.restart(trace); mc::transition(); } }
        Over::Actor last; last.ctx = o.context(last); bool f; try { f = cache.fetch(*last.ctx); } catch (std::exception &e) { mc::fail("after %sthe cache cannot be read: %s", trace.c_str(), e.what()); } if (f ? last.got != o.want : !last.got.empty()) mc::fail("after %sthe cache has %s", trace.c_str(), join(last.got).c_str()); mc::outcome(f); mc::S().traces++; };
      int left[3] = {Len, Len, Len}; std::function<void()> go = [&] { if ((int)word.size() == 3 * Len) { execute(); return; } for (int w = 0; w < 3; ++w) if (left[w]) { if (word.size() == 0 && w != first) continue; if (word.size() == 1 && w != second) continue; --left[w]; word.push_back(w); go(); word.pop_back(); ++left[w]; } }; go(); });
  }
  return mc::finish();
}
