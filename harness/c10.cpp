//BUILD variant=asan
// C10: every point at which the library can observe a cancellation. The token lies on a protected page: each read of it traps, so the n-th
// read of an operation can be made the first one that sees the cancellation, for every n and however the library is written.
#include "fmtw.hpp"
#include "world.hpp"
#include <sys/mman.h>
#include <ucontext.h>
static const char *K(const std::string &s) { return s.c_str(); }
// ---------------------------------------------------------------- the trap
static char *page; static size_t reads, target, seen; static utymap::CancellationToken *tok; static int watched;
static size_t delivered() { return api::gots()[watched].items.size(); }
static void onSegv(int, siginfo_t *i, void *c) {
  char *p = static_cast<char *>(i->si_addr); if (p < page || p >= page + 4096) { signal(SIGSEGV, SIG_DFL); return; }
  mprotect(page, 4096, PROT_READ | PROT_WRITE); if (++reads == target) { tok->cancel(); seen = delivered(); }
  static_cast<ucontext_t *>(c)->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void onTrap(int, siginfo_t *, void *c) { static_cast<ucontext_t *>(c)->uc_mcontext.gregs[REG_EFL] &= ~0x100L; mprotect(page, 4096, PROT_NONE); }
static void setTrap() {
  page = static_cast<char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); tok = reinterpret_cast<utymap::CancellationToken *>(page + 128);
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_flags = SA_SIGINFO; a.sa_sigaction = onSegv; sigaction(SIGSEGV, &a, nullptr); a.sa_sigaction = onTrap; sigaction(SIGTRAP, &a, nullptr);
}
// runs an operation with its token; the n-th read cancels (0: never); cancelAt: cancelled by the caller inside of that delivery (1 is the first one)
struct Run { size_t reads = 0, seen = 0, cancelledAt = 0; std::vector<std::string> items, errors; };
static Run with(size_t n, size_t cancelAt, int tag, const std::function<void(utymap::CancellationToken *)> &op) {
  mprotect(page, 4096, PROT_READ | PROT_WRITE); new (tok) utymap::CancellationToken(); reads = 0; target = n; seen = size_t(-1); watched = tag; api::gots()[tag] = api::Got(); size_t e = api::errors.size(); Run r;
  // a caller writes to the token without being trapped
  api::hook = cancelAt ? std::function<void(int)>([&](int t) { if (t == tag && delivered() == cancelAt) { mprotect(page, 4096, PROT_READ | PROT_WRITE); tok->cancel(); seen = delivered(); mprotect(page, 4096, PROT_NONE); } }) : std::function<void(int)>();
  mprotect(page, 4096, PROT_NONE);
  std::string x; try { op(tok); } catch (std::exception &ex) { x = ex.what(); }
  mprotect(page, 4096, PROT_READ | PROT_WRITE); api::hook = nullptr; r.reads = reads; r.seen = seen; r.items = api::gots()[tag].items; api::gots().erase(tag); for (; e < api::errors.size(); ++e) r.errors.push_back(api::errors[e]); mc::transition();
  if (!x.empty()) mc::fail("exception %s", x.c_str()); return r;
}
static std::string sorted(std::vector<std::string> v) { return join(v, true); }
static void subset(const std::vector<std::string> &part, const std::vector<std::string> &full) { auto f = full; for (auto &x : part) { auto i = std::find(f.begin(), f.end(), x); if (i == f.end()) mc::fail("a cancelled request delivered %s, which the complete one does not", x.c_str()); f.erase(i); } }
static World *w;
// ---------------------------------------------------------------- requests
struct Query { std::string name; std::function<void(utymap::CancellationToken *)> f; };
static std::string extra, plain;
static std::vector<Query> queries() {
  std::vector<Query> r;
  for (auto &q : {w->a, w->b, w->p, w->d}) for (int e = 0; e < 3; ++e) for (int s = 0; s < 3; ++s) { std::string st = s < 2 ? w->styles[s] : extra; if (s == 1 && e) continue; r.push_back({mc::fmt("tile %d/%d style %d heights %d", q.levelOfDetail, q.tileX, s, e), [=](utymap::CancellationToken *t) { getDataByQuadKey(7, K(st), q.tileX, q.tileY, q.levelOfDetail, e, api::onMesh, api::onElement, api::onError, t); }}); }
  for (const char *x : {"natural", "highway", "shop", "building", "k"}) for (int l = 15; l <= 17; ++l) r.push_back({mc::fmt("text %s levels %d-%d", x, 15, l), [=](utymap::CancellationToken *t) { getDataByText(7, "", "", x, 52.512, 13.39, 52.518, 13.403, 15, l, api::onElement, api::onError, t); }});
  return r;
}
struct Live {
  std::string dir; std::unique_ptr<api::Session> s;
  Live(int stores, bool cache) : dir(mc::scratch("live")) { mc::rmTree(dir); mc::mkdirs(dir + "/data"); mc::mkdirs(dir + "/m1"); w->grid(dir); s.reset(new api::Session(dir)); for (auto &x : w->styles) registerStylesheet(K(x), api::onDir); registerStylesheet(K(extra), api::onDir); utymap::CancellationToken t;
    if (stores != 1) { registerInMemoryStore("m0"); addDataInRange("m0", K(extra), K(w->osm), 15, 17, api::onError, &t); }
    if (stores != 0) { registerPersistentStore("m1", K(dir + "/m1"), api::onDir); addDataInRange("m1", K(extra), K(w->osm), 15, 17, api::onError, &t); if (stores == 2) { api::Osm o; BoundingBox A = bboxOf(w->a); o.node(at(A, .3, .3), {{"shop", "x"}}, 9101); o.node(at(A, .3, .4), {{"shop", "y"}, {"k", "v"}}, 9102); o.way(9103, {at(A, .8, .1), at(A, .8, .9)}, {{"fence", "yes"}}); mc::writeFile(dir + "/more.xml", o.text()); addDataInRange("m1", K(extra), K(dir + "/more.xml"), 15, 17, api::onError, &t); } }
    enableMeshCache(cache); if (!api::errors.empty()) mc::fail("import: %s", api::errors.back().c_str()); }
  ~Live() { s.reset(); mc::rmTree(dir); }
};
static std::unique_ptr<Live> live; static int liveIs = -1;
static void cancelled(const Query &q, int stores, bool cache) {
  mc::run(mc::fmt("stores %d cache %d %s", stores, cache, q.name.c_str()), [&] {
    if (liveIs != stores * 2 + cache) { live.reset(); live.reset(new Live(stores, cache)); liveIs = stores * 2 + cache; }
    Run full = with(0, 0, 7, q.f); if (!full.errors.empty()) mc::fail("error %s", full.errors[0].c_str()); std::string want = sorted(full.items); mc::count("reads", full.reads); if (full.items.empty()) mc::trivial();
    auto judge = [&](const char *how, size_t n, const Run &r) {
      mc::state(mc::hash(join(r.items) + q.name)); if (!r.errors.empty()) mc::fail("%s %zu: error %s", how, n, r.errors[0].c_str()); subset(r.items, full.items);
      if (r.seen != size_t(-1) && r.items.size() != r.seen) mc::fail("%s %zu: %zu more deliveries after the cancellation, the first one %s", how, n, r.items.size() - r.seen, r.items[r.seen].c_str());
    };
    auto again = [&](const char *how, size_t n) { Run r = with(0, 0, 7, q.f); if (!r.errors.empty() || sorted(r.items) != want) mc::fail("%s %zu: repeated without cancelling it delivers %s instead of %s", how, n, sorted(r.items).c_str(), want.c_str()); };
    for (size_t n = 1; n <= full.reads; ++n) { judge("cancelled at read", n, with(n, 0, 7, q.f)); again("cancelled at read", n); }
    for (size_t n = 1; n <= full.items.size(); ++n) { judge("cancelled in delivery", n, with(0, n, 7, q.f)); again("cancelled in delivery", n); }
    if (full.reads == 0 && !full.items.empty()) mc::fail("the token is never read");
  });
}
// ---------------------------------------------------------------- imports
static std::string map; static std::vector<std::string> files; static std::string all;
static void makeFiles() {
  BoundingBox A = bboxOf(w->a); Step = 0.0005; Y0 = ceil(A.minPoint.latitude * 1e4) / 1e4; X0 = ceil(A.minPoint.longitude * 1e4) / 1e4; all = mc::scratch("files");
  Data d; d.nodes = {{11, {1, 2}, {{"k", "n1"}}}, {12, {3, 4}, {{"k", "n2"}}}, {13, {2, 14}, {{"k", "n3"}}}}; d.ways = {{21, {{0, 0}, {0, 4}}, {{"k", "v"}}}, {22, {{0, 0}, {4, 0}, {4, 4}, {0, 0}}, {{"k", "area"}}}, {23, {{1, 2}, {2, 15}, {30, 15}}, {{"k", "long"}}}, {24, {{1, 1}, {3, 1}, {3, 3}, {1, 1}}, {}}}; d.rels = {{31, 'p', {{'n', 11, "via"}, {'w', 21, ""}}, {{"k", "x"}}}, {32, 'm', {{'w', 24, "outer"}}, {{"type", "multipolygon"}, {"k", "r"}}}};
  for (auto &x : d.ways) for (auto &p : x.p) d.at(p);
  auto put = [&](const std::string &f, const std::string &s) { mc::writeFile(all + "/" + f, s); files.push_back(all + "/" + f); };
  put("d.xml", xml(d, XmlLayout{0, 0, 1, 0, 0, 0})); put("d.pbf", pbf(d, PbfLayout{100, 0, 1, 2, 1})); put("e.pbf", pbf(d, PbfLayout{100, 0, 0, 3, 0}));
  Pts sq = {{0, 0}, {0, 5}, {5, 5}, {5, 0}, {0, 0}}, hole = {{2, 2}, {3, 2}, {3, 3}, {2, 3}, {2, 2}}; std::vector<Feature> fs = {{"roads", 'L', {{{{0, 0}, {5, 20}}}}, {{"k", "v"}}, "123"}, {"roads", 'P', {{{{3, 4}}}}, {{"k", "x"}}, "55"}, {"water", 'Y', {{sq, hole}}, {{"k", "w"}}, "9"}, {"water", 'L', {{{{1, 1}, {2, 9}}}}, {{"k", "z"}}, "77"}}; put("d.json", json(fs, 0));
  std::vector<Field> f = {{"k", FTString, 6, 0}}; Pts cs = sq; std::reverse(cs.begin(), cs.end()); writeShape(all + "/l", 3, f, {{{{{0, 0}, {5, 20}}}, {"a"}}, {{{{2, 0}, {2, 3}}}, {"b"}}, {{{{1, 0}, {2, 9}}}, {"c"}}}); files.push_back(all + "/l"); writeShape(all + "/y", 5, f, {{{cs}, {"a"}}, {{hole}, {"b"}}}); files.push_back(all + "/y"); writeShape(all + "/n", 1, f, {{{{{1, 1}}}, {"a"}}, {{{{2, 2}}}, {"b"}}, {{{{2, 14}}}, {"c"}}}); files.push_back(all + "/n");
}
struct Store {   // a session with a store, data in other tiles of it and in the same tile of another store
  std::string dir; bool disk; std::unique_ptr<api::Session> s;
  void start() { s.reset(); s.reset(new api::Session(dir)); registerStylesheet(K(plain), api::onDir); if (disk) registerPersistentStore("t", K(dir + "/t"), api::onDir); else registerInMemoryStore("t"); registerInMemoryStore("o"); }
  Store(bool disk_) : dir(mc::scratch("store")), disk(disk_) { mc::rmTree(dir); mc::mkdirs(dir + "/data"); mc::mkdirs(dir + "/t"); start(); utymap::CancellationToken t; for (auto &q : {w->b, w->p, w->d}) addDataInQuadKey("t", K(plain), K(w->osm), q.tileX, q.tileY, q.levelOfDetail, api::onError, &t); other(); }
  void other() { utymap::CancellationToken t; addDataInQuadKey("o", K(plain), K(w->osm), w->a.tileX, w->a.tileY, 16, api::onError, &t); if (!api::errors.empty()) mc::fail("import: %s", api::errors.back().c_str()); }
  ~Store() { s.reset(); mc::rmTree(dir); }
  std::string tile(const QuadKey &q) { return api::sorted(api::request(3, plain, q, 0)); }
  std::string text(const char *x, int l, int m) { utymap::CancellationToken t; api::gots()[4] = api::Got(); getDataByText(4, "", "", x, 52.512, 13.39, 52.518, 13.403, l, m, api::onElement, api::onError, &t); std::string r = api::sorted(api::gots()[4]); api::gots().erase(4); return r; }
  std::string probe(bool texts = true) { std::string r; for (auto &q : {w->a, w->b, w->p, w->d}) r += tile(q) + "\n"; if (texts) r += text("k", 15, 17) + "\n" + text("natural", 15, 17) + "\n" + mc::fmt("%d%d", hasData(w->a.tileX, w->a.tileY, 16), hasData(w->b.tileX, w->b.tileY, 16)); if (!api::errors.empty()) mc::fail("error while probing: %s", api::errors.back().c_str()); return r; }
};
static void import(const std::string &file, bool disk, int kind, bool restart) {   // kind 0: tile, 1: levels, 2: box
  auto op = [&](utymap::CancellationToken *t) { if (kind == 0) addDataInQuadKey("t", K(plain), K(file), w->a.tileX, w->a.tileY, 16, api::onError, t); else if (kind == 1) addDataInRange("t", K(plain), K(file), 15, 16, api::onError, t); else { BoundingBox A = bboxOf(w->a); addDataInBoundingBox("t", K(plain), K(file), A.minPoint.latitude, A.minPoint.longitude, A.maxPoint.latitude, A.maxPoint.longitude, 16, 16, api::onError, t); } };
  std::string name = mc::fmt("import of %s kind %d %s%s ", file.substr(file.rfind('/') + 1).c_str(), kind, disk ? "disk" : "memory", restart ? " restart" : ""), before, after; size_t n = 0;
  mc::run(name + "complete", [&] { Store s(disk); before = s.probe(kind == 0); Run r = with(0, 0, 9, op); n = r.reads; if (!r.errors.empty()) mc::fail("error %s", r.errors[0].c_str()); after = s.probe(kind == 0); mc::count("reads", n); if (after == before) mc::fail("nothing imported"); if (n < 2) mc::fail("the token is hardly read"); });
  if (!n) { Store s(disk); before = s.probe(kind == 0); Run r = with(0, 0, 9, op); n = r.reads; after = s.probe(kind == 0); }
  auto check = [&](Store &s, const char *when) {
    if (restart) { s.start(); s.other(); }
    if (kind == 0) { std::string p = s.probe(kind == 0); if (p != before) mc::fail("%s: the store delivers %s instead of %s", when, p.c_str(), before.c_str()); } };
  for (size_t k = 1; k <= n; ++k) {
    mc::run(name + mc::fmt("cancelled at %zu", k), [&] { Store s(disk); Run r = with(k, 0, 9, op); if (kind == 0 && !r.errors.empty()) mc::fail("error %s", r.errors[0].c_str()); api::errors.clear(); check(s, "after the cancelled import"); Run f = with(0, 0, 9, op); if (!f.errors.empty()) mc::fail("repeated: error %s", f.errors[0].c_str()); if (restart) { s.start(); s.other(); } std::string p = s.probe(kind == 0); mc::state(mc::hash(p)); if (p != after) mc::fail("repeated without cancelling the store delivers %s instead of %s", p.c_str(), after.c_str()); });
    if (kind == 0) for (size_t j = 1; j <= n; j += mc::thorough() ? 1 : 1 + n / 8) mc::run(name + mc::fmt("cancelled at %zu, then at %zu", k, j), [&] { Store s(disk); with(k, 0, 9, op); Run r = with(j, 0, 9, op); if (!r.errors.empty()) mc::fail("error %s", r.errors[0].c_str()); check(s, "after two cancelled imports"); Run f = with(0, 0, 9, op); if (!f.errors.empty()) mc::fail("repeated: error %s", f.errors[0].c_str()); std::string p = s.probe(kind == 0); if (p != after) mc::fail("repeated without cancelling the store delivers %s instead of %s", p.c_str(), after.c_str()); });
  }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(60); setTrap(); World world; w = &world;
  std::string d = w->dir + "/x/"; mc::mkdirs(d); mc::writeFile(d + "a.txt", "3,100,200\npond,10,20,30,40\n"); mc::writeFile(d + "tree.lsys", "generations: 1\nangle: 45\nscale: 2\naxiom: root\nroot -> ! cylinder\n");
  mc::writeFile(d + "s.mapcss", World::css("#0000ff", "@texture url(\"a.txt\");\n@lsystem url(\"tree.lsys\");\n", "node,way,area,relation|z14-17[k]{builder:poster;}way|z14-17[fence]{builder:barrier;color:gradient(#ff0000);height:2m;width:1m;texture-index:3;texture-type:pond;texture-scale:1;}"
    "node|z14-17[shop=book]{builder:poster,tree;lsystem:tree;lsys-colors:gradient(#00ff00);lsys-texture-indices:3;lsys-texture-types:pond;lsys-texture-scales:1;trunk-radius:0.5m;lsys-size:1m;}")); extra = d + "s.mapcss"; plain = d + "p.mapcss"; mc::writeFile(plain, "node,way,area,relation|z14-17[k],node|z14-17[shop],area|z14-17[natural],way|z14-17[highway]{builder:poster;}");
  for (int stores = 0; stores < 3; ++stores) for (int cache = 0; cache < 2; ++cache) for (auto &q : queries()) cancelled(q, stores, cache != 0); live.reset();
  makeFiles(); for (auto &f : files) for (int kind = 0; kind < 3; ++kind) for (int disk = 0; disk < 2; ++disk) for (int restart = 0; restart <= disk; ++restart) { if (kind && f.find('.', f.rfind('/')) == std::string::npos) continue; import(f, disk != 0, kind, restart != 0); }
  return mc::finish();
}
