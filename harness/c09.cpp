//BUILD variant=asan
// C09, files: every truncation and every single byte damage of small files of each format, and structural damage of PBF messages.
// After an error nothing of the file may have been stored, and the next import of the intact file gives the complete result.
#include "fmtw.hpp"
static imp::Importer *im; static std::string dir;
struct Out { std::string error; bool failed = false; std::vector<std::string> got; };
static Out load(const std::string &path) {
  Out o; try { im->load(path, [&](const Element &e) { o.got.push_back(show(e, &im->st)); }); } catch (std::exception &e) { o.failed = true; o.error = e.what(); }
  std::sort(o.got.begin(), o.got.end()); return o;
}
static void judge(const std::string &path, const std::string &good, const std::vector<std::string> &want, bool mustFail) {
  Out o = load(path); mc::outcome(o.failed ? "error" : join(o.got));
  if (o.failed && !o.got.empty()) mc::fail("%zu elements stored although the import failed: %s", o.got.size(), o.error.c_str());
  if (mustFail && !o.failed) mc::fail("no error reported, %zu elements stored", o.got.size());
  if (!o.failed) mc::trivial();
  Out g = load(good); if (g.failed || g.got != want) mc::fail("import of an intact file afterwards: %s%zu elements instead of %zu", g.error.c_str(), g.got.size(), want.size());
}
// ways to damage the text at a position; the result is empty when it would not change anything
static const int Damages = 12;
static std::string damage(const std::string &s, size_t i, int k) {
  std::string r = s; unsigned char c = s[i];
  switch (k) {
    case 0: r[i] = 0; break; case 1: r[i] = char(255); break; case 2: r[i] = char(c ^ 1); break; case 3: r[i] = char(c ^ 128); break; case 4: r[i] = '"'; break; case 5: r[i] = '-'; break;
    case 6: r[i] = '9'; break; case 7: r.erase(i, 1); break; case 8: r.insert(i, 1, s[i]); break; case 9: r[i] = char(c ^ 16); break; case 10: if (i + 1 < s.size()) std::swap(r[i], r[i + 1]); break; case 11: r[i] = ' '; break;
  }
  return r == s ? "" : r;
}
struct Sample { std::string name, file, content; std::function<bool(size_t)> cutOk; };   // cutOk: a file cut to that length is complete in itself
static void files() {
  Y0 = 52; X0 = 13; std::vector<Sample> all; auto never = [](size_t) { return false; };
  Data d; d.nodes = {{11, {1, 2}, {{"name", "a & b"}}}, {12, {3, 4}, {}}}; d.ways = {{21, {{0, 0}, {0, 4}}, {{"k", "v"}}}, {22, {{0, 0}, {4, 0}, {4, 4}, {0, 0}}, {{"area", "yes"}}}}; d.rels = {{31, 'p', {{'n', 11, "via"}, {'w', 21, ""}}, {{"k", "x"}}}, {32, 'm', {{'w', 22, "outer"}}, {{"type", "multipolygon"}, {"k", "v"}}}};
  for (auto &w : d.ways) for (auto &p : w.p) d.at(p);
  for (int l = 0; l < 2; ++l) { Sample s{mc::fmt("xml%d", l), "d.xml", xml(d, l ? XmlLayout{1, 3, 1, 1, 2, 1} : XmlLayout{0, 0, 1, 0, 0, 0}), never}; size_t end = s.content.rfind("</osm>") + 6; s.cutOk = [end](size_t n) { return n >= end; }; all.push_back(s); }
  PbfLayout ls[] = {{100, 0, 1, 0, 0}, {1000, 5000000000L, 2, 2, 1}, {100, 0, 0, 1, 0}, {1, 0, 1, 2, 0}};
  for (auto &l : ls) {
    Sample s{mc::fmt("pbf gran%d dense%d blocks%d zip%d", l.gran, l.dense, l.blocks, l.zip), "d.pbf", pbf(d, l), never}; std::set<size_t> ends; size_t p = 0; const std::string &c = s.content; ends.insert(0);
    while (p < c.size()) { auto n = (size_t((unsigned char)c[p + 2]) << 8) + (unsigned char)c[p + 3]; OSMPBF::BlobHeader h; h.ParseFromArray(c.data() + p + 4, int(n)); p += 4 + n + h.datasize(); ends.insert(p); }
    s.cutOk = [ends](size_t n) { return ends.count(n) > 0; }; all.push_back(s);
  }
  Pts sq = {{0, 0}, {0, 9}, {9, 9}, {9, 0}, {0, 0}}, hole = {{2, 2}, {4, 2}, {4, 4}, {2, 4}, {2, 2}};
  std::vector<Feature> fs = {{"roads", 'L', {{{{0, 0}, {5, 5}}}}, {{"k", "v"}}, "123"}, {"roads", 'P', {{{{3, -4}}}}, {{"name", "x \"y\""}}, "-5"}, {"water", 'Y', {{sq, hole}}, {{"k", "w"}}, "9"}, {"water", 'Z', {{sq}, {sq, hole}}, {}, "8"}, {"water", 'M', {{{{0, 0}, {5, 5}}, {{7, 7}, {8, 8}}}}, {}, ""}};
  for (int l = 0; l < 2; ++l) { Sample s{mc::fmt("json%d", l), "d.json", json(fs, l ? 3 : 0), never}; all.push_back(s); }
  // the import of an intact file afterwards uses a cheap format
  std::string good = dir + "/good.xml"; mc::writeFile(good, all[0].content); std::vector<std::string> want = load(good).got;
  for (auto &s : all) {
    bool heavy = s.file == "d.pbf" && !mc::thorough(); std::string self = dir + "/self" + s.file.substr(1), bad = dir + "/bad" + s.file.substr(1); mc::writeFile(self, s.content); if (load(self).got.empty()) { mc::run(s.name + " intact", [&] { mc::fail("intact file not imported: %s", load(self).error.c_str()); }); continue; }
    for (size_t n = 0; n < s.content.size(); ++n) mc::run(mc::fmt("%s cut to %zu", s.name.c_str(), n), [&] { mc::writeFile(bad, s.content.substr(0, n)); judge(bad, good, want, !s.cutOk(n)); });
    for (size_t n = 0; n < s.content.size(); ++n) for (int k = 0; k < Damages; ++k) { if (heavy && (n + k) % 3) continue; std::string x = damage(s.content, n, k); if (x.empty()) continue; mc::run(mc::fmt("%s byte %zu damage %d", s.name.c_str(), n, k), [&] { mc::writeFile(bad, x); judge(bad, good, want, false); }); }
    // a damaged part of some length, and parts repeated, lost or exchanged
    for (size_t n = 0; n < s.content.size(); n += mc::thorough() ? 1 : heavy ? 11 : 3) for (size_t len : {2, 4, 9, 33, 150}) for (int k = 0; k < 4; ++k) { if (n + len > s.content.size()) continue;
      mc::run(mc::fmt("%s %zu bytes from %zu %s", s.name.c_str(), len, n, k == 0 ? "lost" : k == 1 ? "repeated" : k == 2 ? "set to 255" : "set to 0"), [&] { std::string x = s.content; if (k == 0) x.erase(n, len); else if (k == 1) x.insert(n, x.substr(n, len)); else x.replace(n, len, std::string(len, k == 2 ? char(255) : char(0))); mc::writeFile(bad, x); judge(bad, good, want, false); }); }
    for (int k = 0; k < 3; ++k) mc::run(mc::fmt("%s %s", s.name.c_str(), k == 0 ? "missing" : k == 1 ? "is a directory" : "in a missing directory"), [&] { unlink(bad.c_str()); if (k == 1) mc::mkdirs(bad); judge(k == 2 ? dir + "/none/bad" + s.file.substr(1) : bad, good, want, true); if (k == 1) rmdir(bad.c_str()); });
  }
}
// ---------------------------------------------------------------- messages of PBF files
static std::string frame(const std::string &head, const std::string &body) { uint32_t n = uint32_t(head.size()); std::string r; r += char(n >> 24); r += char(n >> 16); r += char(n >> 8); r += char(n); return r + head + body; }
static std::string head(int size, const char *type = "OSMData") { OSMPBF::BlobHeader h; h.set_type(type); h.set_datasize(size); return h.SerializeAsString(); }
static std::string packed(const std::string &data, int rawSize, bool set = true) { OSMPBF::Blob b; std::string z(compressBound(data.size()), 0); uLongf n = z.size(); compress2(reinterpret_cast<Bytef *>(&z[0]), &n, reinterpret_cast<const Bytef *>(data.data()), data.size(), 9); z.resize(n); b.set_zlib_data(z); if (set) b.set_raw_size(rawSize); return b.SerializeAsString(); }
static OSMPBF::PrimitiveBlock block() {
  OSMPBF::PrimitiveBlock b; for (const char *s : {"", "k", "v", "name", "x", "via"}) b.mutable_stringtable()->add_s(s); auto g = b.add_primitivegroup(); auto n = g->add_nodes(); n->set_id(1); n->set_lat(520000000); n->set_lon(130000000); n->add_keys(1); n->add_vals(2);
  auto d = b.add_primitivegroup()->mutable_dense(); for (int i = 0; i < 3; ++i) { d->add_id(i ? 1 : 10); d->add_lat(i ? 10000 : 520000000); d->add_lon(i ? 10000 : 130000000); if (i != 1) { d->add_keys_vals(1); d->add_keys_vals(2); d->add_keys_vals(3); d->add_keys_vals(4); } d->add_keys_vals(0); }
  auto w = b.add_primitivegroup()->add_ways(); w->set_id(5); w->add_refs(10); w->add_refs(1); w->add_refs(1); w->add_keys(1); w->add_vals(2); auto r = b.add_primitivegroup()->add_relations(); r->set_id(7); r->add_memids(5); r->add_types(OSMPBF::Relation::WAY); r->add_roles_sid(5); r->add_memids(5); r->add_types(OSMPBF::Relation::NODE); r->add_roles_sid(0); r->add_keys(1); r->add_vals(2); return b;
}
static void messages() {
  std::string text = block().SerializeAsString(), first = dir + "/first.pbf", good = dir + "/good.xml", bad = dir + "/bad.pbf"; auto whole = [](const std::string &b) { return frame(head(int(b.size())), b); }; auto raw = [](const OSMPBF::PrimitiveBlock &b) { OSMPBF::Blob x; x.set_raw(b.SerializeAsString()); return x.SerializeAsString(); };
  mc::writeFile(first, whole(packed(text, int(text.size())))); mc::writeFile(good, "<?xml?><osm><node id=\"1\" lat=\"5\" lon=\"6\"><tag k=\"a\" v=\"b\"/></node></osm>"); std::vector<std::string> want = load(good).got; int N = int(text.size());
  auto test = [&](const std::string &name, const std::string &content, bool mustFail) { for (int where = 0; where < 2; ++where) mc::run("pbf " + name + (where ? ", second blob" : ""), [&] { mc::writeFile(bad, where ? mc::readFile(first) + content : content); judge(bad, good, want, mustFail); }); };
  if (load(first).got.size() != 6) mc::run("pbf message intact", [&] { mc::fail("not imported: %s", load(first).error.c_str()); });
  for (uint32_t n : {0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff0u, 65537u, 65536u, 0x00010001u}) { std::string h = head(5); std::string x = frame(h, packed(text, N)); x[0] = char(n >> 24); x[1] = char(n >> 16); x[2] = char(n >> 8); x[3] = char(n); test(mc::fmt("header size %u", n), x, true); }
  for (int n : {-1, -2147483647 - 1, 0x7fffffff, 33554433, 33554432, 1, 7, -16}) test(mc::fmt("blob size %d", n), frame(head(n), packed(text, N)), true);
  for (int n : {-1, -2147483647 - 1, 0x7fffffff, 33554433, 0, 1, N - 1}) test(mc::fmt("unpacked size %d of %d", n, N), whole(packed(text, n)), n < N || n > 33554432);
  test("no unpacked size", whole(packed(text, 0, false)), true);
  { OSMPBF::Blob b; b.set_lzma_data("xyz"); b.set_raw_size(9); test("lzma", whole(b.SerializeAsString()), true); }
  { OSMPBF::Blob b; b.set_zlib_data(""); b.set_raw_size(9); test("empty zlib", whole(b.SerializeAsString()), true); }
  { OSMPBF::Blob b; b.set_zlib_data(std::string(100, 'x')); b.set_raw_size(900); test("no zlib", whole(b.SerializeAsString()), true); }
  { OSMPBF::Blob b; test("no data", whole(b.SerializeAsString()), false); }
  { std::string big(33554433 - 0, 'x'); OSMPBF::Blob b; b.set_zlib_data(""); std::string z = packed(std::string(40000000, 'a'), 40000000); test("bomb", whole(z), true); z = packed(std::string(40000000, 'a'), 1000); test("bomb with small size", whole(z), true); }
  test("unknown type", frame(head(int(packed(text, N).size()), "Other"), packed(text, N)), false);
  // every index into the table of strings, every list of lengths that do not match, extreme numbers
  using B = OSMPBF::PrimitiveBlock; struct M { std::string name; std::function<void(B &, long)> f; bool fail; };
  std::vector<M> ms; auto index = [&](const std::string &n, std::function<void(B &, long)> f) { ms.push_back({n, f, true}); };
  index("node key", [](B &b, long v) { b.mutable_primitivegroup(0)->mutable_nodes(0)->set_keys(0, uint32_t(v)); }); index("node value", [](B &b, long v) { b.mutable_primitivegroup(0)->mutable_nodes(0)->set_vals(0, uint32_t(v)); });
  for (int i : {0, 1, 2, 3, 5, 6, 7, 8}) index(mc::fmt("dense tag %d", i), [i](B &b, long v) { b.mutable_primitivegroup(1)->mutable_dense()->set_keys_vals(i, int32_t(v)); });
  index("way key", [](B &b, long v) { b.mutable_primitivegroup(2)->mutable_ways(0)->set_keys(0, uint32_t(v)); }); index("way value", [](B &b, long v) { b.mutable_primitivegroup(2)->mutable_ways(0)->set_vals(0, uint32_t(v)); });
  index("relation key", [](B &b, long v) { b.mutable_primitivegroup(3)->mutable_relations(0)->set_keys(0, uint32_t(v)); }); for (int i = 0; i < 2; ++i) index(mc::fmt("role %d", i), [i](B &b, long v) { b.mutable_primitivegroup(3)->mutable_relations(0)->set_roles_sid(i, int32_t(v)); });
  for (auto &m : ms) for (long v : {6L, 7L, -1L, 0x7fffffffL, -0x80000000L}) { B b = block(); m.f(b, v); test(m.name + mc::fmt(" index %ld", v), whole(raw(b)), true); }
  auto edit = [&](const std::string &name, bool fail, std::function<void(B &)> f) { B b = block(); f(b); test(name, whole(raw(b)), fail); };
  edit("node without value", true, [](B &b) { b.mutable_primitivegroup(0)->mutable_nodes(0)->clear_vals(); }); edit("way without value", true, [](B &b) { b.mutable_primitivegroup(2)->mutable_ways(0)->clear_vals(); }); edit("relation without value", true, [](B &b) { b.mutable_primitivegroup(3)->mutable_relations(0)->clear_vals(); });
  edit("node without key", false, [](B &b) { b.mutable_primitivegroup(0)->mutable_nodes(0)->clear_keys(); });
  edit("no roles", true, [](B &b) { b.mutable_primitivegroup(3)->mutable_relations(0)->clear_roles_sid(); }); edit("no types", true, [](B &b) { b.mutable_primitivegroup(3)->mutable_relations(0)->clear_types(); }); edit("fewer types", true, [](B &b) { b.mutable_primitivegroup(3)->mutable_relations(0)->mutable_types()->RemoveLast(); }); edit("fewer roles", true, [](B &b) { b.mutable_primitivegroup(3)->mutable_relations(0)->mutable_roles_sid()->RemoveLast(); }); edit("fewer members", false, [](B &b) { b.mutable_primitivegroup(3)->mutable_relations(0)->mutable_memids()->RemoveLast(); });
  edit("fewer latitudes", true, [](B &b) { b.mutable_primitivegroup(1)->mutable_dense()->mutable_lat()->RemoveLast(); }); edit("fewer longitudes", true, [](B &b) { b.mutable_primitivegroup(1)->mutable_dense()->mutable_lon()->RemoveLast(); }); edit("fewer ids", false, [](B &b) { b.mutable_primitivegroup(1)->mutable_dense()->mutable_id()->RemoveLast(); });
  edit("tags end early", false, [](B &b) { b.mutable_primitivegroup(1)->mutable_dense()->mutable_keys_vals()->RemoveLast(); }); edit("tags end in a pair", true, [](B &b) { auto k = b.mutable_primitivegroup(1)->mutable_dense()->mutable_keys_vals(); k->RemoveLast(); k->RemoveLast(); }); edit("no strings", true, [](B &b) { b.mutable_stringtable()->clear_s(); });
  for (long v : {0L, -1L, 0x7fffffffL, -0x80000000L}) edit(mc::fmt("granularity %ld", v), false, [v](B &b) { b.set_granularity(int32_t(v)); });
  for (long v : {LONG_MAX, LONG_MIN, 1L << 40}) { edit(mc::fmt("offset %ld", v), false, [v](B &b) { b.set_lat_offset(v); b.set_lon_offset(v); }); edit(mc::fmt("latitude %ld", v), false, [v](B &b) { b.mutable_primitivegroup(0)->mutable_nodes(0)->set_lat(v); b.mutable_primitivegroup(1)->mutable_dense()->set_lat(0, v); }); edit(mc::fmt("ids %ld", v), false, [v](B &b) { b.mutable_primitivegroup(1)->mutable_dense()->set_id(0, v); b.mutable_primitivegroup(2)->mutable_ways(0)->set_refs(0, v); b.mutable_primitivegroup(3)->mutable_relations(0)->set_memids(0, v); }); }
}
// ---------------------------------------------------------------- shape files
static void shapes() {
  std::vector<Field> fields = {{"NAME", FTString, 6, 0}, {"COUNT", FTInteger, 4, 0}, {"FLAG", FTLogical, 1, 0}}; Pts sq = {{0, 0}, {9, 0}, {9, 9}, {0, 9}, {0, 0}}, hole = {{2, 2}, {2, 4}, {4, 4}, {4, 2}, {2, 2}};
  struct Sh { int type; std::vector<Record> r; }; std::vector<Sh> all = {{1, {{{{{3, -4}}}, {"a", "7", "T"}}, {{{{1, 1}}}, {"", "", ""}}}}, {3, {{{{{0, 0}, {5, 5}, {7, 1}}}, {"road", "1", "F"}}, {{sq}, {"x", "", ""}}}}, {5, {{{sq, hole}, {"b", "3", ""}}, {{hole}, {"c", "4", "T"}}}}, {13, {{{{{0, 0}, {5, 5}}}, {"road", "1", "F"}}}}};
  for (auto &sh : all) {
    std::string good = dir + "/good.shp", bad = dir + "/bad.shp"; auto parts = {".shp", ".shx", ".dbf"};
    for (auto p : parts) unlink((dir + "/good" + p).c_str()); writeShape(good, sh.type, fields, sh.r); std::vector<std::string> want = load(good).got; std::map<std::string, std::string> text; for (auto p : parts) text[p] = mc::readFile(dir + "/good" + p);
    if (want.size() != sh.r.size()) mc::run(mc::fmt("shape %d intact", sh.type), [&] { mc::fail("not imported"); });
    auto test = [&](const std::string &name, const std::string &part, const std::string *x, bool mustFail) { mc::run(mc::fmt("shape %d ", sh.type) + part + " " + name, [&] { for (auto p : parts) { std::string f = dir + "/bad" + p; unlink(f.c_str()); if (p != part) mc::writeFile(f, text[p]); else if (x) mc::writeFile(f, *x); } judge(bad, good, want, mustFail); }); };
    for (std::string part : parts) {
      auto &s = text[part]; test("missing", part, nullptr, true);
      size_t body = part == ".dbf" && !s.empty() && s.back() == 0x1a ? s.size() - 1 : s.size();
      for (size_t n = 0; n < s.size(); ++n) { std::string x = s.substr(0, n); test(mc::fmt("cut to %zu", n), part, &x, n < body); }
      for (size_t n = 0; n < s.size(); ++n) for (int k = 0; k < Damages; ++k) { std::string x = damage(s, n, k); if (!x.empty()) test(mc::fmt("byte %zu damage %d", n, k), part, &x, false); }
    }
  }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); mc::setLimit(20); imp::Importer importer(mc::scratch("st")); im = &importer; dir = mc::scratch("f");
  shapes(); messages(); files();
  return mc::finish();
}
