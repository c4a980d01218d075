// writers of OSM XML, OSM PBF, GeoJSON tiles and shape files in many layouts
#pragma once
#include "osm.hpp"
#include <fileformat.pb.h>
#include <osmformat.pb.h>
#include <zlib.h>
#include "shapefile/shapefil.h"
using namespace osm;
static double lat(int y) { return Y0 + y * Step; }
static double lon(int x) { return X0 + x * Step; }
static long nano(double v) { return lround(v * 1e6) * 1000; }

// ---------------------------------------------------------------- writers
struct XmlLayout { int ws, attrs, bounds, head, esc, self; };
static std::string escape(const std::string &s, int esc) {
  std::string r; for (char c : s) { const char *n = c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : nullptr; if (!n) r += c; else if (esc == 0) r += n; else r += mc::fmt(esc == 1 ? "&#%d;" : "&#x%X;", c); } return r;
}
static std::string xml(const Data &d, const XmlLayout &l) {
  std::string nl = l.ws == 1 ? "" : l.ws == 2 ? "\r\n\t " : "\n", sp = l.ws == 2 ? "\n   " : " ", n, w, r, end = l.ws == 2 ? " />" : "/>";
  std::string a1 = l.attrs & 1 ? sp + "visible=\"true\"" : "", a2 = l.attrs & 2 ? sp + "version=\"3\"" + sp + "changeset=\"1234\"" + sp + "timestamp=\"2016-01-01T12:00:00Z\"" + sp + "user=\"J. > D&#233; id=&quot;7&quot;\"" + sp + "uid=\"99\"" : "";
  auto tags = [&](const Tags &t) { std::string s; for (auto &p : t) s += nl + "<tag" + sp + "k=\"" + escape(p.first, l.esc) + "\"" + sp + "v=\"" + escape(p.second, l.esc) + "\"" + end; return s; };
  auto node = [&](long id, Pt p, const Tags &t) { n += nl + mc::fmt("<node%sid=\"%ld\"%s%slat=\"%.7f\"%slon=\"%.7f\"%s", sp.c_str(), id, a1.c_str(), sp.c_str(), lat(p.first), sp.c_str(), lon(p.second), a2.c_str()); if (t.empty() && !l.self) n += end; else n += ">" + tags(t) + nl + "</node>"; };
  for (auto &x : d.nodes) node(x.id, x.p, x.t);
  for (auto &x : d.pool) node(x.second, x.first, {});
  for (auto &x : d.ways) { w += nl + mc::fmt("<way%sid=\"%ld\"%s%s>", sp.c_str(), x.id, a1.c_str(), a2.c_str()); for (auto &p : x.p) w += nl + mc::fmt("<nd%sref=\"%ld\"", sp.c_str(), d.pool.at(p)) + end; w += tags(x.t) + nl + "</way>"; }
  for (auto &x : d.rels) { r += nl + mc::fmt("<relation%sid=\"%ld\"%s%s>", sp.c_str(), x.id, a1.c_str(), a2.c_str()); for (auto &m : x.m) r += nl + mc::fmt("<member%stype=\"%s\"%sref=\"%ld\"%srole=\"%s\"", sp.c_str(), m.type == 'n' ? "node" : m.type == 'w' ? "way" : "relation", sp.c_str(), m.ref, sp.c_str(), escape(m.role, l.esc).c_str()) + end; r += tags(x.t) + nl + "</relation>"; }
  return std::string("<?xml version=\"1.0\" encoding=\"UTF-8\"?>") + nl + (l.head ? "<osm version=\"0.6\" generator=\"Overpass API 0.7\">" + nl + "<note>The data included in this document is from www.openstreetmap.org.</note>" + nl + "<meta osm_base=\"2016-01-01T12:00:00Z\"/>" : "<osm version=\"0.6\">")
    + nl + (l.bounds ? mc::fmt("<bounds%sminlat=\"%.7f\"%sminlon=\"%.7f\"%smaxlat=\"%.7f\"%smaxlon=\"%.7f\"", sp.c_str(), Y0 - 1, sp.c_str(), X0 - 1, sp.c_str(), Y0 + 1, sp.c_str(), X0 + 1) + end : "") + n + w + r + nl + "</osm>" + (l.ws == 1 ? "" : "\n");
}
struct PbfLayout { int gran; long off; int dense, blocks, zip; };   // dense: 0 plain nodes, 1 dense, 2 both; blocks: 0 all in one group, 1 a group per kind, 2 a block per kind, 3 a block per element
struct Block {
  OSMPBF::PrimitiveBlock b; std::map<std::string, int> ids; const PbfLayout &l; OSMPBF::PrimitiveGroup *g = nullptr; long pid = 0, plat = 0, plon = 0; bool densed = false;
  explicit Block(const PbfLayout &l_) : l(l_) { b.mutable_stringtable()->add_s(""); if (l.gran != 100) b.set_granularity(l.gran); if (l.off) { b.set_lat_offset(l.off); b.set_lon_offset(-2 * l.off); } }
  int s(const std::string &t) { if (t.empty()) return 0; auto i = ids.find(t); if (i != ids.end()) return i->second; b.mutable_stringtable()->add_s(t); return ids[t] = b.stringtable().s_size() - 1; }
  OSMPBF::PrimitiveGroup *group(bool fresh = false) { if (!g || fresh) { g = b.add_primitivegroup(); pid = plat = plon = 0; densed = false; } return g; }
  template <class T> void tags(T *o, const Tags &t) { for (auto &p : t) { o->add_keys(s(p.first)); o->add_vals(s(p.second)); } }
  long y(double v) { return (nano(v) - l.off) / l.gran; }
  long x(double v) { return (nano(v) + 2 * l.off) / l.gran; }
};
static std::string blob(const std::string &type, const std::string &data, int zip) {
  OSMPBF::Blob b; if (zip == 0) { b.set_raw(data); if (data.size() % 2) b.set_raw_size(int(data.size())); } else { std::string z(compressBound(data.size()), 0); uLongf n = z.size(); compress2(reinterpret_cast<Bytef *>(&z[0]), &n, reinterpret_cast<const Bytef *>(data.data()), data.size(), zip == 1 ? 9 : 0); z.resize(n); b.set_zlib_data(z); b.set_raw_size(int(data.size())); }
  std::string body = b.SerializeAsString(); OSMPBF::BlobHeader h; h.set_type(type); h.set_datasize(int(body.size())); std::string head = h.SerializeAsString(); std::string r; uint32_t n = uint32_t(head.size());
  r += char(n >> 24); r += char(n >> 16); r += char(n >> 8); r += char(n); return r + head + body;
}
static std::string pbf(const Data &d, const PbfLayout &l) {
  OSMPBF::HeaderBlock hb; hb.add_required_features("OsmSchema-V0.6"); hb.add_required_features("DenseNodes");
  std::string out = blob("OSMHeader", hb.SerializeAsString(), l.zip); std::unique_ptr<Block> b; int count = 0, kind = -1;
  auto flush = [&] { if (b) out += blob("OSMData", b->b.SerializeAsString(), l.zip == 2 ? count++ % 3 : l.zip); b.reset(); };
  auto next = [&](int k) { if (!b || l.blocks == 3 || (l.blocks == 2 && k != kind)) { flush(); b.reset(new Block(l)); } if (l.blocks == 1 && k != kind) b->group(true); kind = k; return b->group(); };
  struct E { long id; Pt p; Tags t; }; std::vector<E> nodes; for (auto &n : d.nodes) nodes.push_back({n.id, n.p, n.t}); for (auto &n : d.pool) nodes.push_back({n.second, n.first, {}});
  bool anyTags = false; for (auto &n : nodes) if (!n.t.empty()) anyTags = true;
  int i = 0; for (auto &n : nodes) {
    bool dense = l.dense == 1 || (l.dense == 2 && i++ % 2);
    auto g = next(l.blocks == 1 && dense ? 1 : 0);
    if (dense) { auto dn = g->mutable_dense(); long y = b->y(lat(n.p.first)), x = b->x(lon(n.p.second)); dn->add_id(n.id - b->pid); dn->add_lat(y - b->plat); dn->add_lon(x - b->plon); b->pid = n.id; b->plat = y; b->plon = x; for (auto &t : n.t) { dn->add_keys_vals(b->s(t.first)); dn->add_keys_vals(b->s(t.second)); } if (anyTags) dn->add_keys_vals(0); }
    else { auto o = g->add_nodes(); o->set_id(n.id); o->set_lat(b->y(lat(n.p.first))); o->set_lon(b->x(lon(n.p.second))); b->tags(o, n.t); }
  }
  for (auto &w : d.ways) { auto o = next(2)->add_ways(); o->set_id(w.id); long prev = 0; for (auto &p : w.p) { long r = d.pool.at(p); o->add_refs(r - prev); prev = r; } b->tags(o, w.t); }
  for (auto &r : d.rels) { auto o = next(3)->add_relations(); o->set_id(r.id); long prev = 0; for (auto &m : r.m) { o->add_memids(m.ref - prev); prev = m.ref; o->add_roles_sid(b->s(m.role)); o->add_types(m.type == 'n' ? OSMPBF::Relation::NODE : m.type == 'w' ? OSMPBF::Relation::WAY : OSMPBF::Relation::RELATION); } b->tags(o, r.t); }
  flush(); return out;
}
// ---------------------------------------------------------------- GeoJSON tiles
// Closing points and the direction of lines and rings are not part of the geometry here.
struct Loose : ElementVisitor {
  imp::Importer &im; std::string out; explicit Loose(imp::Importer &i) : im(i) {}
  static Pts pts(const std::vector<GeoCoordinate> &c) { Pts p; for (auto &x : c) p.push_back(toPt(x)); return p; }
  static std::string line(Pts p) { Pts r(p.rbegin(), p.rend()); return txt(std::min(p, r)); }
  static std::string ring(Pts p) { if (p.size() > 1 && p.front() == p.back()) p.pop_back(); return txt(area2(p) ? oriented(p, true) : rot(p)); }
  void head(char c, const Element &e) { out += mc::fmt("%c%ld", c, long(e.id)) + txt(im.tags(e)); }
  void visitNode(const Node &n) override { head('n', n); out += txt(Pts{toPt(n.coordinate)}); }
  void visitWay(const Way &n) override { head('w', n); out += line(pts(n.coordinates)); }
  void visitArea(const Area &n) override { head('a', n); out += ring(pts(n.coordinates)); }
  void visitRelation(const Relation &n) override { head('r', n); out += "["; for (auto &e : n.elements) { e->accept(*this); out += ";"; } out += "]"; }
};
static std::string jesc(const std::string &s, int esc) { std::string r; for (unsigned char c : s) if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (esc && c < 128 && !isalnum(c)) r += mc::fmt("\\u%04x", c); else r += char(c); return r; }
struct Feature { std::string layer; char kind; std::vector<std::vector<Pts>> g; Tags t; std::string id; };   // kind: P L M(multi line) Y(polygon) Z(multi polygon)
static std::string pt(Pt p) { return mc::fmt("[%.6f,%.6f]", lon(p.second), lat(p.first)); }
static std::string lst(const Pts &p, const std::string &ws) { std::string s = "["; for (size_t i = 0; i < p.size(); ++i) s += (i ? "," + ws : "") + pt(p[i]); return s + "]"; }
static std::string json(const std::vector<Feature> &fs, int lay) {
  std::string ws = lay & 1 ? "\n  " : "", s = "{"; std::vector<std::string> layers; for (auto &f : fs) if (std::find(layers.begin(), layers.end(), f.layer) == layers.end()) layers.push_back(f.layer);
  for (size_t li = 0; li < layers.size(); ++li) {
    s += (li ? "," : "") + ws + "\"" + layers[li] + "\":" + ws + "{" + ((lay & 2) ? "" : "\"type\":\"FeatureCollection\",") + ws + "\"features\":["; bool first = true;
    for (auto &f : fs) if (f.layer == layers[li]) {
      std::string geo; const char *name = f.kind == 'P' ? "Point" : f.kind == 'L' ? "LineString" : f.kind == 'M' ? "MultiLineString" : f.kind == 'Y' ? "Polygon" : "MultiPolygon";
      if (f.kind == 'P') geo = pt(f.g[0][0][0]); else if (f.kind == 'L') geo = lst(f.g[0][0], ws);
      else { std::vector<std::string> polys; for (auto &poly : f.g) { std::string q = "["; for (size_t i = 0; i < poly.size(); ++i) q += (i ? "," : "") + lst(poly[i], ws); polys.push_back(q + "]"); } if (f.kind == 'Z') { geo = "["; for (size_t i = 0; i < polys.size(); ++i) geo += (i ? "," : "") + polys[i]; geo += "]"; } else geo = polys[0]; }
      std::string g = "\"geometry\":" + ws + "{\"type\":\"" + name + "\"," + ws + "\"coordinates\":" + geo + "}", pr = "\"properties\":{"; bool fp = true;
      if (!f.id.empty() && !(lay & 4)) { pr += "\"id\":" + f.id; fp = false; }
      for (auto &t : f.t) { pr += (fp ? "" : ",") + ws + "\"" + jesc(t.first, lay & 1) + "\":\"" + jesc(t.second, lay & 1) + "\""; fp = false; }
      if (!f.id.empty() && (lay & 4)) pr += (fp ? "" : ",") + std::string("\"id\":\"") + f.id + "\"";
      pr += "}"; s += (first ? "" : ",") + ws + "{" + ((lay & 2) ? "" : "\"type\":\"Feature\",") + ((lay & 2) ? pr + "," + g : g + "," + pr) + "}"; first = false;
    }
    s += "]}";
  }
  return s + "}";
}
// ---------------------------------------------------------------- shape files
struct Field { const char *name; DBFFieldType type; int width, decimals; };
struct Record { std::vector<Pts> parts; std::vector<std::string> values; };   // "" is no value
static void writeShape(const std::string &path, int type, const std::vector<Field> &fields, const std::vector<Record> &recs) {
  SHPHandle s = SHPCreate(path.c_str(), type); DBFHandle d = DBFCreate(path.c_str());
  for (auto &f : fields) DBFAddField(d, f.name, f.type, f.width, f.decimals);
  int k = 0; for (auto &r : recs) {
    std::vector<double> x, y, z, m; std::vector<int> start; for (auto &p : r.parts) { start.push_back(int(x.size())); for (auto &q : p) { x.push_back(lon(q.second)); y.push_back(lat(q.first)); z.push_back(5); m.push_back(7); } }
    SHPObject *o = SHPCreateObject(type, -1, type % 10 == 1 ? 0 : int(start.size()), start.data(), nullptr, int(x.size()), x.data(), y.data(), z.data(), m.data()); SHPWriteObject(s, -1, o); SHPDestroyObject(o);
    for (size_t i = 0; i < fields.size(); ++i) { auto &v = r.values[i]; if (v.empty()) DBFWriteNULLAttribute(d, k, int(i)); else if (fields[i].type == FTString) DBFWriteStringAttribute(d, k, int(i), v.c_str()); else if (fields[i].type == FTInteger) DBFWriteIntegerAttribute(d, k, int(i), atoi(v.c_str())); else if (fields[i].type == FTLogical) DBFWriteLogicalAttribute(d, k, int(i), v[0]); else DBFWriteDoubleAttribute(d, k, int(i), atof(v.c_str())); }
    ++k;
  }
  SHPClose(s); DBFClose(d);
}
