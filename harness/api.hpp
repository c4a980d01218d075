// the native library through its exported functions, as the Unity side uses it
#pragma once
#include "uty.hpp"
#include <map>
extern "C" {
typedef void OnNewDirectory(const char *);
typedef void OnMeshBuilt(int, const char *, const double *, int, const int *, int, const int *, int, const double *, int, const int *, int);
typedef void OnElementLoaded(int, std::uint64_t, const char **, int, const double *, int, const char **, int);
typedef void OnError(const char *);
void connect(const char *, OnError *); void disconnect();
void registerStylesheet(const char *, OnNewDirectory *); void registerInMemoryStore(const char *); void registerPersistentStore(const char *, const char *, OnNewDirectory *);
void enableMeshCache(int);
void addDataInRange(const char *, const char *, const char *, int, int, OnError *, utymap::CancellationToken *);
void addDataInBoundingBox(const char *, const char *, const char *, double, double, double, double, int, int, OnError *, utymap::CancellationToken *);
void addDataInQuadKey(const char *, const char *, const char *, int, int, int, OnError *, utymap::CancellationToken *);
void addDataInElement(const char *, const char *, std::uint64_t, const double *, int, const char **, int, int, int, OnError *, utymap::CancellationToken *);
bool hasData(int, int, int);
void getDataByText(int, const char *, const char *, const char *, double, double, double, double, int, int, OnElementLoaded *, OnError *, utymap::CancellationToken *);
void getDataByQuadKey(int, const char *, int, int, int, int, OnMeshBuilt *, OnElementLoaded *, OnError *, utymap::CancellationToken *);
double getElevationByQuadKey(int, int, int, int, double, double);
}
namespace api {
// everything delivered for one request tag; texts of meshes hold numbers in float precision
struct Got { std::vector<std::string> items; };
inline std::map<int, Got> &gots() { static std::map<int, Got> g; return g; }
inline std::vector<std::string> errors;
inline std::function<void(int)> hook;     // called on every delivery
inline void onError(const char *m) { errors.push_back(m); }
inline void onDir(const char *p) { mc::mkdirs(p); }
template <class T> inline uint64_t hashOf(const T *p, int n) { uint64_t h = 7; for (int i = 0; i < n; ++i) { float f = (float)p[i]; h = mc::hash(&f, sizeof f, h); } return h; }
inline uint64_t hashOf(const int *p, int n) { return mc::hash(p, n * sizeof(int), 7); }
inline void onMesh(int tag, const char *name, const double *v, int nv, const int *t, int nt, const int *c, int nc, const double *u, int nu, const int *m, int nm) {
  gots()[tag].items.push_back(mc::fmt("mesh %s v%d:%llx t%d:%llx c%d:%llx u%d:%llx m%d:%llx", name, nv, (unsigned long long)hashOf(v, nv), nt, (unsigned long long)hashOf(t, nt), nc, (unsigned long long)hashOf(c, nc), nu, (unsigned long long)hashOf(u, nu), nm, (unsigned long long)hashOf(m, nm)));
  if (hook) hook(tag);
}
inline std::string pairs(const char **p, int n) { std::vector<std::string> v; for (int i = 0; i + 1 < n; i += 2) v.push_back(std::string(p[i]) + "=" + p[i + 1]); std::sort(v.begin(), v.end()); return uty::join(v); }
inline void onElement(int tag, std::uint64_t id, const char **t, int nt, const double *v, int nv, const char **s, int ns) {
  std::string x = mc::fmt("element %llu ", (unsigned long long)id) + pairs(t, nt) + " "; for (int i = 0; i < nv; ++i) x += mc::fmt("%.9g,", v[i]); x += " " + pairs(s, ns);
  gots()[tag].items.push_back(x); if (hook) hook(tag);
}
inline std::string sorted(const Got &g) { return uty::join(g.items, true); }
struct Session { explicit Session(const std::string &dir) { connect(dir.c_str(), onError); } ~Session() { disconnect(); } };
inline Got request(int tag, const std::string &style, const utymap::QuadKey &q, int ele, utymap::CancellationToken *t = nullptr) {
  utymap::CancellationToken none; gots()[tag] = Got(); size_t e = errors.size();
  getDataByQuadKey(tag, style.c_str(), q.tileX, q.tileY, q.levelOfDetail, ele, onMesh, onElement, onError, t ? t : &none);
  Got g = gots()[tag]; gots().erase(tag); for (; e < errors.size(); ++e) g.items.push_back("error " + errors[e]); return g;
}
struct Osm {   // writes an OSM XML file
  std::string nodes, ways, rels; int nextNode = 1;
  static std::string tags(const uty::Tags &t) { std::string s; for (auto &p : t) s += "<tag k=\"" + p.first + "\" v=\"" + p.second + "\"/>\n"; return s; }
  int node(uty::GeoCoordinate c, const uty::Tags &t = {}, int id = 0) { if (!id) id = nextNode++; nodes += mc::fmt("<node id=\"%d\" lat=\"%.9f\" lon=\"%.9f\" version=\"1\">\n", id, c.latitude, c.longitude) + tags(t) + "</node>\n"; return id; }
  void way(int id, const std::vector<uty::GeoCoordinate> &c, const uty::Tags &t, bool closed = false) { std::string r; int first = 0; for (auto &p : c) { int n = node(p); if (!first) first = n; r += mc::fmt("<nd ref=\"%d\"/>\n", n); } if (closed) r += mc::fmt("<nd ref=\"%d\"/>\n", first); ways += mc::fmt("<way id=\"%d\" version=\"1\">\n", id) + r + tags(t) + "</way>\n"; }
  void relation(int id, const std::vector<std::tuple<std::string, int, std::string>> &m, const uty::Tags &t) { rels += mc::fmt("<relation id=\"%d\" version=\"1\">\n", id); for (auto &x : m) rels += mc::fmt("<member type=\"%s\" ref=\"%d\" role=\"%s\"/>\n", std::get<0>(x).c_str(), std::get<1>(x), std::get<2>(x).c_str()); rels += tags(t) + "</relation>\n"; }
  std::string text() const { return "<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\" generator=\"x\">\n<bounds minlat=\"-85\" minlon=\"-180\" maxlat=\"85\" maxlon=\"180\"/>\n" + nodes + ways + rels + "</osm>\n"; }
};
}
