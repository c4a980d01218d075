// C01: string table against a reference model over all bounded histories.
#include "mc.hpp"
#include "index/StringTable.hpp"
#include <memory>
using utymap::index::StringTable;

static uint32_t murmur(const std::string &s) {   // independent copy, only used to construct colliding texts
  auto rotl = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
  uint32_t h = 0; int n = s.size() / 4; const uint8_t *d = (const uint8_t *)s.data();
  for (int i = 0; i < n; ++i) { uint32_t k; memcpy(&k, d + 4 * i, 4); k *= 0xcc9e2d51; k = rotl(k, 15); k *= 0x1b873593; h ^= k; h = rotl(h, 13); h = h * 5 + 0xe6546b64; }
  uint32_t k = 0; const uint8_t *t = d + n * 4;
  switch (s.size() & 3) { case 3: k ^= t[2] << 16; case 2: k ^= t[1] << 8; case 1: k ^= t[0]; k *= 0xcc9e2d51; k = rotl(k, 15); k *= 0x1b873593; h ^= k; }
  h ^= s.size(); h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16; return h;
}
static std::vector<std::pair<std::string, std::string>> collisions() {
  std::map<uint32_t, std::string> m; std::vector<std::pair<std::string, std::string>> r;
  for (int i = 0; i < 300000 && r.size() < 6; ++i) {
    std::string s = "k" + std::to_string(i); auto h = murmur(s); auto it = m.find(h);
    if (it != m.end()) r.push_back({it->second, s}); else m[h] = s;
  }
  return r;
}

struct World {
  std::string dir; std::unique_ptr<StringTable> t; std::map<std::string, uint32_t> ids; std::map<uint32_t, std::string> texts;
  std::vector<std::string> order;
  World() { dir = mc::scratch("t"); t.reset(new StringTable(dir)); }
  void reopen() { t.reset(); t.reset(new StringTable(dir)); }
  void get(const std::string &s) {
    mc::transition();
    uint32_t id = t->getId(s);
    auto it = ids.find(s);
    if (it != ids.end()) { if (it->second != id) mc::fail("text '%s' had id %u, now %u", s.substr(0, 40).c_str(), it->second, id); return; }
    auto jt = texts.find(id);
    if (jt != texts.end()) mc::fail("id %u of '%s' was already given to '%s'", id, s.substr(0, 40).c_str(), jt->second.substr(0, 40).c_str());
    ids[s] = id; texts[id] = s; order.push_back(s);
  }
  void look(uint32_t id, const std::string &want) {
    mc::transition();
    auto p = t->getString(id);
    if (!p) mc::fail("id %u: no text", id);
    if (*p != want) mc::fail("id %u: text is '%s' (%zu), expected '%s' (%zu)", id, p->substr(0, 40).c_str(), p->size(), want.substr(0, 40).c_str(), want.size());
  }
  void lookAll() { for (auto &p : texts) look(p.first, p.second); }
  void unknown() { // resolving an id nobody got yet must not disturb the table
    uint32_t next = 0; while (texts.count(next)) ++next;
    mc::threw([&] { t->getString(next); });
  }
  uint64_t hash() { uint64_t h = 7; for (auto &p : ids) h = mc::hash(p.first, h) * 31 + p.second; return h; }
};

int main(int argc, char **argv) {
  mc::init(argc, argv);
  auto col = collisions();
  // pool: colliding pair, prefix pair, empty, bytes outside ascii, long
  std::vector<std::string> pool = {col[0].first, col[0].second, "", "a", "ab", std::string("\xc3\xa9\n\xff x")};
  const int G = pool.size(), R = G, L = G + 1, U = G + 2, A = G + 3;
  auto name = [&](int o) { return o < G ? std::string(1, char('0' + o)) : o == R ? "R" : o == L ? "L" : "U"; };
  auto play = [&](const std::vector<int> &w) {
    World x;
    for (int o : w) { if (o < G) x.get(pool[o]); else if (o == R) x.reopen(); else if (o == L) x.lookAll(); else x.unknown(); mc::state(x.hash()); }
    x.lookAll(); for (auto &s : pool) x.get(s);
    x.reopen(); for (auto &s : pool) x.get(s); x.lookAll();
    mc::outcome(x.hash()); mc::S().traces++;
  };
  int depth = mc::thorough() ? 6 : 5;
  for (int len = 0; len <= depth; ++len)
    mc::words(A, len, [&](const std::vector<int> &w) {
      std::string d = "h:"; for (int o : w) d += name(o);
      mc::run(d, [&] { play(w); });
    });
  // two and three way collisions in every order, reopened at every position
  for (size_t c = 0; c < col.size(); ++c)
    for (int perm = 0; perm < 2; ++perm)
      for (int r = 0; r < 4; ++r)
        mc::run(mc::fmt("col:%zu.%d.%d", c, perm, r), [&] {
          World x; auto a = perm ? col[c].second : col[c].first, b = perm ? col[c].first : col[c].second;
          if (r & 1) x.get("pad"); x.get(a); if (r & 2) x.reopen(); x.get(b); x.get(a); x.get(b); x.lookAll(); x.reopen(); x.get(b); x.get(a); x.lookAll();
          mc::outcome(x.hash());
        });
  // many texts: sizes around every capacity in the table, three lookup orders, with and without reopening in between
  std::vector<int> ns = {1, 2, 255, 256, 257, 511, 1022, 1023, 1024, 1025, 1026, 1027, 1500, 2047, 2048, 2049, 2050, 2500};
  if (mc::thorough()) for (int n : {3071, 3072, 3073, 4095, 4096, 4097, 5000, 8193, 20000, 70000}) ns.push_back(n);
  for (int n : ns) for (int order = 0; order < 3; ++order) for (int re = 0; re < 3; ++re) for (int warm = 0; warm < 2; ++warm)
    mc::run(mc::fmt("many:%d.%d.%d.%d", n, order, re, warm), [&] {
      mc::arm(120);
      World x;
      auto text = [&](int i) { return i == n / 3 ? col[1].first : i == n / 2 ? col[1].second : "text " + std::to_string(i * 7919) + std::string(i % 13, 'x'); };
      for (int i = 0; i < n; ++i) {
        x.get(text(i));
        if (re == 2 && i == n / 2) x.reopen();
        if (warm) x.look(x.ids[text(i)], text(i));
        if (warm && i % 5 == 0) x.look(x.ids[text(0)], text(0));
      }
      if (re == 1) x.reopen();
      if (re == 1) x.get("after reopen");
      for (int k = 0; k < n; ++k) {
        int i = order == 0 ? k : order == 1 ? n - 1 - k : int((long long)k * 37 % n);
        x.look(x.ids[text(i)], text(i)); if (k % 3 == 0) x.get(text(i)); if (k % 97 == 0) x.get(text(n - 1 - i));
      }
      x.lookAll(); for (int i = 0; i < n; ++i) x.get(text(i));
      if (x.order.size() != x.texts.size()) mc::fail("%zu texts share %zu ids", x.order.size(), x.texts.size());
      mc::outcome(x.hash()); mc::S().traces++;
    });
  // text lengths around stream buffer sizes, alone and between neighbours
  std::vector<int> ls; for (int b : {15, 16, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536}) for (int d = -2; d <= 2; ++d) ls.push_back(b + d);
  if (mc::thorough()) for (int b : {1 << 17, 1 << 20}) for (int d = -2; d <= 2; ++d) ls.push_back(b + d);
  for (int l : ls) for (int mode = 0; mode < 3; ++mode)
    mc::run(mc::fmt("len:%d.%d", l, mode), [&] {
      World x; std::string s(l, 'q'), s2 = s; s2.back() = 'r'; std::string s3 = s.substr(0, l - 1);
      x.get("head"); x.get(s); if (mode == 1) x.reopen(); x.get(s2); x.get("tail"); if (mode == 2) x.lookAll(); x.get(s3); x.get(s); x.get(s2); x.lookAll();
      x.reopen(); x.get(s2); x.get(s); x.get(s3); x.lookAll(); mc::outcome(x.hash());
    });
  // every single byte as a text and inside a text
  for (int b = 1; b < 256; ++b)
    mc::run(mc::fmt("byte:%d", b), [&] {
      World x; std::string c(1, char(b)); for (auto &s : {c, "x" + c, c + "x", c + c, "x" + c + "y"}) { x.get(s); x.get(s); }
      x.lookAll(); x.reopen(); x.lookAll(); for (auto &s : {c + c, c, "x" + c, c + "x"}) x.get(s); mc::outcome(x.hash());
    });
  return mc::finish();
}
