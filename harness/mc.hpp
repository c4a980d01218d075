// Bounded exhaustive exploration driver shared by all native harnesses.
//
// A harness enumerates *cases* (a text descriptor + a function).  Cases are dealt to shards round robin; every case
// is executed on the real code, checked against an oracle (mc::fail on disagreement) and reports an outcome hash.
// --replay DESC runs just that case.  The descriptor of the running case is kept in a shared file so that a crash or
// a hang can be attributed to it.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <time.h>

namespace mc {

struct Fail { std::string msg; };

inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
[[noreturn]] inline void fail(const char *f, ...) {
  char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b};
}
inline void check(bool ok, const std::string &msg) { if (!ok) throw Fail{msg}; }

inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

struct Violation { std::string desc, msg; };

struct State {
  std::string tier = "quick", work, out, replay;
  int shard = 0, shards = 1; bool replayMode = false;
  uint64_t seen = 0, evaluations = 0, nontrivial = 0, transitions = 0, traces = 0;
  std::unordered_set<uint64_t> outcomes, states;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples; std::vector<Violation> violations;
  std::vector<std::string> notes;
  char *crumb = nullptr;
  uint64_t curOutcome = 0; bool curTrivial = false; std::string curNote;
  std::string curDesc;
  double caseLimit = 20; time_t start = 0; double budget = 0; bool capped = false;
  bool replayHit = false;
};
inline State &S() { static State s; return s; }
inline bool thorough() { return S().tier == "thorough"; }
inline const std::string &tier() { return S().tier; }

// outcome of the running case: what the real code produced, for counting distinct behaviours
inline void outcome(uint64_t h) { S().curOutcome = S().curOutcome * 1000003ull ^ h; }
inline void outcome(const std::string &s) { outcome(hash(s)); }
inline void trivial() { S().curTrivial = true; }
inline void note(const std::string &s) { S().curNote = s; }
inline void count(const std::string &k, uint64_t n = 1) { S().counters[k] += n; }
inline void transition(uint64_t n = 1) { S().transitions += n; }
inline void state(uint64_t h) { S().states.insert(h); }

inline void setLimit(double sec) { S().caseLimit = sec; }
inline void onAlarm(int) {
  static const char m[] = "\nMC-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97);
}
inline void arm(double sec) {
  struct itimerval t{}; t.it_value.tv_sec = (time_t)sec; t.it_value.tv_usec = (sec - (time_t)sec) * 1e6; setitimer(ITIMER_REAL, &t, nullptr);
}

inline std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

// true if this process has to execute the case with the given descriptor (call exactly once per case)
inline bool mine(const std::string &desc) {
  auto &s = S();
  if (s.replayMode) { if (desc == s.replay) { s.replayHit = true; return true; } return false; }
  return int(s.seen++ % s.shards) == s.shard;
}

inline bool full() { return S().violations.size() >= 15; }

inline void run(const std::string &desc, const std::function<void()> &f) {
  auto &s = S();
  if (!mine(desc)) return;
  if (full()) return;
  if (s.budget > 0 && difftime(time(nullptr), s.start) > s.budget) { s.capped = true; return; }
  s.curOutcome = 0; s.curTrivial = false; s.curNote.clear(); s.curDesc = desc;
  if (s.crumb) { strncpy(s.crumb, desc.c_str(), 65535); s.crumb[65535] = 0; }
  arm(s.replayMode ? s.caseLimit * 4 : s.caseLimit);
  try {
    f();
  } catch (Fail &e) {
    s.violations.push_back({desc, e.msg});
  } catch (std::exception &e) {
    s.violations.push_back({desc, std::string("unexpected exception: ") + e.what()});
  }
  arm(0);
  ++s.evaluations;
  if (!s.curTrivial) { ++s.nontrivial; s.outcomes.insert(s.curOutcome); }
  if (s.samples.size() < 3 || (s.samples.size() < 6 && s.evaluations % 997 == 0))
    s.samples.push_back(desc.substr(0, 300) + (s.curNote.empty() ? "" : " -> " + s.curNote.substr(0, 300)));
}

inline int finish() {
  auto &s = S();
  if (s.crumb) s.crumb[0] = 0;
  if (s.replayMode && !s.replayHit) { fprintf(stderr, "MC-NOCASE %s\n", s.replay.c_str()); return 3; }
  if (!s.out.empty()) {
    FILE *f = fopen((s.out + ".tmp").c_str(), "w");
    fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"traces\":%llu,\"capped\":%s,\"states\":%llu,",
            (unsigned long long)s.evaluations, (unsigned long long)s.nontrivial, (unsigned long long)s.transitions,
            (unsigned long long)s.traces, s.capped ? "true" : "false", (unsigned long long)s.states.size());
    fprintf(f, "\"counters\":{"); bool first = true;
    for (auto &c : s.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto &c : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(c).c_str()); first = false; }
    fprintf(f, "],\"violations\":["); first = true;
    for (auto &v : s.violations) { fprintf(f, "%s{\"case\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", jesc(v.desc).c_str(), jesc(v.msg).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    auto dump = [&](const char *suffix, const std::unordered_set<uint64_t> &set) {
      FILE *g = fopen((s.out + suffix).c_str(), "w");
      for (auto h : set) fwrite(&h, 8, 1, g);
      fclose(g);
    };
    dump(".outcomes", s.outcomes); dump(".states", s.states);
    rename((s.out + ".tmp").c_str(), s.out.c_str());
  }
  for (auto &v : s.violations) fprintf(stderr, "MC-FAIL %s :: %s\n", v.desc.c_str(), v.msg.c_str());
  return s.violations.empty() ? 0 : 1;
}

inline void init(int argc, char **argv) {
  auto &s = S();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") s.tier = next();
    else if (a == "--shard") { s.shard = atoi(next().c_str()); s.shards = atoi(next().c_str()); }
    else if (a == "--work") s.work = next();
    else if (a == "--out") s.out = next();
    else if (a == "--budget") s.budget = atof(next().c_str());
    else if (a == "--replay") { s.replayMode = true; s.replay = next(); }
    else if (a == "--replay-file") { s.replayMode = true; std::ifstream f(next(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); s.replay = ss.str(); }
  }
  if (s.work.empty()) { char t[] = "/dev/shm/mcXXXXXX"; s.work = mkdtemp(t); }
  s.start = time(nullptr);
  if (!s.out.empty()) {
    std::string cf = s.out + ".crumb";
    int fd = open(cf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 65536) == 0)
      s.crumb = static_cast<char *>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (s.crumb == MAP_FAILED) s.crumb = nullptr;
    close(fd);
  }
  if (s.crumb) strcpy(s.crumb, "(setup)");
  signal(SIGALRM, onAlarm);
}

// ---------------------------------------------------------------- scratch files
inline void rmTree(const std::string &p) {
  // only below the scratch directory of this run
  if (S().work.empty() || p.compare(0, S().work.size(), S().work) != 0 || p.size() <= S().work.size()) return;
  DIR *d = opendir(p.c_str());
  if (d) {
    while (dirent *e = readdir(d)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string q = p + "/" + n; struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(q); else unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}
inline void mkdirs(const std::string &p) {
  for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
}
// fresh empty scratch directory with trailing slash; removed by the next call with the same name
inline std::string scratch(const std::string &name = "s") {
  std::string p = S().work + "/" + name; rmTree(p); mkdirs(p); return p + "/";
}
inline void writeFile(const std::string &p, const std::string &c) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(c.data(), c.size()); }
inline std::string readFile(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline bool exists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
inline std::vector<std::string> listDir(const std::string &p, const std::string &prefix = "") {
  std::vector<std::string> r; DIR *d = opendir(p.c_str()); if (!d) return r;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    struct stat st; std::string q = p + "/" + n;
    if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { auto sub = listDir(q, prefix + n + "/"); r.insert(r.end(), sub.begin(), sub.end()); }
    else r.push_back(prefix + n);
  }
  closedir(d); std::sort(r.begin(), r.end()); return r;
}

// all words over an alphabet of size n with length exactly len
inline void words(int n, int len, const std::function<void(const std::vector<int> &)> &f) {
  std::vector<int> w(len, 0);
  for (;;) {
    f(w);
    int i = len - 1;
    while (i >= 0 && ++w[i] == n) w[i--] = 0;
    if (i < 0) return;
  }
}

template <class F> std::string threw(F f) { try { f(); return ""; } catch (Fail &) { throw; } catch (std::exception &e) { return std::string("exception: ") + e.what(); } }
}
