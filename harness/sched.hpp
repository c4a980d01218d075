// Exploration of all schedules of a scenario up to a number of preemptions: every execution runs in a process of its own,
// forked from the same state, on the real code.
#pragma once
#include "mc.hpp"
#include "rt.hpp"

namespace sched {
struct Scenario {
  std::vector<std::function<void()>> bodies;
  std::function<std::string()> finish;      // what happened, after all threads ended; throws mc::Fail if it must not
};
struct Result { std::string error, out; std::vector<rt::Choice> trace; };
inline rt::Shared *shared() {
  static rt::Shared *s = static_cast<rt::Shared *>(mmap(nullptr, sizeof(rt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); return s;
}
// what caches of libstdc++ which are filled on first use need
inline void warm() {
  static bool done = false; if (done) return; done = true;
  std::stringstream s; s << 1 << ' ' << 1u << ' ' << 1l << ' ' << 1ul << ' ' << 1.5 << ' ' << 1.5f << ' ' << true << ' ' << "x" << ' ' << 'c' << ' ' << std::hex << 255 << std::dec << (void *)&s << std::endl;
  int i; unsigned u; long l; unsigned long ul; double d; float f; bool b; std::string t; char c; s >> i >> u >> l >> ul >> d >> f >> b >> t >> c;
  const auto &ct = std::use_facet<std::ctype<char>>(std::locale()); for (int k = 0; k < 256; ++k) { ct.narrow(char(k), 0); ct.widen(char(k)); } char x[256], y[256]; for (int k = 0; k < 256; ++k) x[k] = k; ct.narrow(x, x + 256, 0, y); ct.widen(x, x + 256, y);
  std::getline(s, t); std::ofstream o("/dev/null"); o << 1; std::ifstream in("/dev/null"); in >> i; std::fstream io("/dev/null"); io << 1.0;
}
inline Result once(const std::function<Scenario()> &make, const std::vector<uint8_t> &want, int limit = 20) {
  rt::Shared &sh = *shared(); warm();
  sh.points = sh.accesses = sh.overflow = sh.outLen = 0; sh.error[0] = 0; sh.prefix = want.size(); memcpy(sh.want, want.data(), want.size());
  fflush(nullptr);
  pid_t p = fork();
  if (!p) {
    struct itimerval none{}; setitimer(ITIMER_REAL, &none, nullptr); signal(SIGALRM, SIG_DFL); alarm(limit);
    int z = open("/dev/null", O_WRONLY); if (!mc::S().replayMode) { dup2(z, 1); dup2(z, 2); }
    try {
      Scenario s = make(); rt::execute(s.bodies, sh); std::string o = s.finish ? s.finish() : "";
      sh.outLen = std::min(o.size(), sizeof sh.out); memcpy(sh.out, o.data(), sh.outLen);
    } catch (mc::Fail &e) { snprintf(sh.error, sizeof sh.error, "%s", e.msg.c_str()); }
    catch (std::exception &e) { snprintf(sh.error, sizeof sh.error, "unexpected exception: %s", e.what()); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0); Result r; r.error = sh.error;
  if (r.error.empty() && WIFSIGNALED(st)) r.error = WTERMSIG(st) == SIGALRM ? "hang" : mc::fmt("crash (signal %d)", WTERMSIG(st));
  if (r.error.empty() && WEXITSTATUS(st)) r.error = mc::fmt("process ended with %d", WEXITSTATUS(st));
  if (sh.overflow && r.error.empty()) r.error = "MC-RT shadow memory exhausted";
  r.out.assign(sh.out, sh.outLen); r.trace.assign(sh.trace, sh.trace + std::min<uint32_t>(sh.points, rt::MaxPoints));
  return r;
}
inline std::string show(const std::vector<uint8_t> &w) { std::string s; for (size_t i = 0; i < w.size(); ++i) if (w[i]) s += mc::fmt("%zu:%d ", i, w[i]); return s.empty() ? "none" : s; }
// names of the places given as @offset in a message
inline std::string named(const std::string &m) {
  std::string r; char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n < 0 ? 0 : n] = 0;
  std::string all; for (size_t i = 0; (i = m.find('@', i)) != std::string::npos; ++i) all += " " + m.substr(i + 1, m.find(' ', i) - i - 1);
  FILE *f = all.empty() ? nullptr : popen(mc::fmt("addr2line -Csfpe '%s'%s 2>/dev/null", exe, all.c_str()).c_str(), "r");
  for (size_t i = 0; i < m.size();) {
    if (m[i] != '@' || !f) { r += m[i++]; continue; }
    i = std::min(m.find(' ', i), m.size() - 1) + 1; char l[2000] = ""; if (!fgets(l, sizeof l, f)) *l = 0;
    std::string x(l); while (!x.empty() && x.back() == '\n') x.pop_back(); if (x.find("mcrt_rt") == std::string::npos) { size_t p = x.rfind(" at "); r += (x.size() > 150 ? x.substr(0, 60) + ".." + (p == std::string::npos ? "" : x.substr(p)) : x) + " < "; }
  }
  if (f) pclose(f);
  return r;
}
struct Explorer {
  std::function<Scenario()> make; std::function<void(const std::string &)> check; int bound; int part, parts; uint64_t runs = 0; std::function<void()> after; double until = 0;
  void visit(std::vector<uint8_t> prefix, int cost) {
    Result r = once(make, prefix); ++runs; if (after) after(); mc::transition(r.trace.size() + 1);
    if (!r.error.empty()) mc::fail("%s; schedule %s", named(r.error).c_str(), show(prefix).c_str());
    try { check(r.out); } catch (mc::Fail &e) { mc::fail("%s; schedule %s", e.msg.c_str(), show(prefix).c_str()); }
    uint64_t h = mc::hash(r.out); for (auto &c : r.trace) h = h * 31 + c.chosen + 7; mc::state(h);
    size_t from = prefix.size(); bool top = from == 0;
    std::vector<uint8_t> next; for (auto &c : r.trace) next.push_back(c.chosen);
    for (size_t i = from; i < r.trace.size(); ++i) {
      if (top && int(i % parts) != part) continue;
      if (cost + r.trace[i].cost > bound) continue;
      std::vector<uint8_t> p(next.begin(), next.begin() + i); p.push_back(0);
      for (int k = 1; k < r.trace[i].n; ++k) { p[i] = k; visit(p, cost + r.trace[i].cost); }
    }
  }
};
// all schedules with at most `bound` preemptions, dealt to `parts` cases
inline void explore(const std::string &name, const std::function<Scenario()> &make, const std::function<void(const std::string &)> &check, int bound, int parts = 1, const std::function<void()> &after = nullptr) {
  for (int p = 0; p < parts; ++p)
    mc::run(mc::fmt("%s/%d.%d.%d", name.c_str(), bound, p, parts), [=]() {
      Explorer e; e.make = make; e.check = check; e.bound = bound; e.part = p; e.parts = parts; e.after = after; e.visit({}, 0); mc::count("schedules", e.runs); mc::outcome(mc::hash(name) + p);
      mc::note(mc::fmt("%llu schedules", (unsigned long long)e.runs));
    });
}
}
