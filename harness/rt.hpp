// Controlled scheduler and happens-before race detector for code compiled with -fsanitize=thread.
// The library is compiled with gcc's thread instrumentation and linked with this runtime (mcrt_rt.cpp) in place of
// libtsan: one thread runs at a time, and it can be replaced by another one before each lock, at file operations, writing
// atomics, guarded initialisations and deliveries.  Every other memory access is checked with vector clocks.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>

namespace rt {
enum { MaxThreads = 4, MaxPoints = 1 << 18 };
struct Choice { uint8_t n, chosen, cost; };        // enabled threads, index taken, 1 if leaving a thread which could go on
struct Shared {                                    // result of one execution, in memory shared with its parent
  uint32_t points, prefix; Choice trace[MaxPoints]; uint8_t want[MaxPoints];
  uint32_t accesses, overflow; char error[4096]; char out[1 << 20]; uint32_t outLen;
};
// runs the bodies as threads under the schedule (index taken at each point, 0 = go on; missing = 0)
void execute(const std::vector<std::function<void()>> &bodies, Shared &sh);
void yield();      // a point in the harness
struct Quiet { Quiet(); ~Quiet(); };   // what the harness does within is not watched
int self();        // number of the running thread, -1 outside of execute
}
