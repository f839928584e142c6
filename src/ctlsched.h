// Controlled scheduler and happens-before race detector for code compiled with
// -fsanitize=thread instrumentation but linked against this runtime.
#ifndef SCHED_H_
#define SCHED_H_
#include <stdint.h>
namespace sched {
const int kThreads = 4, kSteps = 6000, kOut = 1 << 16;
enum Kind { START, LOAD, STORE, RMW, LOCK, UNLOCK, GUARD, GUARD_DONE, WAIT, SIGNAL, FENCE, EXIT };
struct Op { uint8_t kind; uint64_t addr; };
struct Node { uint8_t chosen, enabled, sleep; Op op[kThreads]; };
enum Status { RUNNING, DONE, RACE, DEADLOCK, REDUNDANT, TOO_LONG };
struct Shm {
  int n, prefix_len; uint8_t prefix[kSteps]; uint8_t sleep;   // in: schedule prefix, sleep set after it
  int status, steps, races; uint64_t accesses; Node node[kSteps];
  char what[1024]; uint64_t pc1, pc2;
  uint32_t out_len[kThreads]; char out[kThreads][kOut];
};
bool Dependent(const Op& a, const Op& b);
// Runs body(0..n-1) in n threads under the schedule in shm; does not return if a
// race or deadlock is found (the result is in shm and the process ends).
void Run(Shm* shm, int n, void (*body)(int));
}  // namespace sched
#endif
