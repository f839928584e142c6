// Exploration driver shared by all in-process checks.
//
// A check is a set of finite "spaces".  A space is a number of units; a unit is
// a deterministic batch of cases executed on the real code.  Every unit of every
// space is executed (multi-process); a unit fails by calling Fail(), by crashing
// (sanitizer, signal), by making the process exit, or by not terminating.  A
// failing unit is re-executed alone in a fresh process before it is reported.
#ifndef VP_H_
#define VP_H_
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>

namespace vp {

typedef std::function<void(uint64_t)> UnitFn;

bool Thorough();      // tier
bool Verbose();       // true in replay mode
void AddSpace(const std::string& name, uint64_t units, UnitFn fn,
              const std::string& rule);
// Counters (process-shared, summed over all workers).
void State(uint64_t n = 1);        // distinct configurations / model states visited
void Transition(uint64_t n = 1);   // API calls / steps executed on the real code
void Trace(uint64_t n = 1);        // complete executions compared with the model
void Tally(const char* name, uint64_t n = 1);  // distinct observed outcomes
void Sample(const std::string& text);          // keeps the first few per space
[[noreturn]] void Fail(const std::string& what);
// Cheap description of the case being run, printed only in replay mode.
void Note(const std::string& text);
#define VP_NOTE(expr) do { if (vp::Verbose()) vp::Note(expr); } while (0)
#define VP_CHECK(cond, msg) do { if (!(cond)) vp::Fail(msg); } while (0)

std::string Hex(const std::string& s, size_t max = 600);
std::string Str(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

int Main(int argc, char** argv);

// An exact-size heap copy, so that any access outside it is caught.
struct Exact {
  char* p; size_t n; char* raw;
  explicit Exact(const std::string& s);
  Exact(const char* d, size_t len);
  ~Exact();
  Exact(const Exact&) = delete;
  bool Same(const std::string& s) const;
 private:
  void Make(const char* d, size_t len);
};

}  // namespace vp
#endif
