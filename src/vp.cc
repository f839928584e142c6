#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <iostream>
#include <new>

namespace vp {
namespace {
const int kMaxWorkers = 64;
const int kTallies = 96;
const int kSamples = 24;
const int kExitFail = 88;
const int kExitCalled = 89;

const int kNotes = 24;
struct alignas(64) Slot {
  std::atomic<uint64_t> states, transitions, traces;   // also the sign of progress
  std::atomic<int> space;
  std::atomic<uint64_t> unit;
  std::atomic<uint64_t> start_ms;   // 0 = idle
  char msg[16384];
  uint64_t Beat() const { return states + transitions + traces; }
};
struct Shared {
  std::atomic<uint64_t> next[64];
  std::atomic<uint64_t> done[64];
  std::atomic<int> stop;
  std::atomic<int> tally_lock;
  char tally_name[kTallies][64];
  std::atomic<uint64_t> tally[kTallies];
  std::atomic<int> nsamples;
  char sample[kSamples][1024];
  std::atomic<int> sample_per_space[64];
  Slot slot[kMaxWorkers];
  std::atomic<uint64_t> notes;
  char note[kNotes][6144];   // the last cases of a unit that is run alone
};
struct Space { std::string name, rule; uint64_t units; UnitFn fn; };

Shared* sh;
std::vector<Space>& Spaces() { static std::vector<Space> s; return s; }
int self_slot = 0;
int cur_space = 0;
bool verbose = false;
bool thorough = false;
bool in_child = false;
int log_fd = 2;
bool ring = false;

uint64_t NowMs() {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
}  // namespace

bool Thorough() { return thorough; }
bool Verbose() { return verbose; }
void AddSpace(const std::string& n, uint64_t u, UnitFn f, const std::string& r) {
  Spaces().push_back(Space{n, r, u, f});
}
void State(uint64_t n) { sh->slot[self_slot].states.fetch_add(n, std::memory_order_relaxed); }
void Transition(uint64_t n) { sh->slot[self_slot].transitions.fetch_add(n, std::memory_order_relaxed); }
void Trace(uint64_t n) { sh->slot[self_slot].traces.fetch_add(n, std::memory_order_relaxed); }
void Tally(const char* name, uint64_t n) {
  for (int i = 0; i < kTallies; i++) {
    if (sh->tally_name[i][0] == 0) {
      while (sh->tally_lock.exchange(1)) {}
      if (sh->tally_name[i][0] == 0) strncpy(sh->tally_name[i], name, 63);
      sh->tally_lock.store(0);
    }
    if (strncmp(sh->tally_name[i], name, 63) == 0) {
      sh->tally[i].fetch_add(n, std::memory_order_relaxed);
      return;
    }
  }
}
void Sample(const std::string& t) {
  if (sh->sample_per_space[cur_space].load(std::memory_order_relaxed) >= 2) return;
  if (sh->sample_per_space[cur_space].fetch_add(1) >= 2) return;
  int i = sh->nsamples.fetch_add(1);
  if (i < kSamples) strncpy(sh->sample[i], t.c_str(), 1023);
}
void Note(const std::string& t) {
  std::string s = "  case: " + t + "\n";
  if (ring) { snprintf(sh->note[sh->notes % kNotes], sizeof sh->note[0], "%s", s.c_str()); sh->notes++; return; }
  if (write(log_fd, s.data(), s.size()) < 0) {}
}
void Fail(const std::string& what) {
  strncpy(sh->slot[self_slot].msg, what.c_str(), sizeof(sh->slot[0].msg) - 1);
  if (verbose) { std::string s = "FAIL: " + what + "\n"; if (write(log_fd, s.data(), s.size()) < 0) {} }
  _exit(kExitFail);
}
std::string Hex(const std::string& s, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; i++) { o += d[(unsigned char)s[i] >> 4]; o += d[s[i] & 15]; }
  if (s.size() > max) o += Str("...(%zu bytes)", s.size());
  return o;
}
std::string Str(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char b[4096]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  return b;
}
void Exact::Make(const char* d, size_t len) {
  // size 0: one byte allocation, pointing past its end, so any read is caught.
  n = len; raw = (char*)malloc(len ? len : 1); p = len ? raw : raw + 1;
  memcpy(raw, d, len);
}
Exact::Exact(const std::string& s) { Make(s.data(), s.size()); }
Exact::Exact(const char* d, size_t len) { Make(d, len); }
Exact::~Exact() { free(raw); }
bool Exact::Same(const std::string& s) const { return s.size() == n && memcmp(p, s.data(), n) == 0; }

namespace {
void Child(int slot) {
  in_child = true;
  self_slot = slot;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  std::cerr.rdbuf(NULL);   // library diagnostics are not part of any oracle
  std::cout.rdbuf(NULL);
}
void RunUnit(int s, uint64_t u) {
  Slot& sl = sh->slot[self_slot];
  cur_space = s;
  sl.space = s; sl.unit = u; sl.start_ms = NowMs();
  Spaces()[s].fn(u);
  sl.start_ms = 0;
  sh->done[s].fetch_add(1, std::memory_order_relaxed);
}
void WorkerLoop(int slot) {
  Child(slot);
  for (size_t s = 0; s < Spaces().size(); s++) {
    for (;;) {
      if (sh->stop) _exit(0);
      uint64_t u = sh->next[s].fetch_add(1);
      if (u >= Spaces()[s].units) break;
      RunUnit((int)s, u);
    }
  }
  _exit(0);
}
std::string Describe(int status, bool hung, Slot& sl) {
  if (hung) return "does not terminate (no verdict within the time limit)";
  if (WIFEXITED(status)) {
    int c = WEXITSTATUS(status);
    if (c == kExitFail) return sl.msg;
    if (c == kExitCalled) return "the library terminated the host process (exit called)";
    return Str("memory-safety / undefined-behaviour report or abnormal exit (status %d)", c);
  }
  if (WIFSIGNALED(status)) return Str("crashed with signal %d", WTERMSIG(status));
  return "unknown failure";
}
// What counts as not terminating: no sign of progress (a completed call) for
// `stall`, or a unit that takes longer than `total`, in seconds.
struct Patience { int stall, total; };
// Runs one unit alone; returns true if it failed, filling what.
bool RunAlone(int s, uint64_t u, Patience lim, const char* log, std::string* what) {
  Slot& sl = sh->slot[0];
  memset(sl.msg, 0, sizeof sl.msg);
  sh->notes = 0;
  pid_t pid = fork();
  if (pid == 0) {
    if (log) {
      int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
      if (fd >= 0) { dup2(fd, 2); log_fd = 2; }
      verbose = true; ring = strcmp(log, "/dev/stderr") != 0;
    }
    Child(0);
    RunUnit(s, u);
    _exit(0);
  }
  uint64_t t0 = NowMs(), moved = t0, beat = sl.Beat();
  int st = 0; bool hung = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    uint64_t now = NowMs();
    if (sl.Beat() != beat) { beat = sl.Beat(); moved = now; }
    if (now - moved > (uint64_t)lim.stall * 1000 || now - t0 > (uint64_t)lim.total * 1000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(2000);
  }
  if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  *what = Describe(st, hung, sl);
  if (log && sh->notes) {
    // the last cases go in front of whatever the process itself printed
    std::string text, own;
    for (uint64_t k = sh->notes > (uint64_t)kNotes ? sh->notes - kNotes : 0; k < sh->notes; k++) text += sh->note[k % kNotes];
    if (FILE* f = fopen(log, "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && own.size() < 12000) own.append(b, n); fclose(f); }
    if (strcmp(log, "/dev/stderr") != 0) if (FILE* f = fopen(log, "w")) { fputs((text + own.substr(0, 12000)).c_str(), f); fclose(f); }
  }
  return true;
}
}  // namespace

int Main(int argc, char** argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
  const char* out = NULL; const char* log = NULL;
  int rspace = -1; uint64_t runit = 0; std::string rname;
  int deadline_s = 0;
  const char* only = NULL;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") thorough = true;
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--log") log = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--deadline") deadline_s = atoi(argv[++i]);
    else if (a == "--replay") { rname = argv[++i]; runit = strtoull(argv[++i], NULL, 10); rspace = 0; }
  }
  const Patience shared{60, thorough ? 3600 : 120}, alone{90, thorough ? 4 * 3600 : 240};
  if (workers < 1) workers = 1;
  if (workers > kMaxWorkers - 1) workers = kMaxWorkers - 1;
  sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  extern void Setup();
  Setup();
  if (const char* e = getenv("VP_ONLY")) only = e;
  if (only) {
    std::vector<Space> k;
    for (auto& s : Spaces()) if (s.name.find(only) != std::string::npos) k.push_back(s);
    Spaces() = k;
  }
  if (rspace >= 0) {
    rspace = -1;
    for (size_t i = 0; i < Spaces().size(); i++) if (Spaces()[i].name == rname) rspace = (int)i;
    if (rspace < 0) { fprintf(stderr, "no such space\n"); return 2; }
    std::string what;
    if (RunAlone(rspace, runit, alone, log ? log : "/dev/stderr", &what)) {
      printf("REPRODUCED %s\n", what.c_str());
      return 1;
    }
    printf("NOT-REPRODUCED\n");
    return 0;
  }
  if (Spaces().size() > 64) { fprintf(stderr, "too many spaces\n"); return 2; }
  uint64_t t0 = NowMs();
  std::vector<pid_t> pids(workers + 1, -1);
  std::vector<uint64_t> beat(workers + 1, 0), moved(workers + 1, NowMs());
  int live = 0;
  for (int w = 1; w <= workers; w++) {
    pid_t p = fork();
    if (p == 0) WorkerLoop(w);
    pids[w] = p; live++;
  }
  int rc = 0; std::string vspace, vmsg; uint64_t vunit = 0;
  bool capped = false;
  auto violation = [&](int space, uint64_t unit, const std::string& msg) {
    rc = 1; vspace = Spaces()[space].name; vunit = unit; vmsg = msg; sh->stop = 1;
  };
  auto spawn = [&](int w) {
    sh->slot[w].start_ms = 0;
    pid_t p = fork();
    if (p == 0) WorkerLoop(w);
    pids[w] = p; live++;
  };
  // A unit that hung, or whose process was killed for lack of memory, is decided
  // by running it alone; if it then succeeds, the exploration goes on.
  auto retry = [&](int w, int space, uint64_t unit) {
    std::string what;
    if (log) unlink(log);
    if (RunAlone(space, unit, alone, log, &what)) violation(space, unit, what);
    else if (!sh->stop) spawn(w);
  };
  while (live > 0) {
    int st; pid_t r = waitpid(-1, &st, WNOHANG);
    if (r > 0) {
      for (int w = 1; w <= workers; w++) if (pids[w] == r) {
        pids[w] = -1; live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        Slot& sl = sh->slot[w];
        int space = sl.space; uint64_t unit = sl.unit;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { retry(w, space, unit); continue; }
        if (rc) continue;
        std::string first = Describe(st, false, sl), what;
        if (log) unlink(log);
        if (RunAlone(space, unit, alone, log, &what)) violation(space, unit, what);
        else violation(space, unit, first + " [only after the earlier units of the same process]");
      }
      continue;
    }
    if (rc) {
      for (int w = 1; w <= workers; w++) if (pids[w] > 0) { kill(pids[w], SIGKILL); waitpid(pids[w], NULL, 0); pids[w] = -1; live--; }
      break;
    }
    uint64_t now = NowMs();
    for (int w = 1; w <= workers; w++) if (pids[w] > 0) {
      Slot& sl = sh->slot[w];
      uint64_t s = sl.start_ms;
      if (sl.Beat() != beat[w] || !s) { beat[w] = sl.Beat(); moved[w] = now; }
      if (s && moved[w] < s) moved[w] = s;
      if (s && now > s && (now - moved[w] > (uint64_t)shared.stall * 1000 || now - s > (uint64_t)shared.total * 1000)) {
        int sp = sl.space; uint64_t un = sl.unit;
        kill(pids[w], SIGKILL); waitpid(pids[w], NULL, 0); pids[w] = -1; live--;
        retry(w, sp, un);
      }
    }
    if (deadline_s && now - t0 > (uint64_t)deadline_s * 1000 && !sh->stop) { capped = true; sh->stop = 1; }
    usleep(3000);
  }
  uint64_t states = 0, transitions = 0, traces = 0;
  for (auto& sl : sh->slot) { states += sl.states; transitions += sl.transitions; traces += sl.traces; }
  bool exhaustive = rc == 0 && !capped;
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"rc\": %d, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"exhaustive\": %s, \"capped\": %s, \"wall_s\": %.2f,\n",
          rc, (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)traces,
          exhaustive ? "true" : "false", capped ? "true" : "false", (NowMs() - t0) / 1000.0);
  fprintf(f, " \"spaces\": [");
  for (size_t i = 0; i < Spaces().size(); i++)
    fprintf(f, "%s\n  {\"name\": \"%s\", \"units\": %llu, \"done\": %llu, \"rule\": \"%s\"}", i ? "," : "",
            JsonEsc(Spaces()[i].name).c_str(), (unsigned long long)Spaces()[i].units,
            (unsigned long long)sh->done[i], JsonEsc(Spaces()[i].rule).c_str());
  fprintf(f, "],\n \"outcomes\": {");
  bool first = true;
  for (int i = 0; i < kTallies && sh->tally_name[i][0]; i++) {
    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", JsonEsc(sh->tally_name[i]).c_str(), (unsigned long long)sh->tally[i]);
    first = false;
  }
  fprintf(f, "},\n \"samples\": [");
  int ns = sh->nsamples < kSamples ? (int)sh->nsamples : kSamples;
  for (int i = 0; i < ns; i++) fprintf(f, "%s\n  \"%s\"", i ? "," : "", JsonEsc(sh->sample[i]).c_str());
  fprintf(f, "],\n \"violation\": {\"space\": \"%s\", \"unit\": %llu, \"what\": \"%s\"}}\n",
          JsonEsc(vspace).c_str(), (unsigned long long)vunit, JsonEsc(vmsg).c_str());
  if (out) fclose(f);
  return rc;
}
}  // namespace vp

// The library may end the process (fatal diagnostics call exit); in a check that
// is an observable event, not a way out.  Linked with -Wl,--wrap=exit.
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) {
  if (vp::in_child) _exit(vp::kExitCalled);
  __real_exit(code);
}

int main(int argc, char** argv) {
  int rc = vp::Main(argc, argv);
  fflush(stdout);
  _exit(rc);
}
