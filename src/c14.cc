// C14: concurrent encoders and decoders do not interfere.
//
// Stateless model checking of the real code: every schedule of the threads'
// synchronisation operations up to equivalence (sleep sets, no preemption
// bound); in each execution all memory accesses are checked for happens-before
// races, so accesses between synchronisation operations need not be interleaved.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include "c14body.h"
#include "ref.h"
#include "ctlsched.h"
#include "vp.h"
using ref::Bytes;
using std::string;

namespace {
sched::Shm* shm;
const char* kName[] = {"encode(shared dictionary)", "encode(shared, interleaved+checksum+target matching)", "encode(shared, JSON)", "encode twice(shared)", "encode(own dictionary)", "VCDiffEncoder", "HashedDictionary::Init", "encode(own dictionary, own writer)", "decode", "decode(custom code table)", "streaming decode", "decode(corrupt)"};
Bytes dict, target[4], delta, custom;
struct Th { int kind, variant; };
std::vector<Th> cur; bool cur_shared;
void Body(int i) { c14::Put(i, cur[i].kind, cur[i].variant, shm->out[i], &shm->out_len[i], sched::kOut); }

string Symbol(uint64_t pc) {
  char cmd[256], line[512]; string r;
  snprintf(cmd, sizeof cmd, "addr2line -Cfpe /proc/%d/exe 0x%llx 2>/dev/null", getpid(), (unsigned long long)pc);
  FILE* f = popen(cmd, "r");
  if (f) { if (fgets(line, sizeof line, f)) r = line; pclose(f); }
  while (!r.empty() && r.back() == '\n') r.pop_back();
  return r;
}
string Names() { string s; for (auto& t : cur) s += (s.empty() ? "" : " || ") + string(kName[t.kind]) + vp::Str("#%d", t.variant); return s + (cur_shared ? " [one shared dictionary]" : " [nothing initialised before]"); }
string Schedule() { string s; for (int i = 0; i < shm->steps && i < 400; i++) s += (char)('0' + shm->node[i].chosen); return s; }
// One execution in a fresh process (so that first uses are first uses).
void Execute() {
  shm->status = sched::RUNNING; shm->what[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(25);
    c14::g.dict = dict.data(); c14::g.dict_len = dict.size();
    for (int i = 0; i < 4; i++) { c14::g.target[i] = target[i].data(); c14::g.target_len[i] = target[i].size(); }
    c14::g.delta = delta.data(); c14::g.delta_len = delta.size(); c14::g.custom = custom.data(); c14::g.custom_len = custom.size();
    if (cur_shared) c14::MakeShared();
    sched::Run(shm, (int)cur.size(), Body);
    if (cur_shared) c14::DropShared();
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0) {}
  vp::Transition(shm->steps);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) vp::Fail("no progress (hang): " + Names() + " schedule " + Schedule());
  if (!WIFEXITED(st) || WEXITSTATUS(st)) vp::Fail(vp::Str("crash (status %#x): ", st) + Names() + " schedule " + Schedule());
  if (shm->status == sched::RACE) vp::Fail(string(shm->what) + "\n  " + Symbol(shm->pc1) + "\n  " + Symbol(shm->pc2) + "\n  threads: " + Names() + "\n  schedule: " + Schedule());
  if (shm->status == sched::DEADLOCK) vp::Fail(string(shm->what) + " threads: " + Names() + " schedule " + Schedule());
  if (!strncmp(shm->what, "harness", 7)) vp::Fail(string(shm->what) + " " + Names());
}
string Alone(Th t, bool shared) {
  static std::map<int, string> memo;
  int key = t.kind * 16 + t.variant;
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  auto sv = cur; bool ss = cur_shared;
  cur = {t}; cur_shared = t.kind < c14::OWN_DICT;
  shm->prefix_len = 0; shm->sleep = 0;
  Execute();
  string r(shm->out[0], shm->out_len[0]);
  cur = sv; cur_shared = ss;
  return memo[key] = r;
}
void Explore(const std::vector<Th>& threads, bool shared, int cap) {
  std::vector<string> want;
  for (auto& t : threads) want.push_back(Alone(t, shared));
  for (size_t i = 0; i < threads.size(); i++) {    // what each thread produces alone is right
    const Th& t = threads[i];
    if (t.kind == c14::SHARED_STD || t.kind == c14::SHARED_EXT || t.kind == c14::OWN_DICT || t.kind == c14::OWN_SIMPLE || t.kind == c14::CUSTOM_TABLE) { ref::Result r = ref::Decode(dict, want[i]); if (r.verdict != ref::OK || r.out != target[t.variant]) vp::Fail(string("wrong output without concurrency: ") + kName[t.kind]); }
    if ((t.kind == c14::DECODE || t.kind == c14::DECODE_STREAM) && want[i] != target[0]) vp::Fail("wrong output without concurrency: decode");
    if (t.kind == c14::DECODE_CUSTOM && want[i] != ref::Decode(dict, custom).out) vp::Fail("wrong output without concurrency: decode custom");
  }
  cur = threads; cur_shared = shared;
  struct N { uint8_t chosen, enabled, sleep, done; sched::Op op[sched::kThreads]; };
  std::vector<N> st;
  int runs = 0; bool capped = false;
  uint8_t sleep0 = 0;
  for (;;) {
    shm->prefix_len = (int)st.size(); for (size_t i = 0; i < st.size(); i++) shm->prefix[i] = st[i].chosen;
    shm->sleep = sleep0;
    Execute(); runs++;
    vp::State(shm->steps - (int)st.size() > 0 ? shm->steps - (int)st.size() : 0);
    if (shm->status == sched::DONE) {
      vp::Trace();
      for (size_t i = 0; i < threads.size(); i++)
        if (string(shm->out[i], shm->out_len[i]) != want[i]) vp::Fail(vp::Str("thread %zu (%s) produces a different result than alone: ", i, kName[threads[i].kind]) + Names() + " schedule " + Schedule());
    } else if (shm->status != sched::REDUNDANT) { capped = true; }
    for (int i = (int)st.size(); i < shm->steps; i++) {
      auto& nd = shm->node[i]; N n; n.chosen = nd.chosen; n.enabled = nd.enabled; n.sleep = nd.sleep; n.done = 0; memcpy(n.op, nd.op, sizeof n.op); st.push_back(n);
    }
    // next choice
    for (;;) {
      if (st.empty()) goto end;
      N& n = st.back();
      n.done |= 1 << n.chosen;
      uint8_t can = n.enabled & ~n.sleep & ~n.done;
      if (can) {
        int c = 0; while (!(can >> c & 1)) c++;
        n.chosen = (uint8_t)c;
        sleep0 = 0;
        for (int i = 0; i < (int)threads.size(); i++) if (((n.sleep | n.done) >> i & 1) && !sched::Dependent(n.op[i], n.op[c])) sleep0 |= 1 << i;
        break;
      }
      st.pop_back();
    }
    if (runs >= cap) { capped = true; break; }
  }
 end:
  if (capped) vp::Tally("scenario not explored completely (cap)"); else vp::Tally("scenario explored completely");
  vp::Sample(Names() + vp::Str(": %d schedules, %d synchronisation steps, %llu memory accesses checked in the last one", runs, shm->steps, (unsigned long long)shm->accesses));
  VP_NOTE(Names() + vp::Str(": %d schedules, last: %s", runs, Schedule().c_str()));
}
void Prepare() {
  if (shm) return;
  shm = (sched::Shm*)mmap(NULL, sizeof(sched::Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < 12; i++) dict += vp::Str("entry %d of the dictionary;", i * 37 % 101);
  target[0] = dict.substr(10, 90) + "new text " + dict.substr(100, 80) + Bytes(40, 'r') + dict.substr(3, 70);
  target[1] = "0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz" + dict.substr(50, 60);
  target[2] = dict; target[3] = "x";
  delta = Alone(Th{c14::OWN_DICT, 0}, false);
  ref::Table t = ref::DefaultTable();
  for (int k = 0; k < 6; k++) std::swap(t.f[k][2], t.f[k][20]);
  custom = ref::CustomHeader(0, t, 4, 3);
  ref::Emitter e(t, 4, 3, false, (uint32_t)dict.size());
  e.Op(20, 0, 0, 0, 0); e.Op(19, 9, 4, 0, 0); e.Op(0, 6, 0, 0, 0);
  custom += ref::MakeWindow(e.Spec(1, 0));
  if (ref::Decode(dict, custom).verdict != ref::OK) vp::Fail("harness: custom delta");
}
}  // namespace

namespace vp {
void Setup() {
  using namespace c14;
  static const int own[] = {OWN_DICT, OWN_SIMPLE, OWN_INIT, CUSTOM_TABLE, DECODE, DECODE_CUSTOM, DECODE_STREAM, DECODE_BAD};
  static const int sha[] = {SHARED_STD, SHARED_EXT, SHARED_JSON, SHARED_TWICE, OWN_DICT, OWN_SIMPLE, DECODE, DECODE_CUSTOM};
  AddSpace("two-threads-first-use", 8 * 8 * 2, [](uint64_t u) {
    Prepare(); Explore({Th{own[u % 8], 0}, Th{own[u / 8 % 8], u / 64 ? 1 : 0}}, false, 20000);
  }, "all pairs of 8 thread bodies, nothing initialised before, same and different targets: all schedules up to equivalence");
  AddSpace("two-threads-shared-dictionary", 8 * 8 * 2, [](uint64_t u) {
    Prepare(); Explore({Th{sha[u % 8], 0}, Th{sha[u / 8 % 8], u / 64 ? 1 : 0}}, true, 20000);
  }, "all pairs of 8 thread bodies with one shared initialised dictionary");
  AddSpace("three-threads", 2 * 8 * 8 * 8, [](uint64_t u) {
    Prepare(); int k = (int)(u / 2); bool s = u & 1; const int* b = s ? sha : own;
    int a = k % 8, c = k / 8 % 8, d = k / 64;
    if (c < a || d < c) return;
    if (!vp::Thorough() && (a + c + d) % 2) return;
    Explore({Th{b[a], 0}, Th{b[c], 1}, Th{b[d], (int)(k % 3 == 0 ? 2 : 0)}}, s, vp::Thorough() ? 400000 : 3000);
  }, "triples of the same bodies (quick: half of them, at most 3000 schedules each)");
}
}  // namespace vp
