// C16: exit status zero means that the complete, correct output has been handed
// to the operating system, whatever I/O call fails or is cut short.
#include <set>
#include "cli.h"
#include "enc.h"
#include "json.h"
using namespace cli;
using enc::Noise;
using std::string;

namespace {
void Exec(Run* r) { Go(r); vp::Trace(); }
enum Cmd { ENCODE, DECODE, TEST };
struct Cfg { Cmd cmd; int fmt; int via; int target; string buf; };   // via: bit 0 stdin, bit 1 stdout, bit 2 pipes
Bytes Dict() { Bytes t; for (int i = 0; i < 40; i++) t += vp::Str("line %d of the dictionary\n", i * 37 % 101); return t; }
// beyond the stdio buffer size, so that reading it takes several calls
Bytes BigDict() { Bytes t; for (int i = 0; i < 420; i++) t += vp::Str("entry %d of the dictionary\n", i * 37 % 1001); return t; }
Bytes Ascii(size_t n, int seed) { Bytes b = Noise(n, seed); for (auto& c : b) c = 'a' + (unsigned char)c % 24; return b; }
Bytes Target(int k) {
  switch (k) {
    case 0: return "";
    case 1: return Dict().substr(7, 60) + "new";
    case 2: return Ascii(1500, 2);
    case 3: return Ascii(5000, 4);
    case 5: return BigDict().substr(BigDict().size() - 90) + "x" + Bytes(300, 0) + BigDict().substr(4000, 200);
    default: return Dict() + Ascii(9000, 8) + Dict();
  }
}
std::vector<string> Fmt(int f) {
  if (f == 1) return {"--interleaved", "--checksum"};
  if (f == 2) return {"--target_matches", "--checksum"};
  if (f == 3) return {"--json"};
  return {};
}
struct Case {
  Cfg c; Bytes d, t, delta;     // delta: the decoder's input
  // A fresh run with all input files in place.
  Run Make() const {
    Put("dict", d); Remove("target"); Remove("x.delta"); Remove("x.out");
    Run r; const char* cmd[] = {"encode", "decode", "test"};
    r.args = {cmd[c.cmd], "--dictionary=" + Path("dict")};
    if (c.cmd != DECODE) for (auto& f : Fmt(c.fmt)) r.args.push_back(f);
    if (!c.buf.empty()) r.args.push_back("--buffersize=" + c.buf);
    const Bytes& in = c.cmd == DECODE ? delta : t;
    if (c.cmd == TEST) { Put("target", t); r.args.push_back("--target=" + Path("target")); r.args.push_back("--delta=" + Path("x.delta")); return r; }
    string i = c.cmd == DECODE ? "--delta=" : "--target=", o = c.cmd == DECODE ? "--target=" : "--delta=";
    if (c.via & 1) { r.in = c.via & 4 ? IN_PIPE : IN_FILE; r.in_bytes = in; } else { Put(c.cmd == DECODE ? "x.delta" : "target", in); r.args.push_back(i + Path(c.cmd == DECODE ? "x.delta" : "target")); }
    if (c.via & 2) r.out = c.via & 4 ? OUT_PIPE : OUT_FILE; else r.args.push_back(o + Path(c.cmd == DECODE ? "target" : "x.delta"));
    return r;
  }
  bool Complete(const Run& r, string* why) const {
    Bytes out;
    if (c.cmd != TEST && (c.via & 2)) { if (r.out > OUT_PIPE) { *why = "the output went nowhere"; return c.cmd == DECODE ? t.empty() : (c.fmt == 3 && t.empty()); } out = r.stdout_bytes; }
    else if (!Get(c.cmd == DECODE ? "target" : "x.delta", &out)) { *why = "no output file"; return false; }
    if (c.cmd == DECODE) { *why = vp::Str("%zu of %zu bytes, or different", out.size(), t.size()); return out == t; }
    if (c.fmt == 3) { std::vector<json::Item> items; Bytes back; return t.empty() ? out.empty() : json::ParseJson(out, &items, why) && json::Apply(d, items, &back, why) && back == t; }
    ref::Result x = ref::Decode(d, out); *why = x.reason;
    return x.verdict == ref::OK && x.out == t;
  }
  void Judge(const Run& r) const {
    vp::State();
    vp::Tally(r.ok ? "success, complete output" : "failure reported");
    string why;
    if (r.ok && !Complete(r, &why)) vp::Fail("exit status zero, but the output is not complete and correct (" + why + "): " + Show(r));
  }
};
Case Build(const Cfg& c) {
  Case k{c, c.target == 5 ? BigDict() : Dict(), Target(c.target), ""};
  if (c.cmd == DECODE) {
    Cfg e = c; e.cmd = ENCODE; e.via = 0; e.buf = c.fmt == 2 ? "700" : ""; if (e.fmt == 3) e.fmt = 0;
    Case m{e, k.d, k.t, ""}; Run r = m.Make(); Exec(&r);
    if (!r.ok) vp::Fail("encoding failed without any fault: " + Show(r));
    Get("x.delta", &k.delta);
  }
  return k;
}
std::vector<Cfg> All() {
  std::vector<Cfg> v;
  for (int cmd = 0; cmd < 3; cmd++) for (int t = 0; t < 6; t++) for (int f = 0; f < 4; f++) for (int via = 0; via < 8; via++) for (const char* b : {"", "700", "4096"}) {
    if (via == 4 || (cmd == TEST && (via || f == 3))) continue;
    if (cmd == DECODE && f == 3) continue;
    if (!vp::Thorough() && cmd != TEST && via > 4 && (f + via + t) % 3) continue;
    v.push_back(Cfg{(Cmd)cmd, f, via, t, b});
  }
  return v;
}
const char* kNames[] = {"none", "EIO", "ENOSPC", "EINTR", "short", "short then broken", "broken", "end of file"};
// must the tool fail when this call and all later ones on the same descriptor fail?
bool Needed(const FaultShm& s, int e) { return s.kind[e] == 'r' && s.file[e] != 'd'; }
}  // namespace

namespace vp {
void Setup() {
  static std::vector<Cfg> all = All();
  AddSpace("every-io-call", all.size(), [](uint64_t u) {
    Case k = Build(all[u]);
    Run base = k.Make(); base.traced = true; Exec(&base);
    if (!base.ok) vp::Fail("the tool failed without any fault: " + Show(base));
    k.Judge(base);
    int n = std::min(base.shm.events, FAULT_MAX);
    for (int e = 0; e < n; e++) for (int act = F_EIO; act <= F_EOF; act++) {
      char kind = base.shm.kind[e];
      if (act == F_SHORT || act == F_SHORT_THEN_BROKEN) { if (kind != 'r' && kind != 'w') continue; }
      if (act == F_EOF && !(kind == 'r' && base.shm.file[e] == 'd')) continue;    // elsewhere the input is just shorter
      if (act == F_ENOSPC && kind != 'w') continue;
      if (act == F_BROKEN && kind != 'r' && kind != 'w') continue;
      if (kind == 'c' && act != F_EIO) continue;
      std::vector<int> args = {0};
      if ((act == F_SHORT || act == F_SHORT_THEN_BROKEN) && base.shm.ret[e] > 1) { int m = base.shm.ret[e]; std::set<int> a = {1, m / 2, m - 1}; args.assign(a.begin(), a.end()); }
      for (int arg : args) {
      Run r = k.Make(); r.traced = true; r.at = e; r.action = act; r.arg = arg; Exec(&r);
      if (!r.shm.hits) continue;
      VP_NOTE(Show(r) + " [" + kNames[act] + "]");
      k.Judge(r);
      if (r.ok && act == F_SHORT_THEN_BROKEN && arg > 0 && arg < base.shm.ret[e] && Needed(base.shm, e)) vp::Fail("exit status zero although reading the input failed midway: " + Show(r));
      if (r.ok && act == F_BROKEN && Needed(base.shm, e)) vp::Fail("exit status zero although reading the input failed: " + Show(r));
      if (e == n / 2) vp::Sample(Show(r) + " [" + kNames[act] + "]");
      }
    }
  }, "every I/O system call of each encode/decode/self-test run (6 pairs of dictionary and target, targets of 0..~11 KB, formats, files/standard streams/pipes, 3 buffer sizes) x {EIO, ENOSPC, EINTR, short, short then broken, broken, end of file}");

  AddSpace("output-size-limit", all.size(), [](uint64_t u) {
    // the file system accepts only the first n bytes
    Case k = Build(all[u]);
    if (k.c.via == 6 || k.c.via == 7) return;                 // pipes have no size limit
    Run base = k.Make(); Exec(&base); Bytes out;
    if (k.c.cmd != TEST && (k.c.via & 2)) out = base.stdout_bytes; else Get(k.c.cmd == DECODE ? "target" : "x.delta", &out);
    std::set<long> lim; long size = (long)out.size();
    for (long i = 0; i < size; i += size < 200 || (vp::Thorough() && size < 3000) ? 1 : size < 2000 ? 41 : 499) lim.insert(i);
    for (long b : {0L, 1L, 4095L, 4096L, 4097L, 8191L, 8192L, 8193L, size - 2, size - 1}) if (b >= 0 && b < size) lim.insert(b);
    for (long l : lim) {
      Run r = k.Make(); r.fsize = l; Exec(&r);
      VP_NOTE(Show(r));
      k.Judge(r);
    }
  }, "the output file may not grow beyond n bytes, for n from 0 to the output size - 1");

  AddSpace("bad-stdout", all.size(), [](uint64_t u) {
    Case k = Build(all[u]);
    if (k.c.cmd == TEST || !(k.c.via & 2)) return;
    for (Out o : {OUT_CLOSED, OUT_FULL, OUT_BROKEN_PIPE}) { Run r = k.Make(); r.out = o; Exec(&r); VP_NOTE(Show(r)); k.Judge(r); }
  }, "standard output closed, full, or a pipe without a reader");

  static std::vector<Cfg> small;
  for (auto& c : all) if (c.target < 4 && c.buf != "700" && (vp::Thorough() || (c.target == 3 && (c.cmd == TEST || c.via == 0 || c.via == 3) && c.fmt < 2 && c.buf.empty()))) small.push_back(c);
  AddSpace("two-faults", small.size(), [](uint64_t u) {
    Case k = Build(small[u]);
    Run base = k.Make(); base.traced = true; Exec(&base);
    int n = std::min(base.shm.events, FAULT_MAX);
    for (int e = 0; e < n; e++) for (int act : {F_SHORT, F_EINTR, F_EIO}) {
      char kind = base.shm.kind[e];
      if (kind == 'c' || (act == F_SHORT && kind != 'r' && kind != 'w')) continue;
      Run first = k.Make(); first.traced = true; first.at = e; first.action = act; if (base.shm.ret[e] > 1) first.arg = base.shm.ret[e] / 2; Exec(&first);
      if (!first.shm.hits) continue;
      int m = std::min(first.shm.events, FAULT_MAX);
      for (int e2 = e + 1; e2 < m; e2++) for (int act2 : {F_EIO, F_SHORT_THEN_BROKEN, F_BROKEN}) {
        char kind2 = first.shm.kind[e2];
        if (kind2 == 'c' || (act2 != F_EIO && kind2 != 'r' && kind2 != 'w')) continue;
        Run r = k.Make(); r.traced = true; r.at = e; r.action = act; r.at2 = e2; r.action2 = act2; if (first.shm.ret[e2] > 1) r.arg2 = first.shm.ret[e2] / 2; if (base.shm.ret[e] > 1) r.arg = base.shm.ret[e] / 2; Exec(&r);
        k.Judge(r);
      }
    }
  }, "every pair of I/O calls: the first is cut short, interrupted or fails, a later one fails or breaks");
}
}  // namespace vp
