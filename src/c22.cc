// C22: the encoder drives a caller-supplied code table writer exactly as documented.
#include "enc.h"
#include <string.h>
#include "google/codetablewriter_interface.h"
#include "google/output_string.h"
using namespace enc;
using namespace open_vcdiff;

namespace {
VCDChecksum Adler(const char* p, size_t n) { uint32_t a = 0, b = 0; for (size_t i = 0; i < n; i++) { a = (a + (unsigned char)p[i]) % 65521; b = (b + a) % 65521; } return (b << 16) | a; }
struct Ev { char k; uint64_t a, b; Bytes data; };   // I init, D verify dictionary, H header, V verify chunk, S checksum, A/C/R instructions, O output, F finish
struct Log { std::vector<Ev> ev; int alive = 0; bool init_ok = true, dict_ok = true, silent = false; Bytes refuse; void Say(OutputStringInterface* o, const char* s) const { if (!silent) o->append(s, 3); } };
class Recorder : public CodeTableWriterInterface {
 public:
  explicit Recorder(Log* l) : l_(l) { l->alive++; }
  ~Recorder() override { l_->alive--; }
  bool Init(size_t n) override { Put('I', n); return l_->init_ok; }
  void WriteHeader(OutputStringInterface* out, VCDiffFormatExtensionFlags f) override { Put('H', f); l_->Say(out, "<H>"); }
  void Add(const char* d, size_t n) override { Put('A', n, 0, Bytes(d, n)); }
  void Copy(int32_t o, size_t n) override { Put('C', (uint64_t)(int64_t)o, n); }
  void Run(size_t n, unsigned char b) override { Put('R', n, b); }
  void AddChecksum(VCDChecksum c) override { Put('S', c); }
  void Output(OutputStringInterface* out) override { Put('O'); l_->Say(out, "<O>"); }
  void FinishEncoding(OutputStringInterface* out) override { Put('F'); l_->Say(out, "<F>"); }
  bool VerifyDictionary(const char* d, size_t n) const override { Put('D', n, 0, Bytes(n ? d : "", n)); return l_->dict_ok; }
  bool VerifyChunk(const char* d, size_t n) const override { Bytes b(n ? d : "", n); Put('V', n, 0, b); return l_->refuse.empty() || b != l_->refuse; }
 private:
  void Put(char k, uint64_t a = 0, uint64_t b = 0, const Bytes& d = Bytes()) const { l_->ev.push_back({k, a, b, d}); }
  Log* l_;
};
std::string Show(const std::vector<Ev>& v, size_t from = 0) {
  std::string s; for (size_t i = from; i < v.size() && i < from + 60; i++) s += vp::Str(" %c(%llu,%llu)", v[i].k, (unsigned long long)v[i].a, (unsigned long long)v[i].b); return s;
}
// The calls a successful start must make.
bool StartOk(const Log& l, size_t at, const Bytes& dict, int flags, std::string* why) {
  int i = 0, d = 0, h = 0;
  for (size_t k = at; k < l.ev.size(); k++) {
    const Ev& e = l.ev[k];
    if (e.k == 'I') { i++; if (e.a != dict.size()) { *why = "Init with a wrong dictionary size"; return false; } if (d + h && 0) return false; if (h) { *why = "Init after the header"; return false; } }
    else if (e.k == 'D') { d++; if (e.data != dict) { *why = "VerifyDictionary does not see the dictionary"; return false; } if (h) { *why = "VerifyDictionary after the header"; return false; } }
    else if (e.k == 'H') { h++; if ((int)e.a != flags) { *why = "WriteHeader with other flags"; return false; } if (!i || !d) { *why = "header before Init and VerifyDictionary"; return false; } }
    else { *why = "unexpected call during start"; return false; }
  }
  if (i != 1 || d != 1 || h != 1) { *why = "start does not call Init, VerifyDictionary and WriteHeader once each"; return false; }
  return true;
}
// The calls a successful chunk must make; appends the instructions to *insts.
bool ChunkOk(const Log& l, size_t at, const Bytes& dict, const Bytes& chunk, int flags, bool tm, std::vector<ref::Inst>* insts, std::string* why) {
  int v = 0, s = 0, o = 0; Bytes built;
  for (size_t k = at; k < l.ev.size(); k++) {
    const Ev& e = l.ev[k];
    if (e.k != 'V' && !v) { *why = "writer used before VerifyChunk"; return false; }
    if (o) { *why = "writer used after Output within one chunk"; return false; }
    switch (e.k) {
      case 'V': v++; if (e.data != chunk) { *why = "VerifyChunk does not see the chunk"; return false; } break;
      case 'S': s++; if (e.a != Adler(chunk.data(), chunk.size()) && !chunk.empty()) { *why = "wrong checksum"; return false; } break;
      case 'A': if (!e.a) { *why = "ADD of size 0"; return false; } built += e.data; insts->push_back(ref::Inst()); insts->back().type = ref::ADD; insts->back().size = (uint32_t)e.a; break;
      case 'R': if (!e.a) { *why = "RUN of size 0"; return false; } built += Bytes(e.a, (char)e.b); insts->push_back(ref::Inst()); insts->back().type = ref::RUN; insts->back().size = (uint32_t)e.a; break;
      case 'C': {
        if (!e.b) { *why = "COPY of size 0"; return false; }
        if (e.a >= dict.size() + built.size()) { *why = "COPY from data not available yet"; return false; }
        if (e.a < dict.size() && e.a + e.b > dict.size()) { *why = "COPY straddles dictionary and target"; return false; }
        if (e.a >= dict.size() && !tm) { *why = "COPY from the target without target matching"; return false; }
        insts->push_back(ref::Inst()); insts->back().type = ref::COPY; insts->back().size = (uint32_t)e.b; insts->back().addr = (uint32_t)e.a;
        if (e.a < dict.size()) built += dict.substr(e.a, e.b);
        else for (uint64_t i = 0; i < e.b; i++) built.push_back(built[e.a - dict.size() + i]);
        break;
      }
      case 'O': o++; break;
      default: *why = "unexpected call during a chunk"; return false;
    }
  }
  if (v != 1) { *why = "VerifyChunk not called exactly once"; return false; }
  if (!chunk.empty() && o != 1) { *why = "Output not called exactly once for a chunk"; return false; }
  if (!chunk.empty() && s != ((flags & 2) ? 1 : 0)) { *why = "AddChecksum called against the request"; return false; }
  if (built != chunk) { *why = "the instructions do not rebuild the chunk"; return false; }
  return true;
}
void Drive(const Input& in) {
  int flags = Flags(in.combo); bool tm = TargetMatching(in.combo);
  Log log; std::string why; Bytes out = "old";
  auto bad = [&](const std::string& w, size_t at) { vp::Fail(w + ": calls" + Show(log.ev, at) + " " + in.Describe()); };
  std::vector<ref::Inst> insts; Bytes expect = "old";
  {
    VCDiffStreamingEncoder e(in.hashed, flags, tm, new Recorder(&log));
    if (!log.ev.empty()) bad("writer used before the session starts", 0);
    if (!e.StartEncoding(&out)) bad("start refused", 0);
    if (!StartOk(log, 0, *in.dict, flags, &why)) bad(why, 0);
    expect += "<H>";
    if (out != expect) bad("header did not reach the caller's output", 0);
    size_t pos = 0;
    for (size_t k = 0; k <= in.cuts->size(); k++) {
      size_t end = k < in.cuts->size() ? std::min((*in.cuts)[k], in.target->size()) : in.target->size();
      Bytes chunk = in.target->substr(pos, end - pos); size_t at = log.ev.size(); pos = end;
      vp::Exact c(chunk);
      if (!e.EncodeChunk(c.p, c.n, &out)) bad("chunk refused", at);
      if (!ChunkOk(log, at, *in.dict, chunk, flags, tm, &insts, &why)) bad(why, at);
      for (size_t i = at; i < log.ev.size(); i++) if (log.ev[i].k == 'O') expect += "<O>";
      if (out != expect) bad("output of the window did not reach the caller's output", at);
      vp::Transition();
    }
    size_t at = log.ev.size();
    if (!e.FinishEncoding(&out)) bad("completion refused", at);
    if (log.ev.size() != at + 1 || log.ev[at].k != 'F') bad("completion does not call FinishEncoding once", at);
    if (out != expect + "<F>") bad("completion did not reach the caller's output", at);
    if (log.alive != 1) bad("writer destroyed early", at);
    vp::Transition(2);
  }
  if (log.alive != 0) bad("writer not destroyed with the encoder", 0);
  // the built-in writer was given the same instructions
  Bytes delta;
  if (Encode(in.hashed, *in.target, *in.cuts, flags, tm, &delta)) {
    ref::Result r = ref::Decode(*in.dict, delta); size_t k = 0;
    for (auto& w : r.windows) for (auto& i : w.insts) {
      if (k >= insts.size() || insts[k].type != i.type || insts[k].size != i.size || (i.type == ref::COPY && insts[k].addr != i.addr)) bad("the plugged-in writer got other instructions than the built-in one", 0);
      k++;
    }
    if (k != insts.size()) bad("the plugged-in writer got more instructions than the built-in one", 0);
  }
}
}  // namespace
namespace vp {
void Setup() {
#ifndef VP_NDEBUG
  AddFamilies(Drive, 3);
#endif
#ifndef VP_NDEBUG
  AddSpace("flags", 64, [](uint64_t u) {
    // every combination of format flags reaches the supplied writer as given
    int flags = (int)(u % 8); bool tm = u & 8; int kind = (int)(u / 16);
    static const Bytes dict = Noise(70, 952); static Dict* d; if (!d) d = new Dict(dict);
    for (size_t n = 0; n < 70; n++) for (size_t cut = 0; cut <= n; cut += 5) {
      State(); Trace();
      Bytes t = kind == 0 ? dict.substr(0, n) : kind == 1 ? Noise(n, 953) : kind == 2 ? Bytes(n, 'x') : dict.substr(n / 2) + dict.substr(0, n / 2);
      Log log; std::string why; std::vector<ref::Inst> is; Bytes out;
      VCDiffStreamingEncoder e(d->h, flags, tm, new Recorder(&log));
      if (!e.StartEncoding(&out) || !StartOk(log, 0, dict, flags, &why)) Fail(why + Str(" flags %d", flags) + Show(log.ev));
      size_t pos[3] = {0, std::min(cut, t.size()), t.size()};
      for (int k = 0; k < 2; k++) {
        size_t at = log.ev.size(); Bytes c = t.substr(pos[k], pos[k + 1] - pos[k]); Exact ex(c); Transition();
        if (!e.EncodeChunk(ex.p, ex.n, &out) || !ChunkOk(log, at, dict, c, flags, tm, &is, &why)) Fail(why + Str(" flags %d, chunk of %zu", flags, c.size()) + Show(log.ev, at));
      }
      if (!e.FinishEncoding(&out)) Fail("completion failed");
    }
  }, "all 8 flag values (JSON flag included) x target matching x 4 kinds of target of 0..69 bytes x cuts");
#endif
  AddSpace("refusals", 8 * 5 * 2, [](uint64_t u) {
    // every history of calls up to a length, with the writer refusing things
    static const Bytes dict = Noise(70, 951);
    static Dict* d; if (!d) d = new Dict(dict);
    int combo = (int)(u % 8), mode = (int)(u / 8 % 5); bool silent = u / 40;   // a silent writer keeps what it is given and writes nothing
    const Bytes chunks[3] = {dict.substr(3, 50) + "tail", Bytes(), "refused-chunk"};
    int depth = Thorough() ? 7 : 6;
    uint64_t n = 1; for (int i = 0; i < depth; i++) n *= 5;
    for (uint64_t k = 0; k < n; k++) {
      Log log; log.silent = silent; log.init_ok = mode != 1; log.dict_ok = mode != 2 && mode != 4; if (mode >= 3) log.refuse = chunks[2];
#ifndef VP_NDEBUG
      if (mode == 1) return;    // a failing Init is reported as an internal error, fatal in debug builds
#endif
      State(); Trace();
      std::string why, hist; Bytes out, expect; bool open = false; int flags = Flags(combo);
      {
        VCDiffStreamingEncoder e(d->h, flags, TargetMatching(combo), new Recorder(&log));
        uint64_t x = k;
        for (int i = 0; i < depth; i++, x /= 5) {
          int op = (int)(x % 5); size_t at = log.ev.size(); bool ok, want; std::vector<ref::Inst> is;
          hist += "SABCF"[op]; Transition();
          auto bad = [&](const std::string& w) { Fail(w + " after " + hist + Str(" (refusal mode %d, ", mode) + ComboName(combo) + "): calls" + Show(log.ev, at)); };
          if (op == 0) {
            ok = e.StartEncoding(&out); want = log.init_ok && log.dict_ok;
            if (ok != want) bad(ok ? "start succeeded although the writer refused" : "start failed");
            if (ok) { if (!StartOk(log, at, dict, flags, &why)) bad(why); expect += "<H>"; open = true; }
            else { for (size_t j = at; j < log.ev.size(); j++) if (log.ev[j].k != 'I' && log.ev[j].k != 'D') bad("writer used although it refused to start"); }
          } else if (op == 4) {
            ok = e.FinishEncoding(&out);
            if (ok != open) bad(ok ? "completion succeeded without a session" : "completion failed");
            if (ok) { if (log.ev.size() != at + 1 || log.ev[at].k != 'F') bad("completion does not call FinishEncoding once"); expect += "<F>"; }
            else if (log.ev.size() != at) bad("writer used outside a session");
            open = false;
          } else {
            const Bytes& c = chunks[op - 1]; Exact ex(c);
            ok = e.EncodeChunk(ex.p, ex.n, &out); want = open && (log.refuse.empty() || c != log.refuse);
            if (ok != want) bad(ok ? "chunk accepted although it was refused or no session is open" : "chunk failed");
            if (ok) { if (!ChunkOk(log, at, dict, c, flags, TargetMatching(combo), &is, &why)) bad(why); for (size_t j = at; j < log.ev.size(); j++) if (log.ev[j].k == 'O') expect += "<O>"; }
            else if (!open) { if (log.ev.size() != at) bad("writer used outside a session"); }
            else for (size_t j = at; j < log.ev.size(); j++) if (log.ev[j].k != 'V') bad("writer used for a chunk it refused");
          }
          if (silent) expect.clear();
          if (out != expect) bad("output differs from what the writer appended");
        }
      }
      if (log.alive) Fail("writer not destroyed with the encoder after " + hist);
    }
    Sample(Str("refusal mode %d: all histories of %d calls", mode, depth));
  }, "all histories of 6 (thorough 7) calls from {start, 3 chunks, completion} x 5 kinds of refusing writer, writing or silent, x 8 option combinations");
}
}  // namespace vp
