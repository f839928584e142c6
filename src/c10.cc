// C10: every call sequence on the streaming API, against a protocol model.
// Release build: there, misuse is reported by return value instead of by
// terminating the process.
#include "enc.h"
#include <string.h>
#include <memory>
#include "google/jsonwriter.h"
#include "google/vcdecoder.h"
using namespace gen;
using namespace enc;
using namespace open_vcdiff;

namespace {
const char kDict1[] = "0123456789ABCDEFGHIJ", kDict2[] = "zyxwvutsrqponmlkjihg";
struct Op { const char* name; int kind; Bytes data; };   // kind 0 start1, 1 start2, 2 finish, 3 disallow, 4 allow, 5 decode
std::vector<Op> DecOps(int f) {
  std::vector<Op> v;
  v.push_back({"Start", 0, ""}); v.push_back({"Start(other dictionary)", 1, ""}); v.push_back({"Finish", 2, ""});
  v.push_back({"Allow(false)", 3, ""}); v.push_back({"Allow(true)", 4, ""});
  Bytes h = ref::Header(Version(f));
  bool il = IsIL(f);
  ref::WinSpec a; a.indicator = 1; a.src_len = 20; a.target_len = 6; a.inst = Bytes(1, 20); (il ? a.inst : a.addr).push_back(3); a.inst.push_back(3); (il ? a.inst : a.data) += "pq";
  ref::WinSpec t; t.indicator = 2; t.src_len = 4; t.target_len = 5; t.inst = Bytes("\x13\x05", 2); (il ? t.inst : t.addr).push_back(1);
  ref::WinSpec x = a; x.indicator = 3;
  auto win = [&](ref::WinSpec w) { if (HasSum(f)) { w.checksum = true; w.indicator |= 4; w.checksum_value = ref::Adler32("3456pq", 6); } return ref::MakeWindow(w); };
  Bytes A = win(a);
  v.push_back({"header", 5, h}); v.push_back({"window", 5, A}); v.push_back({"target window", 5, ref::MakeWindow(t)});
  v.push_back({"bad window", 5, ref::MakeWindow(x)}); v.push_back({"nothing", 5, ""});
  v.push_back({"first half of a window", 5, A.substr(0, A.size() / 2)}); v.push_back({"second half", 5, A.substr(A.size() / 2)});
  v.push_back({"whole file", 5, h + A});
  return v;
}
const std::vector<Op>& Ops(int f) { static std::vector<Op> v[kFmts]; if (v[f].empty()) v[f] = DecOps(f); return v[f]; }

// The model of one decoder object.
struct Model {
  bool started = false, allow = true, dead = false; const char* dict = NULL; Bytes bytes; size_t delivered = 0;
};
void RunDecoder(int f, const int* seq, int n) {
  const std::vector<Op>& ops = Ops(f);
  VCDiffStreamingDecoder d; Model m; Bytes out; size_t base = 0;   // base: output size at session start
  auto say = [&](int upto) { std::string s; for (int i = 0; i <= upto; i++) s += std::string(i ? ", " : "") + ops[seq[i]].name; return s; };
  for (int i = 0; i < n; i++) {
    const Op& o = ops[seq[i]];
    size_t before = out.size();
    vp::Transition();
    switch (o.kind) {
      case 0: case 1:
        d.StartDecoding(o.kind ? kDict2 : kDict1, 20);
        if (!m.started) { m.started = true; m.dead = false; m.dict = o.kind ? kDict2 : kDict1; m.bytes.clear(); base = out.size(); }
        break;
      case 2: {
        bool r = d.FinishDecoding(), want = false;
        if (m.started) want = ref::Decode(m.dict, m.bytes, [&] { ref::Options q; q.allow_target = m.allow; return q; }()).verdict == ref::OK;
        m.started = false;
        if (r != want) vp::Fail(vp::Str("completion call %s, expected %s, after: ", r ? "succeeded" : "failed", want ? "success" : "failure") + say(i));
        break;
      }
      case 3: case 4:
        d.SetAllowVcdTarget(o.kind == 4);
        if (!m.started) m.allow = o.kind == 4;
        break;
      case 5: {
        vp::Exact c(o.data);
        bool r = d.DecodeChunk(c.p, c.n, &out);
        if (!m.started) {
          if (r) vp::Fail("decode call succeeded outside a session: " + say(i));
          if (out.size() != before) vp::Fail("decode call outside a session produced output: " + say(i));
          break;
        }
        m.bytes += o.data;
        ref::Options q; q.allow_target = m.allow;
        ref::Result w = ref::Decode(m.dict, m.bytes, q);
        if (!r) {
          if (w.verdict != ref::BAD) vp::Fail("decode call of a valid continuation failed: " + say(i));
          m.started = false;
        } else if (w.verdict != ref::BAD) {
          if (out.compare(base, Bytes::npos, w.out) != 0) vp::Fail("wrong output after: " + say(i) + " got " + vp::Hex(out.substr(base), 100) + " expected " + vp::Hex(w.out, 100));
        }
        break;
      }
    }
    if (o.kind != 5 && out.size() != before) vp::Fail("output produced by a call that takes none: " + say(i));
  }
  vp::Trace();
}

// ---- encoder -------------------------------------------------------------------
// ops: 0 start, 1 chunk, 2 empty chunk, 3 non-ASCII chunk, 4 finish, 5 second chunk
const char* kEncNames[] = {"Start", "chunk", "empty chunk", "non-ASCII chunk", "Finish", "other chunk"};
}  // namespace

namespace vp {
void Setup() {
  for (int f = 0; f < kFmts; f++) Ops(f);
  static const int N = 13;
  int depth = Thorough() ? 8 : 6;
  AddSpace("decoder-sequences", N * N * 3, [depth](uint64_t u) {
    int f = (int)(u / (N * N)); f = f == 0 ? V0 : f == 1 ? S_IL : S_IL_SUM;
    int d = f == V0 ? depth : depth - 1;
    int seq[10] = {(int)(u % N), (int)(u / N % N)};
    long tot = 1; for (int i = 2; i < d; i++) tot *= N;
    for (long k = 0; k < tot; k++) {
      long x = k; for (int i = 2; i < d; i++) { seq[i] = (int)(x % N); x /= N; }
      if (vp::Verbose()) { std::string s; for (int i = 0; i < d; i++) s += std::string(Ops(f)[seq[i]].name) + ", "; vp::Note(s); }
      RunDecoder(f, seq, d); vp::State();
    }
    vp::Sample(vp::Str("%s, %s, followed by all call sequences", Ops(f)[seq[0]].name, Ops(f)[seq[1]].name));
  }, "all sequences of 6 (thorough 8) decoder calls over 13 operations (start with either dictionary, finish, permission changes, header, windows, halves, bad window, nothing), standard; one shorter for interleaved and interleaved+checksum");

  AddSpace("encoder-sequences", 6 * 18, [](uint64_t u) {
    int first = (int)(u % 6), c = (int)(u / 6);
    bool json = c >= 8, bad_dict = c >= 16; int flags = Flags(c & 7) | (json ? 4 : 0); bool tm = TargetMatching(c & 7);
    Bytes dict; for (int i = 0; i < 80; i++) dict.push_back((char)(33 + (i * 7 + i / 13) % 90));
    if (bad_dict) dict[40] = (char)0x90;
    Dict D(dict);
    Bytes data[6]; data[1] = dict.substr(5, 30) + "lit" + (bad_dict ? "" : dict.substr(40, 34)); data[3] = "ab\xc3\x28"; data[5] = "\"q\"" + dict.substr(1, 32);
    int depth = vp::Thorough() ? 8 : 6;
    long tot = 1; for (int i = 1; i < depth; i++) tot *= 6;
    int seq[8] = {first};
    for (long k = 0; k < tot; k++) {
      long x = k; for (int i = 1; i < depth; i++) { seq[i] = (int)(x % 6); x /= 6; }
      auto say = [&](int upto) { std::string s = vp::Str("flags %d: ", flags); for (int i = 0; i <= upto; i++) s += std::string(i ? ", " : "") + kEncNames[seq[i]]; return s; };
      for (const char* start : {"old", ""}) {
      VCDiffStreamingEncoder e(D.h, flags, tm);
      std::unique_ptr<VCDiffStreamingEncoder> f;     // a fresh object that sees only the proper calls of the current session
      bool open = false;
      for (int i = 0; i < depth; i++) {
        Bytes out = start, want = start; bool r, w;
        vp::Transition();
        if (seq[i] == 0) {
          r = e.StartEncoding(&out);
          f.reset(new VCDiffStreamingEncoder(D.h, flags, tm)); w = f->StartEncoding(&want);
          if (bad_dict && json && (r || out != start)) vp::Fail("start succeeded although the dictionary is not acceptable: " + say(i));
          open = w;
        } else if (seq[i] == 4) {
          r = e.FinishEncoding(&out); w = open && f->FinishEncoding(&want);
          open = false;
        } else {
          vp::Exact ch(data[seq[i]]);
          r = e.EncodeChunk(ch.p, ch.n, &out);
          if (open && json && seq[i] == 3) w = false;
          else w = open && f->EncodeChunk(ch.p, ch.n, &want);
        }
        if (r != w) vp::Fail(vp::Str("call %s, expected %s: ", r ? "succeeded" : "failed", w ? "success" : "failure") + say(i));
        if (out != want) vp::Fail("unexpected output: " + say(i) + " got " + vp::Hex(out, 100) + " expected " + vp::Hex(want, 100));
      }
      vp::State(); vp::Trace();
      }
    }
  }, "all sequences of 6 (thorough 8) encoder calls over start, three chunks, a non-ASCII chunk and finish x 8 option combinations x binary/JSON x empty/non-empty output strings, plus unacceptable dictionaries");

  AddSpace("dictionary-init-twice", 8, [](uint64_t u) {
    Bytes dict; for (int i = 0; i < 80; i++) dict.push_back((char)(33 + (i * 7 + i / 13) % 90));
    Bytes t = dict.substr(3, 50) + "x" + dict.substr(0, 40), a, b;
    HashedDictionary once(dict.data(), dict.size()), twice(dict.data(), dict.size());
    if (!once.Init() || !twice.Init()) vp::Fail("Init failed");
    for (int i = 0; i < 3; i++) {
      twice.Init();
      a.clear(); b.clear();
      VCDiffStreamingEncoder x(&once, Flags((int)u), TargetMatching((int)u)), y(&twice, Flags((int)u), TargetMatching((int)u));
      x.StartEncoding(&a); y.StartEncoding(&b); x.EncodeChunk(t.data(), t.size(), &a); y.EncodeChunk(t.data(), t.size(), &b);
      vp::Transition(5); vp::State(); vp::Trace();
      if (a != b) vp::Fail("initialising a dictionary again changes the encoding");
    }
  }, "initialising a dictionary again x 8 option combinations");

  AddSpace("dictionary-not-initialised", 8 * 3, [](uint64_t u) {
    int combo = (int)(u % 8); bool json = u / 8 == 1;
    for (size_t n : {0, 1, 15, 16, 17, 80}) for (size_t m : {0, 1, 40}) for (int calls = 0; calls < 27; calls++) {
      Bytes dict; for (size_t i = 0; i < n; i++) dict.push_back((char)(33 + (i * 7 + i / 13) % 90));
      Bytes t = (dict + "xyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyz").substr(0, m), a, b;
      HashedDictionary late(dict.data(), dict.size()), good(dict.data(), dict.size());
      if (!good.Init()) vp::Fail("Init failed");
      int flags = Flags(combo) | (json ? 4 : 0);
      VCDiffStreamingEncoder x(&late, flags, TargetMatching(combo)), y(&good, flags, TargetMatching(combo));
      for (int k = 0, c = calls; k < 3; k++, c /= 3) {
        bool ok = c % 3 == 0 ? x.StartEncoding(&a) : c % 3 == 1 ? x.EncodeChunk(t.data(), t.size(), &a) : x.FinishEncoding(&a);
        vp::Transition();
        if (ok || !a.empty()) vp::Fail(vp::Str("call %d of the session succeeded or produced output, although the dictionary was never initialised (calls %d, %zu/%zu bytes, ", k, calls, n, m) + ComboName(combo) + ")");
      }
      if (u / 8 == 2) { VCDiffStreamingEncoder z(&late, flags, false); if (z.StartEncoding(&a) || z.EncodeChunk(t.data(), t.size(), &a)) vp::Fail("second encoder on an uninitialised dictionary"); }
      if (!late.Init()) vp::Fail("Init failed");
      a.clear();
      if (!x.StartEncoding(&a) || !y.StartEncoding(&b) || !x.EncodeChunk(t.data(), t.size(), &a) || !y.EncodeChunk(t.data(), t.size(), &b) || !x.FinishEncoding(&a) || !y.FinishEncoding(&b)) vp::Fail("session after initialisation failed");
      if (a != b) vp::Fail("using a dictionary before it was initialised changes later encodings");
      vp::State(); vp::Trace();
    }
  }, "all sequences of 3 encoder calls with a dictionary that was not initialised x 8 option combinations x binary/JSON x sizes: refused without output; works after initialisation");

  AddSpace("failure-is-final", Corpus().size(), [](uint64_t u) {
    // after any failed decode call every call fails until a new start
    const Case& c = Corpus()[u];
    if (c.delta.size() > 90) return;
    ForMutants(c.delta, 0, [&](const Bytes& m) {
      VCDiffStreamingDecoder d; Bytes out; d.StartDecoding(c.dict.data(), c.dict.size());
      size_t pos = 0; bool ok = true;
      size_t ch = 1 + (m.size() + (uint8_t)m[m.size() ? m.size() / 2 : 0]) % 9;
      while (pos < m.size() && ok) { size_t n = std::min(ch, m.size() - pos); ok = d.DecodeChunk(m.data() + pos, n, &out); pos += n; vp::Transition(); }
      if (ok) { d.FinishDecoding(); vp::Tally("no failed call"); return; }
      vp::Tally("failed call"); vp::State(); vp::Trace();
      size_t have = out.size();
      if (d.DecodeChunk(m.data() + pos, m.size() - pos, &out)) vp::Fail("decode succeeded after a failed call: " + vp::Hex(m));
      if (d.DecodeChunk(c.delta.data(), c.delta.size(), &out)) vp::Fail("decode of a fresh file succeeded after a failed call without start: " + vp::Hex(m));
      if (d.DecodeChunk("", 0, &out)) vp::Fail("empty decode call succeeded after a failed call: " + vp::Hex(m));
      if (d.FinishDecoding()) vp::Fail("completion succeeded after a failed call: " + vp::Hex(m));
      if (d.FinishDecoding()) vp::Fail("second completion succeeded: " + vp::Hex(m));
      if (out.size() != have) vp::Fail("output after a failed call: " + vp::Hex(m));
      d.StartDecoding(c.dict.data(), c.dict.size()); out.clear();
      ref::Result r = ref::Decode(c.dict, c.delta);
      if (!d.DecodeChunk(c.delta.data(), c.delta.size(), &out) || !d.FinishDecoding() || out != r.out) vp::Fail("new session after a failure does not work: " + vp::Hex(m));
    });
  }, "every truncation and single-byte substitution of every short corpus delta: after the failing call nothing succeeds until a new start, which then works");
}
}  // namespace vp
