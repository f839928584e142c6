// C24: no history of use leaks or accumulates memory.
#include "enc.h"
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <new>
#include "google/encodetable.h"
#include "google/jsonwriter.h"
#include "google/output_string.h"
#include "google/vcdecoder.h"
using namespace enc;
using namespace open_vcdiff;

// ---- heap accounting: every allocation of library and harness ------------------
static long g_blocks; static size_t g_bytes;
static void* Take(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); g_blocks++; g_bytes += malloc_usable_size(p); return p; }
static void Give(void* p) { if (p) { g_blocks--; g_bytes -= malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }

namespace {
class Sink : public OutputStringInterface {
 public:
  uint64_t total = 0;
  OutputStringInterface& append(const char*, size_t n) override { total += n; return *this; }
  void clear() override { total = 0; }
  void push_back(char) override { total++; }
  void ReserveAdditionalBytes(size_t) override {}
  size_t size() const override { return total; }
};
void Warm() {   // tables created once per process
  static bool done; if (done) return; done = true;
  HashedDictionary h("warm warm warm warm warm warm warm", 34); h.Init();
  for (int f : {0, 1, 3, 4, 7}) for (int tm = 0; tm < 2; tm++) { Sink s; VCDiffStreamingEncoder e(&h, f, tm); e.StartEncodingToInterface(&s); e.EncodeChunkToInterface("warm warm warm warm warm warm warm warm", 39, &s); e.FinishEncodingToInterface(&s); }
  for (auto& c : gen::Corpus()) gen::RealWhole(c.dict, c.delta);
}
// runs fn twice (once to let lazily created process-wide state appear), then compares
template <class F> void Balanced(const std::string& what, F fn) {
  vp::State();
  for (int k = 0; k < 2; k++) {
    long b = g_blocks; size_t n = g_bytes;
    fn();
    vp::Trace();
    if (g_blocks == b && g_bytes == n) return;
    if (k == 1) vp::Fail(what + vp::Str(": %ld blocks (%lld bytes) are never released", g_blocks - b, (long long)(g_bytes - n)));
  }
}
void DecodeOnce(const Bytes& dict, const Bytes& delta, size_t chunk, int end, bool allow) {   // end: 0 completion, 1 abandoned
  Sink s; VCDiffStreamingDecoder d; d.SetAllowVcdTarget(allow);
  d.StartDecoding(dict.data(), dict.size());
  bool ok = true;
  for (size_t at = 0; ok && at < delta.size(); at += chunk) { ok = d.DecodeChunkToInterface(delta.data() + at, std::min(chunk, delta.size() - at), &s); vp::Transition(); }
  if (end == 0) d.FinishDecoding();
  if (end == 2 && ok) { }
}
bool MayRun(const Bytes& dict, const Bytes& delta) { return delta.size() < 5 || !(delta[4] & 2) || gen::Runnable(ref::Decode(dict, delta)); }
void EncodeBalanced(const Input& in) {
  Balanced("encoding " + (vp::Verbose() ? in.Describe() : ComboName(in.combo) + vp::Str(" dict %zu target %zu", in.dict->size(), in.target->size())), [&] {
    for (int json = 0; json < 2; json++) {
      Sink s; HashedDictionary h(in.dict->data(), in.dict->size());
      if (!h.Init()) vp::Fail("Init");
      VCDiffStreamingEncoder e(&h, Flags(in.combo) | (json ? 4 : 0), TargetMatching(in.combo));
      if (!e.StartEncodingToInterface(&s)) continue;
      size_t pos = 0;
      for (size_t k = 0; k <= in.cuts->size(); k++) {
        size_t end = k < in.cuts->size() ? std::min((*in.cuts)[k], in.target->size()) : in.target->size();
        e.EncodeChunkToInterface(in.target->data() + pos, end - pos, &s); pos = end; vp::Transition();
      }
      if (in.target->size() % 3) e.FinishEncodingToInterface(&s);
    }
  });
}
}  // namespace
namespace vp {
void Setup() {
  gen::Corpus();
  size_t C = gen::Corpus().size();
  AddFamilies([](const Input& in) { Warm(); EncodeBalanced(in); }, Thorough() ? 1 : 7);

  AddSpace("decode-edits", C * 8, [](uint64_t u) {
    Warm();
    const gen::Case& c = gen::Corpus()[u / 8]; uint64_t k = 0;
    gen::ForMutants(c.delta, 1, [&](const Bytes& m) {
      if (k++ % 8 != u % 8) return;
      if (!MayRun(c.dict, m)) return;
      if (m.size() > 200 && k % 5 && !Thorough()) return;
      Balanced(c.name + " edited, delta=" + (Verbose() || m.size() < 200 ? Hex(m, 300) : "..."), [&] { DecodeOnce(c.dict, m, 1 << 20, 0, true); });
      if (k % 4 == 0) Balanced(c.name + " edited, small chunks", [&] { DecodeOnce(c.dict, m, 1 + k % 5, k % 8 ? 1 : 0, k % 16 < 8); });
    });
    Sample(c.name + ": all edits");
  }, "every truncation, substitution, insertion and deletion of every corpus delta, whole and (every 4th) in chunks, completed or abandoned");

  AddSpace("decode-abandoned", C, [](uint64_t u) {
    Warm();
    const gen::Case& c = gen::Corpus()[u]; size_t n = std::min<size_t>(c.delta.size(), 2000);
    for (size_t end = 0; end <= n; end += n > 400 ? 7 : 1) for (size_t chunk : {(size_t)1 << 20, (size_t)3}) for (int fin = 0; fin < 2; fin++)
      Balanced(c.name + Str(": first %zu bytes, %s", end, fin ? "abandoned" : "completed"), [&] { DecodeOnce(c.dict, c.delta.substr(0, end), chunk, fin, end % 2); });
  }, "every prefix of every corpus delta, whole and in chunks of 3, with and without the completion call");

  AddSpace("decoder-reuse", C, [](uint64_t u) {
    // one decoder for many sessions: what it holds between sessions must not grow
    Warm();
    const std::vector<gen::Case>& V = gen::Corpus(); const gen::Case& a = V[u];
    for (size_t j = 0; j < V.size(); j++) for (int cut = 0; cut < 4; cut++) {
      State();
      VCDiffStreamingDecoder d; size_t held[8] = {0};
      for (int round = 0; round < 8; round++) {
        for (int w = 0; w < 2; w++) {
          const gen::Case& c = w ? V[j] : a; Sink s;
          size_t n = w == 0 ? c.delta.size() : cut == 0 ? c.delta.size() : c.delta.size() * cut / 4;
          d.StartDecoding(c.dict.data(), c.dict.size());
          d.DecodeChunkToInterface(c.delta.data(), n, &s);
          d.FinishDecoding(); Transition(3);
        }
        held[round] = g_bytes;
      }
      Trace();
      if (held[7] > held[3]) Fail(a.name + " / " + V[j].name + Str(": a reused decoder holds %lld more bytes after 8 rounds than after 4", (long long)(held[7] - held[3])));
    }
    Sample(a.name + " alternating with every other corpus delta (complete or cut), 8 rounds on one decoder");
  }, "all ordered pairs of corpus deltas (second one complete or cut at 1/4, 1/2, 3/4), 8 rounds on one decoder");

  AddSpace("encoder-reuse", 8 * 12, [](uint64_t u) {
    Warm();
    int c = (int)(u % 8), kind = (int)(u / 8);
    Bytes dict = kind % 3 == 0 ? Bytes() : kind % 3 == 1 ? Noise(90, 1) : Bytes(300, 'a');
    for (char& ch : dict) ch &= 0x7f;
    Bytes t1 = dict.substr(0, 60) + "x" + Bytes(70, 'q'), t2 = kind / 3 == 0 ? Bytes() : kind / 3 == 1 ? Bytes("\xff\xfe", 2) : kind / 3 == 2 ? Bytes(500, 'y') : dict + dict;
    for (int json = 0; json < 2; json++) for (int fin = 0; fin < 2; fin++) for (int one = 0; one < 2; one++) {
      State(); Trace();
      HashedDictionary h(dict.data(), dict.size()); h.Init();
      size_t held[8];
      VCDiffStreamingEncoder e(&h, Flags(c) | (json ? 4 : 0), TargetMatching(c));
      VCDiffEncoder v(dict.data(), dict.size()); v.SetFormatFlags(Flags(c) | (json ? 4 : 0)); v.SetTargetMatching(TargetMatching(c));
      Bytes out; out.reserve(100000);
      for (int r = 0; r < 8; r++) {
        if (one) { v.Encode(t1.data(), t1.size(), &out); v.Encode(t2.data(), t2.size(), &out); }
        else { Sink s; e.StartEncodingToInterface(&s); e.EncodeChunkToInterface(t1.data(), t1.size(), &s); e.EncodeChunkToInterface(t2.data(), t2.size(), &s); if (fin) e.FinishEncodingToInterface(&s); }
        Transition(4); held[r] = g_bytes;
      }
      if (held[7] > held[3]) Fail(Str("a reused encoder holds %lld more bytes after 8 sessions than after 4 (", (long long)(held[7] - held[3])) + ComboName(c) + Str(" json %d completion %d one-call %d kind %d)", json, fin, one, kind));
    }
    Sample("8 sessions on one encoder");
  }, "8 sessions of two chunks on one encoder, 3 dictionaries x 4 second chunks x 8 option combinations x JSON x completion or not x streaming or one-call");

  AddSpace("long-session", 16, [](uint64_t u) {
    // one session of many chunks: only what the format needs may be kept
    Warm();
    int c = (int)(u % 8); bool json = u >= 8; State();
    Bytes dict = Bytes(100, 'd') + "some other text that is longer than one block"; HashedDictionary h(dict.data(), dict.size()); h.Init();
    VCDiffStreamingEncoder e(&h, Flags(c) | (json ? 4 : 0), TargetMatching(c)); Sink s;
    e.StartEncodingToInterface(&s); size_t held[4];
    Bytes t = dict.substr(20, 90) + "literal" + Bytes(64, 'l');
    for (int r = 0; r < 4; r++) { for (int k = 0; k < 2000; k++) { e.EncodeChunkToInterface(t.data(), t.size(), &s); Transition(); } held[r] = g_bytes; }
    Trace();
    if (held[3] > held[0]) Fail("an encoder holds more memory the longer the session lasts (" + ComboName(c) + Str(" json %d): %zu -> %zu", json, held[0], held[3]));
  }, "8000 chunks in one session, all option combinations, binary and JSON: memory held by the encoder stays the same");

  AddSpace("writer", 12, [](uint64_t u) {
    Warm();
    bool il = u & 1; bool json = u >= 8; int custom = (int)(u / 2) % 2;
    static ref::Table t = gen::MinimalTable(2, 3);
    VCDiffCodeTableData td; memcpy(td.inst1, t.f[0], 256); memcpy(td.inst2, t.f[1], 256); memcpy(td.size1, t.f[2], 256);
    memcpy(td.size2, t.f[3], 256); memcpy(td.mode1, t.f[4], 256); memcpy(td.mode2, t.f[5], 256);
    for (int inits = 0; inits < 4; inits++) for (int wins = 0; wins < 3; wins++) for (int pending = 0; pending < 2; pending++)
      Balanced(Str("writer, %d inits, %d windows, pending %d, custom %d, JSON %d", inits, wins, pending, custom, json), [&] {
        std::unique_ptr<CodeTableWriterInterface> w(json ? (CodeTableWriterInterface*)new JSONCodeTableWriter : custom ? new VCDiffCodeTableWriter(il, 2, 3, td, 6) : new VCDiffCodeTableWriter(il));
        Sink s;
        for (int i = 0; i < inits; i++) {
          w->Init(100);
          for (int k = 0; k < wins; k++) { w->Add("abcdefghijklmnopqrstuvwxyz", 26); w->Copy(5, 40); w->Run(33, 'r'); w->Output(&s); }
          if (pending) { w->Add("abcdefghijklmnopqrstuvwxyz", 26); w->Copy(5, 40); }
          Transition(6);
        }
      });
  }, "writers (default table, custom table, JSON): 0..3 initialisations x 0..2 windows x pending instructions, then destroyed");
}
}  // namespace vp
