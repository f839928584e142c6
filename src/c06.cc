// C06: decoder resource limits are enforced exactly.
#include "gen.h"
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include "google/output_string.h"
#include "google/vcdecoder.h"
using namespace gen;
using namespace open_vcdiff;

// ---- heap accounting ---------------------------------------------------------
static size_t g_live, g_peak, g_largest;
static void* Take(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  g_live += malloc_usable_size(p);
  if (g_live > g_peak) g_peak = g_live;
  if (n > g_largest) g_largest = n;
  return p;
}
static void Give(void* p) { if (p) { g_live -= malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }

namespace {
class Sink : public OutputStringInterface {   // counts, keeps nothing
 public:
  uint64_t total = 0, reserved = 0; char last = 0; bool uniform = true; int expect = -1;
  OutputStringInterface& append(const char* p, size_t n) override {
    if (n) last = p[n - 1];
    total += n; return *this;
  }
  void clear() override { total = 0; }
  void push_back(char) override { total++; }
  void ReserveAdditionalBytes(size_t n) override { if (n > reserved) reserved = n; }
  size_t size() const override { return total; }
};
const char kDict[] = "0123456789ABCDEFGHIJ";

void Judge(const Bytes& dict, const Bytes& delta, const ref::Options& o, const std::string& what) {
  vp::State();
  ref::Result r = ref::Decode(dict, delta, o);
  bool want = r.verdict == ref::OK;
  for (int ch = 0; ch < 2; ch++) {
    VP_NOTE(what + vp::Str(" limits window %llu file %llu target %d chunk %d delta=", (unsigned long long)o.max_window, (unsigned long long)o.max_file, o.allow_target, ch) + vp::Hex(delta));
    Outcome x = ch ? RealUniform(dict, delta, 1, o) : RealWhole(dict, delta, o);
    vp::Trace();
    if (x.ok != want) vp::Fail(what + vp::Str(": %s although the model says '%s'; limits window %llu file %llu target references %s, %s, delta=", x.ok ? "accepted" : "rejected",
        want ? "acceptable" : r.reason, (unsigned long long)o.max_window, (unsigned long long)o.max_file, o.allow_target ? "allowed" : "disallowed", ch ? "byte by byte" : "whole") + vp::Hex(delta));
    if (x.out.size() > o.max_file) vp::Fail(what + ": output exceeds the total limit, delta=" + vp::Hex(delta));
    if (x.ok && x.out != r.out) vp::Fail(what + ": wrong output under limits, delta=" + vp::Hex(delta));
  }
  vp::Tally(want ? "within limits" : r.reason);
}
// A window of n target bytes: kind 0 add, 1 copy from the dictionary, 2 from earlier target.
ref::WinSpec Win(int kind, uint32_t n, uint32_t have, bool il) {
  ref::WinSpec w; w.target_len = n;
  if (kind == 2 && have == 0) { w.indicator = 2; w.src_len = 0; kind = 0; }
  if (kind == 1) { w.indicator = 1; w.src_len = 20; }
  if (kind == 2) { w.indicator = 2; w.src_len = have; }
  if (!n) return w;
  if (kind == 0) { w.inst = Bytes(1, 1); ref::PutVarint(&w.inst, n); Bytes lit; for (uint32_t i = 0; i < n; i++) lit.push_back((char)('a' + i % 26)); (il ? w.inst : w.data) += lit; }
  else { w.inst = Bytes(1, 19); ref::PutVarint(&w.inst, n); (il ? w.inst : w.addr).push_back(0); }
  return w;
}
Bytes RunWindow(uint64_t n, char c, bool il) {
  ref::WinSpec w; w.target_len = n; w.inst = Bytes(1, 0); ref::PutVarint(&w.inst, n); (il ? w.inst : w.data).push_back(c);
  return ref::MakeWindow(w);
}
}  // namespace

namespace vp {
void Setup() {
  static const uint32_t kS[] = {0, 1, 2, 3, 5, 7};
  AddSpace("limit-products", 6 * 6 * 3, [](uint64_t u) {
    uint32_t n[3] = {kS[u % 6], kS[u / 6 % 6], 0}; int f = (int)(u / 36) == 0 ? V0 : (u / 36) == 1 ? S_IL : S_STD_SUM;
    for (uint32_t n2 : kS) for (int k = 0; k < 27; k++) {
      n[2] = n2; int kind[3] = {k % 3, k / 3 % 3, k / 9};
      Bytes delta = ref::Header(Version(f)); uint32_t have = 0;
      for (int i = 0; i < 3; i++) { AddWindow(kDict, &delta, Win(kind[i], n[i], have, IsIL(f)), f); have += n[i]; }
      uint64_t maxn = std::max(n[0], std::max(n[1], n[2]));
      for (uint64_t w = 0; w <= maxn + 1; w++) for (uint64_t fl = 0; fl <= have + 1; fl++) {
        if (!vp::Thorough() && w > 0 && w + 2 < maxn && fl % 2) continue;
        for (int t = 0; t < 2; t++) {
          if (!vp::Thorough() && t && w < maxn && fl < have) continue;
          ref::Options o; o.max_window = w; o.max_file = fl; o.allow_target = !t;
          Judge(kDict, delta, o, vp::Str("windows %u,%u,%u kinds %d%d%d %s", n[0], n[1], n[2], kind[0], kind[1], kind[2], FmtName(f)));
        }
      }
    }
    vp::Sample(vp::Str("windows %u,%u,* x kinds x limits, ", n[0], n[1]) + FmtName(f));
  }, "all three-window files over sizes {0,1,2,3,5,7} x {add, dictionary copy, earlier-target copy} x window limit 0..max+1 x file limit 0..sum+1 x target references allowed/not x 3 formats, whole and byte by byte");

  AddSpace("larger-windows", 3 * 9 * 3, [](uint64_t u) {
    // larger windows and source segments of every relation to them
    static const uint32_t sz[] = {1, 63, 64, 65, 127, 128, 300, 5000, 70000};
    static Bytes dict; if (dict.empty()) for (int i = 0; i < 6000; i++) dict.push_back((char)(i * 7 + i / 251));
    int f = (u / 27) == 0 ? V0 : (u / 27) == 1 ? S_IL : S_IL_SUM; uint32_t a = sz[u % 9]; int ind = (int)(u / 9 % 3);
    for (uint32_t b : sz) for (uint32_t seg : {0u, 1u, 64u, 100u, 301u, 5999u}) {
      Bytes delta = ref::Header(Version(f));
      for (int k = 0; k < 2; k++) {
        uint32_t n = k ? b : a; ref::WinSpec w; w.target_len = n;
        w.indicator = ind == 2 && !k ? 0 : ind; if (w.indicator) w.src_len = w.indicator == 1 ? seg : std::min(seg, a);
        w.inst = Bytes(1, 0); ref::PutVarint(&w.inst, n); (IsIL(f) ? w.inst : w.data).push_back((char)('a' + k));
        AddWindow(dict, &delta, w, f);
      }
      uint64_t big = std::max(a, b), sum = (uint64_t)a + b;
      for (uint64_t w : {big - 1, big, big + 1}) for (uint64_t fl : {(uint64_t)a - 1, (uint64_t)a, sum - 1, sum, sum + 1}) {
        if ((w != big) && (fl != sum)) continue;
        ref::Options o; o.max_window = w; o.max_file = fl; o.allow_target = ind == 2 || (seg & 1);
        VP_NOTE(vp::Str("windows %u,%u segment %u indicator %d", a, b, seg, ind));
        Judge(dict, delta, o, vp::Str("windows %u,%u with segments of %u (indicator %d) %s", a, b, seg, ind, FmtName(f)));
      }
    }
  }, "two windows over sizes {1,63,64,65,127,128,300,5000,70000}^2 x 6 source segment lengths x no/dictionary/target source x both limits at -1, 0, +1 of the exact sizes x 3 formats");

  AddSpace("many-windows", 60, [](uint64_t u) {
    // k one-byte windows against limit l
    for (int f : {V0, S_IL}) {
      Bytes delta = ref::Header(Version(f));
      for (uint64_t i = 0; i < u; i++) delta += RunWindow(1 + i % 2, 'x', IsIL(f));
      for (uint64_t l = 0; l <= 100; l += (l + 4 > u + u / 2 && l < u + u / 2 + 4) ? 1 : 7) {
        ref::Options o; o.max_file = l; Judge("", delta, o, vp::Str("%llu small windows", (unsigned long long)u));
      }
      for (uint64_t l : {u + u / 2, u + u / 2 + 1, u + u / 2 - (u > 0)}) { ref::Options o; o.max_file = l; o.allow_target = false; Judge("", delta, o, "small windows"); }
    }
  }, "0..59 windows of one or two bytes x file limits around their sum");

  AddSpace("limit-values", 30, [](uint64_t u) {
    // extreme limit values behave like large ones; setters report what they do
    static const uint64_t lim[] = {0, 1, 4, 5, 6, 127, 128, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000004ull, 0x7fffffffffffffffull, 0x8000000000000005ull, 0xffffffffffffffffull};
    uint64_t L = lim[u % 15]; int which = (int)(u / 15);
    for (int f = 0; f < kFmts; f++) for (uint32_t a : kS) for (uint32_t b : kS) {
      Bytes delta = ref::Header(Version(f));
      AddWindow(kDict, &delta, Win(1, a, 0, IsIL(f)), f); AddWindow(kDict, &delta, Win(0, b, a, IsIL(f)), f);
      VCDiffStreamingDecoder dec;
      ref::Options o;
      if (which == 0) { if (!dec.SetMaximumTargetFileSize(L)) vp::Fail("file size limit refused"); o.max_file = L; }
      else {
        // window limits above 2^31-1 are refused and change nothing
        if (dec.SetMaximumTargetWindowSize(4) != true) vp::Fail("window size limit 4 refused");
        bool acc = dec.SetMaximumTargetWindowSize(L);
        if (acc != (L <= 0x7fffffff)) vp::Fail(vp::Str("window limit %llu %s", (unsigned long long)L, acc ? "accepted" : "refused"));
        o.max_window = acc ? L : 4;
      }
      ref::Result r = ref::Decode(kDict, delta, o);
      Bytes out; dec.StartDecoding(kDict, 20);
      bool ok = dec.DecodeChunk(delta.data(), delta.size(), &out);
      ok = dec.FinishDecoding() && ok;
      vp::Transition(4); vp::Trace(); vp::State();
      if (ok != (r.verdict == ref::OK)) vp::Fail(vp::Str("limit value %llu: windows %u,%u %s", (unsigned long long)L, a, b, ok ? "accepted" : "rejected"));
    }
  }, "15 limit values from 0 to 2^64-1 for each limit x two-window files");

  AddSpace("changed-limits", 5 * 5 * 8, [](uint64_t u) {
    // limits changed between windows apply to the windows that follow
    static const uint32_t s[] = {1, 2, 3, 5, 7};
    uint32_t n[3] = {s[u % 5], s[u / 5 % 5], 0};
    uint64_t f0 = 3 * (u / 25);
    for (uint32_t n2 : s) for (int f : {V0, S_IL}) for (uint64_t f1 = 0; f1 <= 20; f1 += 2) for (uint64_t w1 : {0ull, 2ull, 5ull, 100ull}) for (uint64_t f2 : {0ull, 5ull, 9ull, 12ull, 100ull}) {
      n[2] = n2;
      uint64_t fl[3] = {f0, f1, f2}, wl[3] = {100, w1, 6};
      VCDiffStreamingDecoder dec; Bytes out; uint64_t total = 0;
      dec.StartDecoding(kDict, 20);
      for (int i = 0; i < 3; i++) {
        dec.SetMaximumTargetFileSize(fl[i]); dec.SetMaximumTargetWindowSize(wl[i]);
        Bytes d = (i ? Bytes() : ref::Header(Version(f))) + ref::MakeWindow(Win(i % 2, n[i], (uint32_t)total, IsIL(f)));
        bool ok = dec.DecodeChunk(d.data(), d.size(), &out);
        bool want = n[i] <= wl[i] && total + n[i] <= fl[i];
        vp::Transition(3);
        VP_NOTE(vp::Str("window %d of %u bytes after %llu, limits %llu/%llu", i, n[i], (unsigned long long)total, (unsigned long long)wl[i], (unsigned long long)fl[i]));
        if (ok != want) vp::Fail(vp::Str("window %d of %u bytes after %llu decoded bytes, limits now window %llu file %llu: %s", i, n[i], (unsigned long long)total, (unsigned long long)wl[i], (unsigned long long)fl[i], ok ? "accepted" : "rejected"));
        if (!ok) break;
        total += n[i];
        if (out.size() != total) vp::Fail("wrong output size");
      }
      vp::Trace(); vp::State();
    }
  }, "three windows with both limits changed before each: sizes {1,2,3,5,7}^3 x file limits x window limits x 2 formats");

  AddSpace("target-permission", Corpus().size(), [](uint64_t u) {
    const Case& c = Corpus()[u];
    ref::Options o; o.allow_target = false;
    Judge(c.dict, c.delta, o, c.name);
    o.allow_target = true; Judge(c.dict, c.delta, o, c.name);
    ref::Result r = ref::Decode(c.dict, c.delta);
    uint64_t mx = 0; for (auto& w : r.windows) mx = std::max<uint64_t>(mx, w.target_len);
    for (int t = 0; t < 2; t++) for (uint64_t a = mx > 3 ? mx - 3 : 0; a <= mx + 1; a++) for (uint64_t b = r.out.size() > 3 ? r.out.size() - 3 : 0; b <= r.out.size() + 1; b++) {
      ref::Options p; p.max_window = a; p.max_file = b; p.allow_target = t; Judge(c.dict, c.delta, p, c.name);
    }
  }, "every corpus delta (incl. custom tables) with target references allowed/not and limits around its sizes");

  AddSpace("defaults", 14, [](uint64_t u) {
    // 64 MB per window and in total by default, exactly; raised limits are honoured
    const uint64_t M = 64u << 20;
    bool il = u % 2; uint64_t k = u / 2;
    struct T { std::vector<uint64_t> w; uint64_t mw, mf; bool ok; };
    static const std::vector<T> t = {
      {{M}, 0, 0, true}, {{M + 1}, 0, 0, false}, {{M / 2, M / 2}, 0, 0, true}, {{M / 2, M / 2 + 1}, 0, 0, false}, {{M, 0, 1}, 0, 0, false},
      {{M + 5, 7}, M + 5, M + 12, true}, {{M + 5, 8}, M + 5, M + 12, false},
    };
    const T& x = t[k];
    Bytes delta = ref::Header('S'); for (uint64_t n : x.w) delta += n ? RunWindow(n, 'x', il) : ref::MakeWindow(ref::WinSpec());
    VCDiffStreamingDecoder dec; Sink out;
    if (x.mw) dec.SetMaximumTargetWindowSize(x.mw);
    if (x.mf) dec.SetMaximumTargetFileSize(x.mf);
    dec.StartDecoding("", 0);
    bool ok = dec.DecodeChunkToInterface(delta.data(), delta.size(), &out);
    ok = dec.FinishDecoding() && ok;
    vp::Transition(3); vp::Trace(); vp::State();
    if (ok != x.ok) vp::Fail(vp::Str("default/raised limits, case %llu: %s", (unsigned long long)k, ok ? "accepted" : "rejected"));
    vp::Sample(vp::Str("64 MB boundary case %llu", (unsigned long long)k));
  }, "the 64 MB defaults and raised limits at their exact boundary, one and several windows");

  AddSpace("beyond-4GB", 6, [](uint64_t u) {
    // the running total does not wrap
    const uint64_t W = 256u << 20;
    static const uint64_t lim[] = {(16ull << 28) + 6, (16ull << 28) + 5, ~0ull};
    uint64_t L = lim[u % 3]; bool il = u / 3;
    if (!vp::Thorough() && il) return;
    VCDiffStreamingDecoder dec; Sink out; dec.SetAllowVcdTarget(false);
    dec.SetMaximumTargetWindowSize(W); dec.SetMaximumTargetFileSize(L);
    dec.StartDecoding("", 0);
    Bytes h = ref::Header('S'); bool ok = dec.DecodeChunkToInterface(h.data(), h.size(), &out);
    for (int i = 0; i < 17 && ok; i++) {
      Bytes d = RunWindow(i < 16 ? W : 6, 'x', il);
      ok = dec.DecodeChunkToInterface(d.data(), d.size(), &out);
      if (i < 16 && !ok) vp::Fail("window below the limit rejected");
    }
    vp::Transition(18); vp::Trace(); vp::State();
    bool want = L != (16ull << 28) + 5;
    if (ok != want) vp::Fail(vp::Str("16 windows of 256 MB and one of 6 bytes under file limit %llu: %s", (unsigned long long)L, ok ? "accepted" : "rejected"));
    if (out.total > L) vp::Fail("output exceeds the limit");
  }, "17 windows adding up to 2^32+6 bytes under file limits 2^32+5, 2^32+6, none");

  AddSpace("no-allocation", 8 * 5, [](uint64_t u) {
    // a rejected size must not be allocated, in the decoder or in the output
    int f = (int)(u % 5); int k = (int)(u / 5);
    static const uint64_t big[] = {(1u << 20) + 1, 2u << 20, (64u << 20) + 1, 512u << 20, 0x7ffffff0, 0x7fffffff};
    for (uint64_t n : big) for (int byfile = 0; byfile < 2; byfile++) for (int ch = 0; ch < 2; ch++) for (int allow = 0; allow < 2; allow++) {
      ref::WinSpec w; w.target_len = n; w.inst = Bytes(1, 0); ref::PutVarint(&w.inst, n); (IsIL(f) ? w.inst : w.data).push_back('r');
      if (HasSum(f)) { w.checksum = true; w.indicator = 4; w.checksum_value = 1; }
      if (k & 1) { w.indicator |= 1; w.src_len = 20; }
      Bytes delta = ref::Header(Version(f)); uint64_t pre = 0;
      if (k & 2) { AddWindow(kDict, &delta, Win(1, 40, 0, IsIL(f)), f); pre = 40; }
      delta += ref::MakeWindow(w);
      VCDiffStreamingDecoder dec; Sink out; dec.SetAllowVcdTarget(allow);
      if (byfile) { dec.SetMaximumTargetWindowSize(0x7fffffff); dec.SetMaximumTargetFileSize(pre + n - 1); }
      else { dec.SetMaximumTargetWindowSize(n - 1); dec.SetMaximumTargetFileSize(~0ull); }
      dec.StartDecoding(kDict, 20);
      bool ok = true;
      size_t before = g_live; g_peak = g_live; g_largest = 0;
      if (ch) for (size_t i = 0; i < delta.size() && ok; i++) { ok = dec.DecodeChunkToInterface(delta.data() + i, 1, &out); vp::Transition(); }
      else { ok = dec.DecodeChunkToInterface(delta.data(), delta.size(), &out); vp::Transition(); }
      if (ok) vp::Fail(vp::Str("window of %llu bytes accepted beyond its limit", (unsigned long long)n));
      size_t used = g_peak - before;
      if (used > (600u << 10)) vp::Fail(vp::Str("%zu bytes of heap were used for a window of %llu bytes that is rejected", used, (unsigned long long)n));
      if (out.reserved > (600u << 10)) vp::Fail(vp::Str("the output was asked to hold %llu bytes for a rejected window", (unsigned long long)out.reserved));
      vp::Trace(); vp::State();
    }
  }, "6 sizes (1 MB..2^31-1) rejected by either limit x 5 formats x first/second window x source segment x chunking: heap and output reservations stay below 600 KB");

  AddSpace("bounded-memory", 36, [](uint64_t u) {
    // without target references, memory does not grow with the target delivered
    int f = (int)(u % 3) == 0 ? V0 : (u % 3) == 1 ? S_IL : S_IL_SUM; int kind = (int)(u / 3) % 4; int windows = (int)(u / 12);
    uint32_t n = kind == 0 ? 10000 : kind == 1 ? 1 : kind == 2 ? 200000 : 3000;
    Bytes dict(200000, 'd');
    auto peak = [&](int count, int chunk) {
      VCDiffStreamingDecoder dec; Sink out; dec.SetAllowVcdTarget(false); dec.SetMaximumTargetFileSize(~0ull); dec.SetMaximumTargetWindowSize(1 << 20);
      ref::WinSpec w; w.target_len = n; w.inst = Bytes(1, 19); ref::PutVarint(&w.inst, n); w.indicator = 1; w.src_len = n; (IsIL(f) ? w.inst : w.addr).push_back(0);
      if (HasSum(f)) { w.checksum = true; w.indicator |= 4; w.checksum_value = ref::Adler32(dict.data(), n); }
      Bytes win = ref::MakeWindow(w), delta = ref::Header(Version(f)); delta.reserve(win.size() * count + 8);
      for (int i = 0; i < count; i++) { if (windows == 1 && i % 3 == 0) delta += ref::MakeWindow(ref::WinSpec()); delta += win; }
      dec.StartDecoding(dict.data(), dict.size());
      size_t before = g_live; g_peak = g_live;
      bool ok = true;
      for (size_t i = 0; i < delta.size() && ok; i += chunk) { ok = dec.DecodeChunkToInterface(delta.data() + i, std::min<size_t>(chunk, delta.size() - i), &out); vp::Transition(); }
      if (!ok || !dec.FinishDecoding() || out.total != (uint64_t)n * count) vp::Fail("many windows rejected");
      vp::Trace(); vp::State();
      size_t p = g_peak - before;
      return p > 3 * delta.size() ? p - 3 * delta.size() : 0;    // the delta itself may be buffered
    };
    for (int chunk : {1 << 30, 1000, 7}) {
      if (windows == 2 && chunk == 7) chunk = 1;
      size_t few = peak(10, chunk), many = peak(n > 100000 ? 300 : 1500, chunk);
      VP_NOTE(vp::Str("peak heap %zu with 10 windows, %zu with many", few, many));
      if (many > few * 2 + 8 * n + (64u << 10)) vp::Fail(vp::Str("peak heap grows with the target delivered: %zu bytes after 10 windows of %u, %zu after many (chunks of %d)", few, n, many, chunk));
    }
  }, "10 versus 1500 (300) windows of 1..200000 bytes, three chunkings, peak heap compared");
}
}  // namespace vp
