// C23: encoding and decoding effort grows at most linearly with the data.
// The code under test is compiled with edge instrumentation; the effort of a call is
// the number of control-flow edges executed plus the bytes moved, filled or compared
// by memory functions (in units of 16).  Deterministic: no clock is involved.
#include "enc.h"
#include <stdlib.h>
#include <string.h>
#include <map>
#include "google/output_string.h"
#include "google/vcdecoder.h"
using namespace enc;

static uint64_t g_cost;
extern "C" {
void __sanitizer_cov_trace_pc() { g_cost++; }
void* __real_memcpy(void*, const void*, size_t); void* __wrap_memcpy(void* d, const void* s, size_t n) { g_cost += 1 + n / 16; return __real_memcpy(d, s, n); }
void* __real_memmove(void*, const void*, size_t); void* __wrap_memmove(void* d, const void* s, size_t n) { g_cost += d == s ? 1 : 1 + n / 16; /* in place: nothing to move */ return __real_memmove(d, s, n); }
void* __real_memset(void*, int, size_t); void* __wrap_memset(void* d, int c, size_t n) { g_cost += 1 + n / 16; return __real_memset(d, c, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  size_t i = 0; while (i < n && ((const char*)a)[i] == ((const char*)b)[i]) i++;
  g_cost += 1 + i / 16;
  return __real_memcmp(a, b, n);
}
}

namespace {
// Counts, without keeping (the cost of the caller's container is the caller's).
class Sink : public open_vcdiff::OutputStringInterface {
 public:
  uint64_t total = 0;
  open_vcdiff::OutputStringInterface& append(const char*, size_t n) override { total += n; return *this; }
  void clear() override { total = 0; }
  void push_back(char) override { total++; }
  void ReserveAdditionalBytes(size_t) override {}
  size_t size() const override { return total; }
};
// The effort at 1x, 4x and 16x the size; from one size to four times the size it may grow
// four times, with slack for rounding, caches and logarithmic table sizes.
void Linear(const std::string& what, size_t base, const std::function<uint64_t(size_t)>& cost, const std::function<double(size_t)>& volume) {
  double per[6]; uint64_t c[6]; int k = 0;
  auto measure = [&]() {
    size_t n = base << (2 * k);
    c[k] = cost(n);
    per[k] = c[k] / (volume(n) + 1);
    vp::State(); vp::Trace();
    VP_NOTE(what + vp::Str(" n=%zu cost %llu per unit %.3f", n, (unsigned long long)c[k], per[k]));
    k++;
  };
  while (k < 3) measure();
  vp::Tally(per[2] < 2 ? "under 2 steps per byte" : per[2] < 20 ? "2..20 steps per byte" : per[2] < 200 ? "20..200 steps per byte" : "over 200 steps per byte");
  // whatever the constant, effort per byte must not keep growing
  if (!(per[2] > 2.2 * per[0] + 1 || (per[2] > 1.8 * per[1] + 1 && per[1] > 1.8 * per[0] + 1))) return;
  // effort that approaches a constant (a search limit being reached) flattens at larger sizes
  while (k < 6 && per[k - 1] > 1.5 * per[k - 2] && c[k - 1] < 400000000ull) measure();
  if (per[k - 1] <= 1.5 * per[k - 2]) { vp::Tally("flattens at larger sizes"); return; }
  std::string v; for (int i = 0; i < k; i++) v += vp::Str("%s %.2f at %zu", i ? "," : "", per[i], base << (2 * i));
  vp::Fail(what + ": effort per byte grows with size:" + v);
}
struct Pair { Bytes dict, target; };
struct Family { const char* name; std::function<Pair(size_t)> make; };
Bytes Repeat(const Bytes& s, size_t n) { Bytes r; r.reserve(n + s.size()); while (r.size() < n) r += s; r.resize(n); return r; }
Bytes A, B;
Bytes SameHash(size_t n) {   // many distinct blocks of 16 with the same rolling hash and first byte
  static std::vector<Bytes> pool;
  if (pool.empty()) {
    // h is linear: changing byte i by +1 and byte i+1 by -257 mod 2^23 ... search pairs instead
    std::map<uint32_t, std::vector<uint32_t>> seen; size_t best = 0; uint32_t bh = 0;
    for (uint32_t s = 1; s < 600000; s++) {
      Bytes x = Noise(16, s); x[0] = 'k';
      uint32_t h = BlockHash(x) & 1023;     // collide in a small table at least
      auto& v = seen[h]; v.push_back(s);
      if (v.size() > best) { best = v.size(); bh = h; }
    }
    for (uint32_t s : seen[bh]) { Bytes x = Noise(16, s); x[0] = 'k'; pool.push_back(x); }
  }
  Bytes r; for (size_t i = 0; r.size() < n; i++) r += pool[i % pool.size()];
  return r;
}
std::vector<Family>& Families() {
  static std::vector<Family> f;
  if (!f.empty()) return f;
  Colliding(&A, &B);
  f.push_back({"unrelated noise", [](size_t n) { return Pair{Noise(n, 1), Noise(n, 2)}; }});
  f.push_back({"identical", [](size_t n) { return Pair{Noise(n, 1), Noise(n, 1)}; }});
  f.push_back({"constant dictionary and target", [](size_t n) { return Pair{Bytes(n, ' '), Bytes(n, ' ')}; }});
  f.push_back({"constant with interruptions of 33", [](size_t n) { return Pair{Bytes(n, ' '), Repeat(Bytes(33, ' ') + "x", n)}; }});
  f.push_back({"constant with interruptions of 31", [](size_t n) { return Pair{Bytes(n, ' '), Repeat(Bytes(31, ' ') + "x", n)}; }});
  f.push_back({"constant with interruptions of 17", [](size_t n) { return Pair{Bytes(n, ' '), Repeat(Bytes(17, ' ') + "x", n)}; }});
  f.push_back({"interrupted dictionary", [](size_t n) { return Pair{Repeat(Bytes(47, ' ') + "x", n), Repeat(Bytes(45, ' ') + "y", n)}; }});
  f.push_back({"interrupted both", [](size_t n) { return Pair{Repeat(Bytes(16, 'a') + Bytes(15, 'b') + "x", n), Repeat(Bytes(16, 'a') + "y", n)}; }});
  f.push_back({"period 2", [](size_t n) { return Pair{Repeat("ab", n), Repeat(Repeat("ab", 30) + "!", n)}; }});
  f.push_back({"colliding blocks", [](size_t n) { return Pair{Repeat(B, n), Repeat(A, n)}; }});
  f.push_back({"colliding blocks then the match", [](size_t n) { return Pair{Repeat(B, n) + A, Repeat(A + "z", n)}; }});
  f.push_back({"alternating colliding blocks", [](size_t n) { return Pair{Repeat(A + B, n), Repeat(A + A + "z", n)}; }});
  f.push_back({"many distinct colliding blocks", [](size_t n) { return Pair{SameHash(n), Repeat(SameHash(16).substr(0, 16) + "z", n)}; }});
  f.push_back({"same short match everywhere", [](size_t n) { Bytes d; Bytes noise = Noise(n, 5); for (size_t i = 0; d.size() < n; i++) d += A + noise.substr((i * 16) % (n - 16), 16); return Pair{d, Repeat(A + "q", n)}; }});
  f.push_back({"same 40 bytes everywhere", [](size_t n) { Bytes d, m = Noise(48, 6), noise = Noise(n, 7); for (size_t i = 0; d.size() < n; i++) d += m + noise.substr((i * 16) % (n - 16), 16); return Pair{d, Repeat(m.substr(3, 40) + "q", n)}; }});
  f.push_back({"long shared prefix everywhere", [](size_t n) { Bytes m = Noise(n / 8, 8); Bytes d; for (int i = 0; i < 8; i++) d += m + Bytes(1, (char)('0' + i)); return Pair{d, m + "#" + m + "$" + m}; }});
  f.push_back({"empty dictionary, repetitive target", [](size_t n) { return Pair{Bytes(), Repeat(Noise(100, 9), n)}; }});
  f.push_back({"empty dictionary, constant target", [](size_t n) { return Pair{Bytes(), Bytes(n, 'c')}; }});
  f.push_back({"small dictionary, target of almost repetitions", [](size_t n) { Bytes t; Bytes m = Noise(40, 10); for (size_t i = 0; t.size() < n; i++) { Bytes x = m; x[i % 40] ^= 1 + (char)(i / 40); t += x; } return Pair{m, t}; }});
  f.push_back({"large dictionary, small target", [](size_t n) { return Pair{Noise(n, 1), Noise(64, 3)}; }});
  f.push_back({"small dictionary, large target", [](size_t n) { return Pair{Noise(64, 1), Noise(n, 3)}; }});
  return f;
}
uint64_t EncodeCost(const Pair& p, int combo, size_t chunk, bool json, uint64_t* delta_size) {
  Sink s; Bytes t = p.target, d = p.dict;
  if (json) { for (char& c : t) c &= 0x7f; for (char& c : d) c &= 0x7f; }
  g_cost = 0;
  {
    open_vcdiff::HashedDictionary h(d.data(), d.size());
    VP_CHECK(h.Init(), "Init");
    open_vcdiff::VCDiffStreamingEncoder e(&h, Flags(combo) | (json ? 4 : 0), TargetMatching(combo));
    VP_CHECK(e.StartEncodingToInterface(&s), "start");
    for (size_t at = 0; at < t.size(); at += chunk) VP_CHECK(e.EncodeChunkToInterface(t.data() + at, std::min(chunk, t.size() - at), &s), "chunk");
    VP_CHECK(e.FinishEncodingToInterface(&s), "finish");
  }
  vp::Transition();
  if (delta_size) *delta_size = s.total;
  return g_cost;
}
uint64_t DecodeCost(const Bytes& dict, const Bytes& delta, size_t chunk, bool allow, uint64_t* out) {
  Sink s; g_cost = 0;
  {
    open_vcdiff::VCDiffStreamingDecoder d;
    d.SetAllowVcdTarget(allow);
    d.StartDecoding(dict.data(), dict.size());
    for (size_t at = 0; at < delta.size(); at += chunk) VP_CHECK(d.DecodeChunkToInterface(delta.data() + at, std::min(chunk, delta.size() - at), &s), "decode");
    VP_CHECK(d.FinishDecoding(), "finish");
  }
  vp::Transition();
  if (out) *out = s.total;
  return g_cost;
}
// deltas of a size controlled by n
struct DFamily { const char* name; std::function<Bytes(size_t n, int fmt)> make; };
void Win(Bytes* d, int f, uint64_t target_len, const Bytes& inst, const Bytes& data, const Bytes& addr, uint8_t ind = 1, uint64_t src = 64) {
  ref::WinSpec w; w.indicator = ind; w.src_len = src; w.target_len = (uint32_t)target_len; w.inst = inst; w.data = data; w.addr = addr;
  *d += ref::MakeWindow(w); (void)f;
}
std::vector<DFamily>& DFamilies() {
  static std::vector<DFamily> f;
  if (!f.empty()) return f;
  auto var = [](uint64_t v) { Bytes b; ref::PutVarint(&b, v); return b; };
  f.push_back({"one big ADD", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)), x = Noise(n, 3); bool il = gen::IsIL(fm); Win(&d, fm, n, Bytes(1, 1) + var(n) + (il ? x : Bytes()), il ? Bytes() : x, Bytes()); return d; }});
  f.push_back({"one big RUN", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)); bool il = gen::IsIL(fm); Win(&d, fm, n, Bytes(1, 0) + var(n) + (il ? "r" : ""), il ? "" : "r", Bytes()); return d; }});
  f.push_back({"one overlapping COPY", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)); bool il = gen::IsIL(fm); Bytes a = var(64); Win(&d, fm, n + 1, Bytes(1, 2) + (il ? "x" : "") + Bytes(1, 19) + var(n) + (il ? a : Bytes()), il ? "" : "x", il ? Bytes() : a); return d; }});
  f.push_back({"many ADD 1", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)), i, x; bool il = gen::IsIL(fm); for (size_t k = 0; k < n; k++) { i.push_back(2); (il ? i : x).push_back('a'); } Win(&d, fm, n, i, x, Bytes()); return d; }});
  f.push_back({"many COPY 4", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)), i, a; bool il = gen::IsIL(fm); for (size_t k = 0; k < n / 4; k++) { i.push_back(20); (il ? i : a) += var(k % 60); } Win(&d, fm, n / 4 * 4, i, Bytes(), a); return d; }});
  f.push_back({"many COPY of the byte before", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)), i(1, 2), x, a; bool il = gen::IsIL(fm); (il ? i : x).push_back('q'); for (size_t k = 0; k < n / 4; k++) { i.push_back(36); (il ? i : a) += var(1); } Win(&d, fm, n / 4 * 4 + 1, i, x, a); return d; }});
  f.push_back({"many small windows", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)); bool il = gen::IsIL(fm); for (size_t k = 0; k < n / 16; k++) Win(&d, fm, 8, Bytes(1, 9) + (il ? "abcdefgh" : ""), il ? "" : "abcdefgh", Bytes()); return d; }});
  f.push_back({"many windows copying from target", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)); bool il = gen::IsIL(fm); Win(&d, fm, 8, Bytes(1, 9) + (il ? "abcdefgh" : ""), il ? "" : "abcdefgh", Bytes()); for (size_t k = 0; k < n / 16; k++) { Bytes a = var(0); Win(&d, fm, 8, Bytes(1, 24) + (il ? a : Bytes()), Bytes(), il ? Bytes() : a, 2, 8 + 4 * (k % 2)); if (k == 0) { } } return d; }});
  f.push_back({"many empty windows", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)); for (size_t k = 0; k < n / 8; k++) Win(&d, fm, 0, Bytes(), Bytes(), Bytes()); Win(&d, fm, 1, gen::IsIL(fm) ? Bytes("\x02z") : Bytes("\x02"), gen::IsIL(fm) ? "" : "z", Bytes()); return d; }});
  f.push_back({"many small windows over the whole dictionary", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)); bool il = gen::IsIL(fm); for (size_t k = 0; k < n / 16; k++) { Bytes a = var(k * 4099 % n); Win(&d, fm, 4, Bytes(1, 20) + (il ? a : Bytes()), Bytes(), il ? Bytes() : a, 1, n); } return d; }});
  auto one = [=](int fm, uint64_t n) { bool il = gen::IsIL(fm); Bytes d; Win(&d, fm, n, Bytes(1, 0) + var(n) + (il ? "r" : ""), il ? "" : "r", Bytes()); return d; };
  f.push_back({"one big window, then many small windows", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)) + one(fm, n); bool il = gen::IsIL(fm); for (size_t k = 0; k < n / 16; k++) Win(&d, fm, 8, Bytes(1, 9) + (il ? "abcdefgh" : ""), il ? "" : "abcdefgh", Bytes()); return d; }});
  f.push_back({"windows of growing size", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)); for (size_t k = 1; k * k / 2 < n; k++) d += one(fm, k); return d; }});
  f.push_back({"big window, then many windows copying from target", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)) + one(fm, n); bool il = gen::IsIL(fm); for (size_t k = 0; k < n / 16; k++) { Bytes a = var(k % 4); Win(&d, fm, 8, Bytes(1, 24) + (il ? a : Bytes()), Bytes(), il ? Bytes() : a, 2, n); } return d; }});
  f.push_back({"many windows with a checksum", [=](size_t n, int fm) { Bytes d = ref::Header(gen::Version(fm)) + one(fm, n); for (size_t k = 0; k < n / 16; k++) { if (gen::Version(fm) != 'S') { d += one(fm, 8); continue; } ref::WinSpec w; w.indicator = 5; w.src_len = 64; w.target_len = 2; bool il = gen::IsIL(fm); w.inst = il ? Bytes("\x03" "ab") : Bytes(1, 3); w.data = il ? "" : "ab"; w.checksum = true; uint32_t a = 'a' + 'b', b = 2 * 'a' + 'b'; w.checksum_value = (b << 16) | a; d += ref::MakeWindow(w); } return d; }});
  return f;
}
}  // namespace
namespace vp {
void Setup() {
  Families(); DFamilies();
  size_t F = Families().size(), D = DFamilies().size();
  AddSpace("encode", F * 8, [](uint64_t u) {
    const Family& f = Families()[u / 8]; int c = (int)(u % 8);
    size_t base = Thorough() ? 32768 : 8192;
    for (size_t chunk : {(size_t)1 << 30, (size_t)4096, (size_t)100}) {
      std::map<size_t, Pair> in;
      Linear(std::string("encoding, ") + f.name + ", " + ComboName(c) + (chunk < 5000 ? Str(", chunks of %zu", chunk) : ""), base,
             [&](size_t n) { Pair p = f.make(n); return EncodeCost(p, c, chunk, false, NULL); },
             [&](size_t n) { Pair p = f.make(n); return (double)p.dict.size() + p.target.size(); });
    }
    Sample(std::string(f.name) + " at 1x, 4x, 16x");
  }, "21 adversarial families of dictionary and target (periodic, colliding, crowded, self-similar) x 8 option combinations x whole and in chunks of 4096 and 100, sizes 8 KB, 32 KB, 128 KB (thorough 32 KB .. 512 KB)");
  AddSpace("encode-json", F, [](uint64_t u) {
    const Family& f = Families()[u];
    for (int tm = 0; tm < 2; tm++) for (size_t chunk : {(size_t)1 << 30, (size_t)50})
      Linear(std::string("JSON encoding, ") + f.name + (chunk < 100 ? ", chunks of 50" : ""), 65536,
             [&](size_t n) { Pair p = f.make(n); return EncodeCost(p, tm * 4, chunk, true, NULL); },
             [&](size_t n) { Pair p = f.make(n); return (double)p.dict.size() + p.target.size(); });
  }, "the same families, JSON output, whole and in chunks of 50, sizes 64 KB, 256 KB, 1 MB");
  AddSpace("decode", D * gen::kFmts, [](uint64_t u) {
    const DFamily& f = DFamilies()[u / gen::kFmts]; int fm = (int)(u % gen::kFmts);
    if (gen::HasSum(fm)) return;
    Bytes dict = Noise(64, 77); size_t base = Thorough() ? 65536 : 16384;
    for (int allow = 0; allow < 2; allow++) {
      if (!allow && strstr(f.name, "from target")) continue;
      for (size_t chunk : {(size_t)1 << 30, (size_t)7, (size_t)1000}) {
        std::map<size_t, double> vol;
        Linear(std::string("decoding, ") + f.name + ", " + gen::FmtName(fm) + Str(", chunks of %zu, target references %d", chunk, allow), base,
               [&](size_t n) { Bytes d = f.make(n, fm); uint64_t out; uint64_t c = DecodeCost(strstr(f.name, "whole dictionary") ? Noise(n + 8, 78) : dict, d, chunk, allow, &out); vol[n] = (double)d.size() + out + 64; return c; },
               [&](size_t n) { return vol[n]; });
      }
    }
    Sample(std::string(f.name) + " at 1x, 4x, 16x");
  }, "14 families of delta (large and tiny instructions, overlap, many windows, over a large dictionary, small after large) x formats x whole / chunks x target references, sizes 16 KB .. 256 KB (thorough 64 KB .. 1 MB)");
  AddSpace("decode-encoded", F * 4, [](uint64_t u) {
    const Family& f = Families()[u / 4]; int c = (int)(u % 4) * 2 + 1;   // interleaved
    std::map<size_t, double> vol;
    Linear(std::string("decoding what the encoder produced, ") + f.name + ", " + ComboName(c), 8192,
           [&](size_t n) {
             Pair p = f.make(n); Dict d(p.dict); Bytes delta; VP_CHECK(Encode(d.h, p.target, {}, Flags(c), TargetMatching(c), &delta), "encode");
             vol[n] = (double)delta.size() + p.target.size() + 64;
             return DecodeCost(p.dict, delta, u % 2 ? 100 : (size_t)1 << 30, true, NULL);
           }, [&](size_t n) { return vol[n]; });
  }, "the encoder's output for the same families, decoded whole or in chunks of 100");
}
}  // namespace vp
