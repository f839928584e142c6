#include "enc.h"
#include "json.h"
#include <string.h>
#include <map>
#include <memory>
#include <sys/mman.h>
#include "google/vcdecoder.h"

namespace enc {
using open_vcdiff::HashedDictionary;
std::string ComboName(int c) {
  std::string s = c & 1 ? "interleaved" : "standard-layout";
  if (c & 2) s += "+checksum";
  s += c & 4 ? "+target-matching" : "";
  return s;
}
bool g_ascii = false;
static Bytes Mask(Bytes b) { if (g_ascii) for (char& c : b) c &= 0x7f; return b; }
static std::string Cuts(const std::vector<size_t>& c) { std::string s; for (size_t x : c) s += std::to_string(x) + ","; return s; }
std::string Input::Describe() const {
  return ComboName(combo) + " cuts=[" + Cuts(*cuts) + "] dict(" + std::to_string(dict->size()) + ")=" + vp::Hex(*dict, 200) +
         " target(" + std::to_string(target->size()) + ")=" + vp::Hex(*target, 200);
}
Dict::Dict(const Bytes& b) : bytes(Mask(b)) {
  vp::Exact e(bytes);
  h = new HashedDictionary(e.p, e.n);
  if (!h->Init()) vp::Fail("HashedDictionary::Init failed for a dictionary of " + std::to_string(b.size()) + " bytes");
  if (!e.Same(bytes)) vp::Fail("the encoder modified the caller's dictionary");
  if (e.n) memset(e.raw, 0xA5, e.n);
}
bool Encode(const HashedDictionary* h, const Bytes& target, const std::vector<size_t>& cuts, int flags, bool tm,
            Bytes* out, std::vector<size_t>* sizes) {
  open_vcdiff::VCDiffStreamingEncoder e(h, flags, tm);
  uint64_t calls = 2;
  bool ok = e.StartEncoding(out);
  if (sizes) sizes->push_back(out->size());
  size_t pos = 0;
  for (size_t k = 0; ok && k <= cuts.size(); k++) {
    size_t end = k < cuts.size() ? std::min(cuts[k], target.size()) : target.size();
    vp::Exact c(target.data() + pos, end - pos);
    ok = e.EncodeChunk(c.p, c.n, out);
    calls++;
    if (sizes) sizes->push_back(out->size());
    if (memcmp(c.raw, target.data() + pos, c.n)) vp::Fail("the encoder modified the caller's target chunk");
    if (c.n) memset(c.raw, 0x5a, c.n);
    pos = end;
  }
  if (ok) ok = e.FinishEncoding(out);
  if (sizes) sizes->push_back(out->size());
  vp::Transition(calls);
  return ok;
}
Bytes Noise(size_t n, uint32_t seed) {
  Bytes b; b.reserve(n);
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + 0x123456789ull;
  for (size_t i = 0; i < n; i++) {
    x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
    b.push_back((char)((x * 0x2545F4914F6CDD1Dull) >> 56));
  }
  return b;
}
uint32_t BlockHash(const Bytes& b) {
  uint64_t h = 0;
  for (unsigned char c : b) h = (h * 257 + c) % (1u << 23);
  return (uint32_t)h;
}
void Colliding(Bytes* a, Bytes* b) {
  std::map<uint32_t, uint32_t> seen;
  for (uint32_t s = 1;; s++) {
    Bytes x = Noise(16, s);
    x[0] = 'k';                       // same first byte: the quick test cannot tell them apart
    uint32_t h = BlockHash(x);
    auto it = seen.find(h);
    if (it != seen.end()) { *a = Noise(16, it->second); (*a)[0] = 'k'; *b = x; return; }
    seen[h] = s;
  }
}
namespace {
typedef std::vector<size_t> C;
void Run(const Visit& v, const Dict& d, const Bytes& target, const C& cuts, int stride, uint64_t salt) {
  const Bytes t = Mask(target);
  vp::State();
  for (int c = (int)(salt % stride); c < kCombos; c += stride) {
    Input in{&d.bytes, d.h, &t, &cuts, c};
    VP_NOTE(in.Describe());
    v(in);
    vp::Trace();
  }
}
// Rotates through all 8 combinations over successive cases even when stride is 8.
struct Rot { uint64_t k = 0; uint64_t Next() { return k++; } };
}  // namespace

void AddFamilies(const Visit& v, int stride) {
  static const C none;
  bool T = vp::Thorough();

  static std::vector<Bytes> tok;
  if (tok.empty()) {
    Bytes a, b; Colliding(&a, &b);
    tok = {a, b, Noise(16, 77), Bytes(16, 'z'), "q"};
  }
  static std::vector<std::vector<int>> dseq;
  dseq.clear();
  int dmax = T ? 5 : 3;
  for (int len = 0; len <= dmax; len++) {
    uint64_t n = 1; for (int i = 0; i < len; i++) n *= tok.size();
    for (uint64_t k = 0; k < n; k++) { std::vector<int> s; uint64_t x = k; for (int i = 0; i < len; i++) { s.push_back(x % tok.size()); x /= tok.size(); } dseq.push_back(s); }
  }
  vp::AddSpace("tokens", dseq.size(), [=](uint64_t u) {
    Bytes d; for (int i : dseq[u]) d += tok[i];
    Dict dict(d); Rot rot; rot.k = u;
    int tmax = 5;
    for (int len = 0; len <= tmax; len++) {
      uint64_t n = 1; for (int i = 0; i < len; i++) n *= tok.size();
      for (uint64_t k = 0; k < n; k++) {
        Bytes t; uint64_t x = k; for (int i = 0; i < len; i++) { t += tok[x % tok.size()]; x /= tok.size(); }
        Run(v, dict, t, none, stride, rot.Next());
      }
    }
    vp::Sample("dictionary of " + std::to_string(dseq[u].size()) + " tokens x all targets of up to " + std::to_string(tmax) + " tokens");
  }, "all dictionaries of <=3 (thorough 5) and targets of <=5 tokens from {block, hash-colliding block, block, constant block, single byte}");

  vp::AddSpace("alignment", 56, [=](uint64_t u) {
    // dictionary of every length, every substring of it, at every target offset
    Rot rot; rot.k = u;
    for (size_t L = u; L <= 100; L += 56) {
      Bytes d = Noise(L, 5); Dict dict(d); Bytes pre = Noise(40, 6), post = Noise(40, 7);
      for (size_t i = 0; i <= L; i += (L > 60 ? 3 : 1))
        for (size_t n : {0, 1, 15, 16, 17, 30, 31, 32, 33, 34, 47, 48, 49, 63, 64, 100}) {
          if (i + n > L) continue;
          for (size_t p : {0, 1, 2, 15, 16, 17, 31}) for (size_t q : {0, 1, 15, 16, 17})
            Run(v, dict, pre.substr(0, p) + d.substr(i, n) + post.substr(0, q), none, stride, rot.Next());
        }
    }
    vp::Sample("dictionary length " + std::to_string(u) + ": every substring offset x length x prefix x suffix");
  }, "dictionaries of every length 0..100, substrings at every offset (every 3rd over 60 bytes) x 16 lengths x 7 prefixes x 5 suffixes");

  vp::AddSpace("chunking", 48, [=](uint64_t u) {
    // two cuts anywhere (incl. empty chunks), dictionary related to the target
    Rot rot; rot.k = u;
    Bytes base = Noise(64, 9);
    Bytes targets[] = {base + base, base.substr(0, 40) + "x" + base.substr(5, 50), Bytes(90, 'r'), Noise(20, 3) + Bytes(33, 'z') + Noise(40, 9)};
    int ti = (int)(u % 4), part = (int)(u / 4);
    Dict dict(ti == 2 ? Bytes(50, 'r') : base);
    const Bytes& t = targets[ti];
    for (size_t i = part; i <= t.size(); i += 12)
      for (size_t j = i; j <= t.size(); j += T ? 1 : 2) { C c{i, j}; Run(v, dict, t, c, stride, rot.Next()); }
    if (part == 0) for (size_t n = 1; n <= t.size(); n++) { C c; for (size_t k = n; k < t.size(); k += n) c.push_back(k); Run(v, dict, t, c, stride, rot.Next()); }
    vp::Sample("target " + std::to_string(ti) + ": all pairs of cuts");
  }, "4 targets related to their dictionary x all pairs of cuts (step 2 in the second; thorough 1) x all uniform chunk sizes");

  vp::AddSpace("periodic", 80, [=](uint64_t u) {
    Rot rot; rot.k = u;
    int p = 1 + (int)(u % 5); size_t step = u / 5;   // 16 slices
    Bytes per = Bytes("\x80\xff\x00""ab", 5).substr(0, p);
    Bytes longp; while (longp.size() < 400) longp += per;
    for (size_t L = step; L <= 130; L += 16) {
      Dict dict(longp.substr(0, L));
      for (size_t n = 0; n <= 140; n += T ? 1 : 3)
        for (size_t off = 0; off < (size_t)p; off++) {
          Run(v, dict, longp.substr(off, n), none, stride, rot.Next());
          Run(v, dict, longp.substr(off, n) + "!" + longp.substr(0, 40 + n % 7), none, stride, rot.Next());
        }
    }
    vp::Sample("period " + std::to_string(p));
  }, "dictionaries and targets of period 1..5, lengths 0..130 x 0..140 (step 3), all phases, with an interrupted repetition");

  vp::AddSpace("short-targets", 64, [=](uint64_t u) {
    static const Bytes ds[] = {Bytes(), Bytes("a"), Bytes("0123456789abcdef"), Bytes(40, '\0')};
    Rot rot; rot.k = u;
    for (auto& d : ds) {
      Dict dict(d);
      for (int a = (int)(u * 4); a < (int)(u * 4) + 4; a++) {
        Run(v, dict, Bytes(1, (char)a), none, stride, rot.Next());
        for (int b = 0; b < 256; b++) { Bytes t(1, (char)a); t.push_back((char)b); Run(v, dict, t, none, stride, rot.Next()); }
        for (int n = 15; n <= 66; n++) Run(v, dict, Bytes(n, (char)a), none, stride, rot.Next());
      }
    }
    vp::Sample("all one- and two-byte targets starting with byte " + std::to_string(u * 4));
  }, "every 1- and 2-byte target and every constant target of 15..66 bytes of every byte value x 4 dictionaries");

  vp::AddSpace("sizes", 9 * 5, [=](uint64_t u) {
    static const size_t B[] = {127, 128, 255, 256, 16383, 16384, 65536, 1 << 20, 2097152};
    size_t b = B[u / 5]; int kind = (int)(u % 5);
    Rot rot; rot.k = u * 3;
    if (b > 100000 && !T && kind >= 3) return;
    for (int d = -2; d <= 3; d++) {
      if (b > 100000 && (d < -1 || d > 1)) continue;
      size_t n = b + d;
      Bytes noise = Noise(n, 11), tail = Noise(60, 12);
      // literals of n; copy of n; match at dictionary offset n; target match at distance n; mixture
      if (kind == 0) { Dict dict(tail); Run(v, dict, noise, none, stride, rot.Next()); Run(v, dict, noise + tail + "x", none, stride, rot.Next()); if (n > 80) Run(v, dict, noise + noise.substr(n - 70) + tail.substr(3, 40), none, stride, 4 + rot.Next() % 4); }
      if (kind == 1) { Dict dict(noise); Run(v, dict, noise, none, stride, rot.Next()); Run(v, dict, tail + noise, none, stride, rot.Next()); }
      if (kind == 2) { Dict dict(noise + tail); Run(v, dict, tail, none, stride, rot.Next()); Run(v, dict, tail + "?" + noise.substr(0, 50) + tail, none, stride, rot.Next()); }
      if (kind == 3) { Dict dict("abc"); Run(v, dict, tail + noise + tail, none, stride, rot.Next()); }
      if (kind == 4) { Dict dict(Bytes(40, 'm')); Run(v, dict, Bytes(n, 'm'), none, stride, rot.Next()); Run(v, dict, "mn" + Bytes(n, 'm') + noise, none, stride, rot.Next()); }
    }
    vp::Sample("sizes around " + std::to_string(b));
  }, "literal runs, copies, dictionary offsets, target distances and repetitions of every length within [-2,+3] of 127,128,255,256,16383,16384,2^16,2^20,2^21");

  vp::AddSpace("copies", 6 * 6 * 6, [=](uint64_t u) {
    // several copies in one window: address caches, near and same slots, wrap-around
    static const size_t at[6] = {0, 300, 768, 1068, 45, 2100};   // 0/768 and 300/1068 share a same-cache slot
    static std::unique_ptr<Dict> dict;
    if (!dict) dict.reset(new Dict(Noise(2200, 51)));
    Rot rot; rot.k = u;
    int len = T ? 7 : 6;
    uint64_t n = 1; for (int i = 3; i < len; i++) n *= 6;
    for (uint64_t k = 0; k < n; k++) {
      Bytes t; uint64_t x = u + 216 * k;
      for (int i = 0; i < len; i++) { t += dict->bytes.substr(at[x % 6], 33 + i); if (k & 1) t.push_back((char)(i * 40)); x /= 6; }
      Run(v, *dict, t, none, stride, rot.Next());
      if (k % 5 == 0) { C c{t.size() / 2}; Run(v, *dict, t, c, stride, rot.Next()); }
    }
    vp::Sample("sequences of copies from dictionary offsets 0, 300, 768, 1068, 45, 2100");
  }, "all sequences of 6 (thorough 7) copies from 6 dictionary positions chosen to collide in the address caches");

  vp::AddSpace("many-copies", 40, [=](uint64_t u) {
    // address and instruction sections around the integer-length boundaries
    static std::unique_ptr<Dict> dict;
    if (!dict) dict.reset(new Dict(Noise(100000, 53)));
    Rot rot; rot.k = u;
    size_t n = u < 32 ? 36 + u : 5400 + (u - 32) * 400;
    if (u >= 36 && !T) return;
    Bytes t; for (size_t k = 0; k < n; k++) t += dict->bytes.substr((k * 40009) % 99900, 33 + k % 3) + (k % 4 == 3 ? "l" : "");
    Run(v, *dict, t, none, stride, rot.Next());
    C c{t.size() / 3}; Run(v, *dict, t, c, stride, rot.Next());
    vp::Sample(std::to_string(n) + " copies in one window");
  }, "36..67 and 5400..8200 copies of scattered dictionary pieces in one window");

  vp::AddSpace("many-chunks", 8 * 3, [=](uint64_t u) {
    // long sessions: every chunk copies from places its predecessors copied from
    static const size_t N[] = {17, 33, 65, 129, 255, 256, 257, 1025};
    static const size_t at[] = {0, 300, 768, 1068, 45, 2100, 1500};
    static std::unique_ptr<Dict> dict;
    if (!dict) dict.reset(new Dict(Noise(2200, 51)));
    Rot rot; rot.k = u; size_t n = N[u % 8]; int kind = (int)(u / 8);
    Bytes t; C cuts;
    for (size_t k = 0; k < n; k++) {
      if (kind != 1 || k % 4 == 3) t += dict->bytes.substr(at[k * k % 7], 33 + k % 3);
      if (kind != 2) t += Bytes(1 + k % 3, (char)(k * 5));
      if (kind == 0) t += dict->bytes.substr(at[(k + 2) % 7] + k % 9, 40);
      if (kind == 2 && k % 5 == 0) t += dict->bytes.substr(at[k * k % 7], 33 + k % 3);
      cuts.push_back(t.size());
    }
    for (int c = 0; c < 2; c++) Run(v, *dict, t, cuts, stride, rot.Next());
    vp::Sample(std::to_string(n) + " chunks in one session");
  }, "sessions of 17, 33, 65, 129, 255..257 and 1025 chunks of 3 kinds that copy from one another's addresses");

  vp::AddSpace("crowded", 24, [=](uint64_t u) {
    // many matching and many colliding blocks (probe and match limits)
    Rot rot; rot.k = u;
    Bytes a, b; Colliding(&a, &b);
    int n[] = {1, 2, 15, 16, 17, 18, 63, 64, 65, 66, 130, 300};
    int k = n[u % 12];
    Bytes d; for (int i = 0; i < k; i++) d += u < 12 ? b : a;
    d += a + Noise(24, 21) + a + Noise(3, 22) + b + a;
    Dict dict(d);
    Bytes as; for (int i = 0; i < 7; i++) as += a;
    Bytes ts[] = {a + Noise(24, 21), as, as + Noise(24, 21), d, b + a + b + a, d.substr(1), d.substr(d.size() - 60), Noise(5, 1) + a + a + b + b};
    for (auto& t : ts) for (size_t cut : {(size_t)0, t.size() / 3, t.size() / 2 + 1}) { C c{cut}; Run(v, dict, t, c, stride, rot.Next()); }
    vp::Sample("dictionary with " + std::to_string(k) + " identical or colliding blocks");
  }, "dictionaries with 1..300 identical / hash-colliding blocks x 8 related targets x cuts");
}

namespace {
// n zero bytes that take no memory
struct Zeros {
  char* p; size_t n;
  explicit Zeros(size_t len) : n(len) {
    p = (char*)mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) abort();
  }
  ~Zeros() { munmap(p, n); }
};
// Accepts what equals `n` zero bytes, keeps nothing.
class ZeroSink : public open_vcdiff::OutputStringInterface {
 public:
  uint64_t n = 0; bool ok = true;
  OutputStringInterface& append(const char* s, size_t len) override {
    static const Bytes z(1 << 16, '\0');
    for (size_t k = 0; k < len && ok; k += z.size()) ok = !memcmp(s + k, z.data(), std::min(z.size(), len - k));
    n += len; return *this;
  }
  void clear() override { n = 0; }
  void push_back(char c) override { append(&c, 1); }
  void ReserveAdditionalBytes(size_t) override {}
  size_t size() const override { return n; }
};
bool JsonSaysAbc(const Bytes& j) { std::vector<json::Item> v; std::string why; Bytes out; return json::ParseJson(j, &v, &why) && json::Apply("", v, &out, &why) && out == "abc"; }
}  // namespace

void AddHuge(bool sanitizer) {
  static const uint64_t k31 = 1ull << 31, k32 = 1ull << 32;
  vp::AddSpace("huge", 8, [sanitizer](uint64_t u) {
    bool T = vp::Thorough();
    struct K { uint64_t dict, target; bool tm; int flags; } ks[] = {
      {k31 - 1, 50, false, 2}, {k31 + 4096, 50, true, 0}, {k32 + 64, 90, false, 1},
      {100, k31 - 1, false, 1}, {100, k31 + 4096, true, 2}, {64, k32 + 4096, false, 0}, {64, k31 + 70, false, 4}, {1 << 20, k31 - 8192 - (1 << 20), false, 1}};
    const K& k = ks[u];
    if ((u == 7 && !T) || (u == 2 && sanitizer)) return;
    vp::State(); vp::Trace();
    VP_NOTE(vp::Str("dictionary of %llu zero bytes, chunk of %llu zero bytes, flags %d", (unsigned long long)k.dict, (unsigned long long)k.target, k.flags));
    Zeros d(k.dict), t(k.target);
    if (k.dict > k31 && !sanitizer) {
      open_vcdiff::VCDiffEncoder one(d.p, d.n); Bytes out = "old", b;
      if (one.Encode("abcdef", 6, &out)) {
        open_vcdiff::VCDiffDecoder dec;
        if (!dec.Decode(d.p, d.n, out, &b) || b != "abcdef") vp::Fail("one-shot encoding with a huge dictionary reported success, but the delta does not decode to the target");
      }
    }
    HashedDictionary h(d.p, d.n);
    if (!h.Init()) { vp::Tally("dictionary refused"); if (k.dict < (1u << 30)) vp::Fail("HashedDictionary::Init refused a dictionary of " + std::to_string(k.dict) + " bytes"); return; }
    open_vcdiff::VCDiffStreamingEncoder e(&h, k.flags, k.tm);
    Bytes out;
    if (!e.StartEncoding(&out)) vp::Fail("StartEncoding failed");
    if (!e.EncodeChunk(t.p, t.n, &out)) {
      vp::Tally("chunk refused");
      if (u == 7) vp::Fail("a chunk that fits was refused");
      // the session goes on
      if (!e.EncodeChunk("abc", 3, &out) || !e.FinishEncoding(&out)) vp::Fail("after a refused chunk the session does not continue");
      if (k.flags != 4) { Bytes b; open_vcdiff::VCDiffDecoder dec; if (!dec.Decode(d.p, d.n, out, &b) || b != "abc") vp::Fail("after a refused chunk the delta does not decode to the rest"); }
      else if (!JsonSaysAbc(out)) vp::Fail("after a refused chunk the JSON text is not that of the rest: " + out.substr(0, 100));
      return;
    }
    if (!e.FinishEncoding(&out)) vp::Fail("FinishEncoding failed");
    vp::Tally("encoded");
    if (k.flags == 4) vp::Fail("a chunk of " + std::to_string(k.target) + " bytes was accepted");
    open_vcdiff::VCDiffStreamingDecoder dec;
    dec.SetAllowVcdTarget(false);
    dec.SetMaximumTargetFileSize(k32 * 2); dec.SetMaximumTargetWindowSize(k31 - 1);
    dec.StartDecoding(d.p, d.n);
    ZeroSink sink;
    if (!dec.DecodeChunkToInterface(out.data(), out.size(), &sink) || !dec.FinishDecoding() || !sink.ok || sink.n != k.target)
      vp::Fail("encoding reported success, but the delta does not decode to the target");
    vp::Sample("dictionary or chunk of about 2^31 or 2^32 bytes");
  }, "dictionaries of 2^31-1, 2^31+4096, 2^32+64 and chunks of 2^31-1, 2^31+4096, 2^32+4096 bytes: refused or round-tripped (thorough: the largest that fit)");
}
}  // namespace enc
