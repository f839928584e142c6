// C19: encoder and decoder address caches in lockstep with the model.
#include "ref.h"
#include "vp.h"
#include <string.h>
#include "addrcache.h"
#include "varint_bigendian.h"
#include "vcdiff_defs.h"
using open_vcdiff::VCDiffAddressCache;
using open_vcdiff::VCDAddress;
typedef std::string Bytes;

namespace {
struct Config { int n, s; };
const Config kConfigs[] = {{4, 3}, {0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 1}, {3, 2}, {5, 1}, {2, 4}, {0, 3}, {4, 0}, {6, 2}};
const Config kBig[] = {{254, 0}, {0, 254}, {100, 154}, {1, 253}, {253, 1}, {20, 1}, {1, 20}};

int VLen(uint64_t v) { int n = 1; while (v >>= 7) n++; return n; }

struct Lock {
  ref::Cache m; VCDiffAddressCache e, d;
  explicit Lock(const Config& c) : m(c.n, c.s), e(c.n, c.s), d(c.n, c.s) {
    if (!e.Init() || !d.Init()) vp::Fail("Init failed");
    Same("after Init");
  }
  void Reset() {
    if (!e.Init() || !d.Init()) vp::Fail("Init failed");
    m = ref::Cache(m.near_n, m.same_n); Same("after a second Init");
  }
  std::string Name() const { return vp::Str("cache(%d,%d)", m.near_n, m.same_n); }
  void Same(const char* when) {
    for (int i = 0; i < m.near_n; i++)
      if ((uint32_t)e.NearAddress(i) != m.nearv[i] || (uint32_t)d.NearAddress(i) != m.nearv[i])
        vp::Fail(Name() + vp::Str(": near slot %d is %d (encoder) / %d (decoder), model %u, ", i, e.NearAddress(i), d.NearAddress(i), m.nearv[i]) + when);
    for (int i = 0; i < m.same_n * 256; i++)
      if ((uint32_t)e.SameAddress(i) != m.samev[i] || (uint32_t)d.SameAddress(i) != m.samev[i])
        vp::Fail(Name() + vp::Str(": same slot %d is %d (encoder) / %d (decoder), model %u, ", i, e.SameAddress(i), d.SameAddress(i), m.samev[i]) + when);
  }
  int Cheapest(uint32_t a, uint32_t here) const {
    int best = std::min(VLen(a), VLen(here - a));
    for (uint32_t x : m.nearv) if (x <= a) best = std::min(best, VLen(a - x));
    if (m.same_n && m.samev[a % (m.same_n * 256)] == a) best = std::min(best, 1);
    return best;
  }
  // What (mode, value) denotes by the format; -1 if not a valid address below here.
  int64_t Denotes(int mode, uint64_t value, uint32_t here) const {
    int64_t a;
    if (mode == 0) a = (int64_t)value;
    else if (mode == 1) a = (int64_t)here - (int64_t)value;
    else if (mode < 2 + m.near_n) a = (int64_t)m.nearv[mode - 2] + (int64_t)value;
    else a = m.samev[(mode - 2 - m.near_n) * 256 + (value & 255)];
    return a >= 0 && a < (int64_t)here ? a : -1;
  }
  bool SameMode(int mode) const { return mode >= 2 + m.near_n; }
  void Step(uint32_t a, uint32_t here) {
    VCDAddress v = -77;
    int cheapest = Cheapest(a, here);
    int mode = e.EncodeAddress((VCDAddress)a, (VCDAddress)here, &v);
    if (mode > m.MaxMode() || v < 0) vp::Fail(Name() + vp::Str(": EncodeAddress(%u, here %u) gives mode %d value %d", a, here, mode, v));
    if (SameMode(mode) && v > 255) vp::Fail(Name() + ": value of a same mode does not fit a byte");
    if (e.WriteAddressAsVarintForMode(mode) == SameMode(mode)) vp::Fail(Name() + ": WriteAddressAsVarintForMode wrong");
    if (Denotes(mode, v, here) != (int64_t)a) vp::Fail(Name() + vp::Str(": EncodeAddress(%u, here %u) gives mode %d value %d, which denotes %lld", a, here, mode, v, (long long)Denotes(mode, v, here)));
    int cost = SameMode(mode) ? 1 : VLen(v);
    if (cost != cheapest) vp::Fail(Name() + vp::Str(": EncodeAddress(%u, here %u) costs %d bytes, %d would do", a, here, cost, cheapest));
    Bytes s; if (SameMode(mode)) s.push_back((char)v); else ref::PutVarint(&s, v);
    vp::Exact x(s + "\x7f"); const char* p = x.p; const char* end = x.p + s.size();
    int64_t got = d.DecodeAddress((VCDAddress)here, mode, &p, end);
    if (got != (int64_t)a || p != end) vp::Fail(Name() + vp::Str(": address %u, here %u, mode %d value %d decodes to %lld, position +%d of %d", a, here, mode, v, (long long)got, (int)(p - x.p), (int)s.size()));
    m.Update(a);
    vp::Transition(2);
  }
  // A call that must be refused: nothing may change.
  void Refused(int mode, const Bytes& s, uint32_t here, int64_t want, const char* what) {
    vp::Exact x(s); const char* p = x.p;
    int64_t got = d.DecodeAddress((VCDAddress)here, mode, &p, x.p + x.n);
    vp::Transition();
    if (got != want) vp::Fail(Name() + vp::Str(": DecodeAddress(here %u, mode %d, ", here, mode) + vp::Hex(s) + vp::Str(") returns %lld, expected %lld: ", (long long)got, (long long)want) + what);
    if (p != x.p) vp::Fail(Name() + ": a refused address moves the read position: " + what);
  }
  void AllRefusals(uint32_t here) {
    static const uint64_t V[] = {0, 1, 2, 127, 128, 255, 256, 300, 511, 512, 767, 768, 769, 1000, 1025, 5000, 16384, 65536, 0x7ffffffeu, 0x7fffffffu};
    for (int mode = 0; mode <= m.MaxMode(); mode++) {
      if (m.MaxMode() > 40 && mode > 5 && mode < m.MaxMode() - 3 && mode % 37) continue;
      if (SameMode(mode)) {
        Refused(mode, "", here, open_vcdiff::RESULT_END_OF_DATA, "no byte left");
        for (int v = 0; v < 256; v++) if (Denotes(mode, v, here) < 0) Refused(mode, Bytes(1, (char)v), here, open_vcdiff::RESULT_ERROR, "address out of range");
      } else {
        for (uint64_t v : V) {
          Bytes s; ref::PutVarint(&s, v);
          if (Denotes(mode, v, here) < 0) Refused(mode, s, here, open_vcdiff::RESULT_ERROR, "address out of range");
          for (size_t k = 0; k < s.size(); k++) Refused(mode, s.substr(0, k), here, open_vcdiff::RESULT_END_OF_DATA, "truncated address");
        }
        for (int64_t v = (int64_t)here - 2; v <= (int64_t)here + 2; v++) if (v >= 0 && v <= 0x7fffffff && Denotes(mode, v, here) < 0) { Bytes s; ref::PutVarint(&s, v); Refused(mode, s, here, open_vcdiff::RESULT_ERROR, "address just out of range"); }
        Refused(mode, Bytes("\x88\x80\x80\x80\x00", 5), here, open_vcdiff::RESULT_ERROR, "integer overflow");
        Refused(mode, Bytes("\xff\xff\xff\xff\xff\x7f", 6), here, open_vcdiff::RESULT_ERROR, "integer overflow");
      }
    }
    Same("after refused addresses");
  }
  // Acceptable (mode, value) pairs the encoder would not choose.
  void Accept(int mode, uint64_t v, uint32_t here) {
    int64_t a = Denotes(mode, v, here); if (a < 0) return;
    Bytes s; if (SameMode(mode)) s.push_back((char)v); else ref::PutVarint(&s, v);
    vp::Exact x(s); const char* p = x.p;
    int64_t got = d.DecodeAddress((VCDAddress)here, mode, &p, x.p + x.n);
    if (got != a || p != x.p + x.n) vp::Fail(Name() + vp::Str(": DecodeAddress(here %u, mode %d, value %llu) returns %lld, expected %lld", here, mode, (unsigned long long)v, (long long)got, (long long)a));
    m.Update((uint32_t)a);
    VCDAddress dummy; e.EncodeAddress((VCDAddress)a, (VCDAddress)here, &dummy);   // keep the encoder in step
    vp::Transition(2);
    Same("after a decoded address");
  }
};
// addresses that collide in the caches for 1..4 same units, plus extremes
const uint32_t kAddr[] = {0, 1, 255, 256, 300, 768, 1068, 1023};
}  // namespace

namespace vp {
void Setup() {
  int nc = sizeof kConfigs / sizeof kConfigs[0];
  AddSpace("sequences", nc * 64, [](uint64_t u) {
    const Config& c = kConfigs[u / 64];
    int depth = Thorough() ? 7 : 6; uint64_t n = 1; for (int i = 2; i < depth; i++) n *= 8;
    Lock l(c);
    for (uint64_t k = 0; k < n; k++) {
      l.Reset(); uint64_t x = u % 64 + 64 * k;
      uint32_t here = 1069;
      for (int i = 0; i < depth; i++) { l.Step(kAddr[x % 8], here); here += 1 + (uint32_t)(x % 3) * 40; x /= 8; }
      l.Same("after the sequence"); State(depth); Trace();
    }
    Sample(l.Name() + vp::Str(": all sequences of %d addresses starting with pair %d", depth, (int)(u % 64)));
  }, "12 cache configurations x all sequences of 6 (thorough 7) copies over 8 addresses that collide in the caches; both caches compared slot by slot with the model");
  static const Config kWide[] = {{4, 3}, {3, 9}, {2, 16}, {7, 7}, {16, 16}, {1, 20}, {20, 1}, {0, 33}, {64, 64}, {253, 1}, {254, 0}, {100, 154}, {1, 253}, {0, 254}};
  AddSpace("wide-sequences", 14 * 8, [](uint64_t u) {
    // addresses that share a slot in this very configuration
    const Config& c = kWide[u / 8]; uint32_t m = std::max(1, c.s) * 256;
    uint32_t A[] = {0, 1, 255, m, m - 1, m + 1, 2 * m, 2 * m - 256};
    int depth = c.s > 40 ? 4 : Thorough() ? 6 : 5; uint64_t n = 1; for (int i = 1; i < depth; i++) n *= 8;
    Lock l(c);
    for (uint64_t k = 0; k < n; k++) {
      l.Reset(); uint64_t x = u % 8 + 8 * k; uint32_t here = 2 * m + 1;
      for (int i = 0; i < depth; i++) { l.Step(A[x % 8], here); here += 1 + (uint32_t)(x % 3) * 100; x /= 8; }
      l.Step(0, here); l.Step(A[k % 8], here);
      l.Same("after the sequence"); State(depth + 2); Trace();
    }
    Sample(l.Name() + ": sequences of addresses sharing slots");
  }, "14 configurations up to 254 slots x all sequences of 4-5 (thorough 6) copies over 8 addresses that share slots in that configuration, then two more");
  AddSpace("refusals", nc * 64, [](uint64_t u) {
    const Config& c = kConfigs[u / 64];
    for (int third = 0; third < 8; third++) {
      Lock l(c); uint32_t idx[3] = {(uint32_t)(u % 8), (uint32_t)(u / 8 % 8), (uint32_t)third};
      for (uint32_t here : {1u, 2u, 257u, 1025u, 1069u}) { l.AllRefusals(here); State(); }
      for (int i = 0; i < 3; i++) {
        l.Step(kAddr[idx[i]], 1100 + i * 5);
        for (uint32_t here : {0u, 1u, 256u, 300u, 301u, 769u, 1105u + i * 5, 0x7fffffffu}) { l.AllRefusals(here); State(); }
      }
      l.Step(kAddr[(u + third) % 8], 1200); l.Step(kAddr[idx[0]], 1300);   // the sequence goes on unaffected
      l.Same("after the sequence"); Trace();
    }
    Sample("every refused (mode, value) after every sequence of 0..3 copies");
  }, "every mode x out-of-range, truncated and overflowing values in every state reached by <=3 copies: refused without any change");
  AddSpace("accepted", nc * 8, [](uint64_t u) {
    const Config& c = kConfigs[u / 8];
    for (int b = 0; b < 8; b++) {
      Lock l(c); l.Step(kAddr[u % 8], 1100); l.Step(kAddr[b], 1150);
      for (int mode = 0; mode <= l.m.MaxMode(); mode++)
        for (uint64_t v = 0; v < 256; v += (mode + b) % 3 + 1) { l.Accept(mode, v, 1200); State(); }
      for (int mode = 0; mode < 2 + l.m.near_n; mode++) for (uint64_t v : {256, 300, 767, 768, 1000, 1199}) l.Accept(mode, v, 1200);
      Trace();
    }
  }, "every valid (mode, value) with value 0..255 and larger ones, in sequence, not only those the encoder chooses");
  AddSpace("extremes", nc + 7, [](uint64_t u) {
    const Config& c = u < 12 ? kConfigs[u] : kBig[u - 12];
    static const uint32_t X[] = {0, 1, 127, 128, 16383, 16384, 2097152, 268435455, 268435456, 0x7ffffffdu, 0x7ffffffeu};
    const int nx = 11;
    for (int a = 0; a < nx; a++) for (int b = 0; b < nx; b++) for (int d = 0; d < nx; d++) {
      if (u >= 12 && !Thorough() && (a + b + d) % 5) continue;
      Lock l(c);
      l.Step(X[a], 0x7fffffffu); l.Step(X[b], 0x7fffffffu); l.Step(X[d], X[d] + 1); l.Step(X[a], 0x7fffffffu);
      if (d % 4 == 0) { l.AllRefusals(0x7fffffffu); l.AllRefusals(200); }
      l.Same("after extreme addresses"); State(4); Trace();
    }
    Lock l(c);
    for (int i = 0; i < 700; i++) l.Step((uint32_t)(i * 97 % 2000), 2001 + i);   // many rounds through every slot
    l.Same("after 700 copies"); Trace();
    Sample(l.Name() + ": addresses up to 2^31-2");
  }, "19 configurations up to 254 slots x all triples of 11 addresses at integer-length and 31-bit boundaries, plus 700 consecutive copies");
}
}  // namespace vp
