// C01: encode then decode reproduces the target.
#include "enc.h"
#include <string.h>
#include "google/vcdecoder.h"
using namespace enc;

namespace {
void RoundTrip(const Input& in) {
  Bytes delta;
  if (!Encode(in.hashed, *in.target, *in.cuts, Flags(in.combo), TargetMatching(in.combo), &delta)) vp::Fail("encoding failed: " + in.Describe());
  gen::Outcome o = gen::RealWhole(*in.dict, delta);
  if (!o.ok) vp::Fail("the delta does not decode: " + in.Describe() + " delta=" + vp::Hex(delta, 300));
  if (o.out != *in.target) vp::Fail("decoded bytes differ from the target: " + in.Describe() + " delta=" + vp::Hex(delta, 300) + " decoded=" + vp::Hex(o.out, 200));
}
void Simple(const Bytes& d, const Bytes& t, int combo) {
  // the one-call interfaces
  vp::Exact de(d), te(t);
  open_vcdiff::VCDiffEncoder e(de.p, de.n);
  e.SetFormatFlags(Flags(combo)); e.SetTargetMatching(TargetMatching(combo));
  Bytes delta = "leftover", back = "leftover";
  for (int twice = 0; twice < 2; twice++) {
    VP_CHECK(e.Encode(te.p, te.n, &delta), "VCDiffEncoder::Encode failed");
    open_vcdiff::VCDiffDecoder dec;
    VP_CHECK(dec.Decode(de.p, de.n, delta, &back), "VCDiffDecoder::Decode failed: " + ComboName(combo) + " target=" + vp::Hex(t, 100) + " delta=" + vp::Hex(delta));
    VP_CHECK(back == t, "VCDiffDecoder::Decode: wrong bytes: " + ComboName(combo) + " target=" + vp::Hex(t, 100) + " delta=" + vp::Hex(delta));
    vp::Transition(2); vp::Trace();
  }
}
}  // namespace
namespace vp {
void Setup() {
  AddFamilies(RoundTrip, 1);
  AddHuge();
  AddSpace("large", 14, [](uint64_t u) {
    // beyond 16, 24 and 28 bits: offsets, distances, literal and copy lengths, windows, instructions
    static const std::vector<size_t> none;
    int combo = u & 1 ? 7 : 4 * (u / 2 % 2);
    auto one = [&](const Dict& d, const Bytes& t, const std::vector<size_t>& cuts, int c) { State(); Input in{&d.bytes, d.h, &t, &cuts, c}; VP_NOTE(in.Describe()); RoundTrip(in); Trace(); };
    int kind = (int)u / 2;
    if (kind == 0 || kind == 1) {
      size_t n = kind == 0 ? (1u << 24) + 40 : (1u << 28) + 40;
      if (kind == 1 && u == 3 && !Thorough()) return;
      Dict d(Noise(n, 61));
      const Bytes& b = d.bytes;
      for (int c = combo % 2; c < kCombos; c += 2)
        for (size_t at : {(size_t)0, n / 2 + 7, n - 300, n - 60, n - 33}) one(d, "lit" + b.substr(at, 60) + b.substr(n - 70) + b.substr(5, 33) + b.substr(at, 40), none, c);
    }
    if (kind == 2) { Dict d(Noise(60, 62)); Bytes t = Noise((1u << 24) + (u & 1), 63); one(d, t, none, combo); one(d, t + d.bytes + "q" + t.substr(0, 80) + t.substr(t.size() - 90), none, 7); }
    if (kind == 3) { Dict d(Noise((1u << 24) + 3, 64)); one(d, d.bytes, none, combo); one(d, "x" + d.bytes.substr(1) + d.bytes.substr(0, 1u << 24), none, combo); }
    if (kind == 4) {   // more than 2^16 windows
      Dict d(Noise(2000, 65)); Bytes t; std::vector<size_t> cuts;
      for (size_t k = 0; k < 66000; k++) { if (k % 3 != 1 || k > 65500) t += d.bytes.substr(1000 + 20 * (k % 7), 40) + "-" + d.bytes.substr(k % 150, 35); else t += Bytes(1 + k % 2, (char)k); cuts.push_back(t.size()); }
      one(d, t, cuts, combo); one(d, t, cuts, combo ^ 2);
    }
    if (kind == 5) {   // more than 2^16 instructions of each kind in one window
      Dict d(Noise(150000, 66)); Bytes t;
      for (size_t k = 0; k < 70000; k++) { t += d.bytes.substr((k * 40009) % 149900, 33 + k % 5); if (k % 2) t.push_back((char)k); }
      one(d, t, none, combo); one(d, t, std::vector<size_t>{t.size() / 7}, combo ^ 2);
    }
    if (kind == 6) {   // more than 2^15 and 2^16 blocks, hits in the last ones
      for (size_t n : {(1u << 19) - 5, (1u << 19) + 40, (1u << 20) - 1, (1u << 20) + 100, (1u << 21) + 9}) {
        Dict d(Noise(n, 67)); const Bytes& b = d.bytes;
        for (size_t at : {n - 40, n - 64, n / 2 - 20, n / 2 + 16, (size_t)(1u << 19) - 70}) one(d, b.substr(at, 40) + "-" + b.substr(n - 34) + b.substr(0, 40), none, combo);
      }
    }
    Sample("dictionaries, targets and numbers of windows and instructions beyond 2^16 and 2^24");
  }, "dictionaries and targets beyond 2^19, 2^20, 2^24 and 2^28 bytes, 66000 windows, 70000 copies in a window");
  AddSpace("one-call", 41, [](uint64_t u) {
    Bytes base = Noise(80, 31);
    for (size_t dl : {0, 1, 15, 16, 32, 33, 80}) for (size_t k = 0; k <= 80; k += 2) for (int c = 0; c < kCombos; c++) {
      vp::State();
      Simple(base.substr(0, dl), base.substr(k, u * 2), c);
      Simple(base.substr(0, dl), base.substr(k, u) + base.substr(0, dl), c);
    }
    vp::Sample("VCDiffEncoder/VCDiffDecoder, object reused for a second encoding");
  }, "VCDiffEncoder + VCDiffDecoder over 7 dictionary lengths x substrings x 8 option combinations, each object used twice");
}
}  // namespace vp
