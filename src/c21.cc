// C21: no dictionary or target can crash, corrupt, hang or abort the encoding process.
// Runs in sanitizer builds; the oracle is the sanitizer, the process status and the clock.
#include "enc.h"
#include <string.h>
#include "google/jsonwriter.h"
using namespace enc;

namespace {
void Go(const Input& in) {
  Bytes out;
  bool ok = Encode(in.hashed, *in.target, *in.cuts, Flags(in.combo), TargetMatching(in.combo), &out);
  vp::Tally(ok ? "encoded" : "refused");
  Bytes json;
  ok = Encode(in.hashed, *in.target, *in.cuts, 4 | Flags(in.combo), TargetMatching(in.combo), &json);
  vp::Tally(ok ? "encoded (JSON)" : "refused (JSON)");
}
Bytes Ascii(Bytes b) { for (char& c : b) c &= 0x7f; return b; }
}  // namespace
namespace vp {
void Setup() {
  AddFamilies(Go, Thorough() ? 1 : 5);
  AddHuge(true);

  AddSpace("every-length", 101, [](uint64_t u) {
    // dictionary and target of every length, each ending exactly at the end of its buffer
    Bytes base = Ascii(Noise(120, 901));
    for (int kind = 0; kind < 3; kind++) {
      Bytes d = kind == 2 ? Bytes(u, 'r') : base.substr(0, u); Dict dict(d);
      for (size_t n = 0; n <= 100; n++) {
        // tail of the dictionary / of the other text / constant
        Bytes t = kind == 0 ? (n <= u ? d.substr(u - n) : d + base.substr(u, n - u)) : kind == 1 ? base.substr(7, n / 2) + (d.size() > 33 ? d.substr(d.size() - 33) : d) : Bytes(n, 'r');
        State();
        for (int c = (int)((u + n) % 2); c < kCombos; c += 2) { std::vector<size_t> cuts; Input in{&dict.bytes, dict.h, &t, &cuts, c}; VP_NOTE(in.Describe()); Go(in); Trace(); }
      }
    }
    Sample(Str("dictionary of %d bytes, targets of 0..100 bytes", (int)u));
  }, "dictionaries of 0..100 bytes x targets of 0..100 bytes x 3 kinds of relation x option combinations (half each), binary and JSON");

  AddSpace("ends", 48, [](uint64_t u) {
    // matches that run into the very first or last byte of dictionary, target or chunk
    Bytes m = Ascii(Noise(48 + u, 902));
    for (size_t p = 0; p <= 18; p += 3) for (size_t q = 0; q <= 18; q += 3) {
      Bytes pre = Ascii(Noise(p, 903)), post = Ascii(Noise(q, 904));
      Bytes ds[] = {m, pre + m, m + post, pre + m + post};
      Bytes ts[] = {m, post + m, m + pre, m + m, pre + m + m + post, m.substr(1), m.substr(0, m.size() - 1)};
      for (auto& d : ds) { Dict dict(d); for (auto& t : ts) for (size_t cut : {(size_t)0, t.size() / 2, t.size() - 1}) {
        State(); std::vector<size_t> cuts{cut}; int c = (int)((p + q + cut) % 2 ? 7 : 4);
        Input in{&dict.bytes, dict.h, &t, &cuts, c}; VP_NOTE(in.Describe()); Go(in); Trace();
      } }
    }
    Sample(Str("shared text of %d bytes at every border", 48 + (int)u));
  }, "shared text of 48..95 bytes touching the first/last byte of dictionary, target and chunk, 7x7 paddings, 4x7 arrangements, 3 cuts");

  AddSpace("no-data", 8, [](uint64_t c) {
    // null pointers with length zero, no chunks at all, abandoned sessions
    for (int json = 0; json < 2; json++) for (int dict = 0; dict < 2; dict++) for (int order = 0; order < 16; order++) {
      State(); Trace();
      open_vcdiff::HashedDictionary h(dict ? "dictionary dictionary dictionary dictionary" : NULL, dict ? 43 : 0);
      if (!h.Init()) continue;
      Bytes out;
      {
        open_vcdiff::VCDiffStreamingEncoder e(&h, Flags((int)c) | (json ? 4 : 0), TargetMatching((int)c));
        if (order & 1) { if (!e.StartEncoding(&out)) continue; } else if (!e.StartEncoding(&out)) continue;
        if (order & 2) e.EncodeChunk(NULL, 0, &out);
        if (order & 4) e.EncodeChunk("dictionary dictionary dictionary", 32, &out);
        if (order & 2) e.EncodeChunk("", 0, &out);
        if (order & 8) e.FinishEncoding(&out);
        Transition(4);
      }
      open_vcdiff::VCDiffEncoder one(dict ? "abc" : NULL, dict ? 3 : 0);
      one.SetFormatFlags(Flags((int)c) | (json ? 4 : 0)); one.SetTargetMatching(TargetMatching((int)c));
      one.Encode(NULL, 0, &out); one.Encode("", 0, &out); one.Encode("abcabcabc", 9, &out); Transition(3);
    }
    Sample("null pointers with length 0; sessions without chunks; sessions abandoned");
  }, "null and empty dictionaries and chunks, sessions abandoned before completion, 8 option combinations, binary and JSON");

  AddSpace("bigger", 14, [](uint64_t u) {
    static const size_t L[] = {1 << 16, (1 << 16) + 1, 1 << 20, (1 << 20) + 17, 3000000, 1 << 23, 20000000};
    size_t n = L[u % 7]; bool tm = u >= 7;
    bool brief = n > 3000000 && !Thorough();     // only the longest copies
    if (brief && tm) return;
    Bytes d = Noise(n, 905); Dict dict(d);
    for (int k = 0; k < 4; k++) {
      if (brief && k != 1) continue;
      Bytes t = k == 0 ? d.substr(n - 1000) : k == 1 ? d.substr(1, n / 2) + "x" + d.substr(n / 2) : k == 2 ? Noise(n / 4, 906) + Noise(n / 4, 906) : Bytes(n, 'c');
      std::vector<size_t> cuts{t.size() / 3}; Input in{&dict.bytes, dict.h, &t, &cuts, tm ? 7 : k % 4};
      State(); Trace(); VP_NOTE(in.Describe()); Go(in);
    }
    Sample(Str("dictionary of %zu bytes", n));
  }, "dictionaries and targets of 2^16 .. 3000000 bytes x 4 kinds of target x target matching; 20000000 bytes with copies of most of them (thorough: all kinds)");
}
}  // namespace vp
