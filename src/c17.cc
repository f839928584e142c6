// C17: a long enough shared stretch is always found and copied.
#include "enc.h"
using namespace enc;

namespace {
// Every byte of [from, from+n) of the target must be produced by COPY instructions.
void Covered(const Dict& d, const Bytes& t, const std::vector<size_t>& cuts, int combo, const std::vector<std::pair<size_t, size_t>>& want, const char* what) {
  Bytes delta;
  VP_NOTE(vp::Str("%s dict %zu target %zu ", what, d.bytes.size(), t.size()) + ComboName(combo));
  if (!Encode(d.h, t, cuts, Flags(combo), TargetMatching(combo), &delta)) vp::Fail("encoding failed");
  ref::Result r = ref::Decode(d.bytes, delta);
  if (r.verdict != ref::OK || r.out != t) vp::Fail(std::string("output is not a delta for the target: ") + r.reason);
  std::vector<char> cov(t.size(), 0);
  for (auto& w : r.windows) {
    size_t at = w.out_begin;
    for (auto& i : w.insts) { if (i.type == ref::COPY) for (size_t k = 0; k < i.size; k++) cov[at + k] = 1; at += i.size; }
  }
  vp::Trace();
  for (auto& p : want)
    for (size_t k = p.first; k < p.first + p.second; k++)
      if (!cov[k]) vp::Fail(vp::Str("%s: target byte %zu of the shared stretch [%zu,+%zu) is spent as a literal (", what, k, p.first, p.second) + ComboName(combo) +
                            vp::Str(") dictionary %zu bytes, target %zu bytes; ", d.bytes.size(), t.size()) + "dict=" + vp::Hex(d.bytes, 120) + " target=" + vp::Hex(t, 150) + " delta=" + vp::Hex(delta, 200));
}
const std::vector<size_t> none;
}  // namespace

namespace vp {
void Setup() {
  AddSpace("alignments", 48 * 4, [](uint64_t u) {
    size_t i = u % 48; static const size_t sufs[] = {0, 1, 15, 33}; size_t q = sufs[u / 48];
    size_t maxn = Thorough() ? 120 : 80;
    for (size_t n = 32; n <= maxn; n++) {
      Bytes dict = Noise(i, 101) + Noise(n, 102) + Noise((i * 7 + n) % 37, 103);
      Dict d(dict); Bytes s = dict.substr(i, n);
      for (size_t p = 0; p <= 40; p++) {
        State();
        Bytes t = Noise(p, 104) + s + Noise(q, 105);
        for (int c = 0; c < kCombos; c++) Covered(d, t, none, c, {{p, n}}, "dictionary stretch");
      }
    }
    Sample(vp::Str("stretch at dictionary offset %zu, all lengths 32.., all target offsets 0..40", i));
  }, "dictionary offset 0..47 x length 32..80 (thorough 120) x target offset 0..40 x 4 suffix lengths x 8 option combinations");

  AddSpace("equal", 64, [](uint64_t u) {
    for (size_t n = 32 + u; n <= (Thorough() ? 6000u : 2500u); n += 64) {
      Dict d(Noise(n, 201)); State();
      for (int c = 0; c < kCombos; c++) Covered(d, d.bytes, none, c, {{0, n}}, "target equal to the dictionary");
      for (size_t a : {(size_t)1, n / 3, n / 2}) for (size_t m : {(size_t)32, (size_t)33, n - a}) if (a + m <= n && m >= 32)
        for (int c = 0; c < kCombos; c += 4) Covered(d, d.bytes.substr(a, m), none, c, {{0, m}}, "substring of the dictionary");
    }
    Sample("targets equal to dictionaries of every length");
  }, "target = dictionary for every length 32..2500 (thorough 6000), and 9 substrings each");

  AddSpace("bytes", 256, [](uint64_t u) {
    // every pair of byte values enters and leaves the rolling hash before the stretch
    Bytes s = Noise(40, 301); Dict d(Noise(5, 302) + s + Noise(9, 303));
    for (int w = 0; w < 256; w++) {
      State();
      Bytes pre; pre.push_back((char)u); pre += Noise(3, 304); pre.push_back((char)w); pre += Noise(14, 305); pre.push_back((char)u); pre.push_back((char)w);
      int c = (int)((u + w) % 2) * 4;
      Covered(d, pre + s, none, c, {{pre.size(), s.size()}}, "after every pair of byte values");
      Bytes s2 = s; s2[3] = (char)u; s2[20] = (char)w; s2[33] = (char)(u ^ w);
      if (w % 8 == (int)(u % 8)) { Dict d2(Noise(21, 306) + s2); Covered(d2, Noise(11, 307) + s2 + "e", none, c, {{11, 40}}, "stretch with every byte value"); }
    }
    Sample(vp::Str("byte value %d before and inside the stretch", (int)u));
  }, "all 65536 pairs of byte values ahead of the stretch; every byte value inside it");

  AddSpace("target-repeats", 33 * 4, [](uint64_t u) {
    size_t p = u % 33; int di = (int)(u / 33);
    Dict d(di == 0 ? Bytes() : di == 1 ? Bytes("short") : di == 2 ? Noise(16, 401) : Noise(333, 402));
    for (size_t n = 47; n <= (Thorough() ? 110u : 80u); n++)
      for (size_t m = 0; m <= 33; m++) {
        State();
        Bytes s = Noise(n, 403);
        Bytes t = Noise(p, 404) + s + Noise(m, 405) + s + Noise((p + m) % 19, 406);
        int c = 4 + (int)((n + m) % 4);
        Covered(d, t, none, c, {{p + n + m, n}}, "stretch repeated in the target");
        if (m % 8 == 1) { Bytes t2 = t + "," + s; Covered(d, t2, none, c, {{p + n + m, n}, {t.size() + 1, n}}, "stretch repeated twice"); }
      }
    Sample(vp::Str("target repeats, first occurrence at %zu", p));
  }, "stretch of 47..80 (thorough 110) bytes repeated at distance +0..33, first at 0..32, 4 dictionaries");

  AddSpace("repeats-after-copies", 48, [](uint64_t u) {
    // a new stretch after a copy of any length (from the dictionary or from the target) and its repetition
    Bytes dict = Noise(70003, 451); Dict d(dict);
    for (size_t base : {(size_t)32, (size_t)96, (size_t)1000, (size_t)4090, (size_t)20000, (size_t)65500}) for (size_t g : {0, 5, 16, 29}) {
      if (base > 5000 && g != 5 && !Thorough()) continue;
      size_t n = base + u; State();
      Bytes s = Noise(47 + (u + g) % 23, 452), gap = Noise(g, 453), sep = Noise(21, 454), c = dict.substr(3 + u, n);
      int combo = 4 + (int)((u + g) % 4);
      Bytes t = gap + c + s + sep + s;                       // literal after the copy, then repeated
      if (dict[3 + u + n] == s[0]) continue;
      Covered(d, t, none, combo, {{g, n}, {t.size() - s.size(), s.size()}}, "repeat of literal text that follows a copy");
      Bytes t2 = gap + s + c + sep + s;                      // literal before the copy
      Covered(d, t2, none, combo, {{t2.size() - s.size(), s.size()}}, "repeat of literal text that precedes a copy");
      Bytes s2 = Noise(50, 455), t3 = t + Noise(9, 456) + s2 + sep.substr(0, 11) + s2;   // ... after a copy from the target
      Covered(d, t3, none, combo, {{g, n}, {t.size() - s.size(), s.size()}, {t3.size() - 50, 50}}, "repeat after a copy from the target");
      if (base < 5000) { Dict e((Bytes())); Bytes t4 = s + c + c + gap + s2 + sep + s2; Covered(e, t4, none, combo, {{s.size() + n, n}, {t4.size() - 50, 50}}, "repeat after a long copy from the target"); }
    }
    Sample(vp::Str("copies of 32+%d.. bytes, then repeated new text", (int)u));
  }, "copies of 32..79, 96.., 1000.., 4090.., 20000.., 65500..65547 bytes from dictionary or target x gaps, then new text of 47..69 bytes and its repetition");

  AddSpace("several", 16 * 16, [](uint64_t u) {
    size_t a = u % 16, b = u / 16;
    Bytes dict = Noise(600, 501); Dict d(dict);
    for (size_t n1 : {32, 33, 40, 47, 63}) for (size_t n2 : {32, 35, 48}) for (size_t g1 : {0, 1, 7, 16}) for (size_t g2 : {0, 1, 15}) {
      State();
      Bytes s1 = dict.substr(a, n1), s2 = dict.substr(200 + b, n2), s3 = dict.substr(400 + (a + b) % 16, 37);
      Bytes t = Noise(g1, 502) + s1 + Noise(g2, 503) + s2 + Noise(g1, 504) + s3;
      size_t o1 = g1, o2 = g1 + n1 + g2, o3 = o2 + n2 + g1;
      // a byte that happens to continue the previous copy would be taken from the next stretch
      if (dict[a + n1] == t[o1 + n1] || dict[200 + b + n2] == t[o2 + n2]) continue;
      for (int c = 0; c < kCombos; c += 4) {
        Covered(d, t, none, c, {{o1, n1}, {o2, n2}, {o3, 37}}, "several stretches");
        Covered(d, t, {o2, o3}, c, {{o1, n1}, {o2, n2}, {o3, 37}}, "several stretches, separate chunks");
      }
    }
    Sample("three stretches in one target");
  }, "three dictionary stretches at all pairs of alignments x lengths x gaps, in one chunk and in three");

  AddSpace("many-blocks", 9 * 4, [](uint64_t u) {
    // every aligned block of the last (first, middle) 4096 of a large dictionary, alone in its stretch
    static const size_t L[] = {65536, 131072 + 5, 524288, 1048576 + 16, 2097152 + 3, 4194304, 8388608 + 9, 16777216, 16777216 + 65536};
    size_t n = L[u / 4]; int part = (int)(u % 4);
    Dict d(Noise(n, 651)); State();
    size_t blocks = n / 16, first = part == 0 ? 0 : part == 1 ? blocks / 2 : blocks - std::min<size_t>(blocks, 4096);
    if (part == 3) {   // the same for the target's own blocks
      if (n > 9000000 && !Thorough()) { n = 16777216 + 65536; if (u / 4 == 7) return; }
      Bytes t = Noise(n, 652); std::vector<std::pair<size_t, size_t>> want; Dict e((Bytes()));
      size_t end = t.size();
      for (size_t k = (end / 16) - 600; k + 5 < end / 16; k += 3) { t += Noise(5, 653 + k % 7); want.push_back({t.size(), 47}); t += t.substr(k * 16 + 3, 47); }
      Covered(e, t, none, 4, want, "one of many blocks of the target");
      return;
    }
    Bytes t; std::vector<std::pair<size_t, size_t>> want;
    for (size_t k = first; k + 3 <= blocks && k < first + 4096; k++) { t += Noise(5, 655 + k % 7); want.push_back({t.size(), 32}); t += d.bytes.substr(k * 16 + 1, 32); }
    Covered(d, t, none, (int)(u % 3) * 4 % 8, want, "one of many blocks of the dictionary");
    Sample(vp::Str("dictionary of %zu bytes, 4096 stretches around one block each", n));
  }, "dictionaries of 2^16..2^24+2^16 bytes: each of the first, middle and last 4096 blocks as the only whole block of a 32-byte stretch; repeats within targets of the same lengths");

  AddSpace("large", 30, [](uint64_t u) {
    static const size_t L[] = {4095, 4096, 4097, 65535, 65536, 65537, 65547, 100001, 200015, 1048577};
    size_t n = L[u % 10]; int part = (int)(u / 10);
    Dict d(Noise(n, 601));
    for (size_t at = part; at < 17; at += 3)
      for (size_t len : {(size_t)32, (size_t)45, (size_t)1000, n - 64}) {
        size_t from[] = {at, n / 2 + at, n - len - at};
        for (size_t f : from) {
          if (f + len > n) continue;
          State();
          Bytes t = Noise(at * 3, 602) + d.bytes.substr(f, len) + Noise(at, 603);
          for (int c = 0; c < kCombos; c += 4) Covered(d, t, none, c, {{at * 3, len}}, "large dictionary");
        }
      }
    Sample(vp::Str("dictionary of %zu bytes", n));
  }, "dictionaries of 4095..1048577 bytes, stretches at the start, middle and very end at 17 alignments");
}
}  // namespace vp
