// C07: checksummed windows.
#include "enc.h"
#include <string.h>
using namespace enc;
using namespace gen;

namespace {
Bytes Content(int kind, size_t n) {
  switch (kind) {
    case 0: return Bytes(n, 0);
    case 1: return Bytes(n, (char)0xff);
    case 2: return Noise(n, 901);
    case 3: { Bytes b; for (size_t i = 0; i < n; i++) b.push_back((char)(i % 2 ? 0xf1 : 0xff)); return b; }
    case 4: return Bytes(n, 'a');
    default: { Bytes b(n, 0); if (n) b[n - 1] = 1; if (n > 2) b[0] = (char)0x80; return b; }
  }
}
const int kKinds = 6;
// One window that adds `c` literally, with the given stored checksum.
Bytes OneWindow(const Bytes& c, int fmt, uint64_t sum, int how) {
  ref::WinSpec w; w.target_len = c.size();
  bool il = IsIL(fmt);
  bool run = how == 1 && !c.empty() && c == Bytes(c.size(), c[0]);
  if (!c.empty()) {
    w.inst.push_back(run ? 0 : 1); ref::PutVarint(&w.inst, c.size());
    (il ? w.inst : w.data) += run ? c.substr(0, 1) : c;
  }
  // by hand, so that checksums wider than 32 bits can be written
  Bytes body; ref::PutVarint(&body, w.target_len); body.push_back(0);
  ref::PutVarint(&body, w.data.size()); ref::PutVarint(&body, w.inst.size()); ref::PutVarint(&body, 0);
  ref::PutVarint(&body, sum); body += w.data + w.inst;
  Bytes d(1, (char)4); ref::PutVarint(&d, body.size());
  return d + body;
}
void Verdict(const Bytes& dict, const Bytes& delta, bool want, const Bytes& out, const std::string& what) {
  for (size_t chunk : {(size_t)0, (size_t)1, (size_t)977}) {
    if (chunk && delta.size() > 3000 && chunk == 1) continue;
    Outcome o = chunk ? RealUniform(dict, delta, chunk) : RealWhole(dict, delta);
    vp::Trace();
    if (o.ok != want) vp::Fail(std::string(want ? "correct checksum rejected: " : "wrong checksum accepted: ") + what + vp::Str(" (chunks of %zu) delta=", chunk) + vp::Hex(delta, 120));
    if (want && o.out != out) vp::Fail("wrong output: " + what);
  }
  for (size_t last : {(size_t)1, (size_t)2}) {   // the window's last bytes arrive alone
    if (delta.size() <= last) continue;
    Outcome o = Real(dict, delta, {delta.size() - last});
    vp::Trace();
    if (o.ok != want || (want && o.out != out)) vp::Fail(std::string(want ? "correct checksum rejected: " : "wrong checksum accepted: ") + what + vp::Str(" (last %zu bytes alone) delta=", last) + vp::Hex(delta, 120));
  }
}
std::vector<size_t> Lengths(bool thorough) {
  std::vector<size_t> v; for (size_t i = 0; i <= 140; i++) v.push_back(i);
  for (size_t b : {255, 256, 5551, 5552, 5553, 5567, 5568, 5569, 11103, 11104, 11105, 11120, 16655, 16656, 16657, 65520, 65521, 65522, 65536, 131072}) v.push_back(b);
  if (thorough) { for (size_t i = 141; i <= 6000; i++) v.push_back(i); v.push_back(1u << 22); }
  return v;
}
}  // namespace
namespace vp {
void Setup() {
  static std::vector<size_t> L = Lengths(Thorough());
  AddSpace("stored-values", L.size() * kKinds, [](uint64_t u) {
    size_t n = L[u / kKinds]; Bytes c = Content((int)(u % kKinds), n);
    uint32_t s = ref::Adler32(c.data(), n);
    Bytes dict = "unused";
    for (int f : {S_STD_SUM, S_IL_SUM}) for (int how = 0; how < 2; how++) {
      if (how == 1 && !(n && c == Bytes(n, c[0]))) continue;
      Bytes h = ref::Header('S');
      State();
      std::string what = Str("%zu bytes, content %d, %s", n, (int)(u % kKinds), FmtName(f));
      Verdict(dict, h + OneWindow(c, f, s, how), true, c, what);
      std::vector<uint64_t> wrong;
      for (int b = 0; b < 32; b++) wrong.push_back(s ^ (1u << b));
      for (uint64_t w : {(uint64_t)(s + 1u), (uint64_t)(s - 1u), (uint64_t)(uint32_t)(s + 65536u), (uint64_t)(s & 0xffff), (uint64_t)(s >> 16), (uint64_t)(s << 16 | s >> 16),
                         (uint64_t)0, (uint64_t)1, (uint64_t)0xffffffffu, (uint64_t)(s | 0x80000000u), (uint64_t)(s & 0x7fffffffu), (uint64_t)(uint32_t)(s + (n % 65521) * 65536u + 1)}) wrong.push_back(w);
      for (uint64_t w : {s + (1ull << 32), s + (1ull << 33), s + (1ull << 40), s | (1ull << 62)}) wrong.push_back(w);   // do not fit 32 bits
      for (uint64_t w : wrong) if (w != s) {
        if (n > 3000 && (w % 3)) { if (w < (1ull << 32) && w != 0 && (w ^ s) != 0x80000000u) continue; }
        Verdict(dict, h + OneWindow(c, f, w, how), false, c, what + Str(", stored %llx, right %x", (unsigned long long)w, s));
      }
    }
    Sample(Str("%zu bytes: right checksum accepted, 48 wrong ones rejected", n));
  }, "window lengths 0..140 and around 5552, 65521 x 6 contents x both layouts: right value accepted; all 32 single-bit errors, neighbours, halves, truncated/extended values rejected");

  AddSpace("large", 14 * 2, [](uint64_t u) {
    static const size_t N[] = {262143, 262145, 524289, 1048575, 1048576, 1048577, 2097151, 2097153, 4194305, 8388609, 16777215, 16777217, 33554433, 50331649};
    size_t n = N[u / 2]; int f = u % 2 ? S_IL_SUM : S_STD_SUM; Bytes c = Pattern(n), h = ref::Header('S');
    uint32_t s = ref::Adler32(c.data(), n);
    auto go = [&](uint64_t sum, bool want, const char* what) {
      Bytes d = h + OneWindow(c, f, sum, 0); State(); Trace();
      Outcome o = RealWhole("", d);
      if (o.ok != want) Fail(std::string(want ? "correct checksum rejected: " : "wrong checksum accepted: ") + what + Str(" window of %zu bytes ", n) + FmtName(f));
      if (want && o.out != c) Fail("wrong output");
      if (n < 5000000) { Outcome q = RealUniform("", d, n / 5); if (q.ok != want) Fail(std::string(want ? "correct checksum rejected" : "wrong checksum accepted") + " in pieces"); Trace(); }
    };
    go(s, true, "right");
    go(s ^ 1, false, "low bit"); go(s ^ 0x80000000u, false, "high bit"); go(1, false, "checksum of nothing");
    for (size_t at : {(size_t)0, n / 2, n - 1}) { c[at] ^= 4; go(s, false, at ? at == n - 1 ? "last byte differs" : "middle byte differs" : "first byte differs"); c[at] ^= 4; }
    for (size_t k = 1; k < n; k *= 16) { go(ref::Adler32(c.data(), k), false, "sum of a prefix"); go(ref::Adler32(c.data() + n - k, k), false, "sum of a suffix"); if (n > 3000000 && k > 16) k *= 64; }
    go(ref::Adler32(c.data(), n - 1), false, "sum without the last byte");
    if (n > (1u << 20)) go(ref::Adler32(c.data(), 1u << 20), false, "sum of the first megabyte");
    // the encoder's own
    Dict d(Pattern(3000).substr(2000));
    for (int combo : {2, 3, 6}) {
      if (n > 9000000 && combo == 6) continue;
      Bytes delta; VP_CHECK(Encode(d.h, c, {}, Flags(combo), TargetMatching(combo), &delta), "encoding failed");
      ref::Result r = ref::Decode(d.bytes, delta); State(); Trace();
      if (r.verdict != ref::OK || r.out != c) Fail(std::string("encoder output: ") + r.reason + Str(" (%zu bytes) ", n) + ComboName(combo));
      if (r.windows.empty() || !r.windows[0].has_checksum || r.windows[0].checksum != s) Fail(Str("encoder's checksum of %zu bytes is wrong", n));
    }
    Sample(Str("window of %zu bytes, %s", n, FmtName(f)));
  }, "windows of 2^18..3*2^24 bytes: right value accepted, changed content at start/middle/end and sums of prefixes and suffixes rejected; encoder's value recomputed");

  AddSpace("several-windows", 4 * 4 * 4, [](uint64_t u) {
    // each window judged by its own bytes; a wrong one anywhere fails the decode
    static const size_t N[] = {0, 1, 17, 300};
    size_t n[3] = {N[u % 4], N[u / 4 % 4], N[u / 16]};
    for (int f : {S_STD_SUM, S_IL_SUM}) for (int k = 0; k < 3; k++) for (int wrong = -1; wrong < 3; wrong++) for (int plain = -1; plain < 3; plain++) {
      Bytes d = ref::Header('S'), all; bool ok = true;
      for (int w = 0; w < 3; w++) {
        Bytes c = Content((w + k) % kKinds, n[w]); uint32_t s = ref::Adler32(c.data(), c.size());
        if (w == plain) {
          ref::WinSpec p; p.target_len = c.size();
          if (!c.empty()) { p.inst.push_back(1); ref::PutVarint(&p.inst, c.size()); (IsIL(f) ? p.inst : p.data) += c; }
          d += ref::MakeWindow(p);
        } else { if (w == wrong) ok = false; d += OneWindow(c, f, w == wrong ? (uint64_t)(s ^ 0x10000) : s, 0); }
        all += c;
      }
      State();
      Verdict("", d, ok, all, Str("three windows %zu,%zu,%zu, wrong one %d, without checksum %d", n[0], n[1], n[2], wrong, plain));
      // cumulative checksum is not the window's checksum
    }
    Sample("three windows, any of them wrong or without checksum");
  }, "three windows of 0/1/17/300 bytes: every position of a wrong checksum and of a window without one");

  AddSpace("resumed", 256, [](uint64_t u) {
    // a long instruction, then each opcode as the last one; the end of the window arrives in every possible way
    Bytes dict = Pattern(400); static const ref::Table t = ref::DefaultTable();
    for (int f : {S_STD_SUM, S_IL_SUM}) for (uint32_t n : {20, 300, 5000}) for (int first : {1, 0, 19}) {
      if (first == 19 && n > 300) continue;
      ref::Emitter e(t, 4, 3, IsIL(f), 400);
      if (!e.Op(first, n, 2, 0, 0) || !e.Op((int)u, 7, 2, 9, 2)) { Tally("not representable"); continue; }
      ref::WinSpec w = e.Spec(5, 0); w.checksum = true;
      ref::WinSpec plain = w; plain.checksum = false; plain.indicator = 1;
      ref::Result r = ref::Decode(dict, ref::Header('S') + ref::MakeWindow(plain));
      if (r.verdict != ref::OK) { Tally("not well-formed"); continue; }
      uint32_t right = ref::Adler32(r.out.data(), r.out.size()); State();
      for (uint32_t sum : {right, right ^ 1u, right ^ 0x80000000u, 0u}) {
        w.checksum_value = sum; bool want = sum == right;
        Bytes d = ref::Header('S') + ref::MakeWindow(w);
        auto go = [&](const std::vector<size_t>& cuts) {
          Outcome o = Real(dict, d, cuts); Trace();
          if (o.ok != want || (want && o.out != r.out)) Fail(std::string(want ? "correct checksum rejected" : "wrong checksum accepted") + Str(": window ends with opcode %d after %u bytes, cut at %zu, ", (int)u, n, cuts.empty() ? 0 : cuts[0]) + FmtName(f));
        };
        go({});
        for (size_t k = 1; k <= 14 && k < d.size(); k++) { go({d.size() - k}); if (k > 1) go({d.size() - k, d.size() - 1}); }
        if (n < 400 || (want && u % 16 == 0)) { Outcome o = RealUniform(dict, d, 1); Trace(); if (o.ok != want) Fail("verdict differs byte by byte: " + Hex(d, 100)); }
      }
    }
    Sample(Str("windows ending with opcode %d, resumed at each of the last 14 bytes", (int)u));
  }, "window of a 20/300/5000-byte ADD, RUN or COPY and each of the 256 opcodes as the last one x both layouts x right and 3 wrong checksums x 27 cuts near the end");

  AddSpace("corruption", Corpus().size() * 4, [](uint64_t u) {
    const Case& c = Corpus()[u / 4];
    if (c.name.find("checksum") == std::string::npos) return;
    uint64_t k = 0;
    ForMutants(c.delta, 1, [&](const Bytes& m) {
      if (k++ % 4 != u % 4) return;
      ref::Result r = ref::Decode(c.dict, m);
      if (!Runnable(r) || r.odd) return;
      Outcome o = RealWhole(c.dict, m); State(); Trace();
      if (o.ok != (r.verdict == ref::OK) || (o.ok && o.out != r.out)) Fail(std::string("corrupted checksummed delta ") + (o.ok ? "accepted" : "rejected") + ", model: " + r.reason + " " + Hex(m));
    });
    // wrong dictionaries
    for (size_t i = u % 4; i < c.dict.size(); i += 4) for (int v = 0; v < 256; v++) {
      Bytes d = c.dict; if (d[i] == (char)v) continue; d[i] = (char)v;
      ref::Result r = ref::Decode(d, c.delta); Outcome o = RealWhole(d, c.delta); State(); Trace();
      if (o.ok != (r.verdict == ref::OK) || (o.ok && o.out != r.out)) Fail(std::string("wrong dictionary ") + (o.ok ? "accepted" : "rejected") + ", model: " + r.reason + " " + Hex(c.delta));
    }
    Sample(c.name + ": every corrupted byte and every wrong dictionary byte");
  }, "every single-byte change of the checksummed corpus deltas and of their dictionaries (all values)");

  AddSpace("encoder", L.size() * 2, [](uint64_t u) {
    size_t n = L[u / 2]; Dict d(u % 2 ? Noise(200, 902) : Bytes());
    for (int kind = 0; kind < kKinds; kind++) for (int combo = 0; combo < 8; combo++) {
      Bytes c = Content(kind, n); if (u % 2) c += d.bytes.substr(10, 60);
      for (auto cuts : std::vector<std::vector<size_t>>{{}, {n / 2}, {0, n / 3, n / 3, n}}) {
        Bytes delta; VP_CHECK(Encode(d.h, c, cuts, Flags(combo), TargetMatching(combo), &delta), "encoding failed");
        ref::Result r = ref::Decode(d.bytes, delta); State(); Trace();
        if (r.verdict != ref::OK || r.out != c) Fail(std::string("encoder output: ") + r.reason + Str(" (%zu bytes, content %d) ", n, kind) + ComboName(combo));
        for (auto& w : r.windows) if (w.has_checksum != ((combo & 2) != 0)) Fail("checksum present/absent against the request: " + ComboName(combo));
        if (combo & 2) { Outcome o = RealWhole(d.bytes, delta); VP_CHECK(o.ok && o.out == c, "the encoder's checksum is rejected by the decoder"); }
      }
    }
    Sample(Str("encoder, %zu bytes", n));
  }, "encoder with and without checksums over the same lengths and contents, 3 chunkings, 8 option combinations; stored value recomputed");
}
}  // namespace vp
