// C25: a delta is never much larger than its target; literals and copies are not fragmented.
#include "enc.h"
#include <string.h>
using namespace enc;

namespace {
const size_t kFile = 5, kChunk = 50;   // what a delta may cost beyond the target: per file, per chunk
void Economy(const Input& in) {
  int flags = Flags(in.combo); bool tm = TargetMatching(in.combo);
  auto bad = [&](const std::string& w, const Bytes& d) { vp::Fail(w + ": " + in.Describe() + " delta=" + vp::Hex(d, 400)); };
  Bytes delta; std::vector<size_t> sizes;
  if (!Encode(in.hashed, *in.target, *in.cuts, flags, tm, &delta, &sizes)) bad("encoding failed", delta);
  size_t before = 0, done = 0;
  for (size_t k = 0; k < sizes.size(); k++) {
    size_t upto = k == 0 ? 0 : k - 1 < in.cuts->size() ? std::min((*in.cuts)[k - 1], in.target->size()) : in.target->size();
    size_t chunk = upto - done, made = sizes[k] - before;
    size_t allowed = k == 0 ? kFile : chunk == 0 ? 0 : chunk + kChunk;
    if (made > allowed) bad(vp::Str("%zu bytes put out for a chunk of %zu bytes", made, chunk), delta);
    done = upto; before = sizes[k];
  }
  ref::Result r = ref::Decode(*in.dict, delta);
  if (r.verdict != ref::OK) bad("output is not a well-formed delta", delta);
  for (const ref::Window& w : r.windows) {
    size_t adds = 0, others = 0; int last = -1;
    uint64_t cost = 0;
    for (const ref::Inst& i : w.insts) {
      if (i.type == ref::ADD) { adds++; if (last == ref::ADD) bad("a stretch of literal bytes is split into several instructions", delta); } else others++;
      last = i.type; cost += i.type == ref::ADD ? i.size + 6 : i.type == ref::RUN ? 7 : 11;
    }
    if (w.end - w.begin > cost + 42) bad("a window is larger than its instructions account for", delta);
    if (adds > others + 1) bad("literal bytes are spread over more instructions than necessary", delta);
  }
}
// JSON: what each byte may cost as text, however it is escaped, plus brackets.
void JsonEconomy(const Dict& d, const Bytes& t, size_t cut, bool tm) {
  open_vcdiff::VCDiffStreamingEncoder e(d.h, open_vcdiff::VCD_FORMAT_JSON, tm); Bytes out;
  bool ok = e.StartEncoding(&out);
  if (cut) ok = ok && e.EncodeChunk(t.data(), cut, &out);
  ok = ok && e.EncodeChunk(t.data() + cut, t.size() - cut, &out) && e.FinishEncoding(&out);
  if (!ok) vp::Fail("JSON encoding failed");
  size_t allowed = 16; for (unsigned char c : t) allowed += c < 32 || c > 126 || strchr("\"\\/<>&'", c) ? 6 : 1;
  if (out.size() > allowed) vp::Fail(vp::Str("JSON text of %zu bytes for a target of %zu bytes: ", out.size(), t.size()) + out.substr(0, 300));
  vp::Transition(); vp::Trace();
}
}  // namespace
namespace vp {
void Setup() {
  AddFamilies(Economy, 3);
  AddSpace("literals", 20, [](uint64_t u) {
    // nothing to copy: the delta is the target plus a constant, at every length
    Bytes noise = Noise((1u << 21) + 70, 91); static const std::vector<size_t> none;
    Dict empty(""), other(Noise(4000, 92));
    auto one = [&](const Bytes& t, const std::vector<size_t>& cuts) {
      for (const Dict* d : {&empty, &other}) for (int c = 0; c < kCombos; c++) { State(); Input in{&d->bytes, d->h, &t, &cuts, c}; VP_NOTE(in.Describe()); Economy(in); Trace(); }
    };
    for (size_t n = u; n < 1400; n += 20) { Bytes t = noise.substr(3, n); one(t, none); if (n > 2) one(t, {1, n / 2}); }
    if (u < 11) for (int k = -2; k < 3; k++) { size_t n = (size_t)((1ll << (11 + u)) + k); if (n > noise.size()) break; Bytes t = noise.substr(0, n); one(t, none); }
    Sample("targets without anything to copy");
  }, "incompressible targets of every length 0..1399 and 2^k-2..2^k+2 for k = 11..21, with and without dictionary, 8 option combinations");
  AddSpace("worst-copies", 24, [](uint64_t u) {
    // as many copies of the shortest length as possible, far apart, with 0..3 literal bytes between
    size_t len = 24 + u; Dict d(Noise(200000, 93)); static const std::vector<size_t> none;
    for (size_t gap = 0; gap < 4; gap++) for (size_t n : {1, 2, 3, 10, 50, 400}) {
      Bytes t; for (size_t k = 0; k < n; k++) { t += d.bytes.substr((k * 40009 + 13) % 199000, len); t += Bytes(gap, (char)(k * 7)); }
      for (int c = 0; c < kCombos; c++) { State(); Input in{&d.bytes, d.h, &t, &none, c}; VP_NOTE(in.Describe()); Economy(in); Trace(); }
    }
    Sample(Str("copies of %zu bytes", len));
  }, "up to 400 scattered dictionary pieces of 24..47 bytes with 0..3 literal bytes between, 8 option combinations");
  AddSpace("json", 16, [](uint64_t u) {
    Bytes text; for (size_t i = 0; i < 100000; i++) { uint32_t x = (uint32_t)(i * 2654435761u) ^ (uint32_t)(i * i * 40503u); text += (char)(x >> 13 & 127); }
    Dict d(text);
    for (size_t len = 20 + u; len < 120; len += 16) for (size_t gap : {0, 1, 3}) for (size_t n : {0, 1, 2, 30, 300}) {
      Bytes t; for (size_t k = 0; k < n; k++) { t += text.substr((k * 40009 + 13) % 99000, len); t += Bytes(gap, (char)(k * 7 & 127)); }
      for (int tm = 0; tm < 2; tm++) { State(); VP_NOTE(Str("%zu pieces of %zu, gap %zu", n, len, gap)); JsonEconomy(d, t, 0, tm); if (t.size() > 2) JsonEconomy(d, t, t.size() / 2, tm); }
    }
    Bytes plain; for (size_t i = 0; i < 150000; i++) { uint32_t x = (uint32_t)(i * 2246822519u) ^ (uint32_t)(i * i * 3266489917u); char c = (char)(32 + (x >> 11) % 95); plain += strchr("\"\\/<>&'", c) ? 'x' : c; }
    Dict e(""); for (size_t n : {5000, 70000, 150000}) { State(); JsonEconomy(e, plain.substr(0, n - u), 0, u & 1); }
    for (size_t n = u; n < 3000; n += 16 * 7) { State(); JsonEconomy(e, plain.substr(0, n), n / 3, false); }
    Sample("JSON text sizes");
  }, "JSON: scattered pieces of 20..119 bytes with gaps, plain text of many lengths, one and two chunks");
}
}  // namespace vp
