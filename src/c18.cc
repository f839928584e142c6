// C18: streaming output is prompt, append-only, and the container grows at most once per window.
#include "gen.h"
#include <string.h>
#include <algorithm>
#include <functional>
#include "google/output_string.h"
#include "google/vcdecoder.h"
using namespace gen;
using namespace open_vcdiff;

namespace {
// An output that records what is done to it.
class Recorder : public OutputStringInterface {
 public:
  Bytes s; size_t cap = 0; uint64_t growths = 0; bool cleared = false;
  explicit Recorder(const Bytes& old) : s(old), cap(old.size()) {}
  void Need(size_t n) { if (n > cap) { cap = n; growths++; } }
  OutputStringInterface& append(const char* p, size_t n) override { Need(s.size() + n); s.append(p, n); return *this; }
  void clear() override { s.clear(); cleared = true; }
  void push_back(char c) override { Need(s.size() + 1); s.push_back(c); }
  void ReserveAdditionalBytes(size_t n) override { Need(s.size() + n); }
  size_t size() const override { return s.size(); }
};
// A string class of another type for the template interface.
struct Other {
  std::vector<char> v; uint64_t growths = 0; bool cleared = false;
  void append(const char* p, size_t n) { if (v.size() + n > v.capacity()) { v.reserve(v.size() + n); growths++; } v.insert(v.end(), p, p + n); }
  void clear() { v.clear(); cleared = true; }
  void push_back(char c) { append(&c, 1); }
  void reserve(size_t n) { if (n > v.capacity()) { v.reserve(n); growths++; } }
  size_t size() const { return v.size(); }
};
struct Plan { const Bytes* dict; const Bytes* delta; bool allow; std::vector<size_t> min_out, windows; ref::Result full; };
// What must have been delivered after each prefix.
Plan MakePlan(const Bytes& dict, const Bytes& delta, bool allow) {
  Plan p; p.dict = &dict; p.delta = &delta; p.allow = allow;
  ref::Options o; o.allow_target = allow;
  p.full = ref::Decode(dict, delta, o);
  for (size_t n = 0; n <= delta.size(); n++) {
    ref::Result r = ref::Decode(dict, delta.substr(0, n), o);
    p.min_out.push_back(r.verdict == ref::BAD ? (p.min_out.empty() ? 0 : p.min_out.back()) : r.out.size());
    p.windows.push_back(r.windows.size() + 1);
  }
  return p;
}
// The same for chosen prefixes only (long deltas).
Plan MakePlanAt(const Bytes& dict, const Bytes& delta, bool allow, const std::vector<size_t>& at) {
  Plan p; p.dict = &dict; p.delta = &delta; p.allow = allow;
  ref::Options o; o.allow_target = allow;
  p.full = ref::Decode(dict, delta, o);
  p.min_out.assign(delta.size() + 1, 0); p.windows.assign(delta.size() + 1, 0);
  std::vector<size_t> pts = at; pts.push_back(delta.size());
  for (size_t n : pts) {
    ref::Result r = ref::Decode(dict, delta.substr(0, n), o);
    if (r.verdict == ref::BAD) vp::Fail("harness: malformed delta");
    p.min_out[n] = r.out.size(); p.windows[n] = r.windows.size() + 1;
  }
  return p;
}
const Bytes kOld = "kept";
void Drive(const Plan& p, const std::vector<size_t>& cuts, int mode) {
  // mode 0: recorder, 1: std::string, 2: other type, 3: a fresh output per call
  VP_NOTE([&] { std::string s = "cuts "; for (size_t c : cuts) s += std::to_string(c) + ","; return s + vp::Str(" mode %d allow %d ", mode, p.allow) + vp::Hex(*p.delta); }());
  VCDiffStreamingDecoder dec; dec.SetAllowVcdTarget(p.allow);
  vp::Exact d(*p.dict); dec.StartDecoding(d.p, d.n);
  Recorder rec(kOld); Bytes str = kOld; Other oth; oth.append(kOld.data(), kOld.size()); oth.growths = 0; Bytes total = kOld;
  size_t pos = 0, cap = 0, str_growths = 0; cap = str.capacity();
  for (size_t k = 0; k <= cuts.size(); k++) {
    size_t end = k < cuts.size() ? cuts[k] : p.delta->size();
    bool ok;
    {
      vp::Exact c(p.delta->data() + pos, end - pos);
      switch (mode) {
        case 0: ok = dec.DecodeChunkToInterface(c.p, c.n, &rec); break;
        case 1: ok = dec.DecodeChunk(c.p, c.n, &str); break;
        case 2: ok = dec.DecodeChunk(c.p, c.n, &oth); break;
        default: { Bytes fresh = "#"; ok = dec.DecodeChunk(c.p, c.n, &fresh); if (fresh.empty() || fresh[0] != '#') vp::Fail("existing content of the output was changed"); total += fresh.substr(1); }
      }
    }
    vp::Transition();
    if (!ok) break;
    pos = end;
    Bytes got = mode == 0 ? rec.s : mode == 1 ? str : mode == 2 ? Bytes(oth.v.begin(), oth.v.end()) : total;
    auto bad = [&](const std::string& w) { std::string s; for (size_t c : cuts) s += std::to_string(c) + ","; vp::Fail(w + vp::Str(" after %zu of %zu bytes (output type %d, target references %s), cuts ", pos, p.delta->size(), mode, p.allow ? "allowed" : "not allowed") + s + " delta=" + vp::Hex(*p.delta)); };
    if (got.compare(0, kOld.size(), kOld) || rec.cleared || oth.cleared) bad("existing content of the output was changed");
    got.erase(0, kOld.size());
    if (got.size() < p.min_out[pos]) bad(vp::Str("only %zu bytes delivered, %zu are fully received", got.size(), p.min_out[pos]));
    if (got.size() > p.full.out.size() || p.full.out.compare(0, got.size(), got)) bad("delivered bytes are not the target's");
    size_t nwin = p.windows[pos];
    if (mode == 0 && rec.growths > nwin) bad(vp::Str("output made to grow %llu times for %zu windows", (unsigned long long)rec.growths, nwin));
    if (mode == 2 && oth.growths > nwin) bad(vp::Str("output made to grow %llu times for %zu windows", (unsigned long long)oth.growths, nwin));
    if (mode == 1 && str.capacity() != cap) { cap = str.capacity(); if (++str_growths > nwin) bad("string reallocated more often than once per window"); }
  }
  vp::Trace();
}
}  // namespace
namespace vp {
void Setup() {
  Corpus();
  AddSpace("cuts", Corpus().size() * 4, [](uint64_t u) {
    const Case& c = Corpus()[u / 4]; size_t n = c.delta.size();
    for (int allow = 0; allow < 2; allow++) {
      Plan p = MakePlan(c.dict, c.delta, allow); State(n);
      for (size_t k = 1 + u % 4; k <= n; k += 4) { std::vector<size_t> cuts; for (size_t i = k; i < n; i += k) cuts.push_back(i); for (int m = 0; m < 4; m++) Drive(p, cuts, m); }
      for (size_t i = u % 4; i <= n; i += 4) for (int m = 0; m < 4; m++) {
        Drive(p, {i}, m); Drive(p, {i, i, i}, m);
        for (size_t j = i + 1; j <= n; j += n > 120 ? 5 : 1) Drive(p, {i, j}, m);
      }
    }
    Sample(c.name + ": all chunk sizes, all pairs of cuts");
  }, "every corpus delta x all uniform chunk sizes x all pairs of cuts x 4 kinds of output x target references allowed/not");
  AddSpace("partitions", Corpus().size() * 4, [](uint64_t u) {
    const Case& c = Corpus()[u / 4]; size_t n = c.delta.size(); if (n < 6) return; size_t bits = n - 5;
    if (bits > (Thorough() ? 18u : 14u)) return;
    for (int allow = 0; allow < 2; allow++) {
      Plan p = MakePlan(c.dict, c.delta, allow); State(n);
      for (uint64_t m = u % 4; m < (1ull << bits); m += 4) { std::vector<size_t> cuts; for (size_t i = 0; i < bits; i++) if (m >> i & 1) cuts.push_back(5 + i); Drive(p, cuts, (int)(m / 4 % 4)); }
    }
  }, "all partitions of every corpus delta with at most 14 (thorough 18) bytes after the header");
  AddSpace("long-windows", 2 * 3 * 4, [](uint64_t u) {
    // windows with many instructions and long ones; interleaved and not
    int f = u % 2 ? S_IL : V0; int kind = (int)(u / 2 % 3); int mode = (int)(u / 6);
    Bytes dict(2000, 'd'); for (size_t i = 0; i < dict.size(); i++) dict[i] = (char)(i * 13 + i / 200);
    Bytes delta = ref::Header(Version(f));
    for (int w = 0; w < 4; w++) {
      ref::Emitter e(ref::DefaultTable(), 4, 3, IsIL(f), 2000);
      for (int i = 0; i < (kind == 0 ? 60 : 6); i++) { e.Op(1, kind == 2 ? 400 : 3, 0, 0, 0); e.Op(19, kind == 1 ? 1500 : 9, 1, 0, 0); e.Op(0, kind == 1 ? 700 : 4, 2, 0, 0); }
      AddWindow(dict, &delta, e.Spec(1, 0), f);
    }
    for (int allow = 0; allow < 2; allow++) {
      Plan p = MakePlan(dict, delta, allow); State(delta.size());
      for (size_t k : {1, 2, 3, 5, 17, 64, 100, 333, 1000}) { std::vector<size_t> cuts; for (size_t i = k; i < delta.size(); i += k) cuts.push_back(i); Drive(p, cuts, mode); }
      for (size_t i = 0; i <= delta.size(); i += 7) Drive(p, {i, std::min(delta.size(), i + 40)}, mode);
    }
    Sample(Str("4 windows of kind %d, %s", kind, FmtName(f)));
  }, "4 large windows with many/long instructions, 9 chunk sizes and sliding pairs of cuts, 4 kinds of output");
  AddSpace("instruction-boundaries", 3 * 3 * 22, [](uint64_t u) {
    // one long instruction between two others; cuts exactly at the places where something becomes complete
    static const uint32_t base[22] = {2, 3, 18, 64, 127, 128, 255, 256, 257, 512, 1000, 1024, 1400, 1500, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 131072};
    int kind = (int)(u % 3), place = (int)(u / 3 % 3); uint32_t b = base[u / 9];
    Bytes dict(140000, 'd'); for (size_t i = 0; i < dict.size(); i++) dict[i] = (char)(i * 13 + i / 200);
    for (uint32_t size = b - 1; size <= b + 1; size++) {
      Bytes delta = ref::Header(Version(S_IL));
      for (int w = 0; w < 2; w++) {
        ref::Emitter e(ref::DefaultTable(), 4, 3, true, (uint32_t)dict.size());
        auto small = [&](int k) { if (k == 0) e.Op(1, 3, 0, 0, 0); else if (k == 1) e.Op(19, 9, 1, 0, 0); else e.Op(0, 5, 0, 0, 0); };
        auto big = [&] { if (kind == 0) e.Op(1, size, 0, 0, 0); else if (kind == 1) e.Op(19, size, 0, 0, 0); else e.Op(0, size, 0, 0, 0); };
        if (place != 0) small(place); big(); if (place != 1) small(2 - place); if (w) big();
        AddWindow(dict, &delta, e.Spec(1, 0), S_IL);
      }
      // the points where another byte makes the prescribed output longer, and their neighbours
      size_t n = delta.size(); std::vector<size_t> pts;
      ref::Result full = ref::Decode(dict, delta); if (full.verdict != ref::OK) Fail("harness: malformed delta");
      std::function<void(size_t, size_t, size_t, size_t)> find = [&](size_t lo, size_t lo_out, size_t hi, size_t hi_out) {
        if (lo_out == hi_out) return;
        if (hi - lo == 1) { pts.push_back(hi); return; }
        size_t mid = (lo + hi) / 2; size_t m = ref::Decode(dict, delta.substr(0, mid)).out.size();
        find(lo, lo_out, mid, m); find(mid, m, hi, hi_out);
      };
      find(0, 0, n, full.out.size()); State(pts.size());
      std::vector<size_t> at; for (size_t p : pts) for (int o = -2; o <= 2; o++) if (p + o > 0 && p + o < n) at.push_back(p + o);
      std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
      for (int allow = 0; allow < 2; allow++) {
        Plan p = MakePlanAt(dict, delta, allow, at);
        Drive(p, at, (int)((u + size) % 4));
        std::vector<size_t> ends; for (size_t q : pts) if (q < n) ends.push_back(q);
        Drive(p, ends, (int)((u + size) % 4));
        for (size_t q : at) { Drive(p, {q}, 0); for (size_t r : ends) if (r > q) Drive(p, {q, r}, (int)(q % 4)); }
      }
    }
    Sample(Str("instruction of %u bytes", b));
  }, "interleaved windows with an ADD/COPY/RUN of 22 sizes 2..2^17, each -1/0/+1, before, after and between small ones: all places where an instruction becomes complete, -2..+2, as cuts, alone, in pairs and all together");
  AddSpace("large", kLargeUnits, [](uint64_t u) {
    ForLarge(u, [&](const Bytes& dict, const Bytes& delta, uint32_t size, const std::string& what) {
      size_t n = delta.size(); State();
      VP_NOTE(what);
      std::vector<std::vector<size_t>> sets;
      if (n < 2000) {
        std::vector<size_t> all; for (size_t i = 5; i < n; i += size < 300000 ? 1 : 3) all.push_back(i);
        sets.push_back(all); sets.push_back({12, n / 3, n / 2}); sets.push_back({n / 2, n - 4});
      } else {
        sets.push_back({13, n / 4, n / 2, n / 2 + 1, n - 30, n - 10}); sets.push_back({7, n / 3, n - 21});
        if (size < 300000) { std::vector<size_t> many; for (size_t i = 4099; i < n; i += 4099) many.push_back(i); sets.push_back(many); }
      }
      for (auto& cuts : sets) { Plan p = MakePlanAt(dict, delta, true, cuts); for (int m = 0; m < 4; m++) if (size < 9000000 || m == (int)(u % 4) || (m == 0 && cuts.size() > 3)) Drive(p, cuts, m); }
    });
    Sample("windows of 2^16..2^25 bytes");
  }, "windows with one ADD/RUN/COPY of 2^k-1, 2^k, 2^k+1 bytes, k = 16..25, in several chunkings, 4 kinds of output");
  AddSpace("malformed", Corpus().size() * 4, [](uint64_t u) {
    const Case& c = Corpus()[u / 4]; if (c.delta.size() > 60) return; uint64_t k = 0;
    ForMutants(c.delta, 0, [&](const Bytes& m) {
      if (k++ % 4 != u % 4 || (k % 5 && !Thorough())) return;
      ref::Result r = ref::Decode(c.dict, m); if (!Runnable(r) || r.odd) return;
      Plan p = MakePlan(c.dict, m, true); State();
      std::vector<size_t> one; for (size_t i = 1; i < m.size(); i++) one.push_back(i);
      Drive(p, one, (int)(k % 4));
    });
  }, "every 5th (thorough: every) single-byte corruption of the short corpus deltas, byte by byte: as long as calls succeed the output is prompt and right");
}
}  // namespace vp
