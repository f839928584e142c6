// C04: the verdict and the output do not depend on how the delta is cut into chunks.
#include "gen.h"
#include "google/vcdecoder.h"
using namespace gen;

namespace {
struct Expect { ref::Result r; Outcome whole; ref::Options o; };
Expect Base(const Bytes& dict, const Bytes& delta, const ref::Options& o = ref::Options()) {
  Expect e; e.r = ref::Decode(dict, delta, o); e.o = o;
  if (Runnable(e.r)) e.whole = RealWhole(dict, delta, o);
  return e;
}
std::string Cuts(const std::vector<size_t>& c) { std::string s; for (size_t x : c) s += std::to_string(x) + ","; return s; }
void Compare(const Bytes& dict, const Bytes& delta, const Expect& e, const Outcome& x, const std::string& how) {
  vp::Trace();
  if (x.ok != e.whole.ok)
    vp::Fail(vp::Str("verdict differs: whole=%s, chunked=%s (", e.whole.ok ? "success" : "failure", x.ok ? "success" : "failure") + how +
             ") model: " + e.r.reason + " dict=" + vp::Hex(dict, 60) + " delta=" + vp::Hex(delta));
  if (x.ok) {
    if (x.out != e.whole.out) vp::Fail("output differs (" + how + ") delta=" + vp::Hex(delta) + " whole=" + vp::Hex(e.whole.out, 100) + " chunked=" + vp::Hex(x.out, 100));
  } else if (x.out.size() > e.r.out.size() || e.r.out.compare(0, x.out.size(), x.out) != 0) {
    vp::Fail("output delivered before the failure is not a prefix of the described target (" + how + ") delta=" + vp::Hex(delta));
  }
}
void Cut(const Bytes& dict, const Bytes& delta, const Expect& e, const std::vector<size_t>& cuts) {
  VP_NOTE("cuts " + Cuts(cuts) + " delta=" + vp::Hex(delta));
  Compare(dict, delta, e, Real(dict, delta, cuts, e.o), "cuts at " + Cuts(cuts));
}
void Uniform(const Bytes& dict, const Bytes& delta, const Expect& e, size_t n) {
  VP_NOTE(vp::Str("chunks of %zu delta=", n) + vp::Hex(delta));
  Compare(dict, delta, e, RealUniform(dict, delta, n, e.o), vp::Str("chunks of %zu", n));
}
}  // namespace

namespace vp {
void Setup() {
  Corpus();
  AddSpace("all-partitions", Corpus().size() * 16, [](uint64_t u) {
    const Case& c = Corpus()[u / 16];
    size_t n = c.delta.size(), head = 5;   // the 5 header bytes are covered by the other spaces
    size_t bits = n - head;                // cut points before each byte of the tail
    if (n < 6 || bits > (vp::Thorough() ? 22u : 16u)) { vp::Tally("delta too long for all partitions"); return; }
    Expect e = Base(c.dict, c.delta);
    vp::State();
    for (uint64_t m = u % 16; m < (1ull << bits); m += 16) {
      std::vector<size_t> cuts;
      for (size_t i = 0; i < bits; i++) if (m >> i & 1) cuts.push_back(head + i);
      Cut(c.dict, c.delta, e, cuts);
    }
    vp::Sample(c.name + ": all 2^" + std::to_string(bits) + " partitions");
  }, "every one of the 2^k partitions of every corpus delta with at most 16 (thorough 22) bytes after the header");

  AddSpace("null-chunks", Corpus().size(), [](uint64_t u) {
    const Case& c = Corpus()[u]; Expect e = Base(c.dict, c.delta); vp::State();
    if (c.delta.size() > 600) return;
    for (size_t i = 0; i <= c.delta.size(); i++) {
      Outcome x; open_vcdiff::VCDiffStreamingDecoder d; d.StartDecoding(c.dict.data(), c.dict.size());
      bool ok = d.DecodeChunk(c.delta.data(), i, &x.out);
      for (int k = 0; ok && k < 2; k++) ok = d.DecodeChunk(NULL, 0, &x.out);
      if (ok) ok = d.DecodeChunk(c.delta.data() + i, c.delta.size() - i, &x.out);
      x.ok = d.FinishDecoding() && ok; vp::Transition(4);
      Compare(c.dict, c.delta, e, x, vp::Str("two empty chunks without a buffer after %zu bytes", i));
    }
  }, "every corpus delta cut at every byte, with two calls (NULL, 0) in between");

  AddSpace("few-cuts", Corpus().size() * 8, [](uint64_t u) {
    const Case& c = Corpus()[u / 8]; size_t n = c.delta.size();
    for (int target = 0; target < 2; target++) {
      ref::Options o; o.allow_target = !target;
      Expect e = Base(c.dict, c.delta, o);
      vp::State();
      for (size_t k = 1 + u % 8; k <= n + 1; k += 8) Uniform(c.dict, c.delta, e, k);
      size_t step = n > 400 ? 3 : 1;
      for (size_t i = u % 8; i <= n; i += 8) {
        Cut(c.dict, c.delta, e, {i});
        Cut(c.dict, c.delta, e, {i, i});                       // empty chunk
        for (size_t j = i; j <= n; j += step) {
          Cut(c.dict, c.delta, e, {i, j});
          if (n <= (vp::Thorough() ? 80u : 36u)) for (size_t k = j; k <= n; k++) Cut(c.dict, c.delta, e, {i, j, k});
        }
      }
    }
    vp::Sample(c.name + ": all pairs of cuts, all uniform chunk sizes");
  }, "every corpus delta x all uniform chunk sizes x all sets of 1, 2 (short deltas: 3) cuts incl. empty chunks x target references allowed/not");

  AddSpace("mutants", Corpus().size() * 8, [](uint64_t u) {
    const Case& c = Corpus()[u / 8]; uint64_t k = 0;
    size_t n = c.delta.size();
    ForMutants(c.delta, n <= 60 ? 1 : 0, [&](const Bytes& m) {
      if (k++ % 8 != u % 8) return;
      Expect e = Base(c.dict, m);
      if (!Runnable(e.r)) return;
      vp::State();
      for (size_t s : {1, 2, 3}) Uniform(c.dict, m, e, s);
      if (m.size() <= (vp::Thorough() ? 120u : 44u)) for (size_t i = 5; i < m.size(); i++) Cut(c.dict, m, e, {i});
    });
    vp::Sample(c.name + ": single-byte corruptions, chunked");
  }, "every truncation/substitution/insertion/deletion of every corpus delta x chunk sizes 1,2,3 and every single cut");

  AddSpace("long-instructions", 3 * 6, [](uint64_t u) {
    // long ADD / RUN / COPY and large windows, cut around every boundary
    int f = (int)(u % 3) == 0 ? V0 : (u % 3) == 1 ? S_IL : S_IL_SUM;
    int kind = (int)(u / 3);
    Bytes dict; for (int i = 0; i < 3000; i++) dict.push_back((char)(i * 31 + i / 256));
    bool il = IsIL(f);
    ref::WinSpec w; w.indicator = 1; w.src_len = 3000;
    Bytes& D = il ? w.inst : w.data; Bytes& A = il ? w.inst : w.addr;
    uint32_t n[] = {127, 128, 300, 2000, 16384, 20000};
    uint32_t v = n[kind];
    w.inst.push_back(1); ref::PutVarint(&w.inst, v); for (uint32_t i = 0; i < v; i++) D.push_back((char)(i * 7));
    w.inst.push_back(19); ref::PutVarint(&w.inst, v); ref::PutVarint(&A, 2990);
    w.inst.push_back(0); ref::PutVarint(&w.inst, v); D.push_back('r');
    w.inst.push_back(35); ref::PutVarint(&w.inst, v); ref::PutVarint(&A, v + 5);
    w.inst.push_back((char)163); D.push_back('q'); ref::PutVarint(&A, 129);
    w.target_len = 4 * v + 5;
    Bytes delta = ref::Header(Version(f));
    AddWindow(dict, &delta, w, f); AddWindow(dict, &delta, w, f);
    Expect e = Base(dict, delta);
    VP_CHECK(e.whole.ok, "long instructions rejected");
    size_t N = delta.size();
    std::vector<size_t> pts;
    for (size_t i = 0; i < 40 && i < N; i++) { pts.push_back(i); pts.push_back(N / 2 - 20 + i); pts.push_back(N - i); }
    for (size_t i : pts) { Cut(dict, delta, e, {i}); vp::State(); for (size_t j : pts) if (j > i && (i + j) % 3 == 0) Cut(dict, delta, e, {i, j}); }
    for (size_t s : {1, 2, 7, 64, 127, 128, 129, 1000, 4096}) Uniform(dict, delta, e, s);
    vp::Sample("two windows with ADD/COPY/RUN of " + std::to_string(v));
  }, "two windows with instructions of 127..20000 bytes: all cuts around window and instruction boundaries, pairs of them, 9 chunk sizes");

  AddSpace("window-growth", kGrowthUnits, [](uint64_t u) {
    uint64_t k = u;
    ForGrowth(u, [&](const Bytes& dict, const Bytes& delta, const std::string&) {
      Expect e = Base(dict, delta);
      VP_CHECK(e.whole.ok && e.whole.out == e.r.out, "window growth delta rejected or wrong");
      vp::State(); k++;
      for (size_t s : {1, 2, 13, 40}) Uniform(dict, delta, e, s);
      for (size_t i = 5 + k % 5; i < delta.size(); i += 5) Cut(dict, delta, e, {i});
    });
  }, "all triples of window lengths around string growth steps x ways of referring to earlier target data x 5 formats: 4 chunk sizes and every fifth cut");

  AddSpace("table-forms", kTableFormUnits, [](uint64_t u) {
    uint64_t k = 0;
    ForTableForms(u, [&](const Bytes& dict, const Bytes& delta, size_t head, const std::string& what) {
      Expect e = Base(dict, delta); vp::State();
      VP_CHECK(e.whole.ok && e.whole.out == e.r.out, what + " rejected or wrong");
      for (size_t s : {1, 2, 3, 16, 100, 767}) Uniform(dict, delta, e, s);
      for (size_t i = k++ % 3; i < delta.size(); i += i > 40 && i + 60 < head ? 11 : 1) { Cut(dict, delta, e, {i}); if (i < head) Cut(dict, delta, e, {i, head}); }
    });
  }, "3 code tables sent as 8 sequences of 1..6 windows x 4 ways x 5 formats: 6 chunk sizes, cuts at every byte near the ends of the table and every 11th inside");

  static const int kModes = 9;
  AddSpace("cached-copies", kModes * 2 * kModes, [](uint64_t u) {
    // runs of copies whose addresses depend on one another, cut everywhere
    const ref::Table& t = ref::DefaultTable(); Bytes dict = Pattern(600);
    int depth = vp::Thorough() ? 4 : 3; uint64_t tot = 1; for (int i = 0; i < depth; i++) tot *= 18;
    for (uint64_t k = u; k < tot; k += kModes * 2 * kModes) {
      ref::Emitter e(t, 4, 3, true, 500);
      bool ok = e.Op(20, 0, 2, 0, 0); uint64_t x = k;
      for (int i = 0; i < depth && ok; i++) { int s = (int)(x % 18); x /= 18; ok = e.Op((s % 2 ? 20 : 19) + 16 * (s / 2), 1, (int)(k % 5) + i + 1, 0, 0); }
      if (!ok) continue;
      Bytes delta = ref::Header('S'); AddWindow(dict, &delta, e.Spec(1, 3), k % 2 ? S_IL : S_IL_SUM);
      Expect x0 = Base(dict, delta);
      VP_CHECK(x0.whole.ok && x0.whole.out == x0.r.out, "well-formed delta rejected or wrong");
      vp::State();
      Uniform(dict, delta, x0, 1);
      for (size_t i = 8; i < delta.size(); i++) Cut(dict, delta, x0, {i});
    }
    vp::Sample("sequences of copies with cached addresses");
  }, "interleaved windows of 1+3 (thorough 1+4) copies over all 9 address modes x sizes 1 and 4: every cut, and byte by byte");

  AddSpace("large", kLargeUnits, [](uint64_t u) {
    ForLarge(u, [&](const Bytes& dict, const Bytes& delta, uint32_t size, const std::string& what) {
      Expect e = Base(dict, delta);
      VP_CHECK(e.whole.ok && e.whole.out == e.r.out, what + " rejected or wrong");
      size_t n = delta.size();
      vp::State();
      if (n < 2000 && size < 300000) {
        Uniform(dict, delta, e, 1);
        for (size_t i = 5; i < n; i++) Cut(dict, delta, e, {i});
      } else if (n < 2000) {
        Uniform(dict, delta, e, 1); Uniform(dict, delta, e, 3);
        for (size_t i = 12; i < n; i += 6) Cut(dict, delta, e, {i, i + 3});
      } else {
        if (n < (1u << 18) + 100) Uniform(dict, delta, e, 1021);
        Uniform(dict, delta, e, n / 37); Uniform(dict, delta, e, n / 2);
        if (n < (1u << 22)) for (size_t i : {(size_t)6, (size_t)9, (size_t)14, (size_t)22, (size_t)70000, n / 2, n - 30, n - 12, n - 3}) { Cut(dict, delta, e, {i}); Cut(dict, delta, e, {i, i + 1}); }
        else Cut(dict, delta, e, {20, n - 25});
      }
    });
    vp::Sample("windows of 2^16..2^25 bytes in chunks");
  }, "windows with one ADD/RUN/COPY of 2^k-1, 2^k, 2^k+1 bytes, k = 16..25, in chunks of 1 byte up to half the delta and with cuts around the instructions");

  AddSpace("many", kManyUnits, [](uint64_t u) {
    ForMany(u, [&](const Bytes& dict, const Bytes& delta, const std::string& what) {
      Expect e = Base(dict, delta);
      VP_CHECK(e.whole.ok && e.whole.out == e.r.out, what + " rejected or wrong");
      vp::State();
      Uniform(dict, delta, e, 1);
      if (delta.size() < 300000) { Uniform(dict, delta, e, 5); Uniform(dict, delta, e, 1024); }
      vp::Sample(what);
    });
  }, "255..257 and 65535..65537 opcodes in one window, and as many windows, 3 formats: byte by byte (up to a million calls) and in chunks of 5 and 1024");

  AddSpace("limits", 12, [](uint64_t u) {
    // cut independence also under size limits
    const ref::Table& t = ref::DefaultTable(); Bytes dict = "abcdefghij";
    for (int f : {V0, S_IL}) for (int lim = 0; lim < 12; lim++) for (int fl = 0; fl < 24; fl += 3) {
      Bytes delta = ref::Header(Version(f));
      for (int k = 0; k < 3; k++) {
        ref::Emitter e(t, 4, 3, IsIL(f), 10); e.Op(19, 1 + (int)(u + k) % 7, 0, 0, 0); e.Op(2, 0, 0, 0, 0);
        AddWindow(dict, &delta, e.Spec(1, 0), f);
      }
      ref::Options o; o.max_window = lim; o.max_file = fl;
      Expect e = Base(dict, delta, o);
      vp::State();
      for (size_t i = 0; i <= delta.size(); i++) Cut(dict, delta, e, {i});
      Uniform(dict, delta, e, 1); Uniform(dict, delta, e, 2);
    }
  }, "three windows under window/file limits 0..11 / 0..21, every cut");
}
}  // namespace vp
