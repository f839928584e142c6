// C05: no delta can crash, corrupt, hang or abort the decoding process.
// Runs in sanitizer builds; the oracle is the sanitizer, the process status and
// the clock, never the verdict.
#include "gen.h"
#include <string.h>
#include <sys/mman.h>
#include "google/vcdecoder.h"
using namespace gen;

namespace {
bool MayRun(const Bytes& dict, const Bytes& delta) {
#ifdef VP_NDEBUG
  return true;
#else
  if (delta.size() < 5 || !(delta[4] & 2)) return true;
  return Runnable(ref::Decode(dict, delta));
#endif
}
void Go(const Bytes& dict, const Bytes& delta, size_t uniform, const ref::Options& o = ref::Options()) {
  VP_NOTE(vp::Str("chunk %zu limits %llu/%llu target %d dict=", uniform, (unsigned long long)o.max_window, (unsigned long long)o.max_file, o.allow_target) + vp::Hex(dict, 40) + " delta=" + vp::Hex(delta));
  Outcome r = uniform ? RealUniform(dict, delta, uniform, o) : RealWhole(dict, delta, o);
  vp::Trace();
  vp::Tally(r.ok ? "completed" : r.failed_at ? "rejected by a decode call" : "rejected at completion");
}
const char kDict[] = "0123456789ABCDEFGHIJ";

// A window whose every numeric field can be overridden.
struct Fields { uint64_t v[10]; };
enum { SRC_LEN, SRC_POS, DELTA_LEN, TARGET_LEN, DATA_LEN, INST_LEN, ADDR_LEN, SIZE1, SIZE2, ADDR };
Bytes Assemble(int f, int op1, int op2, const int* idx, const uint64_t* val, int n) {
  auto get = [&](int id, uint64_t dflt) { for (int i = 0; i < n; i++) if (idx[i] == id) return val[i]; return dflt; };
  bool il = IsIL(f);
  Bytes inst(1, (char)op1), data, addr;
  ref::PutVarint(&inst, get(SIZE1, 2));
  Bytes a; ref::PutVarint(&a, get(ADDR, 1));
  if (il) { inst += "ab"; inst.push_back((char)op2); ref::PutVarint(&inst, get(SIZE2, 3)); inst += a; }
  else { data = "ab"; inst.push_back((char)op2); ref::PutVarint(&inst, get(SIZE2, 3)); addr = a; }
  Bytes b;
  ref::PutVarint(&b, get(TARGET_LEN, 5));
  b.push_back(0);
  ref::PutVarint(&b, get(DATA_LEN, data.size())); ref::PutVarint(&b, get(INST_LEN, inst.size())); ref::PutVarint(&b, get(ADDR_LEN, addr.size()));
  if (HasSum(f)) ref::PutVarint(&b, 0x12345678);
  b += data + inst + addr;
  Bytes d = ref::Header(Version(f)) + Bytes(1, HasSum(f) ? 5 : 1);
  ref::PutVarint(&d, get(SRC_LEN, 20)); ref::PutVarint(&d, get(SRC_POS, 0)); ref::PutVarint(&d, get(DELTA_LEN, b.size()));
  return d + b;
}
const uint64_t kVals[] = {0, 1, 4, 5, 6, 20, 21, 127, 128, 0x7fffffec, 0x7ffffffb, 0x7ffffffe, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000005ull, 0x7fffffffffffffffull};
const int kNVals = 17;
}  // namespace

namespace vp {
void Setup() {
  g_watch_buffers = true;
  Corpus();
  size_t C = Corpus().size();
  AddSpace("edits", C * 8, [](uint64_t u) {
    const Case& c = Corpus()[u / 8]; uint64_t k = 0;
    int level = c.delta.size() <= (vp::Thorough() ? 60u : 30u) ? 2 : 1;
    if (c.delta.size() <= 40 && vp::Thorough()) level = 3;
    ForMutants(c.delta, level, [&](const Bytes& m) {
      if (k++ % 8 != u % 8) return;
      if (!MayRun(c.dict, m)) return;
      vp::State();
      Go(c.dict, m, 0);
      if (m.size() < 90 && (level == 1 || k % 4 == 0)) Go(c.dict, m, 1 + k % 3);
    });
    vp::Sample(c.name + ": all edits, whole and in small chunks");
  }, "every truncation, single-byte substitution, insertion, deletion (short deltas: pairs of substitutions) of every corpus delta, whole and in chunks of 1..3");

  AddSpace("edits-wrong-dictionary", C, [](uint64_t u) {
    const Case& c = Corpus()[u];
    for (size_t n = 0; n <= c.dict.size() + 1; n++) {
      Bytes d = n <= c.dict.size() ? c.dict.substr(0, n) : c.dict + c.dict;
      vp::State();
      Go(d, c.delta, 0); Go(d, c.delta, 1);
      if (n % 5 == 0) ForMutants(c.delta, 0, [&](const Bytes& m) { if (MayRun(d, m)) Go(d, m, 0); });
    }
  }, "every corpus delta (and its substitutions) against every shorter dictionary");

  AddSpace("cuts", C, [](uint64_t u) {
    const Case& c = Corpus()[u]; size_t n = c.delta.size();
    vp::State();
    for (size_t i = 0; i <= n; i++) for (size_t j = i; j <= n; j += n > 120 ? 5 : 1) {
      VP_NOTE(vp::Str("cuts %zu %zu", i, j));
      Real(c.dict, c.delta, {i, j}); vp::Trace();
    }
    for (size_t s = 1; s <= n; s++) Go(c.dict, c.delta, s);
  }, "every corpus delta x all pairs of cuts and all uniform chunk sizes; each chunk is overwritten and freed after its call");

  AddSpace("cut-truncated", C, [](uint64_t u) {
    // completion and abandonment at every point, cut in two
    const Case& c = Corpus()[u]; size_t n = std::min<size_t>(c.delta.size(), 90);
    for (size_t end = 0; end <= n; end++) for (size_t i = 0; i <= end; i++) {
      Real(c.dict, c.delta.substr(0, end), {i}); vp::Trace(); vp::State();
    }
  }, "every prefix of every corpus delta x every cut");

  AddSpace("limits", C, [](uint64_t u) {
    const Case& c = Corpus()[u];
    for (uint64_t w : {0ull, 1ull, 5ull, 0x7fffffffull}) for (uint64_t fl : {0ull, 1ull, 6ull, 0x7fffffffull, 0xffffffffffffffffull}) for (int t = 0; t < 2; t++) {
      ref::Options o; o.max_window = w; o.max_file = fl; o.allow_target = t;
      Go(c.dict, c.delta, 0, o); Go(c.dict, c.delta, 1, o); vp::State();
      if (w != 0x7fffffff && c.delta.size() < 80) ForMutants(c.delta, 0, [&](const Bytes& m) { if (MayRun(c.dict, m)) Go(c.dict, m, 0, o); });
    }
  }, "every corpus delta and its substitutions x 4x5 limits x target references allowed/not");

  AddSpace("field-pairs", 45 * 8, [](uint64_t u) {
    int p = (int)(u / 8), a = 0, b = 1; while (p) { p--; if (++b == 10) { a++; b = a + 1; } }
    static const int ops[8] = {19, 35, 51, 67, 115, 116 + 3, 163, 247};
    int op2 = ops[u % 8];
    for (int f = 0; f < kFmts; f++) for (int op1 : {1, 0, 19, 115})
      for (int i = 0; i < kNVals; i++) for (int j = 0; j < kNVals; j++) {
        int idx[2] = {a, b}; uint64_t v[2] = {kVals[i], kVals[j]};
        Bytes d = Assemble(f, op1, op2, idx, v, 2);
        vp::State(); Go(kDict, d, 0);
        if ((i + j) % 4 == 0) Go(kDict, d, 1);
      }
  }, "10 numeric window fields, every pair of them x 17x17 values (0..2^63-1) x 8x4 opcodes x 5 formats");

  AddSpace("field-triples", 120, [](uint64_t u) {
    int k = 0, A = 0, B = 0, D = 0;
    for (int a = 0; a < 10; a++) for (int b = a + 1; b < 10; b++) for (int c = b + 1; c < 10; c++) if (k++ == (int)u) { A = a; B = b; D = c; }
    int st = vp::Thorough() ? 1 : 2;
    for (int f : {V0, S_IL}) for (int op2 : {19, 35, 51})
      for (int i = 0; i < kNVals; i += st) for (int j = u % st; j < kNVals; j += st) for (int l = 0; l < kNVals; l += st) {
        int idx[3] = {A, B, D}; uint64_t v[3] = {kVals[i], kVals[j], kVals[l]};
        vp::State(); Go(kDict, Assemble(f, 1, op2, idx, v, 3), 0);
      }
  }, "every triple of numeric fields x 9^3 (thorough 17^3) values x 3 opcodes x 2 formats");

  AddSpace("big-limits", 60, [](uint64_t u) {
    // permission to use up to 2^31-1 bytes: the declared sizes are absurd, the data tiny
    ref::Options o; o.max_window = 0x7fffffff; o.max_file = ~0ull;
    static const uint64_t sz[] = {0x4000000, 0x4000001, 0x10000000, 0x7ffffffe, 0x7fffffff};
    uint64_t t = sz[u % 5]; int f = (int)(u / 5) % 2 ? S_IL : V0; int kind = (int)(u / 10);
    if (t > 0x10000000 && !vp::Thorough() && kind > 1) return;
    int idx[3] = {TARGET_LEN, SIZE2, SRC_LEN}; uint64_t v[3] = {t, t, 20};
    if (kind == 1) { v[1] = 3; }
    if (kind == 2) { v[1] = t - 2; }
    if (kind == 3) { idx[2] = ADDR; v[2] = 0x7fffffff; }
    if (kind == 4) { idx[2] = SIZE1; v[2] = t; }
    if (kind == 5) { idx[2] = SIZE1; v[2] = 0x7fffffff; v[1] = 0x7fffffff; }
    if (kind == 2 && t > 0x10000000) return;   // would really produce 2 GB
    vp::State();
    Go(kDict, Assemble(f, 1, 19, idx, v, 3), 0, o);
  }, "window sizes 64 MB .. 2^31-1 permitted and declared, instructions that do or do not fit");

  AddSpace("instruction-strings", 256, [](uint64_t u) {
    // all 3-byte (thorough 4-byte) instruction sections over a short alphabet of followers
    static const int tail[] = {0, 1, 2, 3, 4, 5, 19, 20, 35, 51, 115, 127, 128, 163, 247, 255};
    Bytes dict = kDict;
    for (int f : {V0, S_IL, S_IL_SUM}) for (int b1 = 0; b1 < 256; b1++) for (int b2 : tail) for (int b3 : tail) {
      if (!vp::Thorough() && b3 != tail[(b1 + b2) % 16]) continue;
      ref::WinSpec w; w.indicator = 1; w.src_len = 20; w.target_len = 9;
      w.inst = Bytes(1, (char)u) + Bytes(1, (char)b1) + Bytes(1, (char)b2) + Bytes(1, (char)b3);
      if (!IsIL(f)) { w.data = "pqrstuvw"; w.addr = Bytes("\x03\x01\x82\x01\x00\x05", 6); }
      if (HasSum(f)) { w.checksum = true; w.indicator |= 4; }
      vp::State();
      Go(dict, ref::Header(Version(f)) + ref::MakeWindow(w), (b1 + b2) % 5 == 0 ? 1 : 0);
    }
  }, "every pair of leading instruction bytes x 16 x 16 followers x 3 formats");

  AddSpace("byte-strings", 256, [](uint64_t u) {
    // everything after a valid header: all 2-byte strings, then a short alphabet
    static const int tail[] = {0, 1, 2, 5, 0x7f, 0x80, 0x88, 0xff};
    for (uint8_t ver : {(uint8_t)0, (uint8_t)'S'}) for (int b1 = 0; b1 < 256; b1++) for (int k = 0; k < 8 * 8 * (vp::Thorough() ? 64 : 1); k++) {
      Bytes d = ref::Header(ver); d.push_back((char)u); d.push_back((char)b1);
      for (int x = k, i = 0; i < (vp::Thorough() ? 4 : 2); i++, x /= 8) d.push_back((char)tail[x % 8]);
      vp::State(); Go(kDict, d, 0);
    }
    for (int v = 0; v < 256; v++) {
      Bytes d = ref::Header(0, (uint8_t)(u & ~2)); d.push_back((char)v); Go(kDict, d, 0);
      for (int t : tail) {
        Bytes e = ref::Header(0, 2); e.push_back((char)u); e.push_back((char)v); e.push_back((char)t);
#ifdef VP_NDEBUG
        Go(kDict, e + ref::Header(0), 0);
#endif
      }
    }
  }, "after a valid header, all 2-byte strings followed by all strings of 2 (thorough 4) over 8 values; custom-table headers with all cache size bytes");

  AddSpace("refused-headers", C, [](uint64_t u) {
    // a file header that has to be refused, followed by windows that make sense
    const Case& c = Corpus()[u]; if (c.delta.size() < 7 || (uint8_t)c.delta[4]) return;
    Bytes W = c.delta.substr(5);
    for (int hdr : {1, 2, 3}) for (int v : {0x80, 0x84, 0xc0, 0xf8}) for (const char* pre : {"", "\x04", "\x00", "\x04\x82", "\x82", "\x83\x01\x83"}) for (uint8_t ver : {(uint8_t)0, (uint8_t)'S'}) {
      Bytes w = W; w[0] |= (char)v;
      Bytes d = ref::Header(ver, (uint8_t)hdr) + Bytes(pre[0] == 0 && hdr == 2 && v == 0xf8 ? Bytes(1, 0) : Bytes(pre)) + w;
      if (!MayRun(c.dict, d)) continue;
      vp::State(); Go(c.dict, d, 0); Go(c.dict, d, 1);
    }
  }, "file headers asking for secondary compression or invalid cache sizes, in front of the windows of every corpus delta");

  AddSpace("near-arithmetic", 300, [](uint64_t u) {
    // cached near values plus any offset, same-cache bytes, HERE distances beyond everything
    static const uint64_t offs[] = {0, 1, 100, 0x3fffffff, 0x40000000, 0x7ffffff0, 0x7fffffff, 0x80000000ull, 0xffffffffull};
    Bytes dict(300, 'd');
    int first = (int)u;
    for (int mode = 0; mode < 9; mode++) for (uint64_t o : offs) for (int size : {1, 2, 300}) for (int f : {V0, S_IL}) {
      ref::WinSpec w; w.indicator = 1; w.src_len = 300; w.target_len = 4 + size;
      Bytes& A = IsIL(f) ? w.inst : w.addr;
      w.inst.push_back(20); ref::PutVarint(&A, first);
      w.inst.push_back((char)(19 + 16 * mode)); ref::PutVarint(&w.inst, size);
      if (mode >= 6) { if (o > 255) continue; A.push_back((char)o); } else ref::PutVarint(&A, o);
      vp::State(); Go(dict, ref::Header(Version(f)) + ref::MakeWindow(w), 0);
    }
  }, "every first address 0..299 followed by every mode with 9 offsets up to 2^32-1");

  AddSpace("window-growth", kGrowthUnits, [](uint64_t u) {
    ForGrowth(u, [&](const Bytes& dict, const Bytes& delta, const std::string& what) {
      VP_NOTE(what);
      vp::State();
      Go(dict, delta, 0); Go(dict, delta, 1); Go(dict, delta, 11);
    });
  }, "all triples of window lengths around string growth steps (1..250) x 5 ways of referring to earlier target data x 5 formats, whole and in chunks of 1 and 11");

  AddSpace("nested-tables", 8, [](uint64_t u) {
    static const int depth[] = {1, 2, 3, 10, 100, 5000, 200000, 1000000};
    Bytes in = ref::Header(0);
    Bytes d; for (int i = 0; i < depth[u]; i++) d += ref::Header(i % 2 ? 'S' : 0, 2) + Bytes("\x04\x03", 2);
    vp::State();
    Go(kDict, d + in, 0);
    if (u < 5) { Go(kDict, d + in, 1); Go(kDict, d + ref::CustomHeader(0, ref::DefaultTable(), 4, 3), 0); }
  }, "code tables inside code tables, 1 to 1000000 levels");

  AddSpace("cache-sizes", 262, [](uint64_t u) {
    static const uint64_t more[] = {0x7f, 0x3fff, 0x4000, 0x7fffffff, 0x80000000ull, 0xffffffffull};
    for (int s = 0; s < 262 + 6; s++) {
      uint64_t n = u, m = s < 262 ? s : more[s - 262];
      for (int sw = 0; sw < (s < 262 ? 1 : 2); sw++) {
        Bytes d = ref::CustomHeader(0, (n + m) % 3 ? ref::DefaultTable() : MinimalTable((int)std::min<uint64_t>(n, 120), (int)std::min<uint64_t>(m, 120)), sw ? m : n, sw ? n : m);
        ref::WinSpec w; w.indicator = 1; w.src_len = 20; w.target_len = 5; w.inst = Bytes("\x02\x03\x03\x02\x03", 5); w.data = "x"; w.addr = Bytes("\x01\x02\x03", 3);
        d += ref::MakeWindow(w);
        if (!MayRun(kDict, d)) continue;
        vp::State(); Go(kDict, d, 0);
      }
    }
  }, "all near/same cache sizes 0..261 squared and 6 large ones in a custom table header");

  AddSpace("custom-table-windows", 12 * 16, [](uint64_t u) {
    // tables with arbitrary compounds: every opcode with every short section layout
    int nn[] = {0, 1, 4, 6, 17, 120}, ss[] = {0, 1, 3, 5, 9, 130};
    int n = nn[u / 16 % 6], s = ss[u / 16 % 6];
    ref::Table t = u / 16 < 6 ? MinimalTable(n, s) : DoubleExplicitTable();
    if (u / 16 >= 6) { if (u / 16 > 6) return; n = 4; s = 3; }
    for (int f : {V0, S_IL}) {
      Bytes hdr = ref::CustomHeader(Version(f), t, n, s);
      for (int op = (int)(u % 16); op < 256; op += 16) for (int op2 = 0; op2 < 256; op2 += 7) for (int tl : {0, 1, 5, 300}) {
        ref::WinSpec w; w.indicator = 1; w.src_len = 20; w.target_len = tl;
        w.inst = Bytes(1, (char)op) + Bytes("\x03", 1) + Bytes(1, (char)op2) + Bytes("\x02\x01", 2);
        if (!IsIL(f)) { w.data = Bytes(260, 'q'); w.addr = Bytes("\x03\x01\x02\x00\x05\xff", 6); } else w.inst += "abcdefgh";
        vp::State(); Go(kDict, hdr + ref::MakeWindow(w), 0);
      }
    }
  }, "7 custom tables: every opcode x 37 second opcodes x window sizes 0,1,5,300");

  AddSpace("huge-dictionary", 24, [](uint64_t u) {
    // dictionaries around 2^31 and 2^32 bytes (sparse mapping): segments and copies at their end
    static const uint64_t len[] = {0x7ffffff0ull, 0x7fffffffull, 0x80000000ull, 0x80000010ull, 0xffffffffull, 0x100000010ull};
    uint64_t L = len[u % 6]; int f = (int)(u / 6) % 2 ? S_IL : V0; int ch = (int)(u / 12);
    char* d = (char*)mmap(NULL, L, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (d == MAP_FAILED) { vp::Tally("address space not available"); return; }
    static const uint64_t v[] = {0, 1, 16, 0x3fffffff, 0x7fffffe0, 0x7ffffff0, 0x7ffffffa, 0x7fffffff};
    for (uint64_t sl : v) for (uint64_t sp : v) for (uint64_t ad : v) for (int op : {20, 36, 52}) {
      ref::WinSpec w; w.indicator = 1; w.src_len = sl; w.src_pos = sp; w.target_len = 12;
      Bytes& A = IsIL(f) ? w.inst : w.addr;
      w.inst.push_back(20); ref::PutVarint(&A, ad);
      w.inst.push_back((char)op); ref::PutVarint(&A, ad);
      w.inst.push_back(5); (IsIL(f) ? w.inst : w.data) += "wxyz";
      Bytes delta = ref::Header(Version(f)) + ref::MakeWindow(w);
      VP_NOTE(vp::Str("dictionary of %llu, source %llu@%llu address %llu op %d", (unsigned long long)L, (unsigned long long)sl, (unsigned long long)sp, (unsigned long long)ad, op));
      open_vcdiff::VCDiffStreamingDecoder dec; std::string out;
      dec.StartDecoding(d, L);
      bool ok = true;
      if (ch) for (size_t i = 0; i < delta.size() && ok; i++) { vp::Exact e(delta.data() + i, 1); ok = dec.DecodeChunk(e.p, 1, &out); }
      else { vp::Exact e(delta); ok = dec.DecodeChunk(e.p, e.n, &out); }
      dec.FinishDecoding();
      vp::Transition(3); vp::Trace(); vp::State();
      vp::Tally(ok ? "huge dictionary: decoded" : "huge dictionary: rejected");
    }
    munmap(d, L);
  }, "dictionaries of 2^31-16 .. 2^32+16 bytes x 8 segment lengths x 8 positions x 8 addresses x 3 modes");

  AddSpace("continue-after-failure", C, [](uint64_t u) {
    // keep calling a decoder that has failed or was cut short
    const Case& c = Corpus()[u];
#ifdef VP_NDEBUG
    uint64_t k = 0;
    ForMutants(c.delta, 0, [&](const Bytes& m) {
      if (k++ % 7) return;
      open_vcdiff::VCDiffStreamingDecoder dec; std::string out;
      dec.StartDecoding(c.dict.data(), c.dict.size());
      for (int r = 0; r < 3; r++) { vp::Exact e(m); dec.DecodeChunk(e.p, e.n, &out); }
      dec.FinishDecoding();
      dec.StartDecoding(c.dict.data(), c.dict.size());
      { vp::Exact e(c.delta); dec.DecodeChunk(e.p, e.n, &out); }
      dec.StartDecoding(c.dict.data(), c.dict.size());
      { vp::Exact e(m); dec.DecodeChunk(e.p, e.n, &out); }
      vp::Transition(8); vp::Trace(); vp::State();
    });
#else
    (void)c;
#endif
  }, "release build: further calls after failure, double start, with every substitution of every corpus delta");
}
}  // namespace vp
