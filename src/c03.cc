// C03: a byte sequence that is not a well-formed delta is never accepted.
#include "gen.h"
using namespace gen;

namespace {
// Fails if the real decoder completes successfully on something the model rejects,
// for whole delivery, byte-by-byte delivery and (optionally) one cut.
void Judge(const Bytes& dict, const Bytes& delta, const char* what, const ref::Options& o = ref::Options()) {
  ref::Result r = ref::Decode(dict, delta, o);
  vp::State();
  if (r.verdict == ref::OK) { vp::Tally("well-formed"); return; }
  if (!Runnable(r)) { vp::Tally("skipped: cache sizes that abort debug builds (own tests pin this)"); return; }
  VP_NOTE(std::string(what) + " [" + r.reason + "] dict=" + vp::Hex(dict, 60) + " delta=" + vp::Hex(delta));
  vp::Tally(r.reason);
  vp::Trace();
  Outcome a = RealWhole(dict, delta, o);
  if (a.ok) vp::Fail(vp::Str("malformed delta accepted (%s: %s) dict=", what, r.reason) + vp::Hex(dict, 60) + " delta=" + vp::Hex(delta));
  if (a.out.size() > r.out.size() || r.out.compare(0, a.out.size(), a.out) != 0)
    vp::Fail(vp::Str("output before the error is not a prefix of the described target (%s)", r.reason) + " delta=" + vp::Hex(delta));
  if (delta.size() <= 48) {
    Outcome b = RealUniform(dict, delta, 1, o);
    if (b.ok) vp::Fail(vp::Str("malformed delta accepted byte by byte (%s: %s) dict=", what, r.reason) + vp::Hex(dict, 60) + " delta=" + vp::Hex(delta));
  }
  vp::Sample(std::string(what) + ": rejected (" + r.reason + ") " + vp::Hex(delta, 60));
}
const char* kDict = "0123456789ABCDEFGHIJ";
}  // namespace

namespace vp {
void Setup() {
  Corpus();
  const int kParts = 8;
  AddSpace("mutations", Corpus().size() * kParts, [](uint64_t u) {
    const Case& c = Corpus()[u / kParts]; uint64_t k = 0;
    int level = c.delta.size() <= (vp::Thorough() ? 90u : 44u) ? 3 : 1;
    ForMutants(c.delta, level, [&](const Bytes& m) {
      if (k++ % kParts != u % kParts) return;
      Judge(c.dict, m, c.name.c_str());
    });
  }, "every truncation, 1-byte substitution, insertion, 1..4-byte deletion of every corpus delta; for short ones all pairs of substitutions over 14 values, all duplicated/removed/appended stretches");

  AddSpace("wrong-dictionary", Corpus().size(), [](uint64_t u) {
    const Case& c = Corpus()[u];
    for (size_t n = 0; n < c.dict.size(); n++) Judge(c.dict.substr(0, n), c.delta, c.name.c_str());
  }, "every corpus delta against every shorter dictionary");

  AddSpace("small-windows", 2 * 5 * 4, [](uint64_t u) {
    // Exhaustive small grammar: declared lengths and bodies over a small alphabet.
    bool s = u % 2; uint32_t tl = (u / 2) % 5; uint32_t src = u / 10;
    static const char alpha[] = {0, 1, 2, 3, 19, 20, 35, (char)163, (char)247};
    const int A = sizeof alpha;
    int maxbody = vp::Thorough() ? 6 : 5;
    for (int body = 0; body <= maxbody; body++) {
      long tot = 1; for (int i = 0; i < body; i++) tot *= A;
      for (long k = 0; k < tot; k++) {
        Bytes b; long x = k; for (int i = 0; i < body; i++) { b.push_back(alpha[x % A]); x /= A; }
        for (int dl = 0; dl <= body && dl <= 2; dl++)
          for (int al = 0; dl + al <= body && al <= 2; al++) {
            int il = body - dl - al;
            for (int adj = -1; adj <= 1; adj++) {
              if (adj && (k % 7)) continue;
              ref::WinSpec w; w.indicator = src ? 1 : 0; w.src_len = src * 3; w.target_len = tl;
              w.data = b.substr(0, dl); w.inst = b.substr(dl, il); w.addr = b.substr(dl + il); w.delta_len_adjust = adj;
              Judge(kDict, ref::Header(s ? 'S' : 0) + ref::MakeWindow(w), "small window");
            }
          }
      }
    }
  }, "all windows with target length 0..4, source 0/3/6/9, bodies up to 5 (thorough 6) bytes over 9 values, all splits into sections, right and wrong total length");

  AddSpace("geometry", 12, [](uint64_t u) {
    // source segments and addresses in and out of range
    uint32_t n = (uint32_t)u;
    Bytes dict = Bytes(kDict).substr(0, n);
    static const uint64_t big[] = {127, 128, 16384, 0x7ffffffe, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull};
    std::vector<uint64_t> vals; for (uint64_t i = 0; i <= n + 3; i++) vals.push_back(i);
    for (uint64_t b : big) vals.push_back(b);
    for (int f : {V0, S_IL}) for (uint8_t ind : {1, 2, 3})
      for (uint64_t len : vals) for (uint64_t pos : vals) {
        ref::WinSpec w; w.indicator = ind; w.src_len = len; w.src_pos = pos; w.target_len = 1;
        w.inst = Bytes(1, 2); (IsIL(f) ? w.inst : w.data) += "x";
        Bytes first;
        if (ind == 2) { ref::WinSpec w0; w0.target_len = n; w0.inst = n ? Bytes(1, (char)(1 + n)) : Bytes(); if (IsIL(f)) w0.inst += dict; else w0.data = dict; first = ref::MakeWindow(w0); }
        Judge(dict, ref::Header(Version(f)) + first + ref::MakeWindow(w), "segment");
      }
    // address x mode x size at every produced count
    for (int f : {V0, S_IL}) for (uint32_t pre = 0; pre <= 4; pre++) for (int mode = 0; mode < 9; mode++)
      for (uint32_t size = 0; size <= 6; size++) for (uint64_t a : vals)
        for (int prime = 0; prime < 2; prime++) {
          ref::WinSpec w; w.indicator = n ? 1 : 0; w.src_len = n; w.target_len = pre + size + (prime ? 1 : 0);
          bool il = IsIL(f);
          if (prime) { if (n + pre == 0) continue; }
          if (pre) { w.inst.push_back((char)(1 + pre)); (il ? w.inst : w.data) += Bytes("wxyz").substr(0, pre); }
          if (prime) { w.inst.push_back(19); w.inst.push_back(1); (il ? w.inst : w.addr).push_back((char)(n + pre - 1)); }
          w.inst.push_back((char)(19 + 16 * mode)); ref::PutVarint(&w.inst, size);
          Bytes& ad = il ? w.inst : w.addr;
          if (mode >= 6) { if (a > 255) continue; ad.push_back((char)a); } else ref::PutVarint(&ad, a);
          Judge(dict, ref::Header(Version(f)) + ref::MakeWindow(w), "address");
        }
  }, "all source segment (length, position) and COPY (mode, value, size) combinations in and just out of range, plus values around 2^7..2^32, dictionaries of 0..11 bytes");

  AddSpace("header-bytes", 256, [](uint64_t u) {
    // all values of each header byte; all header prefixes
    ref::WinSpec w; w.target_len = 2; w.data = "ab"; w.inst = Bytes(1, 3);
    Bytes win = ref::MakeWindow(w);
    for (int i = 0; i < 5; i++) for (int j = i; j < 5; j++) for (int v = 0; v < 256; v += (i == j ? 256 : 1)) {
      Bytes h = ref::Header(0); h[i] = (char)u; if (j != i) h[j] = (char)v;
      Judge(kDict, h + win, "header");
      if (v == 0) for (size_t n = 1; n <= 5; n++) Judge(kDict, h.substr(0, n), "header prefix");
    }
    // all win / delta indicator bytes
    for (int f = 0; f < 2; f++) {
      ref::WinSpec x = w; x.indicator = (uint8_t)u; x.src_len = 3; x.checksum = f && (u & 4); x.checksum_value = ref::Adler32("ab", 2);
      Judge(kDict, ref::Header(f ? 'S' : 0) + ref::MakeWindow(x), "win indicator");
      x = w; x.delta_indicator = (uint8_t)u;
      Judge(kDict, ref::Header(f ? 'S' : 0) + ref::MakeWindow(x), "delta indicator");
    }
  }, "all values of every pair of header bytes, all header prefixes, all 256 window and delta indicators in both versions");

  AddSpace("bad-integers", 64, [](uint64_t u) {
    // every numeric field gets an oversized, overlong or unterminated integer
    int field = u % 16, f = (int)(u / 16);
    if (f >= kFmts) return;
    static const char* enc[] = {"\x88\x80\x80\x80\x00", "\x8f\xff\xff\xff\x7f", "\x90\x80\x80\x80\x00", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
                                "\x80\x80\x80\x80\x80\x80\x88\x80\x80\x80\x01", "\xff", "\x80", "\x87\xff\xff\xff\x7f", "\x81\x80\x80\x80\x80\x80\x03", "\xa0\x80\x80\x80\x03"};
    static const int len[] = {5, 5, 5, 10, 11, 1, 1, 5, 7, 5};
    for (int e = 0; e < 10; e++) {
      Bytes E(enc[e], len[e]);
      auto val = [&](int id, uint64_t v) { if (id == field) return E; Bytes s; ref::PutVarint(&s, v); return s; };
      bool il = IsIL(f);
      Bytes inst = Bytes("\x01", 1) + val(8, 2), data = "ab", addr = val(10, 1);
      if (il) { inst += data; inst += Bytes("\x13", 1) + val(9, 3) + addr; data = addr = ""; }
      else inst += Bytes("\x13", 1) + val(9, 3);
      Bytes b = val(3, 5) + Bytes(1, 0) + val(4, data.size()) + val(5, inst.size()) + val(6, addr.size());
      if (HasSum(f)) b += val(7, ref::Adler32("ab123", 5));
      b += data + inst + addr;
      Bytes d = ref::Header(Version(f)) + Bytes(1, HasSum(f) ? 5 : 1) + val(0, 20) + val(1, 0) + val(2, b.size()) + b;
      Judge(kDict, d, "integer field");
    }
  }, "10 oversized/overlong/unterminated integers in each of 11 numeric fields x 4 formats");

  AddSpace("bad-tables", 6 * 256, [](uint64_t u) {
    // every single-entry change of a code table; the model says which are invalid
    static const ref::Table base[2] = {ref::DefaultTable(), MinimalTable(1, 1)};
    int k = u / 256, e = u % 256;
    for (int b = 0; b < 2; b++) {
      int n = b ? 1 : 4, s = b ? 1 : 3, mm = 1 + n + s;
      for (int v : {0, 1, 2, 3, 4, 5, 9, 10, 128, 255, mm, mm + 1}) {
        ref::Table t = base[b]; if (t.f[k][e] == v) continue; t.f[k][e] = (uint8_t)v;
        if (ref::ValidTable(t, mm)) { vp::Tally("valid table variants"); continue; }
        Bytes d = ref::CustomHeader((v & 1) ? 'S' : 0, t, n, s, v & 1);
        Judge(kDict, d, "invalid table, no window");
        ref::WinSpec w; w.target_len = 1; w.data = "x"; w.inst = b ? Bytes("\x01\x01", 2) : Bytes("\x02", 1);
        Judge(kDict, d + ref::MakeWindow(w), "invalid table");
      }
    }
    if (u < 300) {   // missing single opcodes: no ADD / RUN / COPY of one mode with explicit size
      for (int x = 0; x < 11; x++) {
        ref::Table t = ref::DefaultTable();
        int op = x == 0 ? 0 : x == 1 ? 1 : 19 + 16 * (x - 2);
        if (u == 0) {
          t.f[0][op] = t.f[4][op] = 0;
          Judge(kDict, ref::CustomHeader(0, t, 4, 3), "opcode missing");
        }
        // default table with other cache sizes
        uint64_t n = u % 20, s = u / 20;
        if (x == 0) Judge(kDict, ref::CustomHeader(0, ref::DefaultTable(), n, s), "cache sizes do not match the table");
        if (x == 1 && u == 1) {
          Bytes in = ref::CustomHeader(0, ref::DefaultTable(), 4, 3);   // nested code table
          Bytes d = ref::Header(0, 2) + Bytes("\x04\x03", 2) + in; Judge(kDict, d, "nested code table");
        }
      }
    }
  }, "all 6x256 entries of two tables x 12 values, tables missing an explicit-size opcode, default table under 20x15 cache sizes, nested tables");

  AddSpace("bad-cache-sizes", 15 * 15, [](uint64_t u) {
    // sizes that do not fit a table, and (release build only) sizes that are out of range by themselves
    static const uint64_t v[15] = {0, 1, 4, 8, 100, 127, 128, 200, 252, 253, 254, 255, 256, 1000, 0x7fffffff};
    uint64_t n = v[u % 15], s = v[u / 15];
    for (int il = 0; il < 2; il++) for (const ref::Table& t : {ref::DefaultTable(), MinimalTable(1, 1), MinimalTable(100, 100)}) {
      Bytes d = ref::CustomHeader(il ? 'S' : 0, t, n, s, il);
      Judge(kDict, d, "cache sizes, no window");
      ref::WinSpec w; w.target_len = 1; w.data = "x"; w.inst = Bytes("\x01\x01", 2);
      if (il) { w.inst += w.data; w.data = ""; }
      Judge(kDict, d + ref::MakeWindow(w), "cache sizes");
      ref::Result r = ref::Decode(kDict, d + ref::MakeWindow(w));
      if (r.verdict == ref::OK || !Runnable(r)) continue;
      for (size_t k : {1, 7, 200, 1000}) if (RealUniform(kDict, d + ref::MakeWindow(w), k).ok || RealUniform(kDict, d, k).ok) vp::Fail("malformed delta accepted in pieces: " + vp::Hex(d));
    }
  }, "15 x 15 near and same cache sizes 0..2^31-1 x 3 tables x 2 formats, with and without a window, whole and in pieces");

  AddSpace("embedded-table-sizes", 24, [](uint64_t u) {
    // the embedded delta must produce exactly one table
    static const int tl[] = {0, 1, 1535, 1536, 1537, 3072};
    int a = tl[u % 6], b = (int)(u / 6);
    ref::Table t = ref::DefaultTable();
    Bytes src = t.Serialize();
    auto win = [&](int n) { ref::WinSpec w; w.indicator = 1; w.src_len = 1536; w.target_len = n; 
      if (n) { w.inst = Bytes(1, 19); ref::PutVarint(&w.inst, n); w.addr = Bytes(1, 0); } return ref::MakeWindow(w); };
    Bytes h = ref::Header(0, 2) + Bytes("\x04\x03", 2) + ref::Header(0);
    ref::WinSpec w; w.target_len = 1; w.data = "x"; w.inst = Bytes(1, 2);
    Bytes tail = ref::MakeWindow(w);
    Bytes d = h + win(a);
    if (b == 1) d = h + win(a) + win(1536 - a > 0 ? 1536 - a : 1);
    if (b == 2) d = h + win(700) + win(a);
    if (b == 3) d = h + win(0) + win(a) + win(0);
    Judge(kDict, d, "embedded table size");
    Judge(kDict, d + tail, "embedded table size");
    for (size_t i = 0; i < d.size(); i++) Judge(kDict, d.substr(0, i), "embedded table truncated");
  }, "embedded table deltas of 0,1,1535..1537,3072 bytes in one or two windows, all truncations");
}
}  // namespace vp
