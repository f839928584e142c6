// C02: every well-formed delta decodes to exactly what the format prescribes.
// Oracle: the reference model (ref.cc); executions: the real streaming decoder and
// the one-shot decoder.
#include <algorithm>
#include <string.h>
#include <sys/mman.h>
#include "google/output_string.h"
#include "gen.h"
#include "google/vcdecoder.h"
using namespace gen;

namespace {
uint64_t g_count;
void Good(const Bytes& dict, const Bytes& delta, const std::string& what, bool chunked = true) {
  ref::Result r = ref::Decode(dict, delta);
  if (r.verdict != ref::OK) vp::Fail("harness: delta built for '" + what + "' is not well-formed: " + r.reason + " " + vp::Hex(delta));
  vp::State();
  VP_NOTE(what + " dict=" + vp::Hex(dict, 80) + " delta=" + vp::Hex(delta, 300));
  Outcome o = RealWhole(dict, delta);
  vp::Trace();
  if (!o.ok) vp::Fail("well-formed delta rejected: " + what + " dict=" + vp::Hex(dict, 100) + " delta=" + vp::Hex(delta));
  if (o.out != r.out) vp::Fail("wrong target: " + what + " dict=" + vp::Hex(dict, 100) + " delta=" + vp::Hex(delta) +
                               " expected=" + vp::Hex(r.out, 200) + " got=" + vp::Hex(o.out, 200));
  if (chunked && (g_count++ % 8) == 0) {
    Bytes out = "junk";
    open_vcdiff::VCDiffDecoder d;
    if (!d.Decode(dict.data(), dict.size(), delta, &out) || out != r.out)
      vp::Fail("one-shot decoder disagrees: " + what + " delta=" + vp::Hex(delta));
    vp::Transition(); vp::Trace();
    ref::Options no; no.allow_target = false;
    bool uses_target = false;
    for (auto& w : r.windows) if (w.indicator & 2) uses_target = true;
    if (!uses_target) {
      Outcome p = RealWhole(dict, delta, no);
      if (!p.ok || p.out != r.out) vp::Fail("wrong result with target references disallowed: " + what + " delta=" + vp::Hex(delta));
    }
    if (delta.size() < 400) {
      Outcome q = RealUniform(dict, delta, 1 + g_count % 3);
      if (!q.ok || q.out != r.out) vp::Fail("wrong result in small chunks: " + what + " delta=" + vp::Hex(delta));
    }
  }
  vp::Sample(what + ": delta " + vp::Hex(delta, 60) + " -> " + std::to_string(r.out.size()) + " target bytes");
}
Bytes Dict(size_t n) {
  Bytes s; for (size_t i = 0; i < n; i++) s.push_back((char)(33 + (i * 7 + i / 94) % 94)); return s;
}
const uint32_t kSizes[] = {1, 2, 3, 4, 17, 18, 19, 127, 128, 129, 300};

// Emits the priming copies: gives distinct values to all near slots and some same slots.
bool Prime(ref::Emitter* e, int self_op) {
  int sels[] = {2, 4, 1, 2, 4, 0};
  for (int k = 0; k < 6; k++) if (!e->Op(self_op, 2 + k, sels[k], 0, 0)) return false;
  return true;
}

void TableSweep(const ref::Table& t, int n, int s, const Bytes& hdr_v0, const Bytes& hdr_s, int op, int self_op,
                const std::vector<uint32_t>& sizes, int nsel, const char* tname) {
  for (int f = 0; f < kFmts; f++)
    for (int src = 0; src < 4; src++)
      for (int prime = 0; prime < 2; prime++)
        for (uint32_t s1 : sizes)
          for (uint32_t s2 : sizes) {
            if (t.f[2][op] != 0 && s1 != sizes[0]) continue;
            if ((t.f[3][op] != 0 || t.f[1][op] == ref::NOOP) && s2 != sizes[0]) continue;
            for (int a = 0; a < nsel; a++)
              for (int b = 0; b < nsel; b++) {
                if (t.f[0][op] != ref::COPY && t.f[0][op] != ref::RUN && a) continue;
                if (t.f[1][op] != ref::COPY && t.f[1][op] != ref::RUN && b) continue;
                static const uint32_t lens[] = {0, 3, 60, 700}; static const uint32_t poss[] = {0, 5, 0, 40};
                Bytes dict = Dict(src == 3 ? 900 : 70);
                ref::Emitter e(t, n, s, IsIL(f), lens[src]);
                bool ok = true;
                if (prime) {
                  if (lens[src] == 0) { ok = e.Op(/*RUN*/ t.f[0][0] == ref::RUN ? 0 : 255, 5, 1, 0, 0); }
                  ok = ok && Prime(&e, self_op);
                }
                ok = ok && e.Op(op, s1, a, s2, b);
                // a final single instruction so that state after the opcode matters too
                if (ok && prime) ok = e.Op(self_op, 3, 1, 0, 0);
                if (!ok || e.produced == 0) continue;
                Bytes delta = IsS(f) ? hdr_s : hdr_v0;
                ref::WinSpec w = e.Spec(lens[src] ? 1 : 0, poss[src]);
                AddWindow(dict, &delta, w, f);
                ref::Result chk = ref::Decode(dict, delta);
                if (chk.verdict != ref::OK && std::string(chk.reason) == "second half of an opcode left over") continue;
                Good(dict, delta, vp::Str("%s opcode %d sizes %u,%u addresses %d,%d source %u@%u %s%s", tname, op, s1, s2, a, b,
                                          lens[src], poss[src], FmtName(f), prime ? " primed" : ""));
              }
          }
}

struct CustomT { const char* name; ref::Table t; int n, s, self_op; };
std::vector<CustomT> Tables() {
  std::vector<CustomT> v;
  v.push_back({"explicit-compounds", DoubleExplicitTable(), 4, 3, 19});
  v.push_back({"reversed", ReversedTable(), 4, 3, 255 - 19});
  int c[][2] = {{0, 0}, {1, 0}, {0, 1}, {2, 3}, {4, 3}, {6, 5}, {17, 9}, {252, 0}, {0, 200}, {120, 132}};
  for (auto& x : c) v.push_back({"minimal", MinimalTable(x[0], x[1]), x[0], x[1], 2});
  return v;
}
}  // namespace

namespace vp {
void Setup() {
  Corpus();
  AddSpace("corpus", Corpus().size(), [](uint64_t u) {
    const Case& c = Corpus()[u];
    for (int i = 0; i < 8; i++) Good(c.dict, c.delta, c.name);
  }, "every corpus delta");

  AddSpace("opcodes", 256, [](uint64_t u) {
    std::vector<uint32_t> sz(kSizes, kSizes + 11);
    TableSweep(ref::DefaultTable(), 4, 3, ref::Header(0), ref::Header('S'), (int)u, 19, sz, 5, "default");
  }, "256 opcodes x explicit sizes {1..4,17..19,127..129,300} x 5 address choices x 4 source segments x 5 formats x fresh/primed caches");

  AddSpace("opcode-pairs", 256, [](uint64_t u) {
    const ref::Table& t = ref::DefaultTable();
    Bytes dict = Dict(40);
    for (int b = 0; b < 256; b++)
      for (int f : {V0, S_IL})
        for (int sel = 0; sel < (vp::Thorough() ? 25 : 6); sel++) {
          ref::Emitter e(t, 4, 3, IsIL(f), 33);
          if (!e.Op(19, 4, 2, 0, 0) || !e.Op((int)u, 5, sel % 5, 5, sel % 5) || !e.Op(b, 6, sel / 5 + sel % 5, 6, sel / 5)) continue;
          Bytes delta = ref::Header(Version(f));
          AddWindow(dict, &delta, e.Spec(1, 3), f);
          Good(dict, delta, vp::Str("opcodes %d,%d sel %d %s", (int)u, b, sel, FmtName(f)));
        }
  }, "all 256^2 opcode pairs after one copy, several address choices, standard and interleaved");

  static const int kRep[] = {0, 1, 2, 19, 20, 21, 35, 36, 51, 52, 67, 83, 99, 100, 115, 116, 131, 147, 163, 181, 235, 243, 247, 252};
  AddSpace("sequences", 24 * 24, [](uint64_t u) {
    const ref::Table& t = ref::DefaultTable();
    Bytes dict = Dict(30);
    int depth = vp::Thorough() ? 5 : 4;
    int seq[5] = {kRep[u / 24], kRep[u % 24], 0, 0, 0};
    long tot = 1; for (int i = 2; i < depth; i++) tot *= 24;
    for (long k = 0; k < tot; k++) {
      long x = k; for (int i = 2; i < depth; i++) { seq[i] = kRep[x % 24]; x /= 24; }
      for (int f : {V0, S_IL_SUM}) {
        ref::Emitter e(t, 4, 3, IsIL(f), 20);
        bool ok = true;
        for (int i = 0; i < depth && ok; i++) ok = e.Op(seq[i], 3 + i, i + (int)(k % 5), 4, i);
        if (!ok) continue;
        Bytes delta = ref::Header(Version(f));
        AddWindow(dict, &delta, e.Spec(1, 7), f);
        Good(dict, delta, vp::Str("sequence %d,%d,%d,%d,%d %s", seq[0], seq[1], seq[2], seq[3], depth > 4 ? seq[4] : -1, FmtName(f)), k % 16 == 0);
      }
    }
  }, "all opcode sequences of length 4 (thorough: 5) over 24 representative opcodes");

  AddSpace("copy-geometry", 8 * 3, [](uint64_t u) {
    // every source length 0..7, segment position, amount already produced, address, size
    uint32_t slen = u % 8, kind = u / 8;       // kind 0: source, 1: earlier target, 2: source of window 2
    Bytes dict = Dict(12);
    for (uint32_t pos = 0; pos <= 4; pos++)
      for (uint32_t pre = 0; pre <= 6; pre++)
        for (uint32_t addr = 0; addr < slen + pre; addr++)
          for (uint32_t size = 1; size <= 20; size++)
            for (int mode = 0; mode < 2; mode++)
              for (int f : {V0, S_IL}) {
                ref::WinSpec w; w.indicator = slen ? (kind == 1 ? 2 : 1) : 0; w.src_len = slen; w.src_pos = pos; w.target_len = pre + size;
                bool il = IsIL(f);
                if (pre) { w.inst.push_back((char)(1 + pre)); (il ? w.inst : w.data) += Bytes("pqrstu").substr(0, pre); }
                w.inst.push_back((char)(mode ? 35 : 19)); ref::PutVarint(&w.inst, size);
                ref::PutVarint(il ? &w.inst : &w.addr, mode ? slen + pre - addr : addr);
                Bytes delta = ref::Header(Version(f));
                if (kind) {
                  ref::WinSpec w0; w0.target_len = 13; w0.inst = Bytes(1, 14); Bytes lit = "KLMNOPQRSTUVW";
                  if (il) w0.inst += lit; else w0.data = lit;
                  delta += ref::MakeWindow(w0);
                }
                delta += ref::MakeWindow(w);
                Good(dict, delta, vp::Str("copy len %u pos %u produced %u addr %u size %u mode %d kind %u", slen, pos, pre, addr, size, mode, kind));
              }
  }, "all (segment length<=7, position<=4, produced<=6, address, size<=20) x source/target segment x modes x formats");

  AddSpace("windows", 14, [](uint64_t u) {
    // all sequences of up to 3 (thorough 4) windows over 14 window kinds
    const ref::Table& t = ref::DefaultTable();
    Bytes dict = Dict(25);
    int depth = vp::Thorough() ? 4 : 3;
    for (int f = 0; f < kFmts; f++) {
      std::function<void(const Bytes&, uint32_t, int, const std::string&)> rec;
      rec = [&](const Bytes& delta, uint32_t have, int d, const std::string& name) {
        if (d) Good(dict, delta, "windows " + name + " " + FmtName(f));
        if (d == depth) return;
        for (int k = 0; k < 14; k++) {
          if (d == 0 && k != (int)u) continue;
          uint8_t ind = 0; uint32_t sl = 0, sp = 0;
          bool has = true;
          std::vector<std::vector<uint32_t>> ops;   // op,s1,sel1,s2,sel2
          switch (k) {
            case 0: ops = {{3, 0, 0, 0, 0}}; break;
            case 1: ops = {}; break;
            case 2: ind = 1; sl = 25; ops = {{19, 6, 2, 0, 0}, {51, 3, 3, 0, 0}}; break;
            case 3: ind = 1; sl = 7; sp = 18; ops = {{19, 9, 4, 0, 0}}; break;
            case 4: ind = 2; sl = have; ops = {{35, 5, 0, 0, 0}, {115, 3, 3, 0, 0}}; has = have > 0; break;
            case 5: ind = 2; sl = have / 2; sp = have - have / 2; ops = {{20, 0, 4, 0, 0}, {2, 0, 0, 0, 0}}; has = have > 1; break;
            case 6: ops = {{0, 4, 2, 0, 0}, {19, 8, 0, 0, 0}}; break;
            case 7: ind = 1; sl = 0; sp = 25; ops = {{2, 0, 0, 0, 0}, {163, 0, 0, 0, 0}}; break;
            case 8: ind = 1; sl = 10; sp = 2; ops = {{19, 4, 2, 0, 0}, {99, 3, 0, 0, 0}, {100, 0, 1, 0, 0}, {131, 4, 3, 0, 0}}; break;
            case 9: ind = 2; sl = 1; sp = have ? have - 1 : 0; ops = {{19, 12, 0, 0, 0}}; has = have > 0; break;
            case 10: ops = {{1, 200, 0, 0, 0}}; break;
            case 11: ind = 1; sl = 20; sp = 5; ops = {{247, 0, 2, 0, 0}, {235, 0, 0, 0, 3}}; break;
            case 12: ind = 2; sl = 0; sp = have; ops = {}; break;
            case 13: ind = 1; sl = 25; ops = {{36, 0, 1, 0, 0}, {36, 0, 1, 0, 0}, {52, 0, 1, 0, 0}}; break;
          }
          if (!has) continue;
          ref::Emitter e(t, 4, 3, IsIL(f), sl);
          bool ok = true;
          for (auto& o : ops) ok = ok && e.Op(o[0], o[1], o[2], o[3], o[4]);
          if (!ok) continue;
          Bytes dl = delta;
          int wf = f;
          if (HasSum(f) && (d + k) % 3 == 2) wf = f == S_IL_SUM ? S_IL : S_STD;   // mix windows with and without checksum
          if (IsS(f) && k == 6) wf = f;                                             
          AddWindow(dict, &dl, e.Spec(ind, sp), wf);
          rec(dl, have + e.produced, d + 1, name + std::to_string(k) + ".");
        }
      };
      rec(ref::Header(Version(f)), 0, 0, "");
    }
  }, "all sequences of up to 3 windows over 14 kinds (source/earlier-target/no segment, empty, overlapping, cached addresses) x 5 formats, per-window checksum on/off");

  AddSpace("window-growth", kGrowthUnits, [](uint64_t u) {
    ForGrowth(u, [&](const Bytes& dict, const Bytes& delta, const std::string& what) { Good(dict, delta, what); });
  }, "all triples of window lengths around string growth steps (1..250) x 5 ways of referring to earlier target data x 5 formats");

  AddSpace("mixed-formats", 8, [](uint64_t u) {
    // in an S file every window chooses its own layout: all layouts over 3 windows
    const ref::Table& t = ref::DefaultTable();
    Bytes dict = Dict(25), delta = ref::Header('S');
    for (int i = 0; i < 3; i++) {
      int f = ((u >> i) & 1) ? S_IL : S_STD;
      ref::Emitter e(t, 4, 3, IsIL(f), 25);
      e.Op(19, 6, 2, 0, 0); e.Op(1, 3, 0, 0, 0); e.Op(116, 0, 3, 0, 0);
      AddWindow(dict, &delta, e.Spec(1, 0), f + ((u + i) % 2 ? 2 : 0));
      Good(dict, delta, "mixed layouts");
    }
  }, "all assignments of layouts to three windows");

  static std::vector<CustomT> tables = Tables();
  AddSpace("custom-tables", tables.size() * 256, [](uint64_t u) {
    const CustomT& c = tables[u / 256];
    int op = (int)(u % 256);
    if (!ref::ValidTable(c.t, 1 + c.n + c.s)) vp::Fail("harness: table invalid");
    std::vector<uint32_t> sz = {1, 4, 130};
    for (int inner = 0; inner < 2; inner++)
      TableSweep(c.t, c.n, c.s, ref::CustomHeader(0, c.t, c.n, c.s, inner, op % 8 != 3), ref::CustomHeader('S', c.t, c.n, c.s, inner),
                 op, c.self_op, sz, vp::Thorough() ? 5 : (inner ? 1 : 3), c.name);
  }, "12 custom code tables / cache sizes (0,0)..(252,0),(0,200): every opcode x sizes x addresses x formats; table sent as standard or interleaved embedded delta");

  AddSpace("big-fields", 40, [](uint64_t u) {
    // sizes and addresses around every integer-encoding length boundary
    static const uint32_t edge[] = {126, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153};
    uint32_t v = edge[u % 12];
    if (u >= 36) return;
    int kind = u / 12;
    for (int f = 0; f < kFmts; f++) {
      Bytes dict; ref::WinSpec w; bool il = IsIL(f);
      if (kind == 0) {          // ADD of v bytes: data length, target length, delta length
        w.target_len = v; w.inst = Bytes(1, 1); ref::PutVarint(&w.inst, v);
        Bytes lit = Dict(v); if (il) w.inst += lit; else w.data = lit;
      } else if (kind == 1) {   // source length / address v, HERE and NEAR distances of v
        dict = Dict(v + 40); w.indicator = 1; w.src_len = v + 30; w.src_pos = 10; w.target_len = 12;
        Bytes& A = il ? w.inst : w.addr;
        w.inst.push_back(20); ref::PutVarint(&A, v);
        w.inst.push_back(36); ref::PutVarint(&A, v);
        w.inst.push_back(52); ref::PutVarint(&A, 3);   // near slot 0 == v
      } else {                  // RUN of v, copy at source position v
        dict = Dict(v + 40); w.indicator = 1; w.src_len = 8; w.src_pos = v; w.target_len = v + 4;
        w.inst.push_back(0); ref::PutVarint(&w.inst, v); (il ? w.inst : w.data).push_back('r');
        w.inst.push_back(20); ref::PutVarint(il ? &w.inst : &w.addr, 2);
      }
      Bytes delta = ref::Header(Version(f));
      AddWindow(dict, &delta, w, f);
      Good(dict, delta, vp::Str("boundary %u kind %d %s", v, kind, FmtName(f)), true);
    }
  }, "section, window, source lengths, positions, run sizes and addresses at 2^7, 2^14, 2^21 (+-1,2)");

  AddSpace("table-forms", kTableFormUnits, [](uint64_t u) {
    ForTableForms(u, [&](const Bytes& dict, const Bytes& delta, size_t, const std::string& what) { for (int i = 0; i < 8; i++) Good(dict, delta, what); });
  }, "3 code tables sent as 8 sequences of 1..6 windows x 4 ways of expressing them (literals, runs, copies from the default table, from earlier windows) x 5 formats");

  AddSpace("each-size", 64, [](uint64_t u) {
    // every size of every instruction, by implicit and explicit size, with every class of byte
    const ref::Table& t = ref::DefaultTable();
    Bytes dict = Pattern(2300);
    for (uint32_t n = 1 + u; n <= (vp::Thorough() ? 2200u : 700u); n += 64)
      for (int op = 0; op < 256; op++) {
        if (t.f[1][op] != ref::NOOP || (t.f[2][op] != 0 && t.f[2][op] != n)) continue;
        for (int b : {0, 1, 0x7f, 0x80, 0xff})
          for (int f : {V0, S_STD_SUM, S_IL}) {
            if (t.f[0][op] == ref::COPY && b > 1) continue;
            if (t.f[0][op] == ref::COPY && f == S_STD_SUM) continue;
            bool il = IsIL(f);
            ref::WinSpec w; w.indicator = 1; w.src_len = 2250; w.src_pos = 17; w.target_len = 1 + n + 4;
            Bytes& D = il ? w.inst : w.data; Bytes& A = il ? w.inst : w.addr;
            w.inst.push_back(2); D.push_back('k');
            w.inst.push_back((char)op); if (!t.f[2][op]) ref::PutVarint(&w.inst, n);
            int mode = t.f[4][op];
            if (t.f[0][op] == ref::ADD) for (uint32_t i = 0; i < n; i++) D.push_back((char)(i == n / 2 || i + 1 == n || !i ? b : i));
            else if (t.f[0][op] == ref::RUN) D.push_back((char)b);
            else if (mode == 1) ref::PutVarint(&A, b ? 1 : 2250);
            else if (mode >= 6) A.push_back(0);
            else ref::PutVarint(&A, b ? 2250 - n / 2 : 3);
            w.inst.push_back(36); ref::PutVarint(&A, 4);
            Bytes delta = ref::Header(Version(f));
            AddWindow(dict, &delta, w, f);
            Good(dict, delta, vp::Str("opcode %d size %u byte %d %s", op, n, b, FmtName(f)), false);
          }
      }
    vp::Sample("sizes = " + std::to_string(1 + u) + " mod 64, all single-instruction opcodes");
  }, "every size 1..700 (thorough 2200) x every single-instruction opcode that can express it x byte values 0,1,7f,80,ff / address choices x layouts");

  AddSpace("large-geometry", 12 * 4, [](uint64_t u) {
    // copies at large addresses and over large distances, overlapping their own output
    static const uint32_t pres[] = {1, 3, 64, 1000, 4095, 4096, 4097, 5000, 16384, 65535, 65537, 100000};
    static const uint32_t slens[] = {0, 5, 4096, 65536};
    uint32_t pre = pres[u % 12], slen = slens[u / 12];
    Bytes dict = Pattern(65600), lit = Pattern(pre + 77).substr(77);
    std::vector<uint32_t> dist;
    for (uint32_t k = 1; k <= 1u << 17; k <<= 1) for (int d = -1; d <= 1; d++) if (k + d > 0) dist.push_back(k + d);
    for (uint32_t x : {5u, 11u, 100u, 1000u, 5000u, slen, pre, slen + pre, slen + pre / 2, slen / 2 + pre}) dist.push_back(x);
    std::sort(dist.begin(), dist.end()); dist.erase(std::unique(dist.begin(), dist.end()), dist.end());
    int k = 0;
    for (uint32_t d : dist) {
      if (d == 0 || d > slen + pre) continue;
      for (uint32_t size : {1u, d - 1, d, d + 1, 2 * d, 2 * d + 1, 3 * d + 7, 70000u}) {
        if (size == 0 || size > 200000) continue;
        int f = k++ % 2 ? S_IL : V0; bool il = IsIL(f); int mode = k / 2 % 2;
        ref::WinSpec w; w.indicator = slen ? 1 : 0; w.src_len = slen; w.src_pos = slen ? 13 : 0; w.target_len = pre + size + 4;
        Bytes& D = il ? w.inst : w.data; Bytes& A = il ? w.inst : w.addr;
        w.inst.push_back(1); ref::PutVarint(&w.inst, pre); D += lit;
        w.inst.push_back(mode ? 35 : 19); ref::PutVarint(&w.inst, size); ref::PutVarint(&A, mode ? d : slen + pre - d);
        w.inst.push_back(52); ref::PutVarint(&A, 1);
        Bytes delta = ref::Header(Version(f));
        AddWindow(dict, &delta, w, f);
        Good(dict, delta, vp::Str("copy of %u bytes, distance %u, after %u bytes, source of %u, mode %d, %s", size, d, pre, slen, mode, FmtName(f)), size < 2000);
      }
    }
    vp::Sample(vp::Str("copies after %u target bytes, source of %u", pre, slen));
  }, "12 amounts produced (1..100000) x 4 source lengths (0..65536) x ~60 distances (2^k and 2^k+-1 up to 2^17, segment ends) x 8 sizes (distance-1 .. 3*distance+7, 70000)");

  AddSpace("large", kLargeUnits, [](uint64_t u) {
    ForLarge(u, [&](const Bytes& dict, const Bytes& delta, uint32_t, const std::string& what) { Good(dict, delta, what, false); });
  }, "one ADD, RUN or COPY (from the source / overlapping itself) of 2^k-1, 2^k, 2^k+1 bytes, k = 16..25, between small instructions, and a window that refers to it");

  AddSpace("many", kManyUnits, [](uint64_t u) {
    ForMany(u, [&](const Bytes& dict, const Bytes& delta, const std::string& what) { Good(dict, delta, what, false); vp::Sample(what); });
  }, "255..257 and 65535..65537 (thorough 2^20+1) opcodes of all kinds in one window; as many windows; 3 formats");

  AddSpace("huge", 9, [](uint64_t u) {
    // windows far beyond the default limits, allowed by the caller; the target is known without a model
    static const uint64_t N[] = {(1u << 26) + 1, (1u << 27) + 3, (1u << 28) - 1, (1u << 28) + 1, (1u << 29) + 5, (1u << 30) - 1, (1u << 30) + 1, 0x7fffff00u, 0x7fffff00u};
    uint64_t n = N[u]; int f = u % 2 ? S_IL : V0; bool il = IsIL(f);
    if (u >= 7 && !vp::Thorough() && u != 7) return;
    ref::WinSpec w; w.indicator = 1; w.src_len = 40; w.target_len = n + 9;
    Bytes& D = il ? w.inst : w.data; Bytes& A = il ? w.inst : w.addr;
    Bytes dict = Pattern(40);
    w.inst.push_back(2); D += "x";
    uint64_t run = u % 3 == 2 ? n / 2 : n;
    w.inst.push_back(0); ref::PutVarint(&w.inst, run); D += "\xc3";
    if (run < n) { w.inst.push_back(35); ref::PutVarint(&w.inst, n - run); ref::PutVarint(&A, run); }   // from the run
    w.inst.push_back(20); ref::PutVarint(&A, 31);
    w.inst.push_back(36); ref::PutVarint(&A, n + 5);   // the window's first bytes
    Bytes delta = ref::Header(Version(f)); delta += ref::MakeWindow(w);
    struct Sink : open_vcdiff::OutputStringInterface {
      uint64_t at = 0, n; bool ok = true; Bytes head, tail;
      OutputStringInterface& append(const char* p, size_t len) override {
        static const Bytes run(1 << 16, (char)0xc3);
        while (len) {
          size_t k;
          if (at < 1) { head.push_back(*p); k = 1; }
          else if (at < 1 + n) { k = std::min<uint64_t>(std::min<uint64_t>(len, 1 + n - at), run.size()); ok = ok && !memcmp(p, run.data(), k); }
          else { tail.append(p, len); k = len; }
          at += k; p += k; len -= k;
        }
        return *this;
      }
      void clear() override {} void push_back(char c) override { append(&c, 1); } void ReserveAdditionalBytes(size_t) override {} size_t size() const override { return at; }
    } sink; sink.n = n;
    open_vcdiff::VCDiffStreamingDecoder d; d.SetAllowVcdTarget(false);
    d.SetMaximumTargetFileSize(0x7fffffffu); d.SetMaximumTargetWindowSize(0x7fffffffu);
    vp::State(); vp::Trace(); vp::Transition(3);
    d.StartDecoding(dict.data(), dict.size());
    Bytes want = dict.substr(31, 4) + "x\xc3\xc3\xc3";
    std::string what = vp::Str("window of %llu bytes, %s", (unsigned long long)w.target_len, FmtName(f));
    VP_NOTE(what);
    if (!d.DecodeChunkToInterface(delta.data(), delta.size(), &sink) || !d.FinishDecoding()) vp::Fail("well-formed delta rejected: " + what);
    if (!sink.ok || sink.head != "x" || sink.tail != want) vp::Fail("wrong target: " + what + " tail " + vp::Hex(sink.tail, 40));
    vp::Sample(what);
  }, "windows of 2^26 .. 2^31-256 bytes (run, copy of half of it, copies at both ends) under limits raised by the caller");

  AddSpace("longest-segment", 4 * kFmts, [](uint64_t u) {
    // segment and window together as long as 31-bit addresses allow, over a dictionary of 2 GB (mostly untouched pages)
    static const uint64_t T[] = {13, 139, 300, 70000};
    uint64_t n = T[u / kFmts]; int f = (int)(u % kFmts); bool il = IsIL(f), sum = f == S_STD_SUM || f == S_IL_SUM;
    for (uint64_t less : {0, 1}) {
      uint64_t seg = 0x7fffffffu - n - less; size_t total = (size_t)1 << 31;
      char* d = (char*)mmap(NULL, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (d == MAP_FAILED) { vp::Tally("no address space"); return; }
      Bytes tail = Pattern(100); memcpy(d + seg - 100, tail.data(), 100); memcpy(d, "begin", 5);
      ref::WinSpec w; w.indicator = 1 | (sum ? 4 : 0); w.src_len = seg; w.target_len = n;
      Bytes& D = il ? w.inst : w.data; Bytes& A = il ? w.inst : w.addr; Bytes want;
      w.inst.push_back(20); ref::PutVarint(&A, seg - 4); want += tail.substr(96);           // by value
      w.inst.push_back(36); ref::PutVarint(&A, 8 + 4); want += tail.substr(92, 4);          // by distance
      w.inst.push_back(0); ref::PutVarint(&w.inst, n - 12); D += "r"; want += Bytes(n - 12, 'r');
      w.inst.push_back(20); ref::PutVarint(&A, seg + n - 8); want += want.substr(n - 8, 4);   // the highest addresses
      if (sum) { w.checksum = true; w.checksum_value = ref::Adler32(want.data(), want.size()); }
      Bytes delta = ref::Header(Version(f)) + ref::MakeWindow(w), out;
      open_vcdiff::VCDiffStreamingDecoder dec; vp::State(); vp::Trace(); vp::Transition(3);
      dec.StartDecoding(d, total);
      bool ok = dec.DecodeChunk(delta.data(), delta.size(), &out) && dec.FinishDecoding();
      munmap(d, total);
      if (!ok || out != want) vp::Fail(vp::Str("segment of %llu and window of %llu bytes: %s, ", (unsigned long long)seg, (unsigned long long)n, ok ? "wrong target" : "rejected") + FmtName(f));
    }
    vp::Sample(vp::Str("window of %llu bytes after the longest segment", (unsigned long long)n));
  }, "source segments of 2^31-1 (and one less) minus the window length x 4 window lengths x 5 formats, copies from both ends of the address range");

  AddSpace("near-well-formed", Corpus().size() * 4, [](uint64_t u) {
    // every single-edit variant that is still well-formed has to decode accordingly
    const Case& c = Corpus()[u / 4]; uint64_t k = 0;
    ForMutants(c.delta, 1, [&](const Bytes& m) {
      if (k++ % 4 != u % 4) return;
      ref::Result r = ref::Decode(c.dict, m);
      if (r.verdict == ref::OK && !r.odd) { Good(c.dict, m, "variant of " + c.name, false); vp::Tally("well-formed single edits"); }
    });
  }, "every single-byte substitution/insertion/deletion of every corpus delta that the reference model accepts");
}
}  // namespace vp
