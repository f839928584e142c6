// C20: code table validation and the choice of opcodes.
#include "gen.h"
#include <string.h>
#include <memory>
#include "addrcache.h"
#include "codetable.h"
#include "google/encodetable.h"
#include "google/output_string.h"
#include "instruction_map.h"
using namespace open_vcdiff;
using gen::Bytes;

namespace {
VCDiffCodeTableData Conv(const ref::Table& t) {
  VCDiffCodeTableData d;
  memcpy(d.inst1, t.f[0], 256); memcpy(d.inst2, t.f[1], 256); memcpy(d.size1, t.f[2], 256);
  memcpy(d.size2, t.f[3], 256); memcpy(d.mode1, t.f[4], 256); memcpy(d.mode2, t.f[5], 256);
  return d;
}
std::string Entry(const ref::Table& t, int op) {
  return vp::Str("opcode %d = (%d,%d,%d)(%d,%d,%d)", op, t.f[0][op], t.f[2][op], t.f[4][op], t.f[1][op], t.f[3][op], t.f[5][op]);
}
void CheckValid(const ref::Table& t, int max_mode, int op) {
  VCDiffCodeTableData d = Conv(t);
  bool want = ref::ValidTable(t, max_mode), got = d.Validate((unsigned char)max_mode);
  vp::Transition(); vp::Trace();
  if (want != got) vp::Fail(vp::Str("Validate(%d) says %s: ", max_mode, got ? "valid" : "invalid") + Entry(t, op));
  if (max_mode == 8 && d.Validate() != want) vp::Fail("Validate() differs from Validate(8): " + Entry(t, op));
}
// Effective single instruction of an opcode, if it is one.
bool Single(const ref::Table& t, int op, int* in, int* sz, int* mo) {
  for (int h = 0; h < 2; h++)
    if (t.f[h][op] != ref::NOOP && t.f[1 - h][op] == ref::NOOP) { *in = t.f[h][op]; *sz = t.f[2 + h][op]; *mo = t.f[4 + h][op]; return true; }
  return false;
}
void CheckMap(const ref::Table& t, int max_mode, const char* name) {
  VCDiffCodeTableData d = Conv(t);
  VCDiffInstructionMap map(d, (unsigned char)max_mode);
  static int single[4][256][256];    // [inst][size][mode] -> exists
  static int pair_of[4][256][256];
  memset(single, 0, sizeof single);
  for (int op = 0; op < 256; op++) { int i, s, m; if (Single(t, op, &i, &s, &m)) single[i][s][m] = 1; }
  auto bad = [&](const std::string& w) { vp::Fail(std::string(name) + ": " + w); };
  for (int in = 1; in <= 3; in++) for (int sz = 0; sz < 256; sz++) for (int mo = 0; mo <= (in == 3 ? max_mode : 0); mo++) {
    OpcodeOrNone op = map.LookupFirstOpcode(in, sz, mo);
    if (op == kNoOpcode) { if (single[in][sz][mo]) bad(vp::Str("no opcode found for instruction %d size %d mode %d although the table has one", in, sz, mo)); continue; }
    int i, s, m;
    if (op > 255 || !Single(t, op, &i, &s, &m) || i != in || s != sz || m != mo) bad(vp::Str("instruction %d size %d mode %d gets ", in, sz, mo) + Entry(t, op & 255));
    // second lookups after this opcode
    memset(pair_of, 0, sizeof pair_of);
    bool any = false;
    for (int k = 0; k < 256; k++)
      if (t.f[0][k] == in && t.f[2][k] == sz && t.f[4][k] == mo && t.f[1][k] != ref::NOOP) { pair_of[t.f[1][k]][t.f[3][k]][t.f[5][k]] = 1; any = true; }
    for (int in2 = 1; in2 <= 3; in2++) for (int sz2 = 0; sz2 < 256; sz2++) {
      if (!any && sz2 > 20 && sz2 < 250) continue;
      for (int mo2 = 0; mo2 <= (in2 == 3 ? max_mode : 0); mo2++) {
        OpcodeOrNone op2 = map.LookupSecondOpcode((unsigned char)op, in2, sz2, mo2);
        bool exists = pair_of[in2][sz2][mo2] != 0;
        if (op2 == kNoOpcode) { if (exists) bad("no compound found after " + Entry(t, op) + vp::Str(" for instruction %d size %d mode %d", in2, sz2, mo2)); continue; }
        if (op2 > 255 || t.f[0][op2] != in || t.f[2][op2] != sz || t.f[4][op2] != mo || t.f[1][op2] != in2 || t.f[3][op2] != sz2 || t.f[5][op2] != mo2)
          bad("after " + Entry(t, op) + vp::Str(" instruction %d size %d mode %d gets ", in2, sz2, mo2) + Entry(t, op2 & 255));
      }
    }
    vp::Transition(400);
  }
  vp::State(); vp::Trace();
}
struct Named { const char* name; ref::Table t; int n, s; };
std::vector<Named>& Tables() {
  static std::vector<Named> v;
  if (v.empty()) {
    v.push_back({"default", ref::DefaultTable(), 4, 3});
    v.push_back({"explicit-compounds", gen::DoubleExplicitTable(), 4, 3});
    v.push_back({"reversed", gen::ReversedTable(), 4, 3});
    int c[][2] = {{0, 0}, {1, 0}, {0, 1}, {2, 3}, {10, 5}, {100, 100}, {252, 0}, {0, 252}};
    for (auto& x : c) v.push_back({"minimal", gen::MinimalTable(x[0], x[1]), x[0], x[1]});
  }
  return v;
}
// ---- the opcodes the writer actually emits ------------------------------------
struct WI { int type; uint32_t size; int addr; };
struct Op { int opcode; std::vector<uint32_t> sizes; };
// Instruction section of a single window written with the given instructions.
std::vector<Op> Written(const ref::Table& t, int n, int s, bool def, const std::vector<WI>& in, std::vector<ref::Inst>* got, const Bytes& dict) {
  VCDiffCodeTableData d = Conv(t);
  std::unique_ptr<VCDiffCodeTableWriter> w(def ? new VCDiffCodeTableWriter(false) : new VCDiffCodeTableWriter(false, n, s, d, 1 + n + s));
  Bytes out; OutputString<Bytes> o(&out);
  if (!w->Init(dict.size())) vp::Fail("writer refuses a valid table");
  Bytes data(400, 'x');
  for (auto& i : in) { if (i.type == ref::ADD) w->Add(data.data(), i.size); else if (i.type == ref::RUN) w->Run(i.size, 'r'); else w->Copy(i.addr, i.size); }
  w->Output(&o); vp::Transition(in.size() + 2);
  Bytes whole = (def ? ref::Header(0) : ref::CustomHeader(0, t, n, s)) + out;
  ref::Result r = ref::Decode(dict, whole);
  if (r.verdict != ref::OK || r.windows.size() != 1) vp::Fail(std::string("the writer's window is malformed: ") + r.reason + " " + vp::Hex(out, 200));
  *got = r.windows[0].insts;
  const ref::Window& W = r.windows[0];
  size_t pos = whole.size() - W.addr_len - W.inst_len, end = pos + W.inst_len;
  std::vector<Op> v;
  while (pos < end) {
    Op x; x.opcode = (uint8_t)whole[pos++];
    for (int h = 0; h < 2; h++) if (t.f[h][x.opcode] != ref::NOOP && t.f[2 + h][x.opcode] == 0) { uint32_t z = 0; while ((uint8_t)whole[pos] & 0x80) z = z << 7 | ((uint8_t)whole[pos++] & 0x7f); z = z << 7 | (uint8_t)whole[pos++]; x.sizes.push_back(z); }
    v.push_back(x);
  }
  return v;
}
void CheckWriter(const ref::Table& t, int n, int s, bool def, const std::vector<WI>& in, const char* name) {
  static const Bytes dict(600, 'd');
  std::vector<ref::Inst> got, one; std::vector<Op> both = Written(t, n, s, def, in, &got, dict), first = Written(t, n, s, def, {in[0]}, &one, dict);
  vp::State(); vp::Trace(2);
  auto bad = [&](const std::string& w) { vp::Fail(std::string(name) + vp::Str(": %d/%u then %d/%u: ", in[0].type, in[0].size, in[1].type, in[1].size) + w); };
  if (got.size() != in.size() || one.size() != 1 || first.size() != 1) bad("wrong number of instructions");
  for (size_t k = 0; k < in.size(); k++) if (got[k].type != in[k].type || got[k].size != in[k].size || (in[k].type == ref::COPY && got[k].addr != (uint32_t)in[k].addr)) bad(vp::Str("instruction %zu is written as another one", k));
  // is there a compound opcode joining the opcode chosen for the first with the second?
  int a, z, m; if (!Single(t, first[0].opcode, &a, &z, &m)) bad("a lone instruction is written with a compound opcode");
  bool exists = false;
  for (int k = 0; k < 256; k++) if (t.f[0][k] == a && t.f[2][k] == z && t.f[4][k] == m && t.f[1][k] == in[1].type && t.f[5][k] == got[1].mode && (t.f[3][k] == 0 || t.f[3][k] == in[1].size)) exists = true;
  if (exists && both.size() != 1) bad("two opcodes are used although the table has a compound one for this pair");
  if (!exists && both.size() != 2) bad(vp::Str("%zu opcodes for two instructions without a compound", both.size()));
}
const int I[] = {0, 1, 2, 3, 4, 255}, S[] = {0, 1, 4, 255};
}  // namespace

namespace vp {
void Setup() {
  Tables();
  AddSpace("default-table", 1, [](uint64_t) {
    const ref::Table& t = ref::DefaultTable(); const VCDiffCodeTableData& d = VCDiffCodeTableData::kDefaultCodeTableData;
    VCDiffCodeTableData c = Conv(t);
    const unsigned char* a[] = {d.inst1, d.inst2, d.size1, d.size2, d.mode1, d.mode2};
    const unsigned char* b[] = {c.inst1, c.inst2, c.size1, c.size2, c.mode1, c.mode2};
    for (int f = 0; f < 6; f++) for (int i = 0; i < 256; i++) { if (a[f][i] != b[f][i]) Fail(Str("default code table differs from RFC 3284 5.6 in field %d of opcode %d: %d, should be %d", f, i, a[f][i], b[f][i])); State(); }
    VP_CHECK(d.Validate() && d.Validate(8), "the default table is reported invalid");
    for (int mm = 0; mm < 256; mm++) CheckValid(t, mm, 0);
    VP_CHECK(VCDiffInstructionMap::GetDefaultInstructionMap() != NULL, "no default map");
    // default map answers like one built from the table
    VCDiffInstructionMap m(d, 8); VCDiffInstructionMap* g = VCDiffInstructionMap::GetDefaultInstructionMap();
    for (int in = 1; in <= 3; in++) for (int s = 0; s < 256; s++) for (int mo = 0; mo <= (in == 3 ? 8 : 0); mo++) {
      VP_CHECK(m.LookupFirstOpcode(in, s, mo) == g->LookupFirstOpcode(in, s, mo), "default instruction map differs");
      for (int op = 0; op < 256; op++) VP_CHECK(m.LookupSecondOpcode(op, in, s, mo) == g->LookupSecondOpcode(op, in, s, mo), "default instruction map differs");
    }
    Sample("all 1536 entries of the default table");
  }, "all 1536 entries against the table generated from the RFC text; validation under all 256 maximum modes");

  AddSpace("single-entry", 11 * 256, [](uint64_t u) {
    const Named& b = Tables()[u / 256]; int op = (int)(u % 256), mm = 1 + b.n + b.s;
    ref::Table t = b.t;
    int M[] = {0, 1, mm, mm + 1, 255};
    for (int i1 : I) for (int i2 : I) for (int s1 : S) for (int s2 : S) for (int m1 : M) for (int m2 : M) {
      if (m1 > 255 || m2 > 255) continue;
      if (u >= 256 && !Thorough() && (s1 == 4 || s2 == 4 || m1 == 1 || i1 == 255)) continue;
      t.f[0][op] = i1; t.f[1][op] = i2; t.f[2][op] = s1; t.f[3][op] = s2; t.f[4][op] = m1; t.f[5][op] = m2;
      CheckValid(t, mm, op); State();
    }
    Sample(std::string(b.name) + Str(": opcode %d replaced by every combination", op));
  }, "11 tables x 256 opcodes x entry replaced by every combination of 6 instructions, 4 sizes and 5 modes (both halves)");

  AddSpace("coverage", 11 * 16, [](uint64_t u) {
    // remove or duplicate the opcodes that make a table complete; other maximum modes
    const Named& b = Tables()[u / 16]; int mm = 1 + b.n + b.s;
    for (int op = (int)(u % 16); op < 256; op += 16) {
      for (int op2 = 0; op2 < 256; op2++) {
        ref::Table t = b.t;
        for (int k = 0; k < 6; k++) t.f[k][op2] = b.t.f[k][op];       // copy op over op2
        CheckValid(t, mm, op2);
        for (int k = 0; k < 6; k++) t.f[k][op] = b.t.f[k][op2];       // swap
        CheckValid(t, mm, op2);
        State(2);
      }
      for (int d = -3; d <= 3; d++) if (mm + d >= 0 && mm + d <= 255) { ref::Table t = b.t; t.f[1][op] = ref::ADD; CheckValid(t, mm + d, op); CheckValid(b.t, mm + d, op); State(2); }
    }
    Sample(std::string(b.name) + ": every opcode copied over / swapped with every other");
  }, "11 tables x every opcode copied over and swapped with every other opcode, and under maximum modes +-3");

  AddSpace("maps", 11, [](uint64_t u) { const Named& b = Tables()[u]; CheckMap(b.t, 1 + b.n + b.s, b.name); Sample(std::string("instruction map of ") + b.name); },
           "11 tables: every (instruction, size, mode) and every follow-up after the chosen opcode");
  AddSpace("writer-pairs", 13 * 24, [](uint64_t u) {
    // tables with compounds of unusual sizes: largest implicit size, explicit sizes, every kind
    static std::vector<Named> ts; if (ts.empty()) {
      ts = Tables();
      ref::Table t = gen::MinimalTable(1, 1); int op = 100;
      for (int i1 = 1; i1 <= 3; i1++) for (int s1 : {0, 1, 254, 255}) for (int i2 = 1; i2 <= 3; i2++) for (int s2 : {0, 2, 255}) {
        if (op > 255) break;
        t.f[0][op] = i1; t.f[2][op] = s1; t.f[4][op] = 0; t.f[1][op] = i2; t.f[3][op] = s2; t.f[5][op] = 0; op++;
      }
      ts.push_back({"compounds of sizes 0, 1, 254, 255", t, 1, 1});
      ref::Table t2 = gen::MinimalTable(1, 1); op = 100;
      for (int i1 = 1; i1 <= 3; i1++) for (int s1 : {254, 255, 4}) { t2.f[0][op] = i1; t2.f[2][op] = s1; t2.f[1][op] = t2.f[3][op] = t2.f[4][op] = t2.f[5][op] = 0; op++; }
      for (int i1 = 1; i1 <= 3; i1++) for (int s1 : {255, 0, 4}) for (int i2 = 1; i2 <= 3; i2++) for (int s2 : {255, 254, 1, 4}) { t2.f[0][op] = i1; t2.f[2][op] = s1; t2.f[4][op] = i1 == 3 ? 1 : 0; t2.f[1][op] = i2; t2.f[3][op] = s2; t2.f[5][op] = i2 == 3 ? 1 : 0; op++; }
      ts.push_back({"implicit sizes 254 and 255", t2, 1, 1});
      for (auto& x : ts) if (!ref::ValidTable(x.t, 1 + x.n + x.s)) Fail(std::string("harness: invalid table ") + x.name);
    }
    const Named& b = ts[u / 24];
    static const uint32_t Z[] = {1, 2, 3, 4, 5, 6, 7, 16, 17, 18, 19, 127, 128, 253, 254, 255, 256, 257, 300, 10, 11, 12, 13, 14};
    uint32_t z1 = Z[u % 24];
    for (uint32_t z2 : Z) for (int t1 = 1; t1 <= 3; t1++) for (int t2 = 1; t2 <= 3; t2++) for (int a1 : {0, 5, 590, 255}) for (int a2 : {0, 5, 590}) {
      if ((t1 != 3 && a1) || (t2 != 3 && a2)) continue;
      if (b.n + b.s > 60 && !Thorough() && z2 % 3) continue;
      CheckWriter(b.t, b.n, b.s, u / 24 == 0, {{t1, z1, a1}, {t2, z2, a2}}, b.name);
    }
    Sample(std::string(b.name) + Str(": first instruction of size %u, any second one", z1));
  }, "13 tables x all pairs of ADD, RUN, COPY with 24 sizes and several addresses handed to the writer: opcodes denote the instructions, and a compound is used exactly when the table has one for the pair");
  AddSpace("map-variants", 256 * 2, [](uint64_t u) {
    const Named& b = Tables()[u % 2 ? 0 : 3]; int op = (int)(u / 2), mm = 1 + b.n + b.s;
    static const int V[][6] = {{1, 0, 9, 0, 0, 0}, {0, 3, 0, 200, 0, 1}, {0, 1, 0, 0, 0, 0}, {3, 3, 5, 255, 0, 1}, {2, 1, 0, 7, 0, 0}, {1, 3, 255, 0, 0, 0}, {0, 0, 0, 0, 0, 0}};
    for (auto& v : V) {
      ref::Table t = b.t; for (int k = 0; k < 6; k++) t.f[k][op] = v[k];
      if (ref::ValidTable(t, mm)) CheckMap(t, mm, b.name);
    }
  }, "instruction maps of 2 tables with each opcode replaced by 7 unusual entries");
  AddSpace("through-the-decoder", 256 * 2, [](uint64_t u) {
    // the same verdict and meaning when the table arrives inside a delta
    int b = u % 2 ? 0 : 6; const Named& base = Tables()[b]; int op = (int)(u / 2), mm = 1 + base.n + base.s;
    Bytes dict = "0123456789ABCDEFGHIJ0123456789ABCDEFGHIJ";
    for (int i1 : {0, 1, 2, 3, 4}) for (int i2 : {0, 1, 2, 3, 4}) for (int s1 : {0, 2}) for (int s2 : {0, 3}) for (int m1 : {0, 1, mm, mm + 1}) for (int m2 : {0, mm, mm + 1}) {
      if (!Thorough() && (i1 * 7 + i2 * 5 + s1 + s2 + m1 + m2 + op) % 3 == 0 && i1 == 4) continue;
      ref::Table t = base.t;
      t.f[0][op] = i1; t.f[1][op] = i2; t.f[2][op] = s1; t.f[3][op] = s2; t.f[4][op] = m1; t.f[5][op] = m2;
      Bytes d = ref::CustomHeader(0, t, base.n, base.s);
      bool valid = ref::ValidTable(t, mm);
      if (valid) {
        ref::Emitter e(t, base.n, base.s, false, 40);
        if (e.Op(op, 4, 2, 5, 1) && e.Op(op, 1, 0, 2, 3)) d += ref::MakeWindow(e.Spec(1, 0));
      }
      ref::Result r = ref::Decode(dict, d);
      gen::Outcome o = gen::RealWhole(dict, d);
      State(); Trace();
      if (o.ok != (r.verdict == ref::OK) || (o.ok && o.out != r.out))
        Fail(Str("decoder %s a delta with ", o.ok ? "accepts" : "rejects") + Entry(t, op) + Str(" (model: %s)", r.verdict == ref::OK ? "valid" : r.reason));
    }
    Sample(Str("opcode %d of a custom table sent inside a delta", op));
  }, "2 tables x 256 opcodes x entry variants sent to the decoder inside a delta and used by a window");
}
}  // namespace vp
