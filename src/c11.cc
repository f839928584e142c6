// C11: any instruction sequence handed to the delta writer decodes as written.
#include "enc.h"
#include <string.h>
#include <map>
#include <memory>
#include "addrcache.h"
#include "codetable.h"
#include "google/encodetable.h"
#include "google/output_string.h"
using namespace open_vcdiff;
using gen::Bytes;

namespace {
struct Cfg { const char* name; ref::Table t; int n, s; bool custom; VCDiffCodeTableData d; Bytes header; };
std::vector<Cfg>& Cfgs() {
  static std::vector<Cfg> v;
  if (v.empty()) {
    auto add = [&](const char* name, const ref::Table& t, int n, int s, bool custom) {
      Cfg c; c.name = name; c.t = t; c.n = n; c.s = s; c.custom = custom;
      memcpy(c.d.inst1, t.f[0], 256); memcpy(c.d.inst2, t.f[1], 256); memcpy(c.d.size1, t.f[2], 256);
      memcpy(c.d.size2, t.f[3], 256); memcpy(c.d.mode1, t.f[4], 256); memcpy(c.d.mode2, t.f[5], 256);
      v.push_back(c);
    };
    add("default", ref::DefaultTable(), 4, 3, false);
    add("explicit-compounds", gen::DoubleExplicitTable(), 4, 3, true);
    add("reversed", gen::ReversedTable(), 4, 3, true);
    add("minimal(0,0)", gen::MinimalTable(0, 0), 0, 0, true);
    add("minimal(2,3)", gen::MinimalTable(2, 3), 2, 3, true);
    add("minimal(0,5)", gen::MinimalTable(0, 5), 0, 5, true);
    add("minimal(9,0)", gen::MinimalTable(9, 0), 9, 0, true);
    add("minimal(100,100)", gen::MinimalTable(100, 100), 100, 100, true);
    // table whose compound entries need two different single opcodes, and duplicates
    ref::Table t = gen::MinimalTable(1, 1);
    for (int k = 0; k < 40; k++) { int op = 200 + k; t.f[0][op] = 1 + k % 3; t.f[2][op] = k % 5; t.f[4][op] = k % 3 == 2 ? k % 4 : 0; t.f[1][op] = 1 + (k / 3) % 3; t.f[3][op] = (k / 5) % 4; t.f[5][op] = (k / 3) % 3 == 2 ? (k / 7) % 4 : 0; }
    add("mixed(1,1)", t, 1, 1, true);
    // large caches (not used in the sequence spaces)
    add("minimal(0,200)", gen::MinimalTable(0, 200), 0, 200, true);
    add("minimal(200,20)", gen::MinimalTable(200, 20), 200, 20, true);
    add("minimal(252,0)", gen::MinimalTable(252, 0), 252, 0, true);
    add("minimal(0,252)", gen::MinimalTable(0, 252), 0, 252, true);
    for (auto& c : v) if (!ref::ValidTable(c.t, 1 + c.n + c.s)) vp::Fail(std::string("harness: invalid table ") + c.name);
  }
  return v;
}
struct I { int type; uint32_t size; int sel; };   // sel: address selector or byte value
struct Done { uint8_t type; uint32_t size; uint32_t addr; };
int VLen(uint64_t v) { int n = 1; while (v >>= 7) n++; return n; }
uint32_t Address(int sel, uint32_t here, uint32_t dict, const std::vector<Done>& h) {
  uint32_t prev = 0, prev2 = 0; int seen = 0;
  for (size_t i = h.size(); i-- > 0 && seen < 2;) if (h[i].type == ref::COPY) { (seen ? prev2 : prev) = h[i].addr; seen++; }
  uint32_t a = 0;
  if (sel >= 1000) { a = sel - 1000; return a < here ? a : here - 1; }   // literal address
  switch (sel) {
    case 0: a = 0; break;
    case 1: a = here - 1; break;
    case 2: a = prev; break;
    case 3: a = prev + 5; break;
    case 4: a = dict ? dict - 1 : 0; break;
    case 5: a = 300; break;
    case 6: a = prev2 + 768; break;
    case 7: a = here > 130 ? here - 130 : here / 2; break;
    case 8: a = prev2; break;
  }
  return a < here ? a : here - 1;
}
struct Writer {   // one of the two layouts
  std::unique_ptr<VCDiffCodeTableWriter> w; Bytes out; bool il;
  Writer(const Cfg& c, bool il, size_t dict) : il(il) {
    if (c.custom) w.reset(new VCDiffCodeTableWriter(il, c.n, c.s, c.d, 1 + c.n + c.s)); else w.reset(new VCDiffCodeTableWriter(il));
    if (!w->Init(dict)) vp::Fail("writer Init failed");
    OutputString<Bytes> o(&out);
    if (c.custom) out = ref::CustomHeader('S', c.t, c.n, c.s); else w->WriteHeader(&o, il ? VCD_FORMAT_INTERLEAVED | VCD_FORMAT_CHECKSUM : VCD_FORMAT_CHECKSUM);
  }
};
const Bytes& DictOf(int k) { static const Bytes d[] = {Bytes(), enc::Noise(40, 71), enc::Noise(1100, 72), enc::Noise(70000, 73)}; return d[k]; }

// wins: windows of instructions
struct Session { std::unique_ptr<Writer> w[2]; Bytes head[2]; };
void Run(const Cfg& c, const Bytes& dict, const std::vector<std::vector<I>>& wins, bool sum, bool real) {
  VP_NOTE([&] { std::string s = std::string(c.name) + vp::Str(" dict %zu:", dict.size()); for (auto& w : wins) if (s.size() < 4000) { for (auto& i : w) s += vp::Str(" %d/%u/%d", i.type, i.size, i.sel); s += " |"; } return s; }());
  // Writers are kept between cases; Output() leaves them ready for the next window.
  static std::map<std::pair<const Cfg*, size_t>, Session> sessions;
  Session& S = sessions[std::make_pair(&c, dict.size())];
  if (!S.w[0]) for (int k = 0; k < 2; k++) { S.w[k].reset(new Writer(c, k == 1, dict.size())); S.head[k] = S.w[k]->out; }
  for (int k = 0; k < 2; k++) S.w[k]->out = S.head[k];
  Bytes target; std::vector<std::vector<Done>> all; uint8_t next = 'A';
  for (auto& win : wins) {
    std::vector<Done> done; Bytes t;
    for (const I& i : win) {
      uint32_t here = (uint32_t)(dict.size() + t.size());
      if (i.type == ref::ADD) {
        Bytes d; for (uint32_t k = 0; k < i.size; k++) d.push_back((char)next++);
        for (auto& w : S.w) { vp::Exact x(d); w->w->Add(x.p, x.n); }
        t += d; done.push_back({ref::ADD, i.size, 0});
      } else if (i.type == ref::RUN) {
        for (auto& w : S.w) w->w->Run(i.size, (unsigned char)i.sel);
        t += Bytes(i.size, (char)i.sel); done.push_back({ref::RUN, i.size, 0});
      } else {
        if (here == 0) continue;
        uint32_t a = Address(i.sel, here, (uint32_t)dict.size(), done);
        for (auto& w : S.w) w->w->Copy((int32_t)a, i.size);
        for (uint32_t k = 0; k < i.size; k++) t.push_back(a + k < dict.size() ? dict[a + k] : t[a + k - dict.size()]);
        done.push_back({ref::COPY, i.size, a});
      }
      vp::Transition(2);
    }
    if (done.empty()) continue;
    for (auto& w : S.w) { if (sum) w->w->AddChecksum(ref::Adler32(t.data(), t.size())); OutputString<Bytes> o(&w->out); w->w->Output(&o); vp::Transition(); }
    target += t; all.push_back(done);
  }
  ref::Result r[2];
  for (int k = 0; k < 2; k++) {
    const Bytes& d = S.w[k]->out;
    auto bad = [&](const std::string& m) { vp::Fail(std::string(c.name) + (k ? " interleaved: " : ": ") + m + " delta=" + vp::Hex(d.size() > S.head[k].size() ? d.substr(S.head[k].size()) : d, 300)); };
    r[k] = ref::Decode(dict, d);
    if (r[k].verdict != ref::OK || r[k].odd) bad(std::string("the emitted window is malformed: ") + r[k].reason);
    if (r[k].out != target) bad("the emitted window does not produce the instructions' effect");
    if (r[k].windows.size() != all.size()) bad("wrong number of windows");
    for (size_t w = 0; w < all.size(); w++) {
      const ref::Window& W = r[k].windows[w];
      if (W.has_checksum != sum) bad("checksum presence wrong");
      uint64_t limit = 0, data = 0, il = 0;
      for (auto& i : all[w]) { limit += 1 + VLen(i.size); data += i.type == ref::ADD ? i.size : i.type == ref::RUN ? 1 : 0; }
      if (k == 0) { if (W.inst_len > limit) bad(vp::Str("instruction stream of %u bytes, %llu would do without compounds", W.inst_len, (unsigned long long)limit)); if (W.data_len != data) bad("data section length"); }
      else { il = r[0].windows[w].inst_len + r[0].windows[w].data_len + r[0].windows[w].addr_len; if (W.inst_len > limit + data + r[0].windows[w].addr_len || W.inst_len != il) bad("interleaved stream length differs from the sum of the separate sections"); }
      // effect per instruction (compounds may not merge or reorder)
      if (W.insts.size() != all[w].size()) bad("number of decoded instructions differs");
      for (size_t n = 0; n < all[w].size(); n++) {
        const ref::Inst& x = W.insts[n]; const Done& y = all[w][n];
        if (x.type != y.type || x.size != y.size || (x.type == ref::COPY && x.addr != y.addr)) bad(vp::Str("instruction %zu decodes as type %d size %u addr %u, written as %d %u %u", n, x.type, x.size, x.addr, y.type, y.size, y.addr));
      }
    }
    if (real) { gen::Outcome o = gen::RealWhole(dict, d); if (!o.ok || o.out != target) bad("the decoder does not reproduce the instructions' effect"); }
  }
  vp::State(); vp::Trace(2);
}
std::vector<I> Alphabet(bool big) {
  std::vector<I> v;
  for (uint32_t s : {1, 2, 3, 4, 5, 17, 18}) v.push_back({ref::ADD, s, 0});
  for (uint32_t s : {1, 2, 5, 7}) v.push_back({ref::RUN, s, 0x80 + (int)s});
  for (uint32_t s : {2, 3, 4, 5, 6, 7, 18, 19}) v.push_back({ref::COPY, s, (int)s % 4});
  for (int a = 0; a <= 8; a++) v.push_back({ref::COPY, 4, a});
  if (big) {
    for (uint32_t s : {127, 128, 200, 255, 256, 300}) { v.push_back({ref::ADD, s, 0}); v.push_back({ref::RUN, s, 0}); v.push_back({ref::COPY, s, (int)s % 9}); }
    for (int a = 0; a <= 8; a++) { v.push_back({ref::COPY, 6, a}); v.push_back({ref::COPY, 250, a}); }
    v.push_back({ref::ADD, 16384, 0}); v.push_back({ref::RUN, 16384, 255}); v.push_back({ref::COPY, 20000, 5});
  }
  return v;
}
}  // namespace

namespace vp {
void Setup() {
  Cfgs(); int nc = (int)Cfgs().size();
  static std::vector<I> big = Alphabet(true), small = Alphabet(false);
  AddSpace("pairs", nc * big.size(), [](uint64_t u) {
    const Cfg& c = Cfgs()[u / big.size()]; const I& a = big[u % big.size()];
    for (int d = 0; d < 3; d++) {
      Run(c, DictOf(d), {{a}}, false, true); Run(c, DictOf(d), {{a}}, true, true);
      for (auto& b : big) { Run(c, DictOf(d), {{a, b}}, (u & 1) != 0, true); Run(c, DictOf(d), {{a}, {b}}, (u & 1) == 0, true); Run(c, DictOf(d), {{a, b}, {b, a}}, true, true); }
    }
    Sample(std::string(c.name) + ": all pairs");
  }, "13 code tables/cache sizes x 3 dictionaries x all single instructions and ordered pairs of 60 instructions, in one or two windows, both layouts");
  AddSpace("triples", (nc - 4) * small.size(), [](uint64_t u) {
    const Cfg& c = Cfgs()[u / small.size()]; const I& a = small[u % small.size()];
    for (auto& b : small) for (auto& x : small) { Run(c, DictOf(1 + (int)(u % 2)), {{a, b, x}}, false, false); Run(c, DictOf(1), {{a, b}, {x}}, true, false); }
    Sample(std::string(c.name) + ": all triples");
  }, "all triples of 28 instructions, in one and in two windows");
  AddSpace("sequences", (nc - 4) * 7 * 7, [](uint64_t u) {
    const Cfg& c = Cfgs()[u / 49];
    static const I A[] = {{ref::ADD, 1, 0}, {ref::ADD, 4, 0}, {ref::RUN, 3, 'r'}, {ref::COPY, 4, 2}, {ref::COPY, 4, 8}, {ref::COPY, 6, 6}, {ref::COPY, 200, 1}};
    int len = Thorough() ? 7 : 6; uint64_t n = 1; for (int i = 2; i < len; i++) n *= 7;
    for (uint64_t k = 0; k < n; k++) {
      std::vector<I> s{A[u % 7], A[u / 7 % 7]}; uint64_t x = k; for (int i = 2; i < len; i++) { s.push_back(A[x % 7]); x /= 7; }
      Run(c, DictOf(2), {s}, false, false);
    }
    Sample(std::string(c.name) + ": all sequences of 6 instructions over 7");
  }, "all sequences of 6 (thorough 7) instructions over an alphabet of 7, for each table");
  AddSpace("every-mode", nc * 8, [](uint64_t u) {
    // addresses that reach every near slot and every same block
    const Cfg& c = Cfgs()[u / 8]; int v = (int)(u % 8);
    std::vector<I> s;
    auto copy = [&](uint32_t a, uint32_t n) { s.push_back({ref::COPY, n, (int)(1000 + a)}); };
    for (int k = 0; k < std::max(c.s, 3); k++) copy(256 * k + (k * 37 + v * 11) % 256, 4 + v % 3);
    if (v & 1) for (int k = 0; k < c.n; k++) copy(69000 - 260 * ((k * 7) % 256), 5);
    for (int k = std::max(c.s, 3) - 1; k >= 0; k--) { copy(256 * k + (k * 37 + v * 11) % 256, 4); if (v & 2 && k % 3 == 0) s.push_back({ref::ADD, 1 + (uint32_t)k % 3, 0}); }
    for (int k = 0; k < c.n; k++) copy(69000 - 260 * ((k * 7) % 256) + (v & 4 ? k % 100 : 3), 4);
    Run(c, DictOf(3), {s}, v & 1, true);
    std::vector<I> s2(s.begin() + s.size() / 2, s.end());
    Run(c, DictOf(3), {s2, s}, !(v & 1), true);
    Sample(std::string(c.name) + vp::Str(": %zu copies through every cache slot", s.size()));
  }, "for every table, copies from addresses that fill and then hit every near slot and every same-cache block, 8 variants");
  AddSpace("section-lengths", nc * 9, [](uint64_t u) {
    // sections of every length around the integer-length boundaries
    const Cfg& c = Cfgs()[u / 9]; int kind = (int)(u % 9) / 3; int part = (int)(u % 3);
    for (int b : {128, 16384}) for (int d = -3 + part; d <= 3; d += 3) {
      std::vector<I> s; int n = b + d;
      if (kind == 0) for (int k = 0; k < n; k++) s.push_back({ref::COPY, 4 + (uint32_t)(k % 3), 1000 + k % 100});        // addresses: one byte each
      if (kind == 1) for (int k = 0; k < n / 3 + 3; k++) s.push_back({ref::COPY, 30 + (uint32_t)(k % 3), 1000 + (k * 7919) % 69000});   // up to three
      if (kind == 2) for (int k = 0; k < n; k++) { if (k % 2) s.push_back({ref::ADD, 1, 0}); else s.push_back({ref::RUN, 3, k & 255}); }
      Run(c, DictOf(3), {s}, d & 1, true);
      s.push_back({ref::ADD, 1, 0}); Run(c, DictOf(3), {{{ref::COPY, 9, 0}}, s}, !(d & 1), true);
    }
  }, "for every table, windows whose data, instruction and address sections have lengths around 128 and 16384");
  AddSpace("many", nc, [nc](uint64_t u) {
    // very many instructions in one window, very many windows from one writer
    const Cfg& c = Cfgs()[u]; std::vector<I> s;
    auto at = [](int k) { return 1000 + (k % 3 ? (k * 7919) % 69000 : 256 * (k % 5) + 7); };
    for (int k = 0; k < 65540; k++) { if (k % 5 == 4) s.push_back({ref::ADD, 1 + (uint32_t)k % 3, 0}); s.push_back({ref::COPY, 4 + (uint32_t)(k % 3), k % 7 == 6 ? k % 9 : at(k)}); }
    Run(c, DictOf(3), {s}, u & 1, true);
    if (u > 3 && !Thorough()) return;
    std::vector<std::vector<I>> w;
    for (int k = 0; k < 65540; k++) { std::vector<I> x{{ref::COPY, 4 + (uint32_t)(k % 3), at(k % 11)}}; if (k % 3) x.push_back({ref::ADD, 1, 0}); if (k % 4 == 1) x.push_back({ref::COPY, 5, at(k % 11 + 1)}); w.push_back(x); }
    Run(c, DictOf(3), w, !(u & 1), true);
    Sample(std::string(c.name) + ": 65540 copies in a window, 65540 windows");
  }, "for every table, a window of 65540 copies; for 4 (thorough all) tables, 65540 windows from one writer");
  AddSpace("sizes", nc * 16, [](uint64_t u) {
    const Cfg& c = Cfgs()[u / 16];
    for (uint32_t s = 1 + (uint32_t)(u % 16); s <= 520; s += 16) {
      I a{ref::ADD, s, 0}, r{ref::RUN, s, 7}, k{ref::COPY, s, 4}, k2{ref::COPY, 4, 2};
      for (auto& w : std::vector<std::vector<I>>{{a}, {r}, {k}, {a, k2}, {k, a}, {k2, a}, {k2, r}, {r, k}, {a, r, k}, {k, k, k2}}) { Run(c, DictOf(1), {w}, false, true); Run(c, DictOf(2), {w, w}, true, false); }
    }
    for (uint32_t s : {16383u, 16384u, 16385u, 65535u, 65536u, 2097151u, 2097152u}) { if (s > 70000 && u % 16) continue; Run(c, DictOf(1), {{{ref::ADD, 2, 0}, {ref::COPY, s, 1}, {ref::RUN, s, 9}}, {{ref::ADD, s, 0}, {ref::COPY, s, 0}}}, true, true); }
    Sample(std::string(c.name) + ": every size 1..520");
  }, "every size 1..520 and integer-length boundaries up to 2^21 for each instruction kind and compound position");
}
}  // namespace vp
