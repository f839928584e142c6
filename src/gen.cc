#include "gen.h"
#include <string.h>
#include "google/vcdecoder.h"

namespace gen {
using ref::ADD; using ref::COPY; using ref::NOOP; using ref::RUN;

bool g_watch_buffers = false;

const char* FmtName(int f) {
  static const char* n[] = {"standard", "S", "S-interleaved", "S+checksum", "S-interleaved+checksum"};
  return n[f];
}

void AddWindow(const Bytes& dict, Bytes* delta, ref::WinSpec w, int fmt) {
  if (HasSum(fmt)) {
    ref::Result r = ref::Decode(dict, *delta + ref::MakeWindow(w));
    w.checksum = true;
    w.indicator |= 4;
    if (!r.windows.empty()) {
      size_t b = r.windows.back().out_begin;
      w.checksum_value = ref::Adler32(r.out.data() + b, r.out.size() - b);
    }
  }
  *delta += ref::MakeWindow(w);
}

static Outcome Feed(const Bytes& dict, const Bytes& delta, const size_t* cuts, size_t ncuts,
                    size_t uniform, const ref::Options& o) {
  Outcome r;
  vp::Exact d(dict);
  open_vcdiff::VCDiffStreamingDecoder dec;
  dec.SetMaximumTargetFileSize(o.max_file);
  dec.SetMaximumTargetWindowSize(o.max_window);
  dec.SetAllowVcdTarget(o.allow_target);
  dec.StartDecoding(d.p, d.n);
  size_t pos = 0, k = 0, calls = 0;
  for (;;) {
    size_t end;
    if (uniform) end = std::min(delta.size(), pos + uniform);
    else end = k < ncuts ? std::min(cuts[k], delta.size()) : delta.size();
    k++;
    bool ok;
    {
      vp::Exact c(delta.data() + pos, end - pos);
      ok = dec.DecodeChunk(c.p, c.n, &r.out);
      calls++;
      if (g_watch_buffers && memcmp(c.raw, delta.data() + pos, c.n) != 0) vp::Fail("the decoder modified the caller's chunk");
      if (c.n) memset(c.raw, 0x5a, c.n);     // whoever kept a pointer sees garbage
    }
    if (!ok) {
      r.failed_at = calls;
      dec.FinishDecoding();
      break;
    }
    pos = end;
    if (uniform ? pos >= delta.size() : k > ncuts) { r.ok = dec.FinishDecoding(); calls++; break; }
  }
  vp::Transition(calls);
  if (g_watch_buffers && !d.Same(dict)) vp::Fail("the decoder modified the caller's dictionary");
  return r;
}
Outcome Real(const Bytes& dict, const Bytes& delta, const std::vector<size_t>& cuts, const ref::Options& o) {
  return Feed(dict, delta, cuts.data(), cuts.size(), 0, o);
}
Outcome RealWhole(const Bytes& dict, const Bytes& delta, const ref::Options& o) {
  return Feed(dict, delta, NULL, 0, 0, o);
}
Outcome RealUniform(const Bytes& dict, const Bytes& delta, size_t n, const ref::Options& o) {
  return Feed(dict, delta, NULL, 0, n, o);
}

bool Runnable(const ref::Result& r) {
#ifdef VP_NDEBUG
  return true;
#else
  return !r.bad_cache_sizes;
#endif
}

ref::Table MinimalTable(int near_n, int same_n) {
  ref::Table t; memset(&t, 0, sizeof t);
  int modes = 2 + near_n + same_n, op = 0;
  t.f[0][op++] = RUN;
  t.f[0][op++] = ADD;
  for (int m = 0; m < modes && op < 256; m++) { t.f[0][op] = COPY; t.f[4][op] = m; op++; }
  int k = 0;
  while (op < 256) {   // odd compounds
    switch (k % 7) {
      case 0: t.f[0][op] = COPY; t.f[2][op] = 3; t.f[4][op] = k % modes; t.f[1][op] = COPY; t.f[3][op] = 2; t.f[5][op] = (k / 2) % modes; break;
      case 1: t.f[0][op] = RUN; t.f[2][op] = 2; t.f[1][op] = ADD; t.f[3][op] = 1; break;
      case 2: t.f[0][op] = NOOP; t.f[1][op] = COPY; t.f[3][op] = 200; t.f[5][op] = k % modes; break;
      case 3: t.f[0][op] = ADD; t.f[2][op] = 255; break;
      case 4: t.f[0][op] = ADD; t.f[1][op] = ADD; break;                   // two explicit sizes
      case 5: t.f[0][op] = COPY; t.f[4][op] = k % modes; t.f[1][op] = RUN; t.f[3][op] = 5; break;
      case 6: break;                                                       // NOOP, NOOP
    }
    op++; k++;
  }
  return t;
}
ref::Table DoubleExplicitTable() {
  ref::Table t = ref::DefaultTable();
  // replace part of the compound entries
  int op = 163;
  auto put = [&](int i1, int s1, int m1, int i2, int s2, int m2) {
    t.f[0][op] = i1; t.f[2][op] = s1; t.f[4][op] = m1; t.f[1][op] = i2; t.f[3][op] = s2; t.f[5][op] = m2; op++;
  };
  for (int m = 0; m <= 8; m++) { put(ADD, 0, 0, COPY, 0, m); put(COPY, 0, m, ADD, 0, 0); put(COPY, 4, m, COPY, 0, 8 - m); }
  for (int m = 0; m <= 8; m++) put(NOOP, 0, 0, COPY, 0, m);
  put(NOOP, 0, 0, ADD, 0, 0); put(NOOP, 0, 0, RUN, 7, 0); put(NOOP, 0, 0, NOOP, 0, 0);
  put(RUN, 0, 0, RUN, 0, 0); put(RUN, 3, 0, COPY, 5, 1); put(ADD, 1, 0, ADD, 2, 0); put(COPY, 5, 0, RUN, 4, 0);
  put(NOOP, 0, 0, ADD, 200, 0); put(COPY, 255, 0, NOOP, 0, 0); put(ADD, 3, 0, COPY, 250, 0);
  return t;
}
ref::Table ReversedTable() {
  const ref::Table& d = ref::DefaultTable(); ref::Table t;
  for (int k = 0; k < 6; k++) for (int i = 0; i < 256; i++) t.f[k][i] = d.f[k][255 - i];
  return t;
}

namespace {
const char kDict[] = "0123456789ABCDEFGHIJ";
struct Step { int op; uint32_t s1; int sel1; uint32_t s2; int sel2; };
ref::WinSpec Build(const ref::Table& t, int n, int s, bool il, uint8_t ind, uint32_t src_len, uint32_t src_pos,
                   const std::vector<Step>& steps) {
  ref::Emitter e(t, n, s, il, src_len);
  for (auto& x : steps) if (!e.Op(x.op, x.s1, x.sel1, x.s2, x.sel2)) vp::Fail("corpus step not representable");
  return e.Spec(ind, src_pos);
}
std::vector<Case> MakeCorpus() {
  std::vector<Case> c;
  const ref::Table& T = ref::DefaultTable();
  Bytes dict = kDict;
  auto add = [&](const std::string& n, const Bytes& d, const Bytes& delta) {
    ref::Result r = ref::Decode(d, delta);
    if (r.verdict != ref::OK || r.odd) vp::Fail("corpus case " + n + " is not well-formed: " + r.reason);
    c.push_back(Case{n, d, delta});
  };
  typedef std::vector<Step> V;
  // (name, steps) run in every format; opcode numbers refer to the RFC default table.
  struct Prog { const char* name; V v; uint32_t src_len, src_pos; };
  std::vector<Prog> progs = {
    {"add3", V{{4, 0, 0, 0, 0}}, 0, 0},
    {"run", V{{0, 9, 3, 0, 0}}, 0, 0},
    {"copy-self", V{{24, 0, 2, 0, 0}}, 20, 0},
    {"copy-here-seg", V{{37, 0, 2, 0, 0}}, 8, 6},
    {"add+copy", V{{163, 0, 0, 0, 0}, {19, 5, 1, 0, 0}}, 10, 2},
    {"copy+add", V{{247, 0, 4, 0, 0}, {1, 2, 0, 0, 0}}, 12, 0},
    {"near", V{{20, 0, 2, 0, 0}, {52, 0, 3, 0, 0}, {68, 0, 2, 0, 0}, {35, 4, 4, 0, 0}}, 20, 0},
    {"same", V{{20, 0, 2, 0, 0}, {20, 0, 4, 0, 0}, {116, 0, 3, 0, 0}, {115, 6, 3, 0, 0}}, 20, 0},
    {"overlap1", V{{2, 0, 0, 0, 0}, {35, 7, 1, 0, 0}}, 0, 0},
    {"overlap3", V{{4, 0, 0, 0, 0}, {19, 11, 0, 0, 0}}, 0, 0},
    {"straddle", V{{3, 0, 0, 0, 0}, {19, 9, 4, 0, 0}, {19, 3, 3, 0, 0}}, 5, 1},
    {"compound-same", V{{20, 0, 2, 0, 0}, {235, 0, 0, 0, 3}, {253, 0, 0, 0, 0}}, 20, 0},
    {"long-add", V{{1, 130, 0, 0, 0}, {19, 4, 1, 0, 0}}, 4, 0},
  };
  for (auto& p : progs)
    for (int f = 0; f < kFmts; f++) {
      if (std::string(p.name) == "long-add" && f != V0 && f != S_IL) continue;
      Bytes delta = ref::Header(Version(f));
      AddWindow(dict, &delta, Build(T, 4, 3, IsIL(f), p.src_len ? 1 : 0, p.src_len, p.src_pos, p.v), f);
      add(std::string(p.name) + "/" + FmtName(f), dict, delta);
    }
  for (int f = 0; f < kFmts; f++) {   // several windows: source, earlier target, neither
    Bytes delta = ref::Header(Version(f));
    AddWindow(dict, &delta, Build(T, 4, 3, IsIL(f), 1, 6, 3, V{{3, 0, 0, 0, 0}, {20, 0, 2, 0, 0}}), f);
    AddWindow(dict, &delta, Build(T, 4, 3, IsIL(f), 2, 5, 1, V{{20, 0, 0, 0, 0}, {163, 0, 0, 0, 1}}), f);
    AddWindow(dict, &delta, Build(T, 4, 3, IsIL(f), 0, 0, 0, V{{2, 0, 0, 0, 0}, {0, 3, 1, 0, 0}}), f);
    add(std::string("windows/") + FmtName(f), dict, delta);
  }
  for (int f = 0; f < kFmts; f++) {   // empty windows around a real one
    Bytes delta = ref::Header(Version(f));
    AddWindow(dict, &delta, Build(T, 4, 3, IsIL(f), 0, 0, 0, V{}), f);
    AddWindow(dict, &delta, Build(T, 4, 3, IsIL(f), 1, 4, 16, V{{20, 0, 0, 0, 0}}), f);
    AddWindow(dict, &delta, Build(T, 4, 3, IsIL(f), 2, 0, 4, V{}), f);
    add(std::string("empty-windows/") + FmtName(f), dict, delta);
  }
  add("header-only", dict, ref::Header(0));
  add("empty-dict", "", ref::Header(0) + ref::MakeWindow(Build(T, 4, 3, false, 1, 0, 0, V{{3, 0, 0, 0, 0}, {19, 4, 0, 0, 0}})));
  {  // padded (non-minimal) integers in every place
    Bytes d = ref::Header(0);
    Bytes pad("\x80", 1);
    Bytes body = pad + Bytes("\x06", 1) + Bytes(1, 0) + pad + Bytes("\x02", 1) + pad + Bytes("\x05", 1) + pad + Bytes("\x02", 1) +
                 "xy" + Bytes("\x03\x13\x80\x80\x04", 5) + pad + Bytes("\x01", 1);
    d += Bytes("\x01", 1) + pad + Bytes("\x0a", 1) + pad + Bytes(1, 0) + pad;
    ref::PutVarint(&d, body.size());
    add("padded", dict, d + body);
  }
  struct CT { const char* name; ref::Table t; int n, s; V v; };
  std::vector<CT> cts = {
    {"table-explicit", DoubleExplicitTable(), 4, 3, V{{163, 2, 0, 3, 1}, {164, 4, 2, 1, 0}, {190, 0, 0, 3, 0}}},
    {"table-min00", MinimalTable(0, 0), 0, 0, V{{1, 2, 0, 0, 0}, {2, 4, 2, 0, 0}, {4, 0, 1, 0, 2}, {5, 0, 0, 0, 0}}},
    {"table-min23", MinimalTable(2, 3), 2, 3, V{{2, 4, 2, 0, 0}, {4, 3, 1, 0, 0}, {6, 3, 0, 0, 0}, {15, 0, 0, 0, 0}}},
  };
  for (auto& t : cts)
    for (int f = 0; f < kFmts; f += 2) {
      Bytes delta = ref::CustomHeader(Version(f), t.t, t.n, t.s, f == S_IL);
      AddWindow(dict, &delta, Build(t.t, t.n, t.s, IsIL(f), 1, 20, 0, t.v), f);
      AddWindow(dict, &delta, Build(t.t, t.n, t.s, IsIL(f), 0, 0, 0, V{{1, 1, 0, 0, 0}}), f);
      // keep the corpus small: only tables whose embedded delta is short
      if (delta.size() < 700) add(std::string(t.name) + "/" + FmtName(f), dict, delta);
    }
  {  // one changed entry: short embedded delta, suitable for exhaustive mutation
    ref::Table t = T; t.f[0][255] = ADD; t.f[2][255] = 2; t.f[4][255] = 0; t.f[1][255] = RUN; t.f[3][255] = 3; t.f[5][255] = 0;
    for (int f = 0; f < kFmts; f += 2) {
      Bytes delta = ref::CustomHeader(Version(f), t, 4, 3, f == S_IL);
      AddWindow(dict, &delta, Build(t, 4, 3, IsIL(f), 1, 20, 0, V{{255, 0, 0, 0, 1}, {20, 0, 2, 0, 0}}), f);
      add(std::string("table-one/") + FmtName(f), dict, delta);
    }
  }
  return c;
}
}  // namespace

void ForGrowth(uint64_t unit, const std::function<void(const Bytes&, const Bytes&, const std::string&)>& fn) {
  static const uint32_t L[13] = {1, 14, 15, 16, 17, 29, 30, 31, 33, 60, 61, 100, 250};
  uint32_t a = L[unit % 13], b = L[unit / 13 % 13];
  Bytes dict = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  for (int f = 0; f < kFmts; f++) {
    bool il = IsIL(f);
    auto lit = [&](uint32_t n, int seed) {
      ref::WinSpec w; w.target_len = n; w.inst.push_back(1); ref::PutVarint(&w.inst, n);
      Bytes x; for (uint32_t i = 0; i < n; i++) x.push_back((char)('a' + (i * 7 + i / 26 + seed) % 26));
      (il ? w.inst : w.data) += x; return w;
    };
    // segment copies, a literal, an overlapping copy, a copy across the segment end
    auto refer = [&](uint8_t ind, uint32_t sl, uint32_t sp, uint32_t n) {
      ref::WinSpec w; w.indicator = ind; w.src_len = sl; w.src_pos = sp; w.target_len = n;
      Bytes& A = il ? w.inst : w.addr; Bytes& D = il ? w.inst : w.data;
      uint32_t done = 0;
      auto copy = [&](uint32_t at, uint32_t size) {
        size = std::min(size, n - done); if (!size || at >= sl + done) return;
        w.inst.push_back(19); ref::PutVarint(&w.inst, size); ref::PutVarint(&A, at); done += size;
      };
      auto add = [&](char c) { if (done < n) { w.inst.push_back(2); D.push_back(c); done++; } };
      if (sl) copy(0, std::min(sl, n / 4 + 1));
      add('!');
      copy(sl + done - 1, n / 4 + 1);
      if (sl) copy(sl - 1, n / 4 + 2);
      if (sl) copy(sl / 2, 3);
      add('?');
      while (done < n) copy(sl + done / 2, n);
      return w;
    };
    for (uint32_t c : L) for (int kind = 0; kind < 5; kind++) {
      Bytes delta = ref::Header(Version(f));
      AddWindow(dict, &delta, kind == 4 ? refer(1, 20, 9, a) : lit(a, 1), f);
      AddWindow(dict, &delta, kind == 3 ? refer(2, a, 0, b) : lit(b, 5), f);
      uint32_t have = a + b;
      switch (kind) {
        case 0: case 3: AddWindow(dict, &delta, refer(2, have, 0, c), f); break;
        case 1: AddWindow(dict, &delta, refer(2, a, 0, c), f); break;
        case 2: AddWindow(dict, &delta, refer(2, b, a, c), f); break;
        default: AddWindow(dict, &delta, refer(2, have / 2, have / 3, c), f);
      }
      fn(dict, delta, vp::Str("windows of %u, %u and %u bytes, kind %d, %s", a, b, c, kind, FmtName(f)));
    }
  }
}

Bytes Pattern(size_t n) {
  Bytes s(n, 0); uint32_t x = 12345;
  for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; s[i] = (char)(x >> 23); }
  return s;
}
void ForMany(uint64_t unit, const std::function<void(const Bytes&, const Bytes&, const std::string&)>& fn) {
  static const int N[] = {255, 256, 257, 65535, 65536, 65537, (1 << 20) + 1};
  static const int F[] = {V0, S_IL, S_STD_SUM};
  int n = N[unit % 7], f = F[unit / 7 % 3]; bool windows = unit / 21 != 0;
  if (n > 70000 && (!vp::Thorough() || windows)) return;
  const ref::Table& t = ref::DefaultTable();
  Bytes dict = Pattern(900), delta = ref::Header(Version(f));
  auto op = [&](ref::Emitter* e, int k) {      // always representable: falls back to a one-byte ADD
    int o = 1 + (k * 37) % 255;
    if (!e->Op(o, 1 + k % 5, 1 + k % 4, 1 + k % 3, 2 + k % 3)) e->Op(2, 0, 0, 0, 0);
  };
  if (!windows) {
    ref::Emitter e(t, 4, 3, IsIL(f), 800);
    e.Op(20, 0, 2, 0, 0);
    for (int k = 1; k < n; k++) op(&e, k);
    AddWindow(dict, &delta, e.Spec(1, 50), f);
    ref::Emitter e2(t, 4, 3, IsIL(f), 800);
    for (int k = 0; k < 9; k++) op(&e2, k + 3);
    AddWindow(dict, &delta, e2.Spec(1, 50), f);
  } else {
    std::vector<Bytes> w;
    for (int k = 0; k < 61; k++) {
      Bytes d = ref::Header(Version(f)); size_t h = d.size();
      ref::Emitter e(t, 4, 3, IsIL(f), 800);
      for (int j = 0; j < 4; j++) op(&e, k * 4 + j);
      AddWindow(dict, &d, e.Spec(1, k), f);
      w.push_back(d.substr(h));
    }
    for (int k = 0; k < n; k++) delta += w[k % w.size()];
  }
  fn(dict, delta, vp::Str("%d %s, %s", n, windows ? "windows" : "opcodes in one window", FmtName(f)));
}

void ForLarge(uint64_t u, const std::function<void(const Bytes&, const Bytes&, uint32_t, const std::string&)>& fn) {
  uint32_t v = (1u << (16 + u % 10)) + (uint32_t)(u / 10 % 3) - 1; int kind = (int)(u / 30);
  static const char* name[] = {"ADD", "RUN", "COPY from the source", "COPY overlapping itself"};
  Bytes dict = kind == 2 ? Pattern(v + 9) : Pattern(300);
  for (int f : {V0, S_IL_SUM}) {
    bool il = IsIL(f);
    Bytes delta = ref::Header(Version(f));
    ref::WinSpec w; w.indicator = 1; w.src_len = dict.size();
    Bytes& D = il ? w.inst : w.data; Bytes& A = il ? w.inst : w.addr;
    w.inst.push_back(4); D += "xyz";
    if (kind == 0) { w.inst.push_back(1); ref::PutVarint(&w.inst, v); D += Pattern(v); }
    if (kind == 1) { w.inst.push_back(0); ref::PutVarint(&w.inst, v); D.push_back((char)0xe7); }
    if (kind == 2) { w.inst.push_back(19); ref::PutVarint(&w.inst, v); ref::PutVarint(&A, 5); }
    if (kind == 3) { w.inst.push_back(19); ref::PutVarint(&w.inst, v); ref::PutVarint(&A, dict.size() - 200); }   // source, then the window itself
    w.inst.push_back(36); ref::PutVarint(&A, v / 2);        // from the middle of it, by distance
    w.inst.push_back(20); ref::PutVarint(&A, dict.size() + v);   // its end and after, by address
    w.inst.push_back(54); ref::PutVarint(&A, 1);
    w.inst.push_back(3); D += "pq";
    w.target_len = 3 + v + 4 + 4 + 6 + 2;
    AddWindow(dict, &delta, w, f);
    ref::WinSpec x; x.indicator = 2; x.src_len = v; x.src_pos = 12;
    x.inst.push_back(20); ref::PutVarint(il ? &x.inst : &x.addr, v - 5);
    x.inst.push_back(2); (il ? x.inst : x.data).push_back('!'); x.target_len = 5;
    AddWindow(dict, &delta, x, f);
    fn(dict, delta, v, vp::Str("window with %s of %u bytes, %s", name[kind], v, FmtName(f)));
  }
}

const std::vector<Case>& Corpus() { static const std::vector<Case> c = MakeCorpus(); return c; }

void ForMutants(const Bytes& x, int level, const std::function<void(const Bytes&)>& fn) {
  size_t n = x.size();
  for (size_t i = 0; i < n; i++) fn(x.substr(0, i));
  for (size_t i = 0; i < n; i++)
    for (int v = 0; v < 256; v++) if ((uint8_t)x[i] != v) { Bytes m = x; m[i] = (char)v; fn(m); }
  if (level < 1) return;
  for (size_t i = 0; i < n; i++)
    for (size_t k = 1; k <= 4 && i + k <= n; k++) fn(x.substr(0, i) + x.substr(i + k));
  for (size_t i = 0; i <= n; i++)
    for (int v = 0; v < 256; v++) fn(x.substr(0, i) + Bytes(1, (char)v) + x.substr(i));
  if (level < 2) return;
  static const int kVals[] = {0, 1, 2, 3, 4, 5, 7, 0x13, 0x24, 0x7f, 0x80, 0xff, -1, -2};
  for (size_t i = 0; i < n; i++)
    for (size_t j = i + 1; j < n; j++)
      for (int a : kVals) for (int b : kVals) {
        Bytes m = x;
        m[i] = (char)(a == -1 ? x[i] + 1 : a == -2 ? x[i] - 1 : a);
        m[j] = (char)(b == -1 ? x[j] + 1 : b == -2 ? x[j] - 1 : b);
        if (m[i] != x[i] && m[j] != x[j]) fn(m);
      }
  if (level < 3) return;
  // duplicate, move and splice stretches
  for (size_t i = 0; i < n; i++)
    for (size_t j = i + 1; j <= n; j++) {
      fn(x.substr(0, j) + x.substr(i, j - i) + x.substr(j));
      fn(x.substr(0, i) + x.substr(j));
      fn(x + x.substr(i, j - i));
    }
}

void ForTableForms(uint64_t u, const std::function<void(const Bytes&, const Bytes&, size_t, const std::string&)>& fn) {
  static const std::vector<std::vector<size_t>> splits = {{1536}, {1, 1535}, {1000, 536}, {256, 256, 256, 256, 256, 256}, {0, 1536}, {700, 0, 836}, {1535, 1}, {512, 512, 512}};
  static const char* ways[] = {"ADD", "RUN", "COPY from the default table", "COPY from earlier windows"};
  const std::vector<size_t>& split = splits[u % 8]; int way = (int)(u / 8 % 4), which = (int)(u / 32);
  int n = which == 1 ? 2 : 4, s = 3; ref::Table t = which == 0 ? DoubleExplicitTable() : which == 1 ? MinimalTable(2, 3) : ReversedTable();
  int self_op = which == 0 ? 19 : which == 1 ? 2 : 255 - 19;
  Bytes d = ref::DefaultTable().Serialize(), x = t.Serialize(), dict = Pattern(90);
  for (int inner = 0; inner < kFmts; inner++) {
    Bytes in = ref::Header(Version(inner)); size_t at = 0;
    for (size_t len : split) {
      ref::WinSpec w; w.target_len = len; bool il = IsIL(inner);
      Bytes& D = il ? w.inst : w.data; Bytes& A = il ? w.inst : w.addr;
      if (way == 2) { w.indicator = 1; w.src_len = 1536; }
      if (way == 3 && at) { w.indicator = 2; w.src_len = at; }
      Bytes lit;
      auto flush = [&] { if (!lit.empty()) { w.inst.push_back(1); ref::PutVarint(&w.inst, lit.size()); D += lit; lit.clear(); } };
      for (size_t i = at; i < at + len;) {
        size_t k = 0, from = 0;
        if (way == 1) { while (i + k < at + len && x[i + k] == x[i]) k++; }
        else if (way == 2) { while (i + k < at + len && x[i + k] == d[i + k]) k++; from = i; }
        else if (way == 3 && at) { for (size_t j = 0; j < at; j++) { size_t m = 0; while (i + m < at + len && j + m < at && x[i + m] == x[j + m]) m++; if (m > k) { k = m; from = j; } } }
        if (k < 4) { lit.push_back(x[i++]); continue; }
        flush();
        if (way == 1) { w.inst.push_back(0); ref::PutVarint(&w.inst, k); D.push_back(x[i]); }
        else { w.inst.push_back(19); ref::PutVarint(&w.inst, k); ref::PutVarint(&A, from); }
        i += k;
      }
      flush();
      AddWindow(d, &in, w, inner); at += len;
    }
    for (int many : {2, 60}) for (int outer : {V0, S_IL_SUM}) {
      if (many > 2 && inner != (int)(u % kFmts)) continue;    // a long tail behind the table
      Bytes delta = ref::Header(Version(outer), 2); ref::PutVarint(&delta, n); ref::PutVarint(&delta, s); delta += in;
      size_t head = delta.size();
      for (int k = 0; k < many; k++) {
        ref::Emitter e(t, n, s, IsIL(outer), 80);
        if (!e.Op(self_op, 6, 2, 0, 0) || !e.Op(self_op, 5, 4, 0, 0)) vp::Fail("harness: table form");
        AddWindow(dict, &delta, e.Spec(1, 4), outer);
      }
      fn(dict, delta, head, vp::Str("code table %d in %zu windows by %s, %s inside %s", which, split.size(), ways[way], FmtName(inner), FmtName(outer)));
    }
  }
}
}  // namespace gen
