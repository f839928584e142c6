#include "ref.h"
#include <string.h>

namespace ref {

static Table MakeDefaultTable() {
  Table t; memset(&t, 0, sizeof t);
  int op = 0;
  auto put = [&](int i1, int s1, int m1, int i2, int s2, int m2) {
    t.f[0][op] = i1; t.f[1][op] = i2; t.f[2][op] = s1; t.f[3][op] = s2; t.f[4][op] = m1; t.f[5][op] = m2; op++;
  };
  put(RUN, 0, 0, NOOP, 0, 0);
  for (int s = 0; s <= 17; s++) put(ADD, s, 0, NOOP, 0, 0);
  for (int m = 0; m <= 8; m++) { put(COPY, 0, m, NOOP, 0, 0); for (int s = 4; s <= 18; s++) put(COPY, s, m, NOOP, 0, 0); }
  for (int m = 0; m <= 5; m++) for (int a = 1; a <= 4; a++) for (int c = 4; c <= 6; c++) put(ADD, a, 0, COPY, c, m);
  for (int m = 6; m <= 8; m++) for (int a = 1; a <= 4; a++) put(ADD, a, 0, COPY, 4, m);
  for (int m = 0; m <= 8; m++) put(COPY, 4, m, ADD, 1, 0);
  return t;
}

const Table& DefaultTable() { static const Table t = MakeDefaultTable(); return t; }

bool ValidTable(const Table& t, int max_mode) {
  bool have_add = false, have_run = false;
  std::vector<bool> have_copy(max_mode + 1, false);
  for (int i = 0; i < 256; i++) {
    for (int h = 0; h < 2; h++) {
      int in = t.f[h][i], sz = t.f[2 + h][i], mo = t.f[4 + h][i];
      if (in > 3) return false;
      if (mo > max_mode) return false;
      if (in == NOOP && sz != 0) return false;
      if (in != COPY && mo != 0) return false;
    }
    if (t.f[2][i] == 0 && t.f[1][i] == NOOP) {
      if (t.f[0][i] == ADD) have_add = true;
      if (t.f[0][i] == RUN) have_run = true;
      if (t.f[0][i] == COPY) have_copy[t.f[4][i]] = true;
    }
  }
  if (!have_add || !have_run) return false;
  for (bool b : have_copy) if (!b) return false;
  return true;
}

uint32_t Adler32(const char* p, size_t n) {
  uint64_t a = 0, b = 0;   // this extension starts from 0, not 1
  for (size_t i = 0; i < n; i++) { a = (a + (uint8_t)p[i]) % 65521; b = (b + a) % 65521; }
  return (uint32_t)(b * 65536 + a);
}
void PutVarint(Bytes* s, uint64_t v) {
  char b[10]; int n = 0;
  do { b[n++] = v & 0x7f; v >>= 7; } while (v);
  while (n--) s->push_back((char)(b[n] | (n ? 0x80 : 0)));
}

namespace {
struct Rd {   // bounded reader
  const Bytes* s; size_t pos, lim;
  bool eof() const { return pos >= lim; }
};
enum R { GOOD, MORE, BADV };
R GetVar(Rd* r, uint64_t max, uint64_t* v) {
  uint64_t x = 0; size_t p = r->pos;
  for (;;) {
    if (p >= r->lim) return MORE;
    uint8_t c = (uint8_t)(*r->s)[p++];
    x = x * 128 + (c & 127);
    if (x > max) return BADV;
    if (!(c & 128)) break;
  }
  *v = x; r->pos = p; return GOOD;
}
const uint64_t kI32 = 0x7fffffff;
}  // namespace

Result Decode(const Bytes& dict, const Bytes& delta, const Options& o, int64_t planned) {
  Result res;
  auto bad = [&](const char* why) -> Result& { res.verdict = BAD; res.reason = why; return res; };
  auto more = [&](const char* why) -> Result& { res.verdict = INCOMPLETE; res.reason = why; return res; };
  if (delta.empty()) { return res; }
  static const uint8_t magic[3] = {0xD6, 0xC3, 0xC4};
  for (size_t i = 0; i < 3 && i < delta.size(); i++) if ((uint8_t)delta[i] != magic[i]) return bad("magic");
  if (delta.size() > 3) { res.version = delta[3]; if (delta[3] != 0 && delta[3] != 'S') return bad("version"); }
  if (delta.size() < 5) return more("header");
  res.hdr = (uint8_t)delta[4];
  bool S = res.version == 'S';
  if (res.hdr & ~3) res.odd = true;
  if (res.hdr & 1) return bad("secondary compressor");
  Rd r{&delta, 5, delta.size()};
  Table table = DefaultTable();
  int near_n = 4, same_n = 3;
  if (res.hdr & 2) {
    res.custom = true;
    if (planned >= 0) return bad("code table inside code table");
    uint64_t n, s;
    R a = GetVar(&r, kI32, &n);
    if (a == MORE) return more("near size"); if (a == BADV) return bad("near size");
    a = GetVar(&r, kI32, &s);
    if (a == MORE) return more("same size"); if (a == BADV) return bad("same size");
    if (n > 255 || s > 255 || n + s > 254) { res.bad_cache_sizes = true; return bad("cache sizes"); }
    near_n = (int)n; same_n = (int)s;
    Result in = Decode(table.Serialize(), delta.substr(r.pos), Options(), 1536);
    res.odd |= in.odd;
    if (in.verdict == BAD) return bad("code table delta");
    if (in.verdict == INCOMPLETE || in.out.size() < 1536) return more("code table delta");
    memcpy(table.f, in.out.data(), 1536);
    r.pos += in.consumed;
    if (!ValidTable(table, 1 + near_n + same_n)) return bad("invalid code table");
  }
  res.header_done = true;
  res.consumed = r.pos;
  while (!r.eof()) {
    if (planned >= 0 && (int64_t)res.out.size() == planned) break;
    Window w; w.begin = r.pos; w.out_begin = res.out.size();
    uint64_t v;
#define VAR(field, max, what) do { R q = GetVar(&r, max, &v); if (q == MORE) return more(what); if (q == BADV) return bad(what); w.field = (uint32_t)v; } while (0)
    w.indicator = (uint8_t)delta[r.pos++];
    if (w.indicator & ~(S ? 7 : 3)) res.odd = true;
    bool src = w.indicator & 1, tgt = w.indicator & 2;
    Bytes segment;
    if (src && tgt) return bad("both segment flags");
    if (tgt && !o.allow_target) return bad("target segment disallowed");
    if (src || tgt) {
      const Bytes& from = src ? dict : res.out;
      VAR(src_len, kI32, "source length");
      if (w.src_len > from.size()) return bad("source length");
      VAR(src_pos, kI32, "source position");
      if ((uint64_t)w.src_pos + w.src_len > from.size()) return bad("source range");
      segment = from.substr(w.src_pos, w.src_len);
    }
    w.has_checksum = S && (w.indicator & 4);
    VAR(delta_len, kI32, "delta length");
    size_t delta_start = r.pos;
    VAR(target_len, kI32, "target length");
    if (w.target_len > o.max_window) return bad("window limit");
    if (planned >= 0 && res.out.size() + (uint64_t)w.target_len > (uint64_t)planned) return bad("planned size");
    if (res.out.size() + (uint64_t)w.target_len > o.max_file) return bad("file limit");
    if ((uint64_t)w.src_len + w.target_len > kI32) return bad("address range");
    if (r.eof()) return more("delta indicator");
    w.delta_indicator = (uint8_t)delta[r.pos++];
    if (w.delta_indicator & ~7) res.odd = true;
    if (w.delta_indicator & 7) return bad("section compression");
    VAR(data_len, kI32, "data length");
    VAR(inst_len, kI32, "instruction length");
    VAR(addr_len, kI32, "address length");
    if (w.has_checksum) VAR(checksum, 0xffffffffull, "checksum");
#undef VAR
    uint64_t head = r.pos - delta_start;
    if (head + w.data_len + w.inst_len + w.addr_len != w.delta_len) return bad("delta length mismatch");
    w.interleaved = S && w.data_len == 0 && w.addr_len == 0;
    uint64_t body = (uint64_t)w.data_len + w.inst_len + w.addr_len;
    bool all_here = delta.size() - r.pos >= body;
    if (!w.interleaved && !all_here) return more("window body");
    size_t body_start = r.pos;
    // Section readers.
    Rd data{&delta, body_start, body_start + w.data_len};
    Rd inst{&delta, data.lim, data.lim + w.inst_len};
    Rd addr{&delta, inst.lim, inst.lim + w.addr_len};
    if (w.interleaved) {
      inst.pos = body_start; inst.lim = all_here ? body_start + (size_t)body : delta.size();
    }
    Rd& D = w.interleaved ? inst : data;
    Rd& A = w.interleaved ? inst : addr;
    Cache cache(near_n, same_n);
    Bytes out;    // this window
    int pending = -1;
    res.windows.push_back(w);
    Window& W = res.windows.back();
    auto starve = [&](const char* why) -> Result& {
      res.out += out;
      if (W.interleaved && !all_here) return more(why);
      return bad(why);
    };
    auto wrong = [&](const char* why) -> Result& { res.out += out; return bad(why); };
    while (out.size() < w.target_len) {
      int type, size8, mode;
      if (pending >= 0) {
        type = table.f[1][pending]; size8 = table.f[3][pending]; mode = table.f[5][pending]; pending = -1;
      } else {
        if (inst.eof()) return starve("instructions exhausted");
        int op = (uint8_t)delta[inst.pos++];
        type = table.f[0][op]; size8 = table.f[2][op]; mode = table.f[4][op];
        if (table.f[1][op] != NOOP) pending = op;
        if (type == NOOP) continue;
      }
      uint64_t size = size8;
      if (size8 == 0) {
        R q = GetVar(&inst, kI32, &size);
        if (q == MORE) return starve("size");
        if (q == BADV) return wrong("size overflow");
      }
      if (out.size() + size > w.target_len) return wrong("instruction overruns window");
      Inst I{(uint8_t)type, (uint8_t)mode, (uint32_t)size, 0};
      if (type == ADD) {
        if (D.lim - D.pos < size) return starve("add data");
        out.append(delta, D.pos, size); D.pos += size;
        W.literal_bytes += size;
      } else if (type == RUN) {
        if (D.eof()) return starve("run data");
        out.append(size, delta[D.pos]); D.pos++;
        W.literal_bytes += 1;
      } else {
        uint64_t here = (uint64_t)w.src_len + out.size(), a;
        if (A.eof()) return starve("address");
        if (mode >= 2 + near_n) {
          a = cache.samev[(mode - 2 - near_n) * 256 + (uint8_t)delta[A.pos]]; A.pos++;
        } else {
          uint64_t e; R q = GetVar(&A, kI32, &e);
          if (q == MORE) return starve("address");
          if (q == BADV) return wrong("address overflow");
          if (mode == 0) a = e;
          else if (mode == 1) { if (e > here) return wrong("address before start"); a = here - e; }
          else a = cache.nearv[mode - 2] + e;
        }
        if (a >= here) return wrong("address beyond data");
        cache.Update((uint32_t)a);
        I.addr = (uint32_t)a;
        for (uint64_t i = 0; i < size; i++) {
          uint64_t p = a + i;
          char c = p < w.src_len ? segment[p] : out[p - w.src_len];
          out.push_back(c);
        }
      }
      W.insts.push_back(I);
    }
    if (pending >= 0) return wrong("second half of an opcode left over");
    if (w.interleaved) {
      if (!all_here) {
        // target complete but the window declares more bytes: whatever arrives is excess
        return wrong("excess instructions");
      }
      if (inst.pos != inst.lim) return wrong("excess instructions");
    } else {
      if (inst.pos != inst.lim) return wrong("excess instructions");
      if (data.pos != data.lim) return wrong("excess data");
      if (addr.pos != addr.lim) return wrong("excess addresses");
    }
    if (w.has_checksum && Adler32(out.data(), out.size()) != w.checksum) return wrong("checksum");
    res.out += out;
    res.complete_out = res.out.size();
    r.pos = body_start + (size_t)body;
    W.end = r.pos;
    res.consumed = r.pos;
  }
  if (planned >= 0 && (int64_t)res.out.size() != planned) return more("planned size not reached");
  return res;
}

Bytes Header(uint8_t version, uint8_t hdr) {
  Bytes s("\xD6\xC3\xC4", 3); s.push_back((char)version); s.push_back((char)hdr); return s;
}
Bytes MakeWindow(const WinSpec& w) {
  Bytes b;   // the delta encoding
  PutVarint(&b, w.target_len);
  b.push_back((char)w.delta_indicator);
  PutVarint(&b, w.data.size()); PutVarint(&b, w.inst.size()); PutVarint(&b, w.addr.size());
  if (w.checksum) PutVarint(&b, w.checksum_value);
  b += w.data; b += w.inst; b += w.addr;
  Bytes s; s.push_back((char)w.indicator);
  if (w.indicator & 3) { PutVarint(&s, w.src_len); PutVarint(&s, w.src_pos); }
  PutVarint(&s, b.size() + w.delta_len_adjust);
  return s + b;
}
Bytes CustomHeader(uint8_t version, const Table& t, uint64_t n, uint64_t s, bool inner_s, bool inner_copy) {
  Bytes h = Header(version, 2);
  PutVarint(&h, n); PutVarint(&h, s);
  // Embedded delta against the default table: COPY equal stretches, ADD the rest.
  Bytes d = DefaultTable().Serialize(), x = t.Serialize();
  Bytes in = Header(inner_s ? 'S' : 0);
  WinSpec w; w.indicator = 1; w.src_len = d.size(); w.target_len = x.size();
  size_t i = 0;
  while (i < x.size()) {
    size_t j = i;
    if (inner_copy && x[i] == d[i]) {
      while (j < x.size() && x[j] == d[j]) j++;
      w.inst.push_back(19); PutVarint(&w.inst, j - i);   // COPY size 0 mode SELF
      PutVarint(inner_s ? &w.inst : &w.addr, i);
    } else {
      while (j < x.size() && !(inner_copy && x[j] == d[j])) j++;
      w.inst.push_back(1); PutVarint(&w.inst, j - i);    // ADD size 0
      (inner_s ? w.inst : w.data).append(x, i, j - i);
    }
    i = j;
  }
  return h + in + MakeWindow(w);
}

bool Emitter::One(int type, int mode, uint32_t size, bool ex, int sel) {
  if (type == NOOP) return true;
  if (ex) PutVarint(&inst, size);
  Bytes& D = interleaved ? inst : data;
  Bytes& A = interleaved ? inst : addr;
  if (type == ADD) {
    for (uint32_t i = 0; i < size; i++) { D.push_back((char)next_byte); next_byte = next_byte == 'z' ? 'a' : next_byte + 1; }
  } else if (type == RUN) {
    D.push_back((char)('A' + sel % 26));
  } else {
    uint32_t here = Here();
    if (here == 0) return false;
    uint64_t a;
    if (mode == 0 || mode == 1) {
      uint32_t pick[5] = {0, here - 1, here / 2, src_len < here ? src_len : 0, src_len ? src_len - 1 : 0};
      a = pick[sel % 5];
      PutVarint(&A, mode == 0 ? a : here - a);
    } else if (mode < 2 + cache.near_n) {
      uint32_t base = cache.nearv[mode - 2];
      if (base >= here) return false;
      uint32_t room = here - 1 - base;
      uint32_t pick[5] = {0, room, room / 2, room ? 1u : 0u, room ? room - 1 : 0};
      a = base + pick[sel % 5];
      PutVarint(&A, pick[sel % 5]);
    } else {
      int blk = (mode - 2 - cache.near_n) * 256;
      int pick[5] = {0, 255, 1, -1, 128};
      int b = pick[sel % 5];
      if (b < 0) { b = 0; for (int i = 0; i < 256; i++) if (cache.samev[blk + i]) b = i; }
      a = cache.samev[blk + b];
      if (a >= here) return false;
      A.push_back((char)b);
    }
    cache.Update((uint32_t)a);
  }
  produced += size;
  return true;
}
bool Emitter::Op(int op, uint32_t size1, int sel1, uint32_t size2, int sel2) {
  inst.push_back((char)op);
  uint32_t s1 = t.f[2][op], s2 = t.f[3][op];
  if (!One(t.f[0][op], t.f[4][op], s1 ? s1 : size1, s1 == 0, sel1)) return false;
  if (!One(t.f[1][op], t.f[5][op], s2 ? s2 : size2, s2 == 0, sel2)) return false;
  return true;
}
WinSpec Emitter::Spec(uint8_t indicator, uint32_t src_pos) const {
  WinSpec w; w.indicator = indicator; w.src_len = src_len; w.src_pos = src_pos;
  w.target_len = produced; w.data = data; w.inst = inst; w.addr = addr; return w;
}
}  // namespace ref
