// C15: the command-line tool round-trips files under every option combination.
#include <set>
#include "cli.h"
#include "enc.h"
#include "json.h"
using namespace cli;
using enc::Noise;
using std::string;

namespace {
struct Opt { bool il, sum, tm; int via; string buf; };   // via: bit 0 input from stdin, bit 1 output to stdout, bit 2: pipes instead of files
std::vector<string> Fmt(const Opt& o) {
  std::vector<string> a;
  if (o.il) a.push_back("--interleaved"); if (o.sum) a.push_back("--checksum"); if (o.tm) a.push_back("--target_matches");
  if (!o.buf.empty()) a.push_back("--buffersize=" + o.buf);
  return a;
}
// One tool run with input/output through files or standard streams.  Returns the
// output bytes; name letters: d dictionary, t target, x delta.
bool Tool(const char* cmd, const Opt& o, bool encode, const Bytes& input, Bytes* output, string* shown, const std::vector<string>& extra = {}) {
  Run r; r.args = {cmd, "--dictionary=" + Path("dict")};
  for (auto& s : Fmt(o)) r.args.push_back(s);
  for (auto& s : extra) r.args.push_back(s);
  const char* in = encode ? "target" : "x.delta"; const char* out = encode ? "x.delta" : "target";
  const char* inflag = encode ? "--target=" : "--delta="; const char* outflag = encode ? "--delta=" : "--target=";
  Remove(out);
  if (o.via & 1) { r.in = (o.via & 4) && input.size() < 60000 ? IN_PIPE : IN_FILE; r.in_bytes = input; }
  else { Put(in, input); r.args.push_back(inflag + Path(in)); }
  if (o.via & 2) { if (o.via & 4) r.out = OUT_PIPE; } else r.args.push_back(outflag + Path(out));
  VP_NOTE(Show(r));
  Go(&r);
  if (o.via & 2) *output = r.stdout_bytes; else if (!Get(out, output) && r.ok) vp::Fail("no output file: " + Show(r));
  if (!(o.via & 2) && !r.stdout_bytes.empty()) vp::Fail("output on standard output although a file was named: " + Show(r));
  *shown = Show(r);
  return r.ok;
}
std::vector<Bytes> Dicts() {
  Bytes t; for (int i = 0; i < 40; i++) t += vp::Str("line %d of the dictionary\n", i * 37 % 101);
  return {"", "d", "0123456789abcdef", t, Noise(5000, 3)};
}
std::vector<Bytes> Targets(const Bytes& d) {
  std::vector<Bytes> v = {"", "t", Bytes("\0", 1), d + "x", d.substr(0, d.size() / 2) + "changed" + d.substr(d.size() / 2), Noise(33, 9), Bytes(700, 'r') + d, Noise(4096, 5), d + d + Noise(100, 7) + d};
  v.push_back(Bytes(4095, 'b')); v.push_back(Bytes(8193, 'c') + d);
  return v;
}
}  // namespace

namespace vp {
void Setup() {
  static const std::vector<Bytes> dicts = Dicts();
  static const char* kBuf[] = {"", "1", "2", "3", "7", "16", "31", "32", "33", "100", "1000", "4096", "SIZE-1", "SIZE", "SIZE+1"};
  AddSpace("round-trip", 5 * 11 * 15, [](uint64_t u) {
    const Bytes& d = dicts[u % 5]; Bytes t = Targets(d)[u / 5 % 11]; const char* b = kBuf[u / 55];
    auto sub = [&](size_t n) -> string { string s = b; if (s.compare(0, 4, "SIZE")) return s; long v = (long)n + (s == "SIZE-1" ? -1 : s == "SIZE+1" ? 1 : 0); return std::to_string(v < 1 ? 1 : v); };
    bool tiny = string(b) == "1" || string(b) == "2" || string(b) == "3" || string(b) == "7";
    if (tiny && t.size() > 3000) t = t.substr(0, 3000);
    Put("dict", d);
    int rot = (int)(u % 7);
    for (int f = 0; f < 8; f++) for (int via = 0; via < 8; via++) {
      if (via == 4) continue;
      if (!vp::Thorough() && (f + via + rot) % (tiny ? 8 : 4)) continue;
      Opt o{(f & 1) != 0, (f & 2) != 0, (f & 4) != 0, via, sub(t.size())};
      Bytes delta, back; string how;
      if (!Tool(f & 1 ? "encode" : "delta", o, true, t, &delta, &how)) vp::Fail("encoding failed: " + how + vp::Str(" dictionary %zu target %zu bytes", d.size(), t.size()));
      ref::Result r = ref::Decode(d, delta);
      if (r.verdict != ref::OK || r.out != t) vp::Fail("the delta file is wrong: " + how + " " + r.reason + vp::Str(" dictionary %zu target %zu bytes", d.size(), t.size()));
      if (r.version != (f & 3 ? 'S' : 0) ) { if (!delta.empty()) vp::Fail("wrong dialect: " + how); }
      for (auto& w : r.windows) if (w.interleaved != ((f & 1) != 0) && w.target_len) { if (f & 1) vp::Fail("format option ignored: " + how); }
      for (auto& w : r.windows) if (w.has_checksum != ((f & 2) != 0)) vp::Fail("checksum option not honoured: " + how);
      Opt p = o; p.via = (via * 3 + f) % 8; if (p.via == 4) p.via = 0; p.il = p.sum = p.tm = false; p.buf = f % 3 == 0 ? "" : f % 3 == 1 ? sub(delta.size()) : sub(t.size());
      if (!Tool(f & 2 ? "decode" : "patch", p, false, delta, &back, &how, f == 3 ? std::vector<string>{"--stats"} : std::vector<string>{})) vp::Fail("decoding failed: " + how + vp::Str(" dictionary %zu target %zu bytes", d.size(), t.size()));
      if (back != t) vp::Fail("decoded file differs from the target: " + how + vp::Str(" dictionary %zu target %zu bytes, got %zu", d.size(), t.size(), back.size()));
      if (via == 0 || via == 3) {
        Put("target", t); Remove("x.delta");
        Run s; s.args = {"test", "--dictionary=" + Path("dict"), "--target=" + Path("target"), "--delta=" + Path("x.delta")};
        for (auto& a : Fmt(o)) s.args.push_back(a);
        if (via) s.args.push_back("--stats");
        Go(&s);
        if (!s.ok) vp::Fail("self-test failed: " + Show(s) + vp::Str(" dictionary %zu target %zu bytes", d.size(), t.size()));
      }
      vp::State(); vp::Trace();
    }
    vp::Sample(vp::Str("dictionary %zu bytes, target %zu bytes, buffer %s", d.size(), t.size(), sub(t.size()).c_str()));
  }, "5 dictionaries x 11 targets (0..~16 KB) x 15 buffer sizes (1..size+1, default) x format options x files/standard streams/pipes (quick: every fourth combination, rotating): encode, decode with other stream/buffer choices, self-test");

  AddSpace("large-files", 8 * 6, [](uint64_t u) {
    // files of many buffers, of exactly one default buffer and around powers of two
    static const size_t N[] = {65535, 65536, 65537, 131072, 300000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1};
    static const char* B[] = {"", "4096", "65535", "65536", "65537", "131072"};
    size_t n = N[u % 8]; string b = B[u / 8];
    Bytes d = Noise(70000, 21), t = (d.substr(1000, 30000) + Noise(n, 22)).substr(0, n);
    if (t.size() > 200000) for (size_t i = 150000; i + 40000 < t.size(); i += 100000) t.replace(i, 40000, d, 20000, 40000);
    Put("dict", d);
    for (int via = 0; via < 4; via++) {
      if (!vp::Thorough() && via != (int)((u + u / 8) % 4) && via != (int)((u / 8) % 2 ? 3 : 0)) continue;
      Bytes delta, back; string how; Opt o{(u & 1) != 0, (u & 2) != 0, false, via, b};
      if (!Tool("encode", o, true, t, &delta, &how)) vp::Fail("encoding failed: " + how + vp::Str(" target %zu bytes", n));
      ref::Options big; ref::Result r = ref::Decode(d, delta, big);
      if (r.verdict != ref::OK || r.out != t) vp::Fail("the delta file is wrong: " + how + " " + r.reason + vp::Str(" target %zu bytes", n));
      Opt p = o; p.il = p.sum = false; p.via = 3 - via;
      if (!Tool("decode", p, false, delta, &back, &how) || back != t) vp::Fail("decoding failed: " + how + vp::Str(" target %zu bytes, got %zu", n, back.size()));
      vp::State(); vp::Trace(2);
    }
    Put("target", t);
    Run s; s.args = {"test", "--dictionary=" + Path("dict"), "--target=" + Path("target"), "--delta=" + Path("x.delta")};
    for (auto& a : Fmt(Opt{(u & 1) != 0, (u & 2) != 0, false, 0, b})) s.args.push_back(a);
    Go(&s);
    if (!s.ok) vp::Fail("self-test failed: " + Show(s));
  }, "targets of 2^16, 2^17, 300000 and 2^20 bytes (and +-1) x 6 buffer sizes: encode, decode, self-test");
  AddSpace("large-buffers", 1, [](uint64_t) {
    Bytes d = dicts[3], t = d.substr(5, 200) + Noise(47, 2), delta, back; string how; Put("dict", d);
    for (uint64_t b : {1ull << 24, 1ull << 28, 1ull << 30, 1ull << 31, 1ull << 32, (1ull << 32) + 1}) for (int via : {0, 3}) {
      Opt o{false, true, false, via, std::to_string(b)};
      if (!Tool("encode", o, true, t, &delta, &how)) vp::Fail("encoding failed: " + how);
      ref::Result r = ref::Decode(d, delta);
      if (r.verdict != ref::OK || r.out != t) vp::Fail("the delta file is wrong: " + how);
      o.sum = false; o.via = via == 3 && b > (1ull << 30) ? 0 : via;
      if (!Tool("decode", o, false, delta, &back, &how) || back != t) vp::Fail("decoding failed: " + how);
      vp::State(); vp::Trace(2);
    }
  }, "buffer sizes from 2^24 to 2^32+1 with named files and standard streams");

  AddSpace("json", 5 * 11, [](uint64_t u) {
    Bytes d = dicts[u % 5], t = Targets(d)[u / 5];
    for (auto* s : {&d, &t}) for (auto& c : *s) c &= 0x7f;
    Put("dict", d);
    for (int via = 0; via < 4; via++) for (const char* b : {"", "50", "4096"}) for (int f = 0; f < 8; f++) {
      if (!vp::Thorough() && (f + via) % 4) continue;
      Bytes js, back; string how, why; std::vector<json::Item> items;
      Opt o{(f & 1) != 0, (f & 2) != 0, (f & 4) != 0, via, b};
      if (!Tool("encode", o, true, t, &js, &how, {"--json"})) vp::Fail("JSON encoding failed: " + how);
      if (t.empty() ? !js.empty() : (!json::ParseJson(js, &items, &why) || !json::Apply(d, items, &back, &why) || back != t)) vp::Fail("JSON output is wrong: " + how + " " + why + " " + js.substr(0, 200));
      vp::State(); vp::Trace();
    }
    // a byte outside 7-bit ASCII is refused wherever it is
    for (size_t pos : {(size_t)0, t.size() / 2, t.size()}) for (const char* b : {"", "50"}) {
      Bytes bad = t; bad.insert(pos, 1, (char)0xe9); Bytes js; string how;
      if (Tool("encode", Opt{false, false, false, (int)(pos % 4), b}, true, bad, &js, &how, {"--json"})) vp::Fail("non-ASCII target accepted for JSON: " + how);
      Bytes bd = d; bd.insert(pos % (d.size() + 1), 1, (char)0x80); Put("dict", bd);
      if (Tool("encode", Opt{false, false, false, 0, b}, true, t, &js, &how, {"--json"})) vp::Fail("non-ASCII dictionary accepted for JSON: " + how);
      Put("dict", d);
      vp::State(); vp::Trace();
    }
  }, "5 dictionaries x 11 targets x 3 buffer sizes x streams x options with --json; a non-ASCII byte at each end and in the middle");

  AddSpace("corrupt-deltas", 8 * 8, [](uint64_t u) {
    int f = (int)(u % 8);
    Bytes d = dicts[3].substr(0, 120), t = d.substr(3, 50) + "new" + d.substr(40, 60) + "zzzzzzzz", delta, out; string how;
    Put("dict", d);
    Opt o{(f & 1) != 0, (f & 2) != 0, (f & 4) != 0, 0, "70"};
    if (!Tool("encode", o, true, t, &delta, &how)) vp::Fail("encoding failed: " + how);
    uint64_t k = 0;
    auto judge = [&](const Bytes& m) {
      ref::Result r = ref::Decode(d, m); 
      if (r.odd || r.bad_cache_sizes) return;
      Opt p{false, false, false, (int)(k % 4), k % 3 == 0 ? "1" : k % 3 == 1 ? "20" : ""};
      bool ok = Tool("decode", p, false, m, &out, &how);
      vp::State(); vp::Trace();
      vp::Tally(ok ? "corrupted delta still valid" : "corrupted delta refused");
      if (ok != (r.verdict == ref::OK)) vp::Fail(string(ok ? "status 0 for an invalid delta: " : "valid delta refused: ") + how + " " + r.reason + " delta=" + vp::Hex(m));
      if (ok && out != r.out) vp::Fail("wrong output: " + how + " delta=" + vp::Hex(m));
    };
    for (size_t i = 0; i < delta.size(); i++) { if (k++ % 8 == u / 8) judge(delta.substr(0, i)); }
    for (size_t i = 0; i < delta.size(); i++) for (int v : {1, 2, 0x80, 0xff}) if (k++ % 8 == u / 8) { Bytes m = delta; m[i] ^= (char)v; judge(m); }
    for (const char* tail : {"\x01", "x", "garbage", "\xd6\xc3\xc4"}) if (k++ % 8 == u / 8) judge(delta + tail);
    if (u / 8 == 0) judge("");
  }, "every truncation, 4 corruptions of every byte and trailing garbage of a delta in 8 formats, streams and buffer sizes rotating");

  AddSpace("wrong-dictionary", 8, [](uint64_t u) {
    Bytes d = dicts[3].substr(0, 150), t = d.substr(0, 100) + "new" + d.substr(20, 100), delta, out; string how;
    Opt o{(u & 1) != 0, true, (u & 2) != 0, 0, u & 4 ? "90" : ""};
    Put("dict", d);
    if (!Tool("encode", o, true, t, &delta, &how)) vp::Fail("encoding failed: " + how);
    for (size_t i = 0; i < d.size(); i += (vp::Thorough() ? 1 : 3)) for (int v : {1, 0x40}) {
      Bytes e = d; e[i] ^= (char)v; Put("dict", e);
      ref::Result r = ref::Decode(e, delta);
      bool ok = Tool("decode", Opt{false, false, false, (int)(i % 4), ""}, false, delta, &out, &how);
      vp::State(); vp::Trace();
      if (ok != (r.verdict == ref::OK)) vp::Fail(vp::Str("dictionary byte %zu changed: ", i) + how);
    }
    for (size_t n : {(size_t)0, (size_t)1, d.size() - 1}) { Put("dict", d.substr(0, n)); if (Tool("decode", Opt{false, false, false, 0, ""}, false, delta, &out, &how)) vp::Fail("shorter dictionary accepted: " + how); vp::State(); vp::Trace(); }
  }, "checksummed deltas decoded with every third byte of the dictionary changed, and with shorter dictionaries");

  AddSpace("limits", 32, [](uint64_t u) {
    Bytes d = dicts[3], t = d.substr(5, 200) + Noise(47, 2), delta, out; string how; Put("dict", d);
    bool multi = u & 1; int lim = (int)(u / 2);
    if (!Tool("encode", Opt{(u & 2) != 0, false, false, 0, multi ? "100" : ""}, true, t, &delta, &how)) vp::Fail("encoding failed: " + how);
    ref::Result full = ref::Decode(d, delta); uint64_t mw = 0; for (auto& w : full.windows) mw = std::max<uint64_t>(mw, w.target_len);
    uint64_t fl[] = {0, 1, t.size() - 1, t.size(), t.size() + 1, 1u << 30, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 63}, wl[] = {0, mw - 1, mw, mw + 1, 1u << 30, 0x7fffffff};
    ref::Options o; std::vector<string> x;
    if (lim < 10) { o.max_file = fl[lim]; x.push_back("--max_target_file_size=" + std::to_string(fl[lim])); }
    else { o.max_window = wl[lim - 10]; x.push_back("--max_target_window_size=" + std::to_string(wl[lim - 10])); }
    ref::Result r = ref::Decode(d, delta, o);
    for (int via = 0; via < 4; via++) for (const char* b : {"", "1", "50"}) {
      bool ok = Tool("decode", Opt{false, false, false, via, b}, false, delta, &out, &how, x);
      vp::State(); vp::Trace();
      if (ok != (r.verdict == ref::OK)) vp::Fail("size limit: " + how + vp::Str(" (target %zu, largest window %llu)", t.size(), (unsigned long long)mw));
      if (ok && out != t) vp::Fail("wrong output: " + how);
      // the limits also apply to the self-test
      if (via == 0) {
        Put("target", t);
        Run s; s.args = {"test", "--dictionary=" + Path("dict"), "--target=" + Path("target"), "--delta=" + Path("y.delta"), multi ? "--buffersize=100" : "--buffersize=1048576"}; s.args.push_back(x[0]);
        Go(&s);
        if (s.ok != (r.verdict == ref::OK)) vp::Fail("size limit in self-test: " + Show(s));
      }
    }
  }, "both size limits at and around the exact sizes, one and several windows, decode and self-test");

  AddSpace("target-references", 5, [](uint64_t u) {
    // hand-made deltas with windows that refer to earlier target data
    int f = (int)u; Bytes d = "0123456789ABCDEFGHIJ", delta = ref::Header(gen::Version(f)), out; string how; Put("dict", d);
    ref::WinSpec a; a.target_len = 6; a.inst = Bytes(1, 7); (gen::IsIL(f) ? a.inst : a.data) += "abcdef"; gen::AddWindow(d, &delta, a, f);
    ref::WinSpec b; b.indicator = 2; b.src_len = 6; b.target_len = 5; b.inst = Bytes("\x13\x05", 2); (gen::IsIL(f) ? b.inst : b.addr).push_back(1); 
    Bytes first = delta; gen::AddWindow(d, &delta, b, f);
    for (int via = 0; via < 4; via++) for (const char* buf : {"", "1", "7"}) for (int neg = 0; neg < 3; neg++) for (int second = 0; second < 2; second++) {
      std::vector<string> x; if (neg) x.push_back(neg == 1 ? "--allow_vcd_target=false" : "--noallow_vcd_target");
      bool ok = Tool("decode", Opt{false, false, false, via, buf}, false, second ? delta : first, &out, &how, x);
      vp::State(); vp::Trace();
      if (ok != (!neg || !second)) vp::Fail("target references: " + how);
      if (ok && out != (second ? "abcdefbcdef" : "abcdef")) vp::Fail("wrong output: " + how);
    }
  }, "deltas with and without references to earlier target data, permission on/off, 5 formats");

  AddSpace("usage-errors", 1, [](uint64_t) {
    Bytes d = dicts[3], t = d.substr(0, 90), delta, out; string how; Put("dict", d);
    if (!Tool("encode", Opt{false, false, false, 0, ""}, true, t, &delta, &how)) vp::Fail("encoding failed: " + how);
    Put("target", t); Put("x.delta", delta);
    string D = "--dictionary=" + Path("dict"), T = "--target=" + Path("target"), X = "--delta=" + Path("x.delta"), O = "--target=" + Path("o"), Y = "--delta=" + Path("y");
    string no = Path("missing/file");
    std::vector<std::vector<string>> bad = {
      {}, {"encode"}, {"decode"}, {"test"}, {D}, {"frobnicate", D}, {"encode", "decode", D, T, Y}, {"encode", T, Y}, {"decode", X, O}, {"test", T, Y}, {"test", D, T}, {"test", D, Y},
      {"encode", "--dictionary=" + no, T, Y}, {"decode", "--dictionary=" + no, X, O}, {"encode", D, "--target=" + no, Y}, {"decode", D, "--delta=" + no, O}, {"encode", D, T, "--delta=" + no}, {"decode", D, X, "--target=" + no},
      {"test", D, "--target=" + no, Y}, {"test", D, T, "--delta=" + no}, {"test", "--dictionary=" + no, T, Y},
      {"encode", D, T, Y, "--buffersize=0"}, {"decode", D, X, O, "--buffersize=0"}, {"encode", D, T, Y, "--buffersize=abc"}, {"encode", D, T, Y, "--nosuchoption"}, {"encode", D, T, Y, "--buffersize=-5"},
      {"decode", D, "--delta=" + Path("target"), O}, {"decode", "--dictionary=", X, O}, {"Encode", D, T, Y}, {"", D, T, Y}, {"encode", D, T, Y, "--checksum=maybe"},
    };
    for (auto& a : bad) { Run r; r.args = a; Go(&r); vp::State(); vp::Trace(); if (r.ok) vp::Fail("status zero: " + Show(r)); }
    std::vector<std::vector<string>> good = {{"encode", D, T, Y}, {"decode", D, X, O}, {D, T, Y, "encode"}, {"test", D, T, Y}, {"encode", D, T, Y, "--checksum", "--interleaved", "--stats", "--target_matches"}};
    for (auto& a : good) { Run r; r.args = a; Go(&r); vp::State(); vp::Trace(); if (!r.ok) vp::Fail("nonzero status: " + Show(r)); }
  }, "31 wrong invocations (missing or unknown command, files, options, values) and 5 right ones");

  AddSpace("partial-transfers", 3 * 5 * 4, [](uint64_t u) {
    // reads and writes that transfer fewer bytes than asked for are no errors
    int cmd = (int)(u % 3), f = (int)(u / 15); const char* b[] = {"", "1000", "4096", "50", "1"}; int bi = (int)(u / 3 % 5);
    Bytes d = dicts[3], t = bi > 2 ? d.substr(0, 200) + Noise(300, 3) : d + Noise(9000, 8) + d, delta; string how; Put("dict", d);
    Opt o{(f & 1) != 0, (f & 2) != 0, false, 0, b[bi]};
    if (!Tool("encode", o, true, t, &delta, &how)) vp::Fail("encoding failed: " + how);
    auto make = [&](int via) {
      Run r; const char* names[] = {"encode", "decode", "test"}; r.args = {names[cmd], "--dictionary=" + Path("dict")};
      if (cmd != 1) for (auto& s : Fmt(o)) r.args.push_back(s); else if (!o.buf.empty()) r.args.push_back("--buffersize=" + o.buf);
      Remove("target"); Remove("x.delta"); r.traced = true;
      if (cmd == 2) { Put("target", t); r.args.push_back("--target=" + Path("target")); r.args.push_back("--delta=" + Path("x.delta")); return r; }
      if (via & 1) { r.in = IN_PIPE; r.in_bytes = cmd == 1 ? delta : t; } else { Put(cmd == 1 ? "x.delta" : "target", cmd == 1 ? delta : t); r.args.push_back((cmd == 1 ? "--delta=" : "--target=") + Path(cmd == 1 ? "x.delta" : "target")); }
      if (via & 2) r.out = OUT_PIPE; else r.args.push_back((cmd == 1 ? "--target=" : "--delta=") + Path(cmd == 1 ? "target" : "x.delta"));
      return r; };
    auto judge = [&](const Run& r, int via) {
      vp::State(); vp::Trace();
      if (!r.ok) vp::Fail("failed because a read or write was partial: " + Show(r));
      Bytes out; if (cmd != 2 && (via & 2)) out = r.stdout_bytes; else Get(cmd == 1 ? "target" : "x.delta", &out);
      if (cmd == 1 ? out != t : ref::Decode(d, out).out != t) vp::Fail("wrong output after a partial read or write: " + Show(r)); };
    for (int via = 0; via < (cmd == 2 ? 1 : 4); via++) {
      Run base = make(via); Go(&base); judge(base, via);
      for (int e = 0; e < std::min(base.shm.events, FAULT_MAX); e++) {
        if (base.shm.kind[e] != 'r' && base.shm.kind[e] != 'w') continue;
        if (base.shm.events > 60 && !vp::Thorough() && e % 7 != (int)(u % 7)) continue;
        std::set<int> args = {0}; if (base.shm.ret[e] > 1) args = {1, base.shm.ret[e] / 2, base.shm.ret[e] - 1};
        for (int arg : args) { Run r = make(via); r.at = e; r.action = F_SHORT; r.arg = arg; Go(&r); judge(r, via); }
      }
      for (int n : {1, 2, 7, 100, 999, 1000, 1001, 4095}) { if (t.size() > 5000 && n < 7 && !vp::Thorough()) continue; Run r = make(via); r.at = 0; r.action = F_DRIP; r.arg = n; Go(&r); judge(r, via); }
    }
  }, "each read/write call of encode, decode and self-test transfers only one byte, half, or all but one byte of what was asked; all calls transfer at most n bytes");
  AddSpace("self-test-detects", 25, [](uint64_t u) {
    // the stored target differs from what the delta decodes to: another file
    // takes the target's place just before the tool opens it for the comparison
    Bytes d = dicts[3], t = u % 5 == 0 ? d.substr(0, 50) : u % 5 == 1 ? Noise(5000, 4) : u % 5 == 2 ? d + Noise(9000, 8) + d : u % 5 == 3 ? Bytes("q") : Bytes();
    Put("dict", d); Put("target", t);
    auto make = [&] { Run s; s.args = {"test", "--dictionary=" + Path("dict"), "--target=" + Path("target"), "--delta=" + Path("x.delta")};
      if (u / 5 == 1) s.args.push_back("--buffersize=" + std::to_string(std::max<size_t>(t.size(), 1))); if (u / 5 == 2) s.args.push_back("--buffersize=700"); if (u / 5 == 3) s.args.push_back("--checksum"); if (u / 5 == 4) s.args.push_back("--interleaved");
      s.traced = true; return s; };
    Run base = make(); Go(&base);
    if (!base.ok) vp::Fail("self-test failed: " + Show(base));
    std::set<size_t> pos = {0, 1, 2, 48, 49, 50, 51, 698, 699, 700, 701, 1399, 1400, 4094, 4095, 4096, 4097, 8191, 8192, t.size() / 2, t.size() - 2, t.size() - 1};
    for (size_t p = 0; p < t.size(); p += vp::Thorough() ? 37 : 397) pos.insert(p);
    std::vector<Bytes> alts;
    for (size_t p : pos) if (p < t.size()) { Bytes a = t; a[p] ^= 1; alts.push_back(a); alts.push_back(t.substr(0, p)); a = t; a.erase(p, 1); if (a != t) alts.push_back(a); }
    alts.push_back(t + "x"); alts.push_back(t + Bytes(1, 0)); alts.push_back(t + t); alts.push_back(Bytes(t.size(), 0));
    int n = 0;
    for (int e = 0; e < base.shm.events; e++) {
      if (base.shm.kind[e] != 'o' || base.shm.file[e] != 't' || base.shm.nth[e] < 1) continue;
      for (auto& a : alts) {
        if (a == t) continue;
        Put("target", t); Put("alt", a);
        Run s = make(); s.at = e; s.action = F_SWAP; Go(&s);
        if (!s.shm.hits) continue;
        n++; vp::State(); vp::Trace();
        if (s.ok) { size_t q = 0; while (q < a.size() && q < t.size() && a[q] == t[q]) q++;
          vp::Fail("the self-test did not notice that the target (now " + std::to_string(a.size()) + " bytes, was " + std::to_string(t.size()) + ") differs from byte " + std::to_string(q) + " on: " + Show(s)); }
      }
    }
    Remove("alt");
    if (!n) vp::Tally("no compare read observed");
  }, "the target is replaced just before the comparison phase of the self-test opens it, by every single-byte alteration, truncation and deletion at the listed positions and by extensions");
}
}  // namespace vp
