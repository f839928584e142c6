// C09: objects are reusable without memory of the past.
#include "enc.h"
#include <string.h>
#include <memory>
#include "addrcache.h"
#include "codetable.h"
#include "google/encodetable.h"
#include "google/jsonwriter.h"
#include "google/output_string.h"
#include "google/vcdecoder.h"
using namespace gen;
using namespace enc;
using namespace open_vcdiff;

namespace {
// ---- decoder sessions --------------------------------------------------------
struct Session { std::string name; Bytes dict, delta; size_t chunk; size_t stop; };   // stop: bytes delivered before completion
struct Log { std::vector<int> verdicts; Bytes out; };
// finish: false skips the completion call after a failed decode call (the session is over then)
Log RunSession(VCDiffStreamingDecoder* dec, const Session& s, bool finish = true) {
  Log l; vp::Exact d(s.dict);
  dec->StartDecoding(d.p, d.n);
  size_t n = std::min(s.stop, s.delta.size()), pos = 0;
  bool ok = true;
  while (pos < n && ok) {
    size_t e = std::min(n, pos + s.chunk);
    vp::Exact c(s.delta.data() + pos, e - pos);
    ok = dec->DecodeChunk(c.p, c.n, &l.out);
    l.verdicts.push_back(ok); pos = e;
  }
  if (ok || finish) l.verdicts.push_back(dec->FinishDecoding());
  vp::Transition(l.verdicts.size() + 1);
  return l;
}
const size_t kAll = (size_t)-1;
std::vector<Session> Kinds() {
  std::vector<Session> v;
  auto find = [](const char* n) -> const Case& { for (auto& c : Corpus()) if (c.name == n) return c; vp::Fail(std::string("corpus: ") + n); };
  static const char* names[] = {"add3/standard", "near/standard", "same/S-interleaved", "windows/standard", "windows/S-interleaved", "windows/S+checksum", "windows/S-interleaved+checksum",
    "table-one/standard", "table-one/S-interleaved", "copy-here-seg/standard", "compound-same/S-interleaved+checksum", "empty-windows/standard", "header-only", "empty-dict", "long-add/S-interleaved"};
  for (const char* n : names) { const Case& c = find(n); v.push_back({c.name, c.dict, c.delta, 1u << 20, kAll}); }
  // failures of every sort
  const Case& w = find("windows/S-interleaved+checksum"); const Case& t = find("table-one/standard"); const Case& a = find("windows/standard");
  auto bad = [&](const char* n, const Case& c, size_t pos, int val) { Bytes m = c.delta; m[pos] = (char)val; v.push_back({n, c.dict, m, 1u << 20, kAll}); };
  bad("bad magic", a, 0, 7); bad("bad version", a, 3, 1); bad("compressor", a, 4, 1); bad("bad indicator", a, 5, 3);
  bad("bad last byte", w, w.delta.size() - 1, 0x7f);
  { Bytes m = w.delta; size_t k = m.size() - 3; m[k] ^= 1; v.push_back({"corrupt literal", w.dict, m, 1u << 20, kAll}); }
  bad("bad table", t, 30, 0x55);
  v.push_back({"wrong dictionary", "", w.delta, 1u << 20, kAll});
  v.push_back({"trailing garbage", a.dict, a.delta + Bytes("\x01", 1), 1u << 20, kAll});
  v.push_back({"excess interleaved", w.dict, find("add3/S-interleaved").delta + Bytes("\x09\x09", 2), 1u << 20, kAll});
  { ref::WinSpec x; x.indicator = 2; x.src_len = 6; x.target_len = 6; x.inst = Bytes("\x13\x06", 2); x.addr = Bytes(1, 0);
    v.push_back({"target reference into the past session", a.dict, ref::Header(0) + ref::MakeWindow(x), 1u << 20, kAll}); }
  { ref::WinSpec x; x.indicator = 1; x.src_len = 20; x.target_len = 8; x.inst = Bytes("\x33\x04\x73\x04", 4); x.addr = Bytes("\x00\x00", 2);   // NEAR / SAME slots of a fresh cache are 0
    v.push_back({"fresh near/same cache", a.dict, ref::Header(0) + ref::MakeWindow(x), 1u << 20, kAll}); }
  { ref::Emitter e(ref::DefaultTable(), 4, 3, false, 20); e.Op(20, 0, 4, 0, 0); e.Op(255, 0, 3, 0, 0); e.Op(147, 5, 3, 0, 0); e.Op(254, 0, 3, 0, 0); e.Op(99, 4, 1, 0, 0); e.Op(2, 0, 0, 0, 0);
    v.push_back({"default table, last opcodes", a.dict, ref::Header(0) + ref::MakeWindow(e.Spec(1, 0)), 1u << 20, kAll}); }
  { static const ref::Table m = MinimalTable(2, 3), z = MinimalTable(0, 0), r = ReversedTable();
    auto cus = [&](const char* n, const ref::Table& t, int ne, int sa, int op) {
      ref::Emitter e(t, ne, sa, false, 20); if (!e.Op(op, 4, 2, 0, 0) || !e.Op(op, 3, 1, 0, 0)) vp::Fail("session table");
      v.push_back({n, a.dict, ref::CustomHeader(0, t, ne, sa) + ref::MakeWindow(e.Spec(1, 0)), 1u << 20, kAll}); };
    cus("minimal table 2,3", m, 2, 3, 2); cus("minimal table 0,0", z, 0, 0, 2); cus("reversed table", r, 4, 3, 255 - 19); }
  v.push_back({"nothing", a.dict, "", 1u << 20, kAll});
  return v;
}
const std::vector<Session>& K() { static const std::vector<Session> k = Kinds(); return k; }
struct Settings { uint64_t w, f; bool t; };
const Settings kSettings[] = {{64u << 20, 64u << 20, true}, {64u << 20, 64u << 20, false}, {9, 14, true}};
void Apply(VCDiffStreamingDecoder* d, int s) {
  d->SetMaximumTargetWindowSize(kSettings[s].w); d->SetMaximumTargetFileSize(kSettings[s].f); d->SetAllowVcdTarget(kSettings[s].t);
}
std::string Show(const Log& l) { std::string s; for (int v : l.verdicts) s += v ? "1" : "0"; return s + " out=" + vp::Hex(l.out, 100); }
void Same(const Log& a, const Log& fresh, const std::string& what) {
  vp::Trace();
  if (a.verdicts != fresh.verdicts || a.out != fresh.out) vp::Fail("a reused decoder behaves differently: " + what + "; reused: " + Show(a) + " fresh: " + Show(fresh));
}
void Limit(VCDiffStreamingDecoder* d, const Settings& s) {
  d->SetMaximumTargetWindowSize(s.w); d->SetMaximumTargetFileSize(s.f); d->SetAllowVcdTarget(s.t);
}
Log Fresh(const Session& s, int set) { VCDiffStreamingDecoder d; Apply(&d, set); return RunSession(&d, s); }
Bytes Sub(const Bytes& s, size_t a, size_t n) { return s.substr(a, n); }

// ---- writer sessions -----------------------------------------------------------
enum { W_HEADER, W_ADD, W_COPY, W_COPY2, W_RUN, W_SUM, W_OUT, W_FIN, kWOps };
void WriterOp(CodeTableWriterInterface* w, int op, std::string* out, bool json) {
  OutputString<std::string> o(out);
  switch (op) {
    case W_HEADER: w->WriteHeader(&o, VCD_FORMAT_INTERLEAVED); break;
    case W_ADD: w->Add("xyz", 3); break;
    case W_COPY: w->Copy(5, 6); break;
    case W_COPY2: w->Copy(2, 40); break;
    case W_RUN: w->Run(4, 'r'); break;
    case W_SUM: w->AddChecksum(0x1234567); break;
    case W_OUT: w->Output(&o); break;
    case W_FIN: w->FinishEncoding(&o); break;
  }
  vp::Transition();
}
}  // namespace

namespace vp {
void Setup() {
  Corpus(); K();
  size_t N = K().size();
  AddSpace("decoder-cut-then-any", N * N, [N](uint64_t u) {
    // first session abandoned (by completion) at every byte, then any other session
    const Session& a = K()[u / N]; const Session& b = K()[u % N];
    size_t step = a.delta.size() > 700 ? 97 : a.delta.size() > 200 ? 3 : 1;
    for (int set = 0; set < 3; set++) {
      Log f = Fresh(b, set); Session b1 = b; b1.chunk = 1; Log f1 = Fresh(b1, set);
      for (size_t stop = 0; stop <= a.delta.size(); stop += step) for (size_t ch : {(size_t)1, (size_t)1 << 20}) {
        if (set && ch == 1) continue;
        VCDiffStreamingDecoder d; Apply(&d, set);
        Session x = a; x.stop = stop; x.chunk = ch;
        VP_NOTE(a.name + vp::Str(" up to byte %zu, chunk %zu, then ", stop, ch) + b.name);
        RunSession(&d, x, stop % 3 != 0);
        Same(RunSession(&d, stop % 2 ? b1 : b), stop % 2 ? f1 : f, a.name + vp::Str(" stopped after %zu bytes (chunk %zu), then ", stop, ch) + b.name);
        vp::State();
      }
    }
    vp::Sample(a.name + " stopped at every byte, then " + b.name);
  }, "every ordered pair of 32 session kinds, the first stopped after every byte (whole or byte by byte) x 3 settings");

  AddSpace("decoder-exact-limits", N * N, [N](uint64_t u) {
    // limits that just admit (or just do not admit) the second session; the first one
    // runs under the same or under generous limits and may fail, stop or complete
    const Session& a = K()[u / N]; const Session& b = K()[u % N];
    ref::Result rb = ref::Decode(b.dict, b.delta); if (!Runnable(rb)) return;
    uint64_t total = 0, wmax = 0; for (auto& w : rb.windows) { total += w.target_len; wmax = std::max<uint64_t>(wmax, w.target_len); }
    std::vector<size_t> stops = {0, a.delta.size() / 2, a.delta.size()};
    for (size_t i = a.delta.size() > 12 ? a.delta.size() - 12 : 1; i < a.delta.size(); i += 2) stops.push_back(i);
    for (int k = 0; k < 6; k++) {
      Settings lim = {k % 3 == 1 ? wmax : 1u << 20, k % 3 == 0 ? total : 1u << 20, k < 3};
      if (k % 3 == 2) { lim.w = wmax; lim.f = total ? total - 1 : 0; }
      if (k >= 3 && k % 3 == 2) { lim.w = wmax ? wmax - 1 : 0; lim.f = total; }
      VCDiffStreamingDecoder n; Limit(&n, lim); Log f = RunSession(&n, b);
      Session b1 = b; b1.chunk = 1; VCDiffStreamingDecoder n1; Limit(&n1, lim); Log f1 = RunSession(&n1, b1);
      for (size_t stop : stops) for (int how = 0; how < 8; how++) {
        VCDiffStreamingDecoder d; Limit(&d, how & 1 ? lim : Settings{1u << 20, 1u << 20, true});
        Session x = a; x.stop = stop; x.chunk = how & 4 ? 1 : (size_t)1 << 20;
        RunSession(&d, x, how & 2); RunSession(&d, x, how & 2);
        Limit(&d, lim);
        Same(RunSession(&d, stop % 2 ? b1 : b), stop % 2 ? f1 : f, a.name + vp::Str(" stopped after %zu bytes (variant %d), then under limits %llu/%llu ", stop, how, (unsigned long long)lim.w, (unsigned long long)lim.f) + b.name);
        vp::State();
      }
    }
  }, "every ordered pair of session kinds x 6 limit settings that just admit or just reject the second one x settings changed in between or not x completion call made or skipped after a failure x 3-9 stopping points");

  AddSpace("decoder-triples", N * N, [N](uint64_t u) {
    std::vector<Log> fr; for (auto& s : K()) fr.push_back(Fresh(s, 0));
    for (size_t c = 0; c < N; c++) {
      VCDiffStreamingDecoder d;
      RunSession(&d, K()[u / N], c % 5 != 0);
      Session h = K()[u % N]; if (c % 2) h.stop = h.delta.size() / 2; if (c % 3 == 2) h.chunk = 1;
      RunSession(&d, h, c % 4 != 1);
      Same(RunSession(&d, K()[c]), fr[c], K()[u / N].name + ", " + h.name + ", " + K()[c].name);
      vp::State();
      if (vp::Thorough()) for (size_t e = 0; e < N; e++) {
        VCDiffStreamingDecoder d4; for (size_t k : {(size_t)(u / N), (size_t)(u % N), c}) RunSession(&d4, K()[k]);
        Same(RunSession(&d4, K()[e]), fr[e], "four sessions"); vp::State();
      }
    }
  }, "every sequence of three (thorough: four) session kinds on one decoder");

  AddSpace("decoder-after-corruption", N * 4, [](uint64_t u) {
    // first session: every single-byte substitution of a delta; then several others
    const Session& a = K()[u / 4]; if (a.delta.size() > 120) return;
    static std::vector<Log> fr; if (fr.empty()) for (auto& s : K()) fr.push_back(Fresh(s, 0));
    uint64_t k = 0;
    ForMutants(a.delta, 0, [&](const Bytes& m) {
      if (k++ % 4 != u % 4) return;
      if (!Runnable(ref::Decode(a.dict, m))) return;
      VCDiffStreamingDecoder d; Session x = a; x.delta = m; if (k % 8 == 0) x.chunk = 1;
      RunSession(&d, x, k % 3 != 0);
      size_t b = (k / 4) % K().size();
      Same(RunSession(&d, K()[b]), fr[b], "corrupted " + a.name + " " + vp::Hex(m) + " then " + K()[b].name);
      vp::State();
      // and a second one
      size_t b2 = (k / 7) % K().size();
      Same(RunSession(&d, K()[b2]), fr[b2], "corrupted " + a.name + " " + vp::Hex(m) + " then two others");
    });
  }, "every single-byte substitution of every session delta, followed by two further sessions");

  AddSpace("one-shot-decoder", N * N, [N](uint64_t u) {
    const Session& a = K()[u / N]; const Session& b = K()[u % N];
    VCDiffDecoder fresh; Bytes fo = "old"; bool fv = fresh.Decode(b.dict.data(), b.dict.size(), b.delta, &fo);
    VCDiffDecoder d; Bytes o; 
    for (size_t cut = 0; cut <= a.delta.size(); cut += 5) {
      d.Decode(a.dict.data(), a.dict.size(), Sub(a.delta, 0, cut), &o);
      Bytes o2 = "older"; bool v = d.Decode(b.dict.data(), b.dict.size(), b.delta, &o2);
      vp::Transition(2); vp::Trace(); vp::State();
      if (v != fv || o2 != fo) vp::Fail("one-shot decoder: " + a.name + vp::Str(" cut at %zu then ", cut) + b.name + (v ? " accepted" : " rejected"));
    }
  }, "every ordered pair of session kinds on one VCDiffDecoder, first one cut at every fifth byte");

  // ---- encoder side ------------------------------------------------------------
  AddSpace("encoder-histories", 16 * 6, [](uint64_t u) {
    int combo = (int)(u % 16); bool json = combo >= 8; int flags = Flags(combo & 7) | (json ? 4 : 0); bool tm = TargetMatching(combo);
    Bytes dict; for (int i = 0; i < 200; i++) dict.push_back((char)(33 + (i * 7 + i / 23) % 90));
    Dict D(dict); Dict E(dict);
    std::vector<Bytes> t = {"", "a", dict, dict.substr(20, 90) + "\"\\lit" + dict.substr(100, 60), Bytes(100, 'z') + dict.substr(1, 70) + Bytes(100, 'z'), dict.substr(7, 64) + dict.substr(7, 64), json ? Bytes("x\x80y") : Bytes("\xff\x80", 2)};
    size_t n = t.size();
    // session: up to two chunks, then finished or not
    auto play = [&](VCDiffStreamingEncoder* e, size_t a, size_t b, bool finish) {
      Log l;
      l.verdicts.push_back(e->StartEncoding(&l.out));
      for (size_t k : {a, b}) if (k < n) { vp::Exact c(t[k]); l.verdicts.push_back(e->EncodeChunk(c.p, c.n, &l.out)); }
      if (finish) l.verdicts.push_back(e->FinishEncoding(&l.out));
      vp::Transition(l.verdicts.size());
      return l;
    };
    for (size_t a = u / 16; a <= n; a += 6) for (size_t b = 0; b <= n; b++) for (int fin = 0; fin < 2; fin++)
      for (size_t c = 0; c <= n; c++) for (size_t d = 0; d <= n; d++) {
        VCDiffStreamingEncoder used(D.h, flags, tm), fresh(E.h, flags, tm);
        play(&used, a, b, fin);
        if ((c + d) % 3 == 0) play(&used, d, n, fin);
        Log x = play(&used, c, d, true), y = play(&fresh, c, d, true);
        vp::Trace(); vp::State();
        if (x.verdicts != y.verdicts || x.out != y.out)
          vp::Fail(vp::Str("a reused encoder behaves differently (flags %d, targets %zu,%zu %s, then %zu,%zu)", flags, a, b, fin ? "finished" : "not finished", c, d) + Show(x) + " fresh " + Show(y));
      }
  }, "all pairs of sessions (0-2 chunks of 7 contents, finished or restarted without completion) x 8 option combinations x binary/JSON on one encoder, versus a fresh encoder with a fresh dictionary");

  AddSpace("many-decoder-sessions", 24, [N](uint64_t u) {
    // one decoder through tens of thousands of sessions of every kind
    int set = (int)(u % 3); std::vector<Session> s; std::vector<Log> want;
    for (size_t k = 0; k < N; k++) {
      if (K()[k].delta.size() > 700 && u % 4) continue;
      s.push_back(K()[k]); Session cut = K()[k]; cut.stop = cut.delta.size() * (1 + k % 3) / 4; s.push_back(cut);
    }
    for (auto& x : s) want.push_back(Fresh(x, set));
    VCDiffStreamingDecoder used; Apply(&used, set);
    uint64_t x = u * 7 + 1; int total = u < 6 || Thorough() ? 66000 : 3000;
    for (int k = 0; k < total; k++) {
      x = x * 6364136223846793005ull + 1442695040888963407ull; size_t i = (size_t)((x >> 33) % s.size());
      State(); Same(RunSession(&used, s[i]), want[i], Str("session %d of one object, ", k + 1) + s[i].name + Str(", settings %d", set));
    }
    Sample(Str("%d sessions on one decoder", total));
  }, "one decoder through 66000 (6 orders) and 3000 (18 orders) sessions of all kinds, complete and cut short, each compared with a fresh decoder");

  AddSpace("many-encoder-sessions", 16, [](uint64_t u) {
    int combo = (int)(u % 16); bool json = combo >= 8, tm = TargetMatching(combo & 7); int flags = Flags(combo & 7) | (json ? 4 : 0);
    Bytes dict; for (int i = 0; i < 200; i++) dict.push_back((char)(33 + (i * 7 + i / 19) % 90));
    Dict D(dict); std::vector<Bytes> t = {"", "a", dict.substr(20, 40) + "lit" + dict.substr(100, 60) + dict.substr(20, 40), dict.substr(20, 45), dict.substr(100, 50) + "\"", json ? Bytes("x\x80") : Bytes("\xff")};
    size_t n = t.size();
    auto play = [&](VCDiffStreamingEncoder* e, size_t a, size_t b) {
      Log l; l.verdicts.push_back(e->StartEncoding(&l.out));
      for (size_t k : {a, b}) l.verdicts.push_back(e->EncodeChunk(t[k].data(), t[k].size(), &l.out));
      if ((a + b) % 4) l.verdicts.push_back(e->FinishEncoding(&l.out));
      vp::Transition(4); return l;
    };
    std::vector<Log> want; std::vector<Bytes> one;
    for (size_t i = 0; i < n * n; i++) { VCDiffStreamingEncoder f(D.h, flags, tm); want.push_back(play(&f, i % n, i / n)); }
    for (size_t i = 0; i < n; i++) { VCDiffEncoder f(dict.data(), dict.size()); f.SetFormatFlags(flags); f.SetTargetMatching(tm); Bytes o; if (!f.Encode(t[i].data(), t[i].size(), &o)) o = "refused"; one.push_back(o); }
    VCDiffStreamingEncoder used(D.h, flags, tm); VCDiffEncoder shot(dict.data(), dict.size()); shot.SetFormatFlags(flags); shot.SetTargetMatching(tm);
    uint64_t x = u + 5; int total = 66000;
    for (int k = 0; k < total; k++) {
      x = x * 6364136223846793005ull + 1442695040888963407ull; size_t i = (size_t)((x >> 33) % (n * n));
      State(); Trace(); Log l = play(&used, i % n, i / n);
      if (l.verdicts != want[i].verdicts || l.out != want[i].out) Fail(Str("session %d of one encoder (flags %d, targets %zu,%zu) behaves differently", k + 1, flags, i % n, i / n) + Show(l) + " fresh " + Show(want[i]));
      Bytes o; if (!shot.Encode(t[i % n].data(), t[i % n].size(), &o)) o = "refused";
      if (o != one[i % n]) Fail(Str("encoding %d of one VCDiffEncoder (flags %d, target %zu) differs", k + 1, flags, i % n));
    }
    Sample(Str("%d sessions on one encoder", total));
  }, "one streaming encoder and one VCDiffEncoder through 66000 sessions, each compared with a fresh object, x 16 option combinations");

  AddSpace("shared-dictionary", 8, [](uint64_t u) {
    // two encoders on one dictionary, all interleavings of their calls
    Bytes dict; for (int i = 0; i < 300; i++) dict.push_back((char)(33 + (i * 11 + i / 17) % 90));
    Dict D(dict);
    std::vector<Bytes> ta = {dict.substr(3, 120), "lit", dict.substr(90, 50) + dict.substr(90, 50)}, tb = {Bytes(80, 'q') + dict.substr(0, 40), dict.substr(200, 99), "z"};
    int fa = Flags((int)u), fb = Flags((int)(u * 5 + 3) % 8) | (u % 3 == 2 ? 4 : 0);
    auto alone = [&](const std::vector<Bytes>& t, int f) { Dict X(dict); VCDiffStreamingEncoder e(X.h, f, TargetMatching((int)u)); Bytes o; e.StartEncoding(&o); for (auto& s : t) e.EncodeChunk(s.data(), s.size(), &o); e.FinishEncoding(&o); return o; };
    Bytes wa = alone(ta, fa), wb = alone(tb, fb);
    for (int m = 0; m < 1024; m++) {
      if (__builtin_popcount(m) != 5) continue;    // 5 calls each
      VCDiffStreamingEncoder a(D.h, fa, TargetMatching((int)u)), b(D.h, fb, TargetMatching((int)u)); Bytes oa, ob; int ia = 0, ib = 0;
      for (int k = 0; k < 10; k++) {
        bool first = m >> k & 1; VCDiffStreamingEncoder& e = first ? a : b; int& i = first ? ia : ib; Bytes& o = first ? oa : ob; auto& t = first ? ta : tb;
        if (i == 0) e.StartEncoding(&o); else if (i == 4) e.FinishEncoding(&o); else { vp::Exact c(t[i - 1]); e.EncodeChunk(c.p, c.n, &o); }
        i++; vp::Transition();
      }
      vp::Trace(); vp::State();
      if (oa != wa || ob != wb) vp::Fail(vp::Str("encoders sharing a dictionary influence each other (interleaving %x)", m));
    }
  }, "all 252 interleavings of the calls of two encoders sharing a dictionary x 8 option pairs");

  AddSpace("dictionary-lifetime", 16 * 3, [](uint64_t u) {
    // the caller's buffer is overwritten after construction, and again after Init
    static const size_t sz[] = {1, 15, 16, 17, 32, 100, 255, 1023, 1024, 4095, 4096, 4097, 16384, 65537, 300000, 1100000};
    size_t n = sz[u % 16]; int when = (int)(u / 16);
    Bytes dict = enc::Noise(n, 401), t = dict.substr(n / 3) + "lit" + dict.substr(0, n / 2);
    Dict D(dict);
    for (int combo = 0; combo < kCombos; combo += n > 100000 ? 5 : 1) {
      Bytes want; if (!Encode(D.h, t, {t.size() / 2}, Flags(combo), TargetMatching(combo), &want)) vp::Fail("encoding failed");
      std::unique_ptr<vp::Exact> e(new vp::Exact(dict));
      HashedDictionary h(e->p, e->n);
      if (when == 0) { memset(e->raw, 'X', n); e.reset(); }
      if (!h.Init()) vp::Fail("HashedDictionary::Init failed");
      if (when == 1) { memset(e->raw, 'X', n); e.reset(); }
      VCDiffStreamingEncoder x(&h, Flags(combo), TargetMatching(combo));
      if (when == 2) { memset(e->raw, 'X', n); e.reset(); }
      Bytes got; bool ok = x.StartEncoding(&got) && x.EncodeChunk(t.data(), t.size() / 2, &got) && x.EncodeChunk(t.data() + t.size() / 2, t.size() - t.size() / 2, &got) && x.FinishEncoding(&got);
      vp::Transition(5); vp::Trace(); vp::State();
      if (!ok || got != want) vp::Fail(vp::Str("the caller's dictionary buffer of %zu bytes influences the encoding after it was handed over (point %d, options %d)", n, when, combo));
    }
  }, "16 dictionary sizes up to 1.1 MB x the buffer destroyed after construction, after initialisation, or after the encoder exists x 8 option combinations");

  AddSpace("one-shot-encoder", 16 * 8, [](uint64_t u) {
    int combo = (int)(u % 16); int flags = Flags(combo & 7) | (combo >= 8 ? 4 : 0);
    Bytes dict; for (int i = 0; i < 150; i++) dict.push_back((char)(33 + (i * 7 + i / 19) % 90));
    std::vector<Bytes> t = {"", "a", dict, dict.substr(9, 70) + "Q" + dict.substr(50, 50), Bytes(120, 'z'), dict.substr(7, 64) + dict.substr(7, 64), "\xf0", "\"\n"};
    const Bytes& first = t[u / 16];
    for (auto& second : t) for (auto& third : t) {
      vp::Exact* e = new vp::Exact(dict); VCDiffEncoder used(e->p, e->n); memset(e->p, 0, e->n); delete e;
      vp::Exact d(dict); VCDiffEncoder fresh(d.p, d.n);
      for (auto* x : {&used, &fresh}) { x->SetFormatFlags(flags); x->SetTargetMatching(TargetMatching(combo)); }
      Bytes o = "old", w; used.Encode(first.data(), first.size(), &o); used.Encode(second.data(), second.size(), &o);
      bool a = used.Encode(third.data(), third.size(), &o), b = fresh.Encode(third.data(), third.size(), &w);
      vp::Transition(4); vp::Trace(); vp::State();
      if (a != b || o != w) vp::Fail(vp::Str("a reused one-shot encoder behaves differently (flags %d)", flags) + vp::Hex(o, 200) + " fresh " + vp::Hex(w, 200));
    }
  }, "all triples of 8 targets on one VCDiffEncoder x 16 option combinations; the caller's dictionary buffer is destroyed after construction");

  AddSpace("writer-histories", 3 * kWOps * kWOps, [](uint64_t u) {
    // partial use of an instruction writer, re-initialisation, then a complete window
    int kind = (int)(u / (kWOps * kWOps)), a = (int)(u % kWOps), b = (int)(u / kWOps % kWOps);
    auto make = [&]() -> CodeTableWriterInterface* { return kind == 2 ? (CodeTableWriterInterface*)new JSONCodeTableWriter() : new VCDiffCodeTableWriter(kind == 1); };
    static const int tails[][6] = {{W_HEADER, W_ADD, W_COPY, W_OUT, W_FIN, -1}, {W_HEADER, W_COPY, W_COPY, W_ADD, W_OUT, W_FIN}, {W_HEADER, W_SUM, W_RUN, W_COPY2, W_OUT, W_FIN}, {W_HEADER, W_OUT, W_FIN, -1, -1, -1}, {W_HEADER, W_COPY2, W_OUT, W_ADD, W_OUT, W_FIN}};
    int tot = kWOps * kWOps * (vp::Thorough() ? kWOps : 1);
    for (int x = 0; x < tot; x++) for (auto& tail : tails) for (int dd = 0; dd < 4; dd++) {
      size_t d1 = dd == 0 ? 60 : dd == 1 ? 50 : dd == 2 ? 0 : 60, d2 = dd < 2 ? 60 : dd == 2 ? 0 : 0;
      int seq[5] = {a, b, x % kWOps, x / kWOps % kWOps, vp::Thorough() ? x / kWOps / kWOps : W_OUT};
      std::string junk, got, want;
      std::unique_ptr<CodeTableWriterInterface> w(make()), f(make());
      if (!w->Init(d1)) vp::Fail("Init failed");
      int len = vp::Thorough() ? 5 : 4;
      auto fit = [&](int op, size_t d) { return d == 0 && (op == W_COPY || op == W_COPY2) ? (int)W_RUN : op; };   // nothing to copy from
      for (int i = 0; i < len; i++) WriterOp(w.get(), fit(seq[i], d1), &junk, kind == 2);
      if (!w->Init(d2) || !f->Init(d2)) vp::Fail("Init failed");
      for (int o : tail) if (o >= 0) { WriterOp(w.get(), fit(o, d2), &got, kind == 2); WriterOp(f.get(), fit(o, d2), &want, kind == 2); }
      vp::Trace(); vp::State();
      if (got != want) vp::Fail(vp::Str("a re-initialised writer (kind %d) remembers: calls %d,%d,%d,%d then Init; ", kind, seq[0], seq[1], seq[2], seq[3]) + vp::Hex(got, 200) + " fresh " + vp::Hex(want, 200));
    }
  }, "every sequence of 4 (thorough 5) writer calls (header, add, copies, run, checksum, output, finish), then re-initialisation and each of 5 complete sessions; standard, interleaved and JSON writers, dictionary sizes 60/50/0 before and 60/0 after");

  AddSpace("writer-custom-table", 12, [](uint64_t u) {
    // custom code table and cache sizes survive re-initialisation
    static const ref::Table tabs[] = {MinimalTable(2, 3), MinimalTable(0, 0), DoubleExplicitTable()};
    static const int nn[] = {2, 0, 4}, ss[] = {3, 0, 3};
    int k = (int)(u % 3); bool il = (u / 3) % 2; int first = (int)(u / 6);
    VCDiffCodeTableData data;
    memcpy(data.inst1, tabs[k].f[0], 256); memcpy(data.inst2, tabs[k].f[1], 256); memcpy(data.size1, tabs[k].f[2], 256);
    memcpy(data.size2, tabs[k].f[3], 256); memcpy(data.mode1, tabs[k].f[4], 256); memcpy(data.mode2, tabs[k].f[5], 256);
    for (int x = 0; x < kWOps * kWOps * kWOps; x++) {
      VCDiffCodeTableWriter w(il, nn[k], ss[k], data, 1 + nn[k] + ss[k]), f(il, nn[k], ss[k], data, 1 + nn[k] + ss[k]);
      std::string junk, got, want;
      if (!w.Init(60)) vp::Fail("Init failed with a valid custom table");
      int y = x; for (int i = 0; i < 3 + first; i++) { WriterOp(&w, y % kWOps, &junk, false); y /= kWOps; }
      if (!w.Init(60) || !f.Init(60)) vp::Fail("Init failed with a valid custom table");
      for (int o : {W_COPY, W_ADD, W_COPY, W_COPY2, W_RUN, W_OUT}) { WriterOp(&w, o, &got, false); WriterOp(&f, o, &want, false); }
      vp::Trace(); vp::State();
      if (got != want) vp::Fail("a re-initialised custom-table writer remembers: " + vp::Hex(got, 100) + " fresh " + vp::Hex(want, 100));
    }
  }, "the same with 3 custom code tables, standard and interleaved");
}
}  // namespace vp
