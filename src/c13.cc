// C13: JSON deltas.
#include "enc.h"
#include <string.h>
#include "google/jsonwriter.h"
#include "json.h"
using namespace json;
using namespace enc;
using open_vcdiff::VCDiffStreamingEncoder;

namespace {
void Judge(const Bytes& dict, const Bytes& target, const Bytes& json, const std::string& what) {
  if (target.empty()) { if (!json.empty()) vp::Fail("output for an empty target: " + json.substr(0, 200) + " " + what); return; }
  std::vector<Item> v; std::string why; Bytes out;
  if (!ParseJson(json, &v, &why)) vp::Fail("not a valid JSON array (" + why + "): " + json.substr(0, 400) + " " + what);
  if (!Apply(dict, v, &out, &why)) vp::Fail("JSON delta cannot be applied (" + why + "): " + json.substr(0, 400) + " " + what);
  if (out != target) vp::Fail("JSON delta rebuilds other text: " + json.substr(0, 400) + " rebuilt=" + vp::Hex(out, 100) + " " + what);
}
void Json(const Input& in) {
  Bytes json;
  if (!Encode(in.hashed, *in.target, *in.cuts, 4 | Flags(in.combo), TargetMatching(in.combo), &json)) vp::Fail("JSON encoding failed: " + in.Describe());
  Judge(*in.dict, *in.target, json, in.Describe());
}
}  // namespace
namespace vp {
void Setup() {
  g_ascii = true;
  AddFamilies(Json, 3);
  AddSpace("characters", 128, [](uint64_t a) {
    Dict d1(Bytes("0123456789abcdefghijklmnopqrstuvwxyz")), d2{Bytes()};
    for (int b = 0; b < 128; b++) {
      Bytes t(1, (char)a); t.push_back((char)b);
      Bytes mix = "[" + t + "]\",\"" + t;
      Bytes rep(40, (char)a); rep.push_back((char)b); rep += Bytes(40, (char)a);
      for (const Bytes& x : {t, mix, d1.bytes + t, t + d1.bytes + t, rep}) for (Dict* d : {&d1, &d2}) for (int c : {0, 4}) {
        Input in{&d->bytes, d->h, &x, new std::vector<size_t>(), c}; Json(in); delete in.cuts; State(); Trace();
      }
    }
    Sample(Str("every pair of characters starting with %d", (int)a));
  }, "every ordered pair of 7-bit characters in 5 contexts x 2 dictionaries x target matching");
  AddSpace("writer", 128, [](uint64_t ch) {
    // the JSON writer driven directly, including RUN
    for (int n1 : {1, 2, 40}) for (int order = 0; order < 6; order++) {
      open_vcdiff::JSONCodeTableWriter w; Bytes dict = "dictionary-text", json, want; open_vcdiff::OutputString<Bytes> o(&json);
      VP_CHECK(w.Init(dict.size()), "Init");
      for (int win = 0; win < 2; win++) {
        for (int k = 0; k < 3; k++) {
          int what = (order + k * (order % 2 ? 1 : 2)) % 3;
          if (what == 0) { Bytes s = "q" + Bytes(1, (char)ch); w.Add(s.data(), s.size()); want += s; }
          if (what == 1) { w.Run(n1, (unsigned char)ch); want += Bytes(n1, (char)ch); }
          if (what == 2) { w.Copy(3, 5); want += dict.substr(3, 5); }
        }
        w.Output(&o);
      }
      w.FinishEncoding(&o); State(); Trace(); Transition(9);
      Judge(dict, want, json, "writer");
    }
  }, "JSON writer: ADD, RUN and COPY in 6 orders, two windows, every 7-bit byte");
  AddSpace("writer-windows", 4 * 4 * 4, [](uint64_t u) {
    // three windows; copies from the dictionary, from this window's text, across the border
    for (int v = 0; v < 64; v++) {
      open_vcdiff::JSONCodeTableWriter w; Bytes dict = "dictionary-text", json, want; open_vcdiff::OutputString<Bytes> o(&json);
      VP_CHECK(w.Init(dict.size()), "Init");
      for (int win = 0; win < 3; win++) {
        Bytes window; int first = (int)(u >> (2 * win)) & 3, second = (v >> (2 * win)) & 3;
        for (int what : {first, second}) {
          if (what == 0) { w.Add("xyz-", 4); window += "xyz-"; }
          if (what == 1) { w.Run(5 + win, 'r'); window += Bytes(5 + win, 'r'); }
          if (what == 2) { w.Copy(3, 5); window += dict.substr(3, 5); }
          if (what == 3) {
            if (window.empty()) { w.Copy(14, 1); window += dict[14]; }
            else { size_t at = window.size() / 2, n = 7; w.Copy((int32_t)(dict.size() + at), n); for (size_t i = 0; i < n; i++) window.push_back(window[at + i]); }
          }
        }
        w.Output(&o); want += window;
      }
      w.FinishEncoding(&o); State(); Trace(); Transition(10);
      Judge(dict, want, json, Str("writer, windows %d %d", (int)u, v));
    }
  }, "JSON writer: three windows of two instructions each over ADD, RUN, COPY from the dictionary and COPY from the window itself: all 4^6 combinations");
  AddSpace("writer-offsets", 6 * 6, [](uint64_t u) {
    // offsets beyond 2^31 and 2^32: no text of that size is needed to see them
    static const uint64_t L[] = {1u << 20, 0x7ffffff0u, 0x60000000u, 0x40000001u, 5, 0x7fffffffu};
    for (int n = 1; n <= 4; n++) {
      open_vcdiff::JSONCodeTableWriter w; Bytes json, want = "["; open_vcdiff::OutputString<Bytes> o(&json);
      VP_CHECK(w.Init(10), "Init");
      uint64_t before = 0;
      for (int k = 0; k < n; k++) {
        uint64_t len = L[(k % 2 ? u / 6 : u) % 6];
        if (k) want += ",";
        w.Copy(0, len); want += "0," + std::to_string(len);
        w.Copy(10 + 3, 2); want += "," + std::to_string(10 + before + 3) + ",2";
        w.Copy(9, 1); want += ",9,1";
        w.Run(3, 'q'); want += ",\"qqq\"";
        w.Add("w", 1); want += ",\"w\"";
        before += len + 7;
        w.Output(&o);
      }
      w.FinishEncoding(&o); want += "]"; State(); Trace(); Transition(5 * n + 2);
      std::vector<Item> a, b; std::string why;
      if (!ParseJson(json, &a, &why)) Fail("not a valid JSON array (" + why + "): " + json.substr(0, 300));
      VP_CHECK(ParseJson(want, &b, &why), "harness: " + why);
      // adjacent strings may be joined; compare numbers and joined text
      auto flat = [](const std::vector<Item>& v) { std::string s; bool str = false; for (auto& i : v) { if (i.str) { s += str ? i.s : "'" + i.s; str = true; } else { s += " " + std::to_string(i.n); str = false; } } return s; };
      if (flat(a) != flat(b)) Fail("wrong offsets or sizes: " + json.substr(0, 300) + " expected " + want.substr(0, 300));
    }
  }, "JSON writer: 1..4 windows of up to 2^31 bytes each; every offset and size");
  AddSpace("many", 4, [](uint64_t u) {
    Dict d(Noise(300, 91)); Bytes t; std::vector<size_t> cuts;
    for (size_t k = 0; k < 66000; k++) { if (k % 3 != 1) t += d.bytes.substr(20 * (k % 9), 40) + "-" + d.bytes.substr(20 * (k % 9), 35); else t += Bytes(1 + k % 2, (char)(k & 127)); if (u & 1) cuts.push_back(t.size()); }
    if (!(u & 1)) t.resize(t.size() / 4);
    Input in{&d.bytes, d.h, &t, &cuts, u & 2 ? 4 : 0}; State(); Trace(); Json(in);
    Sample("66000 chunks, or one chunk of as many instructions");
  }, "66000 chunks in one session; one chunk of tens of thousands of instructions; target matching on and off");
  AddSpace("refusal", 128, [](uint64_t x) {
    char bad = (char)(128 + x);
    for (size_t n : {1, 2, 16, 40, 70}) for (size_t p = 0; p < n; p++) for (int f : {4, 5, 6, 7}) for (char fill : {'a', '\0', '\x7f'}) {
      if (fill != 'a' && f != 4) continue;
      State();
      Bytes t(n, fill); t[p] = bad; Dict good(Bytes("hello hello hello hello hello hello"));
      {
        VCDiffStreamingEncoder e(good.h, f, p & 1); Bytes out;
        VP_CHECK(e.StartEncoding(&out), "start"); Bytes before = out;
        Exact c(t);
        if (e.EncodeChunk(c.p, c.n, &out)) Fail(Str("target with byte %d at %zu of %zu accepted", 128 + (int)x, p, n));
        VP_CHECK(out == before, "a refused chunk produced output");
        // the session goes on with valid text
        Bytes ok = "fine"; VP_CHECK(e.EncodeChunk(ok.data(), ok.size(), &out) && e.FinishEncoding(&out), "valid chunk after a refused one");
        Judge(good.bytes, ok, out, "after a refused chunk");
        open_vcdiff::VCDiffEncoder one(good.bytes.data(), good.bytes.size()); one.SetFormatFlags(f);
        if (one.Encode(t.data(), t.size(), &out)) Fail("one-shot encoder accepted a target that is not ASCII");
        if (!one.Encode(ok.data(), ok.size(), &out)) Fail("one-shot encoder refuses valid text after invalid text");
        Judge(good.bytes, ok, out, "one-shot encoder after a refused target");
        Transition(5);
      }
      if (f == 4 || n <= 2) {
        g_ascii = false; Dict d(t); g_ascii = true;
        VCDiffStreamingEncoder e(d.h, f, p & 1); Bytes out;
        if (e.StartEncoding(&out)) Fail(Str("dictionary with byte %d at %zu of %zu accepted", 128 + (int)x, p, n));
        VP_CHECK(out.empty(), "output after a refused start"); Transition();
        if (e.EncodeChunk("abc", 3, &out)) Fail("chunk accepted after a refused start");
        VP_CHECK(!e.FinishEncoding(&out), "completion accepted after a refused start");
        open_vcdiff::VCDiffEncoder one(t.data(), t.size()); one.SetFormatFlags(f); out = "old";
        if (one.Encode("abc", 3, &out) || one.Encode("abc", 3, &out)) Fail("one-shot encoder accepted a dictionary that is not ASCII");
      }
      Trace();
    }
    Sample(Str("byte %d at every position of dictionary and target", 128 + (int)x));
  }, "every byte 128..255 at every position of targets and dictionaries of 1..70 bytes otherwise made of letters, zero bytes or 7f");
}
}  // namespace vp
