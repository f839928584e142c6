// Thread bodies of the C14 check: compiled with the same instrumentation as the
// repository's code.
#include "c14body.h"
#include <string.h>
#include "google/jsonwriter.h"
#include "google/encodetable.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
using namespace open_vcdiff;
using std::string;

namespace c14 {
const HashedDictionary* g_shared;
Shared g;
void MakeShared() { HashedDictionary* d = new HashedDictionary(g.dict, g.dict_len); if (!d->Init()) __builtin_trap(); g_shared = d; }
void DropShared() { delete g_shared; g_shared = NULL; }

static string Stream(const HashedDictionary* d, int flags, bool tm, CodeTableWriterInterface* w, const char* t, size_t n) {
  string out; bool ok;
  if (w) { VCDiffStreamingEncoder e(d, flags, tm, w); ok = e.StartEncoding(&out) && e.EncodeChunk(t, n / 2, &out) && e.EncodeChunk(t + n / 2, n - n / 2, &out) && e.FinishEncoding(&out); }
  else { VCDiffStreamingEncoder e(d, flags, tm); ok = e.StartEncoding(&out) && e.EncodeChunk(t, n / 2, &out) && e.EncodeChunk(t + n / 2, n - n / 2, &out) && e.FinishEncoding(&out); }
  return ok ? out : string("encoding failed");
}
// kind: what the thread does; variant: which target it works on
string Do(int kind, int variant) {
  const char* t = g.target[variant]; size_t n = g.target_len[variant];
  switch (kind) {
    case SHARED_STD: return Stream(g_shared, VCD_STANDARD_FORMAT, false, NULL, t, n);
    case SHARED_EXT: return Stream(g_shared, VCD_FORMAT_INTERLEAVED | VCD_FORMAT_CHECKSUM, true, NULL, t, n);
    case SHARED_JSON: return Stream(g_shared, VCD_FORMAT_JSON, false, new JSONCodeTableWriter, t, n);
    case SHARED_TWICE: { string a; VCDiffStreamingEncoder e(g_shared, VCD_FORMAT_CHECKSUM, true);
      for (int i = 0; i < 2; i++) if (!e.StartEncoding(&a) || !e.EncodeChunk(t, n, &a) || !e.FinishEncoding(&a)) return "encoding failed"; return a; }
    case OWN_DICT: { HashedDictionary d(g.dict, g.dict_len); if (!d.Init()) return "Init failed"; return Stream(&d, VCD_STANDARD_FORMAT, true, NULL, t, n); }
    case OWN_SIMPLE: { string a; VCDiffEncoder e(g.dict, g.dict_len); e.SetFormatFlags(VCD_FORMAT_CHECKSUM); if (!e.Encode(t, n, &a)) return "encoding failed"; return a; }
    case OWN_INIT: { HashedDictionary d(g.dict, g.dict_len); return d.Init() ? "ok" : "Init failed"; }
    case CUSTOM_TABLE: { string a; VCDiffCodeTableWriter* w = new VCDiffCodeTableWriter(false); HashedDictionary d(g.dict, g.dict_len); if (!d.Init()) return "Init failed"; return Stream(&d, VCD_STANDARD_FORMAT, false, w, t, n); }
    case DECODE: case DECODE_CUSTOM: { string a; VCDiffDecoder d; const char* x = kind == DECODE ? g.delta : g.custom; size_t m = kind == DECODE ? g.delta_len : g.custom_len;
      if (!d.Decode(g.dict, g.dict_len, string(x, m), &a)) return "decoding failed"; return a; }
    case DECODE_STREAM: { string a; VCDiffStreamingDecoder d; d.StartDecoding(g.dict, g.dict_len);
      for (size_t i = 0; i < g.delta_len; i += 7) if (!d.DecodeChunk(g.delta + i, std::min<size_t>(7, g.delta_len - i), &a)) return "decoding failed";
      return d.FinishDecoding() ? a : string("decoding failed"); }
    case DECODE_BAD: { string a; VCDiffDecoder d; return d.Decode(g.dict, g.dict_len, string(g.delta, g.delta_len - 1), &a) ? "accepted" : "refused"; }
  }
  return "";
}
void Put(int tid, int kind, int variant, char* out, uint32_t* len, size_t cap) {
  string s = Do(kind, variant);
  *len = (uint32_t)s.size();
  if (s.size() > cap) __builtin_trap();
  memcpy(out, s.data(), s.size());
}
}  // namespace c14
