// C08: the encoder's output is a strictly valid delta of the requested dialect.
#include "enc.h"
#include <malloc.h>
#include <string.h>
using namespace enc;

namespace {
void Strict(const Input& in) {
  int flags = Flags(in.combo); bool tm = TargetMatching(in.combo);
  auto bad = [&](const std::string& w, const Bytes& d) { vp::Fail(w + ": " + in.Describe() + " delta=" + vp::Hex(d, 400)); };
  const Bytes kOld = "old contents";
  Bytes delta = kOld; std::vector<size_t> sizes;
  mallopt(M_PERTURB, 0x11);
  if (!Encode(in.hashed, *in.target, *in.cuts, flags, tm, &delta, &sizes)) bad("encoding failed", delta);
  if (delta.compare(0, kOld.size(), kOld)) bad("existing output content was changed", delta);
  {
    Bytes again; mallopt(M_PERTURB, 0xC3);
    if (!Encode(in.hashed, *in.target, *in.cuts, flags, tm, &again)) bad("second encoding failed", again);
    if (again != delta.substr(kOld.size())) bad("encoding twice gives different bytes", delta);
  }
  Bytes body = delta.substr(kOld.size());
  ref::Result r = ref::Decode(*in.dict, body);
  if (r.verdict != ref::OK || r.odd) bad(std::string("output is not a well-formed delta: ") + r.reason, body);
  if (r.out != *in.target) bad("output denotes other bytes than the target", body);
  if (r.version != (flags ? 'S' : 0)) bad("wrong version byte", body);
  if (r.hdr != 0 || r.custom) bad("header indicator is not zero", body);
  // complete after every call
  size_t before = 0, wi = 0;
  for (size_t k = 0; k < sizes.size(); k++) {
    size_t n = sizes[k] - kOld.size();
    if (n < before) bad("output shrank", body);
    size_t supplied = k == 0 ? 0 : k - 1 < in.cuts->size() ? std::min((*in.cuts)[k - 1], in.target->size()) : in.target->size();
    // find the number of windows that end at n
    size_t out = 0; bool boundary = n == 5;
    while (wi < r.windows.size() && r.windows[wi].end <= n) wi++;
    if (wi > 0) { const ref::Window& w = r.windows[wi - 1]; if (w.end == n) boundary = true; out = w.out_begin + w.target_len; }
    if (!boundary) bad("output after an encode call does not end at a window boundary", body);
    if (out != supplied) bad("output after an encode call is not a complete delta for the target supplied so far", body);
    before = n;
  }
  for (const ref::Window& w : r.windows) {
    bool sum = (flags & 2) != 0;
    if (w.indicator & ~(sum ? 5 : 1)) bad("window indicator has unexpected bits", body);
    if (w.has_checksum != sum) bad("checksum present/absent against the request", body);
    if (w.delta_indicator != 0) bad("delta indicator is not zero", body);
    if (w.target_len == 0) bad("empty window", body);
    if ((flags & 1) && (w.data_len || w.addr_len)) bad("interleaved window with separate sections", body);
    if (w.src_pos + (uint64_t)w.src_len > in.dict->size()) bad("source segment outside the dictionary", body);
    uint64_t at = 0;
    bool il_evident = w.data_len == 0 && w.addr_len == 0;
    if (!(flags & 1) && w.literal_bytes && il_evident) bad("interleaved layout without request", body);
    for (const ref::Inst& i : w.insts) {
      if (i.size == 0) bad("instruction of size zero", body);
      if (i.type == ref::COPY) {
        if (i.addr >= w.src_len + at) bad("copy address out of bounds", body);
        if (i.addr < w.src_len && i.addr + (uint64_t)i.size > w.src_len) bad("copy straddles source and target", body);
        if (i.addr >= w.src_len && !tm) bad("copy from target data without target matching", body);
      }
      at += i.size;
    }
    if (at != w.target_len) bad("instruction sizes do not add up", body);
    // re-serialise the header fields: minimal integers
    Bytes h(1, (char)w.indicator);
    if (w.indicator & 1) { ref::PutVarint(&h, w.src_len); ref::PutVarint(&h, w.src_pos); }
    ref::PutVarint(&h, w.delta_len); ref::PutVarint(&h, w.target_len); h.push_back(0);
    ref::PutVarint(&h, w.data_len); ref::PutVarint(&h, w.inst_len); ref::PutVarint(&h, w.addr_len);
    if (w.has_checksum) ref::PutVarint(&h, w.checksum);
    if (body.compare(w.begin, h.size(), h)) bad("window header integers are not in minimal form", body);
  }
}
}  // namespace
namespace vp { void Setup() { AddFamilies(Strict, 3); } }
