// Strict JSON parser and the meaning of a JSON delta (independent of the repository).
#ifndef VP_JSON_H_
#define VP_JSON_H_
#include <ctype.h>
#include <string>
#include <vector>
#include "ref.h"
#include "vp.h"
namespace json {
using ref::Bytes;
struct Item { bool str; Bytes s; uint64_t n; };
// Strict RFC 8259 parser for an array of strings and non-negative integers.
inline bool ParseJson(const Bytes& j, std::vector<Item>* out, std::string* why) {
  size_t p = 0; auto no = [&](const char* w) { *why = vp::Str("%s at byte %zu", w, p); return false; };
  auto space = [&] { while (p < j.size() && (j[p] == ' ' || j[p] == '\t' || j[p] == '\n' || j[p] == '\r')) p++; };
  space();
  if (p >= j.size() || j[p++] != '[') return no("no '['");
  bool first = true;
  for (;;) {
    space();
    if (p >= j.size()) return no("unterminated array");
    if (first && j[p] == ']') { p++; break; }
    Item it; it.str = false; it.n = 0;
    if (j[p] == '"') {
      it.str = true; p++;
      for (;;) {
        if (p >= j.size()) return no("unterminated string");
        unsigned char c = j[p++];
        if (c == '"') break;
        if (c < 0x20) return no("raw control character");
        if (c >= 0x80) return no("raw non-ASCII byte");
        if (c != '\\') { it.s.push_back((char)c); continue; }
        if (p >= j.size()) return no("unterminated escape");
        c = j[p++];
        switch (c) {
          case '"': it.s.push_back('"'); break; case '\\': it.s.push_back('\\'); break; case '/': it.s.push_back('/'); break;
          case 'b': it.s.push_back('\b'); break; case 'f': it.s.push_back('\f'); break; case 'n': it.s.push_back('\n'); break;
          case 'r': it.s.push_back('\r'); break; case 't': it.s.push_back('\t'); break;
          case 'u': {
            unsigned v = 0;
            for (int k = 0; k < 4; k++) { if (p >= j.size() || !isxdigit((unsigned char)j[p])) return no("bad \\u escape"); char h = j[p++]; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); }
            if (v > 127) return no("escape of a non-ASCII character");
            it.s.push_back((char)v); break;
          }
          default: return no("unknown escape");
        }
      }
    } else if (isdigit((unsigned char)j[p])) {
      if (j[p] == '0' && p + 1 < j.size() && isdigit((unsigned char)j[p + 1])) return no("leading zero");
      while (p < j.size() && isdigit((unsigned char)j[p])) { it.n = it.n * 10 + (j[p++] - '0'); if (it.n > 1ull << 40) return no("number too large"); }
    } else return no("unexpected character");
    out->push_back(it); first = false;
    space();
    if (p >= j.size()) return no("unterminated array");
    if (j[p] == ',') { p++; space(); if (p < j.size() && j[p] == ']') return no("trailing comma"); continue; }
    if (j[p] == ']') { p++; break; }
    return no("missing comma");
  }
  space();
  if (p != j.size()) return no("trailing data");
  return true;
}
inline bool Apply(const Bytes& dict, const std::vector<Item>& v, Bytes* out, std::string* why) {
  Bytes all = dict;
  for (size_t k = 0; k < v.size(); k++) {
    if (v[k].str) { all += v[k].s; continue; }
    if (k + 1 >= v.size() || v[k + 1].str) { *why = "offset without length"; return false; }
    uint64_t off = v[k].n, len = v[k + 1].n; k++;
    if (off >= all.size()) { *why = "offset beyond the data available"; return false; }
    for (uint64_t i = 0; i < len; i++) all.push_back(all[off + i]);
  }
  *out = all.substr(dict.size()); return true;
}
}  // namespace json
#endif
