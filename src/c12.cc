// C12: variable-length integers.
#include "vp.h"
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "google/output_string.h"
#include "varint_bigendian.h"
#include "vcdiff_defs.h"
using open_vcdiff::VarintBE;
typedef __int128 wide;

namespace {
// The last byte before an inaccessible page.
char* End() {
  static char* e = NULL;
  if (!e) {
    char* p = (char*)mmap(NULL, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) vp::Fail("mmap");
    mprotect(p, 4096, PROT_NONE); mprotect(p + 2 * 4096, 4096, PROT_NONE);
    e = p + 2 * 4096;
  }
  return e;
}
int RefEncode(uint64_t v, unsigned char* out) {   // minimal base-128 big-endian
  int n = 1;
  for (uint64_t x = v; x >= 128; x /= 128) n++;
  for (int i = n - 1; i >= 0; i--) { out[i] = (unsigned char)(v % 128 + (i + 1 < n ? 128 : 0)); v /= 128; }
  return n;
}
std::string H(const char* p, int n) { return vp::Hex(std::string(p, n)); }
template <class T> void Value(T v, bool strings) {
  unsigned char want[10]; int n = RefEncode((uint64_t)v, want);
  char* e = End(); char* p = e - n;
  memset(e - 24, 0xEE, 24);
  int len = VarintBE<T>::Encode(v, p);
  if (len != n || memcmp(p, want, n)) vp::Fail(vp::Str("Encode(%lld) writes %d bytes ", (long long)v, len) + H(p, n) + ", expected " + H((char*)want, n));
  uint64_t guard; memcpy(&guard, p - 8, 8);
  if (guard != 0xEEEEEEEEEEEEEEEEull) vp::Fail(vp::Str("Encode(%lld) writes before its buffer", (long long)v));
  if (VarintBE<T>::Length(v) != n) vp::Fail(vp::Str("Length(%lld) = %d, expected %d", (long long)v, VarintBE<T>::Length(v), n));
  const char* q = p;
  T got = VarintBE<T>::Parse(e, &q);
  if (got != v || q != e) vp::Fail(vp::Str("Parse of the encoding of %lld returns %lld, position +%d of %d", (long long)v, (long long)got, (int)(q - p), n));
  if (strings) {
    std::string s = "ab", o = "cd"; open_vcdiff::OutputString<std::string> os(&o);
    VarintBE<T>::AppendToString(v, &s); VarintBE<T>::AppendToOutputString(v, &os);
    std::string w((char*)want, n);
    if (s != "ab" + w || o != "cd" + w) vp::Fail(vp::Str("AppendToString/AppendToOutputString(%lld) wrong", (long long)v));
    // followed by other data, and cut short
    char buf[24]; memcpy(buf, want, n); buf[n] = 0x15; buf[n + 1] = (char)0x95;
    q = buf; got = VarintBE<T>::Parse(buf + n + 2, &q);
    if (got != v || q != buf + n) vp::Fail(vp::Str("Parse of %lld followed by other bytes wrong", (long long)v));
    for (int k = 0; k < n; k++) {
      char* b = e - k; memcpy(b, want, k); q = b; got = VarintBE<T>::Parse(e, &q);
      if (got != open_vcdiff::RESULT_END_OF_DATA || q != b) vp::Fail(vp::Str("Parse of the first %d bytes of %lld returns %lld", k, (long long)v, (long long)got));
    }
  }
}
template <class T> void String(const unsigned char* s, int n, wide max) {
  char* e = End(); char* p = e - n; memcpy(p, s, n);
  wide v = 0; int used = -1; bool over = false;
  for (int i = 0; i < n; i++) {
    v += s[i] & 0x7f;
    if (!(s[i] & 0x80)) { used = i + 1; break; }
    v *= 128;
    if (v > max) { over = true; break; }      // whatever follows, the value cannot fit
  }
  const char* q = p;
  T got = VarintBE<T>::Parse(e, &q);
  wide want = over ? open_vcdiff::RESULT_ERROR : used < 0 ? open_vcdiff::RESULT_END_OF_DATA : v;
  int adv = (over || used < 0) ? 0 : used;
  if ((wide)got != want || q - p != adv)
    vp::Fail(vp::Str("Parse<%d bits>(", (int)sizeof(T) * 8) + H(p, n) + vp::Str(") returns %lld and advances %d; expected %lld and %d", (long long)got, (int)(q - p), (long long)want, adv));
}
const wide kMax32 = 0x7fffffff; const wide kMax64 = 0x7fffffffffffffffll;
}  // namespace

namespace vp {
void Setup() {
  AddSpace("all-32-bit-values", 2048, [](uint64_t u) {
    uint64_t per = 1u << 20;
    for (uint64_t v = u * per; v < (u + 1) * per; v++) Value<int32_t>((int32_t)v, false);
    for (uint64_t v = u * per; v < u * per + 400; v++) Value<int32_t>((int32_t)v, true);
    for (uint64_t v = (u + 1) * per - 400; v < (u + 1) * per; v++) Value<int32_t>((int32_t)v, true);
    State(per); Trace(per); Transition(3 * per);
  }, "every value 0..2^31-1: encoding bytes, length, parse, position, no write before or after the encoding");
  AddSpace("32-bit-strings", 64, [](uint64_t u) {
    unsigned char s[16];
    for (int a = (int)(u * 4); a < (int)(u * 4 + 4); a++) for (int b = 0; b < 256; b++) for (int c = 0; c < 256; c++) {
      s[0] = a; s[1] = b; s[2] = c; String<int32_t>(s, 3, kMax32); String<int64_t>(s, 3, kMax64);
      if (c == 0) { String<int32_t>(s, 2, kMax32); String<int64_t>(s, 2, kMax64); if (b == 0) { String<int32_t>(s, 1, kMax32); String<int64_t>(s, 1, kMax64); } }
    }
    State(4 * 65536 * 2); Trace(4 * 65536 * 2); Transition(4 * 65536 * 2);
    if (u == 0) { const char* q = (char*)s; VP_CHECK(VarintBE<int32_t>::Parse(NULL, &q) == open_vcdiff::RESULT_ERROR && q == (char*)s, "Parse with NULL limit");
                  String<int32_t>(s, 0, kMax32); String<int64_t>(s, 0, kMax64); }
  }, "every byte string of length 0..3");
  AddSpace("long-strings", 1000, [](uint64_t u) {
    static const unsigned char A[] = {0x00, 0x01, 0x07, 0x08, 0x7f, 0x80, 0x81, 0x87, 0x88, 0xff};
    unsigned char s[24]; s[0] = A[u % 10]; s[1] = A[u / 10 % 10]; s[2] = A[u / 100];
    for (int k = 0; k < 1000; k++) {
      s[3] = A[k % 10]; s[4] = A[k / 10 % 10]; s[5] = A[k / 100];
      for (int n = 4; n <= 6; n++) { String<int32_t>(s, n, kMax32); String<int64_t>(s, n, kMax64); }
      // with leading zero groups
      unsigned char z[40];
      for (int pad = 1; pad <= 12; pad += (k % 7 == 0 ? 1 : 5)) { memset(z, 0x80, pad); memcpy(z + pad, s, 6); String<int32_t>(z, pad + 6, kMax32); String<int64_t>(z, pad + 6, kMax64); }
    }
    State(3000); Trace(6000); Transition(6000);
  }, "all strings of 4..6 bytes over 10 boundary byte values, with 0..12 leading zero groups");
  AddSpace("64-bit-strings", 216, [](uint64_t u) {
    static const unsigned char A[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff};
    unsigned char s[12]; s[0] = A[u % 6]; s[1] = A[u / 6 % 6]; s[2] = A[u / 36];
    for (int k = 0; k < 279936; k++) {
      int x = k; for (int i = 3; i < 10; i++) { s[i] = A[x % 6]; x /= 6; }
      String<int64_t>(s, 10, kMax64); String<int64_t>(s, 9, kMax64); String<int32_t>(s, 10, kMax32);
    }
    State(279936); Trace(3 * 279936); Transition(3 * 279936);
  }, "all strings of 9 and 10 bytes over 6 boundary byte values");
  AddSpace("64-bit-values", 64, [](uint64_t u) {
    // every value made of 9 groups from {0,1,0x40,0x7f}; neighbourhoods of the powers of two
    for (uint64_t k = u; k < 262144; k += 64) {
      static const uint64_t G[] = {0, 1, 0x40, 0x7f};
      uint64_t v = 0, x = k; for (int i = 0; i < 9; i++) { v = v << 7 | G[x % 4]; x /= 4; }
      Value<int64_t>((int64_t)v, true);
    }
    if (u < 63) for (int d = -3000; d <= 3000; d++) {
      wide v = ((wide)1 << u) + d; if (v >= 0 && v <= kMax64) Value<int64_t>((int64_t)v, true);
    }
    for (int d = 0; d < 3000; d++) Value<int64_t>((int64_t)(kMax64 - d), true);
    if (Thorough()) for (uint64_t v = u << 26; v < (u + 1) << 26; v++) Value<int64_t>((int64_t)v, false);
    State(4096 + 9000); Trace(4096 + 9000); Transition(5 * 13000);
  }, "64-bit values: all 4^9 group patterns, +-3000 around every power of two and below 2^63 (thorough: also all values below 2^32)");
}
}  // namespace vp
