// Encoder-side execution on the real code and the shared families of inputs.
#ifndef ENC_H_
#define ENC_H_
#include <functional>
#include <string>
#include <vector>
#include "gen.h"
#include "google/vcencoder.h"

namespace enc {
using ref::Bytes;

// Format combinations: bit 0 interleaved, bit 1 checksum, bit 2 target matching.
enum { kCombos = 8 };
inline int Flags(int combo) { return (combo & 1 ? 1 : 0) | (combo & 2 ? 2 : 0); }
inline bool TargetMatching(int combo) { return (combo & 4) != 0; }
std::string ComboName(int combo);

struct Input {
  const Bytes* dict; const open_vcdiff::HashedDictionary* hashed;
  const Bytes* target; const std::vector<size_t>* cuts;   // ascending offsets into target
  int combo;
  std::string Describe() const;
};

// A dictionary given to the library in a buffer that is overwritten and freed
// right after construction (the library must have taken a copy).
struct Dict {
  Bytes bytes; open_vcdiff::HashedDictionary* h;
  explicit Dict(const Bytes& b);
  ~Dict() { delete h; }
  Dict(const Dict&) = delete;
};

// Runs start, one encode call per chunk (exact-size buffers), completion.
// parts[0] = after start, parts[i] = after chunk i, last = after completion.
bool Encode(const open_vcdiff::HashedDictionary* h, const Bytes& target, const std::vector<size_t>& cuts,
            int flags, bool tm, Bytes* out, std::vector<size_t>* sizes = NULL);

typedef std::function<void(const Input&)> Visit;
// Adds the shared input families as spaces of the calling check.  `stride` > 1
// keeps every stride-th option combination per input (rotating), for checks
// whose per-case cost is higher.
extern bool g_ascii;   // restrict all inputs to 7-bit bytes
void AddFamilies(const Visit& v, int stride);
// Adds the space "huge": dictionaries and chunks around and beyond 2^31 and 2^32
// bytes.  Each has to be refused or to round-trip.
void AddHuge(bool sanitizer = false);   // a sanitizer build cannot allocate 4 GB

Bytes Noise(size_t n, uint32_t seed);            // incompressible, aperiodic
void Colliding(Bytes* a, Bytes* b);              // two 16-byte blocks with equal rolling hash
uint32_t BlockHash(const Bytes& b);              // independent computation
}  // namespace enc
#endif
