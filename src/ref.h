// Independent reference model of the VCDIFF format (RFC 3284 plus the documented
// open-vcdiff extensions).  Deliberately naive: whole input in memory, one byte
// at a time, no shared code with the implementation.
#ifndef REF_H_
#define REF_H_
#include <stdint.h>
#include <string>
#include <vector>

namespace ref {
typedef std::string Bytes;
enum { NOOP = 0, ADD = 1, RUN = 2, COPY = 3 };

struct Table {           // inst1, inst2, size1, size2, mode1, mode2 as in RFC 7
  uint8_t f[6][256];
  Bytes Serialize() const { return Bytes((const char*)f, sizeof f); }
};
const Table& DefaultTable();    // built by the RFC 5.6 description
bool ValidTable(const Table& t, int max_mode);

struct Cache {
  int near_n, same_n, next;
  std::vector<uint32_t> nearv, samev;
  Cache(int n, int s) : near_n(n), same_n(s), next(0), nearv(n, 0), samev(s * 256, 0) {}
  int MaxMode() const { return 1 + near_n + same_n; }
  void Update(uint32_t a) {
    if (near_n) { nearv[next] = a; next = (next + 1) % near_n; }
    if (same_n) samev[a % (same_n * 256)] = a;
  }
};

struct Options {
  uint64_t max_window = 64u << 20, max_file = 64u << 20;
  bool allow_target = true;
};

enum Verdict { OK, INCOMPLETE, BAD };

struct Inst { uint8_t type, mode; uint32_t size, addr; };
struct Window {
  uint8_t indicator = 0, delta_indicator = 0;
  uint32_t src_len = 0, src_pos = 0, delta_len = 0, target_len = 0;
  uint32_t data_len = 0, inst_len = 0, addr_len = 0, checksum = 0;
  bool has_checksum = false, interleaved = false;
  size_t begin = 0, end = 0, out_begin = 0;
  std::vector<Inst> insts;
  uint64_t literal_bytes = 0;
};
struct Result {
  Verdict verdict = OK;
  const char* reason = "";
  Bytes out;               // all complete windows, plus the executed part of the last one
  size_t complete_out = 0; // bytes of out that belong to complete, verified windows
  std::vector<Window> windows;
  uint8_t version = 0, hdr = 0;
  bool header_done = false, custom = false, bad_cache_sizes = false;
  bool odd = false;        // reserved indicator bits are set (not defined by the format)
  size_t consumed = 0;
};
// planned: stop as soon as exactly this many target bytes exist (embedded code
// table); nested deltas may not carry a code table of their own.
Result Decode(const Bytes& dict, const Bytes& delta, const Options& o = Options(),
              int64_t planned = -1);
uint32_t Adler32(const char* p, size_t n);
void PutVarint(Bytes* s, uint64_t v);

// ---- construction of deltas -------------------------------------------------
struct WinSpec {
  uint8_t indicator = 0;
  uint64_t src_len = 0, src_pos = 0, target_len = 0;
  uint8_t delta_indicator = 0;
  Bytes data, inst, addr;       // interleaved: everything in inst
  bool checksum = false; uint32_t checksum_value = 0;
  int64_t delta_len_adjust = 0;
};
Bytes Header(uint8_t version, uint8_t hdr = 0);
Bytes MakeWindow(const WinSpec& w);
// Header for a custom table: cache sizes plus the table as a delta against the default.
Bytes CustomHeader(uint8_t version, const Table& t, uint64_t near_n, uint64_t same_n,
                   bool inner_s = false, bool inner_copy = true);

// Emits instructions opcode by opcode while tracking caches and position.
struct Emitter {
  const Table& t; Cache cache; bool interleaved;
  uint32_t src_len; uint32_t produced = 0;
  Bytes data, inst, addr;
  uint8_t next_byte = 'a';
  Emitter(const Table& table, int near_n, int same_n, bool il, uint32_t src)
      : t(table), cache(near_n, same_n), interleaved(il), src_len(src) {}
  uint32_t Here() const { return src_len + produced; }
  // Emits one opcode; explicit sizes and address selectors for its (up to two)
  // instructions.  Returns false if not representable (nothing usable emitted).
  bool Op(int opcode, uint32_t size1, int sel1, uint32_t size2, int sel2);
  WinSpec Spec(uint8_t indicator, uint32_t src_pos) const;
 private:
  bool One(int type, int mode, uint32_t size, bool explicit_size, int sel);
};
}  // namespace ref
#endif
