// Shared corpus, delta construction and drivers for the decoder-side checks.
#ifndef GEN_H_
#define GEN_H_
#include <functional>
#include <string>
#include <vector>
#include "ref.h"
#include "vp.h"

namespace gen {
using ref::Bytes;

struct Case { std::string name; Bytes dict, delta; };
// Small well-formed deltas that together use every feature of the format.
const std::vector<Case>& Corpus();

enum Fmt { V0 = 0, S_STD = 1, S_IL = 2, S_STD_SUM = 3, S_IL_SUM = 4, kFmts = 5 };
inline bool IsS(int f) { return f != V0; }
inline bool IsIL(int f) { return f == S_IL || f == S_IL_SUM; }
inline bool HasSum(int f) { return f >= S_STD_SUM; }
inline uint8_t Version(int f) { return IsS(f) ? 'S' : 0; }
const char* FmtName(int f);

// Appends a window to *delta; fills in the right checksum when the format asks
// for one (by running the reference model on the delta so far).
void AddWindow(const Bytes& dict, Bytes* delta, ref::WinSpec w, int fmt);

struct Outcome {
  bool ok = false;           // every call succeeded, including the completion call
  size_t failed_at = 0;      // index of the failing decode call + 1 (0: none)
  Bytes out;
};
extern bool g_watch_buffers;   // C05: also insist that caller's buffers stay untouched
// Feeds the delta, cut at the given (ascending) offsets, to a fresh streaming
// decoder; every chunk is an exact-size heap copy freed right after the call.
Outcome Real(const Bytes& dict, const Bytes& delta, const std::vector<size_t>& cuts,
             const ref::Options& o = ref::Options());
Outcome RealWhole(const Bytes& dict, const Bytes& delta, const ref::Options& o = ref::Options());
// chunk size n for every chunk
Outcome RealUniform(const Bytes& dict, const Bytes& delta, size_t n, const ref::Options& o = ref::Options());

// True if the real code may be run on this delta in this build: cache sizes out of
// range end the process in debug builds (pinned by the repository's own tests).
bool Runnable(const ref::Result& r);

void ForMutants(const Bytes& delta, int level, const std::function<void(const Bytes&)>& fn);

// Files of two or three windows whose lengths lie around the growth steps of a
// string buffer; later windows refer to earlier target data.  169 units.
const int kGrowthUnits = 169;
void ForGrowth(uint64_t unit, const std::function<void(const Bytes& dict, const Bytes& delta, const std::string& what)>& fn);

// Windows with one instruction of about 2^16 .. 2^25 bytes and small ones around it,
// followed by a second, small window.
const int kLargeUnits = 30 * 4;
void ForLarge(uint64_t unit, const std::function<void(const Bytes& dict, const Bytes& delta, uint32_t size, const std::string& what)>& fn);
// Very many instructions in one window, or very many windows (255..257, 65535..65537; thorough also
// 2^20+1 instructions), all opcodes in turn.  what names the case.
const int kManyUnits = 2 * 7 * 3;
void ForMany(uint64_t unit, const std::function<void(const Bytes& dict, const Bytes& delta, const std::string& what)>& fn);
Bytes Pattern(size_t n);       // deterministic, all byte values, no short period

// Custom code tables.
ref::Table MinimalTable(int near_n, int same_n);   // singles first, then odd compounds
ref::Table DoubleExplicitTable();                  // default caches, compounds with explicit sizes, NOOP-first entries
ref::Table ReversedTable();
// Files that start with a custom code table, sent in every kind of embedded delta:
// 1..6 windows x 4 ways of expressing them x 5 formats, followed by two windows.
const int kTableFormUnits = 8 * 4 * 3;
void ForTableForms(uint64_t unit, const std::function<void(const Bytes& dict, const Bytes& delta, size_t header_len, const std::string& what)>& fn);
}  // namespace gen
#endif
