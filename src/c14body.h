#ifndef C14BODY_H_
#define C14BODY_H_
#include <stddef.h>
#include <stdint.h>
namespace c14 {
enum { SHARED_STD, SHARED_EXT, SHARED_JSON, SHARED_TWICE, OWN_DICT, OWN_SIMPLE, OWN_INIT, CUSTOM_TABLE, DECODE, DECODE_CUSTOM, DECODE_STREAM, DECODE_BAD, KINDS };
struct Shared { const char* dict; size_t dict_len; const char* target[4]; size_t target_len[4]; const char* delta; size_t delta_len; const char* custom; size_t custom_len; };
extern Shared g;
void MakeShared();
void DropShared();
void Put(int tid, int kind, int variant, char* out, uint32_t* len, size_t cap);
}  // namespace c14
#endif
