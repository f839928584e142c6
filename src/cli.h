// Runs the command-line tool in a scratch directory.
#ifndef CLI_H_
#define CLI_H_
#include <string>
#include <vector>
#include "fault.h"
#include "ref.h"
#include "vp.h"

namespace cli {
using ref::Bytes;
const std::string& Dir();                                  // this process's scratch directory
std::string Path(const std::string& name);
void Put(const std::string& name, const Bytes& b);         // writes a scratch file
bool Get(const std::string& name, Bytes* b);               // false if it does not exist
void Remove(const std::string& name);

enum In { IN_NULL, IN_FILE, IN_PIPE, IN_CLOSED };
enum Out { OUT_FILE, OUT_PIPE, OUT_CLOSED, OUT_FULL, OUT_BROKEN_PIPE };
struct Run {
  std::vector<std::string> args;
  In in = IN_NULL; Bytes in_bytes;      // IN_FILE / IN_PIPE
  Out out = OUT_FILE;
  long fsize = -1;                      // RLIMIT_FSIZE
  bool traced = false;                  // with the fault injector
  int at = -1, action = 0, arg = 0, at2 = -1, action2 = 0, arg2 = 0;
  // results
  bool ok = false;                      // exit status zero
  bool hung = false;
  int status = 0;
  Bytes stdout_bytes;
  FaultShm shm;                         // traced: what happened
};
void Go(Run* r);
std::string Show(const Run& r);
}  // namespace cli
#endif
