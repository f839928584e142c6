#ifndef FAULT_H_
#define FAULT_H_
#define FAULT_MAX 8192
enum { F_NONE, F_EIO, F_ENOSPC, F_EINTR, F_SHORT, F_SHORT_THEN_BROKEN, F_BROKEN, F_EOF, F_FLIP, F_SWAP, F_DRIP };   // F_SWAP: just before an open, the file "alt" of the scratch directory takes its place
struct FaultShm {
  int armed, at, action, arg;      // event number to fail, how, extra
  int at2, action2, arg2;          // a second fault
  int events, hits;
  char kind[FAULT_MAX];            // o open, r read, w write, s seek, c close
  char file[FAULT_MAX];            // first letter of the file name; i stdin, o stdout
  int ret[FAULT_MAX];              // result of the call
  int nth[FAULT_MAX];              // how many times that file had been opened before
};
#endif
