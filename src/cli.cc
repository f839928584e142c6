#include "cli.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace cli {
const std::string& Dir() {
  static std::string d; static pid_t owner = 0;
  if (owner != getpid()) {
    const char* s = getenv("VP_SCRATCH");
    if (!s) vp::Fail("harness: no scratch directory");
    owner = getpid(); d = std::string(s) + "/w" + std::to_string(owner);
    mkdir(d.c_str(), 0700);
  }
  return d;
}
std::string Path(const std::string& n) { return Dir() + "/" + n; }
static void PutAt(const std::string& p, const Bytes& b) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t k = 0; while (fd >= 0 && k < b.size()) { ssize_t w = write(fd, b.data() + k, b.size() - k); if (w <= 0) break; k += w; }
  if (fd < 0 || k != b.size()) vp::Fail("harness: cannot write scratch file " + p);
  close(fd);
}
void Put(const std::string& n, const Bytes& b) { PutAt(Path(n), b); }
static bool ReadFd(int fd, Bytes* b) {
  b->clear(); char buf[65536]; ssize_t r;
  while ((r = read(fd, buf, sizeof buf)) > 0) b->append(buf, r);
  return r == 0;
}
bool Get(const std::string& n, Bytes* b) {
  b->clear();
  int fd = open(Path(n).c_str(), O_RDONLY);
  if (fd < 0) return false;
  ReadFd(fd, b); close(fd); return true;
}
void Remove(const std::string& n) { unlink(Path(n).c_str()); }

void Go(Run* r) {
  static const char* exe = getenv("VP_CLI"); static const char* lib = getenv("VP_FAULT_LIB");
  if (!exe || !lib) vp::Fail("harness: tool not built");
  std::string in_path = Path("_stdin"), out_path = Path("_stdout"), shm_path = Path("_shm");
  int pin[2] = {-1, -1}, pout[2] = {-1, -1};
  if (r->in == IN_FILE) PutAt(in_path, r->in_bytes);
  if (r->in == IN_PIPE) {
    if (r->in_bytes.size() > 60000 || pipe(pin)) vp::Fail("harness: pipe");
    if (write(pin[1], r->in_bytes.data(), r->in_bytes.size()) != (ssize_t)r->in_bytes.size()) vp::Fail("harness: pipe write");
    close(pin[1]);
  }
  if (r->out == OUT_PIPE || r->out == OUT_BROKEN_PIPE) { if (pipe(pout)) vp::Fail("harness: pipe"); if (r->out == OUT_BROKEN_PIPE) { close(pout[0]); pout[0] = -1; } }
  FaultShm* shm = NULL;
  if (r->traced) {
    int fd = open(shm_path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(FaultShm))) vp::Fail("harness: shm");
    shm = (FaultShm*)mmap(NULL, sizeof(FaultShm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    memset(shm, 0, sizeof *shm); shm->at = r->at; shm->action = r->action; shm->arg = r->arg; shm->at2 = r->at2; shm->action2 = r->action2; shm->arg2 = r->arg2;
  }
  std::vector<char*> av; av.push_back((char*)exe); for (auto& a : r->args) av.push_back((char*)a.c_str()); av.push_back(NULL);
  std::string e1 = "LD_PRELOAD=" + std::string(lib), e2 = "VP_FAULT_SHM=" + shm_path, e3 = "VP_FAULT_DIR=" + Dir();
  std::vector<char*> ev; ev.push_back((char*)"PATH=/usr/bin:/bin"); ev.push_back((char*)"MALLOC_PERTURB_=165");
  if (r->traced) { ev.push_back((char*)e1.c_str()); ev.push_back((char*)e2.c_str()); ev.push_back((char*)e3.c_str()); }
  ev.push_back(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 2);
    int i = nul;
    if (r->in == IN_FILE) i = open(in_path.c_str(), O_RDONLY);
    if (r->in == IN_PIPE) i = pin[0];
    if (r->in == IN_CLOSED) close(0); else dup2(i, 0);
    int o = -1;
    if (r->out == OUT_FILE) o = open(out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (r->out == OUT_PIPE || r->out == OUT_BROKEN_PIPE) o = pout[1];
    if (r->out == OUT_FULL) o = open("/dev/full", O_WRONLY);
    if (r->out == OUT_CLOSED) close(1); else dup2(o, 1);
    for (int k = 3; k < 64; k++) close(k);
    signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN);
    struct rlimit l = {20, 20}; setrlimit(RLIMIT_CPU, &l);
    if (r->fsize >= 0) { struct rlimit f = {(rlim_t)r->fsize, (rlim_t)r->fsize}; setrlimit(RLIMIT_FSIZE, &f); }
    alarm(100);
    execve(exe, av.data(), ev.data());
    _exit(120);
  }
  if (pin[0] >= 0) close(pin[0]);
  if (pout[1] >= 0) close(pout[1]);
  if (r->out == OUT_PIPE) { ReadFd(pout[0], &r->stdout_bytes); }
  if (pout[0] >= 0) close(pout[0]);
  while (waitpid(pid, &r->status, 0) < 0 && errno == EINTR) {}
  if (r->out == OUT_FILE) { int fd = open(out_path.c_str(), O_RDONLY); if (fd >= 0) { ReadFd(fd, &r->stdout_bytes); close(fd); } }
  r->ok = WIFEXITED(r->status) && WEXITSTATUS(r->status) == 0;
  r->hung = WIFSIGNALED(r->status) && (WTERMSIG(r->status) == SIGALRM || WTERMSIG(r->status) == SIGXCPU || WTERMSIG(r->status) == SIGKILL);
  if (WIFEXITED(r->status) && (WEXITSTATUS(r->status) == 120 || WEXITSTATUS(r->status) == 121 || WEXITSTATUS(r->status) == 122)) vp::Fail("harness: the tool could not be started");
  if (shm) { r->shm = *shm; munmap(shm, sizeof *shm); }
  vp::Transition(r->traced ? r->shm.events : 1);
  if (r->hung) vp::Fail("the tool does not terminate: " + Show(*r));
}
std::string Show(const Run& r) {
  std::string s = "vcdiff";
  for (auto& a : r.args) { std::string b = a; size_t p; while ((p = b.find(Dir() + "/")) != Bytes::npos) b.erase(p, Dir().size() + 1); s += " " + b; }
  static const char* in[] = {"", " <file", " <pipe", " <&-"}; static const char* out[] = {"", " |", " >&-", " >/dev/full", " |closed"};
  s += in[r.in]; if (r.in == IN_FILE || r.in == IN_PIPE) s += vp::Str("[%zu bytes]", r.in_bytes.size());
  s += out[r.out];
  if (r.fsize >= 0) s += vp::Str(" (file size limit %ld)", r.fsize);
  if (r.traced && r.at2 >= 0) s += vp::Str(" (I/O call %d also fails in way %d)", r.at2, r.action2);
  if (r.traced && r.at >= 0) s += vp::Str(" (I/O call %d: kind %c on file %c fails in way %d, %d)", r.at, r.at < FAULT_MAX ? r.shm.kind[r.at] : '?', r.at < FAULT_MAX ? r.shm.file[r.at] : '?', r.action, r.arg);
  return s + vp::Str(" -> %s", r.ok ? "status 0" : "nonzero status");
}
}  // namespace cli
