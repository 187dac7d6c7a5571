// C17/C18: the real process launcher against a model of the kernel's pipes and processes: any pipe or
// fork may fail, the program may or may not be launchable, its output arrives in arbitrary pieces, and
// it may end in any way.
#include "msx.h"
#include "core/exec/execve.hpp"
#include <cerrno>
#include <cstring>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <sys/wait.h>
#include <fcntl.h>
#ifndef OUT
#define OUT 3
#endif
using namespace Maike;
namespace {
enum { NFD = 40, NP = 4 };
struct Fd { uint8_t open, pipe, wr, cloexec; };
Fd msx_ghost_fd[NFD]; int msx_ghost_np; bool msx_ghost_child, msx_ghost_forked, msx_ghost_reaped;
uint8_t msx_ghost_out[2][OUT]; unsigned msx_ghost_left[2], msx_ghost_len[2];
int msx_ghost_role[3], msx_ghost_report; // the pipe the child connects to each of its standard streams; the one for the launch status
std::mutex mx; std::condition_variable cv; bool child_done;
void endChild() { std::unique_lock l{mx}; child_done = true; cv.notify_one(); while(true) cv.wait(l); }
int roleOf(int p) { for(int i = 0; i < 3; ++i) if(msx_ghost_role[i] == p) return i; return 3; }
bool msx_ghost_launch_fails; uint32_t msx_ghost_errno; int msx_ghost_status; bool msx_ghost_reports; bool msx_ghost_drains;
unsigned msx_ghost_given, msx_ghost_want;
char const* msx_ghost_exe; std::vector<std::string> const* msx_ghost_args;
int mk(bool wr, int p, bool ce) { for(int i = 3; i < NFD; ++i) if(!msx_ghost_fd[i].open) { msx_ghost_fd[i] = {1, (uint8_t)p, wr, ce}; return i; } return -1; }
bool writable(int p) { for(int i = 0; i < NFD; ++i) if(msx_ghost_fd[i].open && msx_ghost_fd[i].pipe == p && msx_ghost_fd[i].wr) return true; return false; }
int mkpipe(int* f, int fl) { if(!msx_ghost_child && msx_range(0, 1, "pipe_fails")) { errno = EMFILE; return -1; } int p = msx_ghost_np++; msx_assert(p < NP, "C18: more pipes than the model has"); f[0] = mk(false, p, (fl & O_CLOEXEC) != 0); f[1] = mk(true, p, (fl & O_CLOEXEC) != 0); return 0; }
void check(int fd) { msx_assert(fd >= 0 && fd < NFD && msx_ghost_fd[fd].open, "C18: operation on a descriptor that is not open"); }
void shared() { for(int i = 3; i < NFD; ++i) msx_assert(!msx_ghost_fd[i].open || msx_ghost_fd[i].cloexec, "C18: a program started at the same time by another worker would inherit the pipes of this one"); }
unsigned leaks() { unsigned n = 0; for(int i = 3; i < NFD; ++i) n += msx_ghost_fd[i].open; return n; }
}
extern "C" {
int msx_sys_pipe(int* f) { return mkpipe(f, 0); }
int msx_sys_pipe2(int* f, int fl) { return mkpipe(f, fl); }
int msx_sys_fork() {
  if(msx_ghost_child) return 0;
  if(msx_range(0, 1, "fork_fails")) { errno = EAGAIN; return -1; }
  msx_assert(!msx_ghost_forked, "C18: the program is started twice"); msx_ghost_forked = true; return 7; }
int msx_sys_dup2(int a, int b) { check(a); msx_assert(b >= 0 && b < NFD, "C18: bad descriptor"); msx_ghost_fd[b] = msx_ghost_fd[a]; msx_ghost_fd[b].cloexec = 0; return b; }
int msx_sys_close(int fd) { check(fd); msx_ghost_fd[fd].open = 0; return 0; }
int msx_sys_fcntl(int fd, int cmd, int a) { check(fd); if(cmd == F_SETFD) msx_ghost_fd[fd].cloexec = (a & FD_CLOEXEC) != 0; return cmd == F_GETFD ? (msx_ghost_fd[fd].cloexec ? FD_CLOEXEC : 0) : 0; }
int msx_sys_execve(char const* path, char* const* argv, char* const*) {
  msx_assert(msx_ghost_child, "C18: the calling process itself is replaced");
  msx_assert(std::string(path) == msx_ghost_exe, "C18: a program other than the given one is started");
  msx_assert(argv[0] && std::string(argv[0]) == msx_ghost_exe, "C18: the program name argument is wrong");
  size_t n = 0; for(; argv[n + 1]; ++n) msx_assert(n < msx_ghost_args->size() && std::string(argv[n + 1]) == (*msx_ghost_args)[n], "C18: the program gets other arguments than the given ones");
  msx_assert(n == msx_ghost_args->size(), "C18: arguments are missing");
  for(int i = 0; i < 3; ++i) { msx_assert(msx_ghost_fd[i].open && msx_ghost_fd[i].pipe != 255 && msx_ghost_fd[i].wr == (i != 0), "C18: a standard stream of the program is not connected"); msx_ghost_role[i] = msx_ghost_fd[i].pipe; for(int j = 0; j < i; ++j) msx_assert(msx_ghost_role[i] != msx_ghost_role[j], "C18: two standard streams of the program share a pipe"); }
  for(int i = 3; i < NFD; ++i) msx_assert(!msx_ghost_fd[i].open || msx_ghost_fd[i].cloexec, "C18: the program inherits a descriptor beside its standard streams");
  if(!msx_range(0, 1, "launch_fails")) { msx_reach("launched"); msx_observe(1); endChild(); }
  errno = (int)msx_range(1, 133, "errno"); msx_ghost_errno = (uint32_t)errno; return -1; }
void msx_sys__exit(int st) {
  msx_assert(msx_ghost_child, "C18: the calling process itself exits"); msx_assert(msx_ghost_reports, "C18: a launch failure is not reported to the parent"); msx_assert((st & 255) != 0, "C18: a child that could not launch the program exits with success"); msx_reach("not launched"); msx_observe(2); endChild(); __builtin_trap(); }
void msx_sys_exit(int st) { msx_sys__exit(st); __builtin_trap(); }
static uint8_t pattern(unsigned k) { return (uint8_t)(k * 7 + k / 251 + k / 4096); }
ssize_t msx_sys_write(int fd, void const* b, size_t n) {
  check(fd); msx_assert(msx_ghost_fd[fd].wr, "C18: write to a read end");
  if(msx_ghost_child) { if(msx_ghost_fd[fd].wr && roleOf(msx_ghost_fd[fd].pipe) == 3) { uint32_t v = 0; msx_assert(n == 4, "C18: malformed launch report"); memcpy(&v, b, 4); msx_assert(v == msx_ghost_errno, "C18: the reported launch error is wrong"); msx_ghost_reports = true; } return (ssize_t)n; }
  msx_assert(roleOf(msx_ghost_fd[fd].pipe) == 0, "C18: the parent writes to an output stream");
  bool same = true; for(size_t i = 0; i < n; ++i) same &= ((uint8_t const*)b)[i] == pattern(msx_ghost_given + i); msx_assert(same, "C18: the program is given other input than provided");
  msx_ghost_given += (unsigned)n; return (ssize_t)n; }
ssize_t msx_sys_read(int fd, void* b, size_t n) {
  check(fd); int const p = msx_ghost_fd[fd].pipe; msx_assert(!msx_ghost_fd[fd].wr && !msx_ghost_child, "C18: read from a write end");
  int const ro = roleOf(p); if(ro == 3) { msx_assert(!writable(p), "C18: waits for the launch report while holding its write end"); if(!msx_ghost_launch_fails) return 0; msx_assert(n >= 4, "C18: short read of the launch report"); memcpy(b, &msx_ghost_errno, 4); return 4; }
  msx_assert(ro == 1 || ro == 2, "C18: reads from the wrong pipe");
  shared(); unsigned& left = msx_ghost_left[ro - 1];
  if(left == 0 || n == 0) { msx_assert(n == 0 || !writable(p), "C18: waits for the end of a stream while holding its write end"); return 0; }
  unsigned const k = (unsigned)msx_concretize(msx_range(1, left < n ? left : n, "piece"));
  memcpy(b, msx_ghost_out[ro - 1] + (msx_ghost_len[ro - 1] - left), k); left -= k; return k; }
int msx_sys_waitpid(int pid, int* st, int) {
  msx_assert(pid == 7 && !msx_ghost_reaped, "C18: waits for a process that was not started"); msx_ghost_reaped = true; shared();
  msx_assert(!msx_ghost_drains || !writable(msx_ghost_role[0]), "C18: waits for a program that reads its input to the end while keeping that input open");
  *st = msx_ghost_status; return pid; }
void* msx_sys_signal(int, void*) { return nullptr; }
char* msx_environ_[] = {nullptr};
}
static void fds() { for(auto& f : msx_ghost_fd) f = {0, 255, 0, 0}; for(int i = 0; i < 3; ++i) msx_ghost_fd[i] = {1, 255, (uint8_t)(i != 0), 0}; msx_ghost_np = 0; msx_ghost_forked = msx_ghost_reaped = msx_ghost_reports = false; msx_ghost_given = 0; }
// The child's side is followed first, in a thread of its own that ends where the program would take
// over: this tells which pipe carries which stream. The parent's side is then run against that.
static void setup(fs::path const& exe, std::vector<std::string> const& args) {
  fds(); msx_ghost_exe = exe.c_str(); msx_ghost_args = &args; msx_ghost_child = true; child_done = false; for(auto& r : msx_ghost_role) r = -1;
  new std::thread{[&exe, &args]() { try { Exec::execve(exe, args); } catch(...) {} msx_fail("C18: the child process continues in the caller"); }};
  { std::unique_lock l{mx}; while(!child_done) cv.wait(l); }
  msx_forget_locks(); msx_ghost_child = false; fds();
  uint16_t st; msx_symbolic(&st, 2, "status"); msx_assume((st & 0x7f) != 0x7f && ((st & 0x7f) == 0 ? (st & 0x80) == 0 : (st >> 8) == 0)); msx_ghost_status = st;
  for(int k = 0; k < 2; ++k) { msx_symbolic(msx_ghost_out[k], OUT, "output"); msx_ghost_len[k] = msx_ghost_left[k] = (unsigned)msx_concretize(msx_range(0, OUT, "size")); }
  msx_ghost_launch_fails = msx_range(0, 1, "parent_sees_failure") != 0; msx_ghost_errno = (uint32_t)msx_range(1, 133, "errno_seen"); msx_ghost_drains = msx_range(0, 1, "drains") != 0;
}
extern "C" void harness_exec() {
  fs::path const exe{"prog"}; std::vector<std::string> args{"a b", "", "c"}; args.resize((size_t)msx_concretize(msx_range(0, 3, "nargs"))); setup(exe, args);
  bool threw = false, ran = false; 
  try {
    auto const r = Exec::execve(exe, args); ran = true;
    msx_assert(msx_ghost_forked && !msx_ghost_launch_fails, "C18: a program that was not launched is reported to have run"); msx_assert(msx_ghost_reaped, "C18: the result is returned before the program has ended");
    msx_assert(r.stdout().size() == msx_ghost_len[0] && r.stderr().size() == msx_ghost_len[1], "C18: captured output has the wrong length");
    for(int k = 0; k < 2; ++k) for(unsigned i = 0; i < msx_ghost_len[k]; ++i) msx_assert((uint8_t)(k ? r.stderr() : r.stdout())[i] == msx_ghost_out[k][i], "C18: captured output differs from what the program wrote");
    bool const exited = WIFEXITED(msx_ghost_status);
    msx_assert(failed(r) == (msx_ghost_status != 0), "C17: success is reported for a program that failed, or failure for one that succeeded");
    msx_assert(failed(r.exitStatus()) == (msx_ghost_status != 0), "C17: success is reported for a program that failed, or failure for one that succeeded");
    msx_assert(r.exitStatus().returnedFromMain() == exited, "C17: a killed program is taken for one that returned, or the converse");
    msx_assert(!exited || r.exitStatus().returnCode() == WEXITSTATUS(msx_ghost_status), "C17: wrong exit code"); msx_assert(exited || r.exitStatus().signo() == WTERMSIG(msx_ghost_status), "C17: wrong signal number");
    msx_reach("ran");
  } catch(std::exception const&) { threw = true; } catch(char const*) { threw = true; }
  msx_assert(leaks() == 0, "C18: descriptors are leaked");
  msx_observe(threw); if(threw) msx_reach("error"); (void)ran;
}
namespace { struct Feed { unsigned n; unsigned given = 0; unsigned got[2] = {0, 0};
  size_t operator()(std::byte* b, size_t cap, Io::Redirector::StdIn) { size_t k = 0; for(; k < cap && given < n; ++k, ++given) b[k] = (std::byte)pattern(given); return k; }
  size_t operator()(std::byte const*, size_t k, Io::Redirector::StdOut) { got[0] += (unsigned)k; return k; }
  size_t operator()(std::byte const*, size_t k, Io::Redirector::StdErr) { got[1] += (unsigned)k; return k; } }; }
extern "C" void harness_exec_input() { // a program that is fed from memory
  fs::path const exe{"prog"}; std::vector<std::string> args; setup(exe, args); unsigned const sizes[] = {0, 1, 3, 4095, 4096, 4097, 8192, 8200}; Feed f{sizes[msx_concretize(msx_range(0, 7, "input"))]};
  try { auto const r = Exec::execve(exe, args, f); msx_assert(msx_ghost_given == f.n, "C18: the program is not given all its input"); msx_assert(f.got[0] == msx_ghost_len[0] && f.got[1] == msx_ghost_len[1], "C18: captured output has the wrong length"); msx_assert(failed(r) == (msx_ghost_status != 0), "C17: success is reported for a program that failed, or failure for one that succeeded"); msx_reach("ran"); } catch(std::exception const&) { msx_observe(3); } catch(char const*) { msx_observe(4); }
  msx_assert(leaks() == 0, "C18: descriptors are leaked"); }
