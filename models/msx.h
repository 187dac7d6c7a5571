// Interface between harnesses and the symbolic executor (and the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void msx_symbolic(void* p, size_t n, char const* name);
uint64_t msx_range(uint64_t lo, uint64_t hi, char const* name); // inclusive
void msx_assume(int c);
void msx_assert(int c, char const* msg);
void msx_fail(char const* msg);
void msx_reach(char const* label);
void msx_merge(uint64_t id);
void msx_observe(uint64_t v);
uint64_t msx_concretize(uint64_t v);
uint64_t msx_ite(int c, uint64_t a, uint64_t b);
void msx_trace(char const* s);
void msx_yield(void);
void msx_forget_locks(void); // a thread that stands for a child process is gone with everything it held
int msx_tid(void);
void msx_silent_end(void);
}
