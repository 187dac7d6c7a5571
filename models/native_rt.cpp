// Native replay runtime: the harness interface implemented over a file with the solver's assignment
// (MSX_REPLAY), plus - for multi-threaded harnesses - a cooperative scheduler that follows the
// recorded schedule.
#include "msx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <exception>
namespace {
struct In { std::string name; unsigned bytes; std::vector<unsigned long long> v; };
std::vector<In> ins; std::vector<int> sched; size_t ni = 0, ns = 0; bool loaded = false;
void load() {
  if(loaded) return; loaded = true; FILE* f = fopen(getenv("MSX_REPLAY") ? getenv("MSX_REPLAY") : "/dev/null", "r"); if(!f) { fprintf(stderr, "no replay file\n"); _exit(78); }
  char tag[4];
  while(fscanf(f, "%3s", tag) == 1) {
    if(tag[0] == 'i') { In x; char nm[128]; int n; if(fscanf(f, "%127s %u %d", nm, &x.bytes, &n) != 3) break; x.name = nm; for(int i = 0; i < n; ++i) { unsigned long long v; if(fscanf(f, "%llu", &v) != 1) break; x.v.push_back(v); } ins.push_back(x); }
    else if(tag[0] == 's') { int n; if(fscanf(f, "%d", &n) != 1) break; for(int i = 0; i < n; ++i) { int v; if(fscanf(f, "%d", &v) != 1) break; sched.push_back(v); } }
  }
  fclose(f);
}
void diverged(char const* w) { printf("REPLAY-DIVERGED %s\n", w); fflush(stdout); _exit(77); }
In& next(char const* name) { load(); if(ni >= ins.size()) diverged("more inputs requested than recorded"); In& x = ins[ni++]; if(x.name != name) diverged("input order"); return x; }
}
extern "C" {
void msx_symbolic(void* p, size_t n, char const* name) { In& x = next(name); if(x.v.size() != n) diverged("input size"); for(size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)x.v[i]; }
uint64_t msx_range(uint64_t, uint64_t, char const* name) { return next(name).v.at(0); }
void msx_assume(int c) { if(!c) diverged("assumption"); }
void msx_assert(int c, char const* msg) { if(!c) { printf("REPLAY-VIOLATION %s\n", msg); fflush(stdout); _exit(101); } }
void msx_fail(char const* msg) { printf("REPLAY-VIOLATION %s\n", msg); fflush(stdout); _exit(101); }
void msx_reach(char const* l) { printf("REACH %s\n", l); }
void msx_merge(uint64_t) {}
void msx_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
uint64_t msx_concretize(uint64_t v) { return v; }
uint64_t msx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void msx_trace(char const* s) { printf("TRACE %s\n", s); }
void msx_silent_end(void) { printf("END\n"); fflush(stdout); _exit(0); }
int msx_unmodelled_regex(void) { diverged("regular expression"); return 0; }
}
#ifndef MSX_THREADS
extern "C" { void msx_yield(void) {} int msx_tid(void) { return 0; } }
#else
#include <semaphore.h>
#include <pthread.h>
#include <dlfcn.h>
#include <map>
namespace {
enum { P_START = 1, P_LOCK, P_UNLOCK, P_JOIN, P_SIGNAL, P_WAIT, P_RD, P_WR, P_RWUN, P_ATOMIC, P_YIELD };
enum St { RUN, COND, DONE };
struct T { sem_t s; St st = RUN; int kind = 0; void* a = nullptr; void* b = nullptr; long j = 0; bool sync = false; pthread_t real; void* (*fn)(void*); void* arg; };
struct So { int owner = -1; int readers = 0; int depth = 0; };
T* th[64]; int nt = 0; int cur = 0; std::map<void*, So> so; thread_local int me = -1; bool on = false;
void start() { if(on) return; on = true; load(); th[0] = new T; sem_init(&th[0]->s, 0, 0); nt = 1; me = 0; cur = 0; }
bool enabled(int i) { T& t = *th[i]; if(t.st != RUN || !t.sync) return false; switch(t.kind) { case P_LOCK: case P_RD: return so[t.a].owner < 0; case P_WR: return so[t.a].owner < 0 && so[t.a].readers == 0; case P_JOIN: return th[t.j]->st == DONE; default: return true; } }
bool others() { for(int i = 0; i < nt; ++i) if(i != me && th[i]->st != DONE) return true; return false; }
// pick the next thread to run
int pick() {
  bool any = false; for(int i = 0; i < nt; ++i) if(enabled(i)) any = true;
  if(!any) { bool all = true; for(int i = 0; i < nt; ++i) if(th[i]->st != DONE) all = false; if(all) return -1; printf("REPLAY-VIOLATION deadlock: no thread can make progress\n"); fflush(stdout); _exit(101); }
  if(ns >= sched.size()) { // past the recorded prefix: first enabled
    for(int i = 0; i < nt; ++i) if(enabled(i)) return i; }
  int c = sched[ns++]; if(c >= nt || !enabled(c)) diverged("schedule"); return c;
}
void give(int c, bool wait) { cur = c; if(c == me) { th[me]->sync = false; return; } sem_post(&th[c]->s); if(wait) { sem_wait(&th[me]->s); th[me]->sync = false; } }
void point(int kind, void* a, void* b, long j = 0) { T& t = *th[me]; t.sync = true; t.kind = kind; t.a = a; t.b = b; t.j = j; if(!others() && enabled(me)) { t.sync = false; return; } give(pick(), true); }
void* tramp(void* p) { T* t = (T*)p; for(int i = 0; i < nt; ++i) if(th[i] == t) me = i; sem_wait(&t->s); t->sync = false; t->fn(t->arg); t->st = DONE; t->sync = false; int c = pick(); if(c >= 0) { cur = c; sem_post(&th[c]->s); } return nullptr; }
template <class F> F real(char const* n) { return (F)dlsym(RTLD_NEXT, n); }
bool unlockPoints() { static bool v = !getenv("MSX_NORACE"); return v; } // only needed to detect races
bool active() { return on && me >= 0; }
}
namespace { bool held(void* m) { auto i = so.find(m); return i != so.end() && (i->second.owner >= 0 || i->second.readers); } }
extern "C" char __executable_start, etext;
// locks taken inside of the run-time library itself are not part of the program
#define OURS ((char*)__builtin_return_address(0) >= &__executable_start && (char*)__builtin_return_address(0) < &etext)
extern "C" {
void msx_forget_locks(void) { so.clear(); }
void msx_thread_begin() { start(); }
void msx_yield(void) { if(active() && nt > 1) point(P_YIELD, nullptr, nullptr); }
int msx_tid(void) { return me < 0 ? 0 : me; }
int pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*fn)(void*), void* arg) { if(!active()) return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(id, at, fn, arg);
  int k = nt; th[k] = new T; sem_init(&th[k]->s, 0, 0); th[k]->fn = fn; th[k]->arg = arg; th[k]->sync = true; th[k]->kind = P_START; ++nt; real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(&th[k]->real, at, tramp, th[k]); *id = (pthread_t)(k + 1); return 0; }
int pthread_join(pthread_t id, void** r) { if(!active()) return real<int (*)(pthread_t, void**)>("pthread_join")(id, r); long k = (long)id - 1; point(P_JOIN, nullptr, nullptr, k); return real<int (*)(pthread_t, void**)>("pthread_join")(th[k]->real, nullptr); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if(!active() || !OURS) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } if(so[m].owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++so[m].depth; return 0; } point(P_LOCK, m, nullptr); so[m].owner = me; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if(!active() || !(OURS || held(m))) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } if(so[m].owner == me && so[m].depth) { --so[m].depth; return 0; } if(nt > 1 && unlockPoints()) point(P_UNLOCK, m, nullptr); if(so[m].owner != me) { msx_fail("unlock of a mutex not held by this thread"); } so[m].owner = -1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if(!active() || !OURS) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); } point(P_ATOMIC, m, nullptr); if(so[m].owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++so[m].depth; return 0; } if(so[m].owner >= 0) return 16; so[m].owner = me; return 0; }
static pthread_mutex_t once_lock = PTHREAD_MUTEX_INITIALIZER; // as in models/stdlib.cpp
int pthread_once(pthread_once_t* c, void (*f)()) { if(!active() || !OURS) { static auto g = real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return g(c, f); } pthread_mutex_lock(&once_lock); if(!*c) { try { f(); } catch(...) { pthread_mutex_unlock(&once_lock); throw; } *c = 2; } pthread_mutex_unlock(&once_lock); return 0; }
int sched_yield(void) noexcept { msx_yield(); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if(!active() || !OURS) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); } point(P_RD, m, nullptr); so[m].readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if(!active() || !OURS) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); } point(P_WR, m, nullptr); so[m].owner = me; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if(!active() || !(OURS || held(m))) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); } if(nt > 1 && unlockPoints()) point(P_RWUN, m, nullptr); if(so[m].owner == me) so[m].owner = -1; else so[m].readers--; return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(!active()) return real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m);
  point(P_WAIT, c, m); if(so[m].owner != me) msx_fail("condition wait without holding the mutex"); so[m].owner = -1; th[me]->st = COND; th[me]->a = c; th[me]->b = m; { int k = pick(); cur = k; if(k != me) { sem_post(&th[k]->s); sem_wait(&th[me]->s); } th[me]->sync = false; } so[m].owner = me; return 0; }
static void wake(int i) { T& t = *th[i]; t.st = RUN; t.sync = true; t.kind = P_LOCK; t.a = t.b; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if(!active()) return real<int (*)(pthread_cond_t*)>("pthread_cond_signal")(c); point(P_SIGNAL, c, nullptr); std::vector<int> w; for(int i = 0; i < nt; ++i) if(th[i]->st == COND && th[i]->a == c) w.push_back(i); if(w.empty()) return 0; int k = w[0]; if(w.size() > 1 && ns < sched.size()) { k = sched[ns++] - 1000; } wake(k); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if(!active()) return real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast")(c); point(P_SIGNAL, c, nullptr); for(int i = 0; i < nt; ++i) if(th[i]->st == COND && th[i]->a == c) wake(i); return 0; }
}
// Atomic operations of the code under test are compiled into these calls (clang -fsanitize=thread,
// atomics only), so that they are schedule points natively exactly where they are in the engine.
namespace { inline void at(void volatile* p) { if(active() && nt > 1) point(P_ATOMIC, (void*)p, nullptr); } }
#define ATOMICS(N, T) \
extern "C" T __tsan_atomic##N##_load(const volatile T* a, int) { at((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
extern "C" void __tsan_atomic##N##_store(volatile T* a, T v, int) { at(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { at(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { at(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { at(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { at(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { at(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { at(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { at(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { at(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { at(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
extern "C" { void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {} void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {} }
#endif
extern "C" void MSX_ENTRY();
int main() {
#ifdef MSX_THREADS
  msx_thread_begin();
#endif
  try { MSX_ENTRY(); } catch(std::exception const& e) { printf("REPLAY-VIOLATION uncaught exception: %s\n", e.what()); fflush(stdout); _exit(101); } catch(...) { printf("REPLAY-VIOLATION uncaught exception\n"); fflush(stdout); _exit(101); }
  printf("END\n"); fflush(stdout); _exit(0);
}
