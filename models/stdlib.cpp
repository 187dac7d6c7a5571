// Models of the compiled (shared library) part of libstdc++ and a few libc functions.
#include <string>
#include <vector>
#include <map>
#include <list>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <stdexcept>
#include <system_error>
#include <new>
#include <functional>
#include <pthread.h>
#include <cstring>
#include <cstdlib>

template class std::basic_string<char>;

// ---------------------------------------------------------------- exceptions
namespace {
struct Msg { void* vptr; char* msg; }; // layout used for logic_error/runtime_error (16 bytes)
inline void setmsg(void* self, char const* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; ((Msg*)self)->msg = p; }
}
extern "C" {
struct VT { void* off; void const* ti; void* d1; void* d0; void* what; };
void exc_d(void* self) __asm__("_ZNSt9exceptionD2Ev");
void exc_d(void*) {}
void exc_d1(void* self) __asm__("_ZNSt9exceptionD1Ev");
void exc_d1(void*) {}
void exc_d0(void* self) __asm__("_ZNSt9exceptionD0Ev");
void exc_d0(void* self) { operator delete(self); }
// classes with a message: constructors, copies, destructors
#define BASE(v, n, base) \
extern VT vt_##v __asm__("_ZTVSt" n); extern void* ti_##v[3] __asm__("_ZTISt" n); void* ti_##v[3] = {0, (void*)("St" n), 0}; \
char const* v##_what(void* self) __asm__("_ZNKSt" n "4whatEv"); char const* v##_what(void* self) { return ((Msg*)self)->msg; } \
FAMILY(v, n)
#define FAMILY(v, n) \
void v##_d2(void* self) __asm__("_ZNSt" n "D2Ev"); void v##_d2(void* self) { free(((Msg*)self)->msg); } \
void v##_d1(void* self) __asm__("_ZNSt" n "D1Ev"); void v##_d1(void* self) { free(((Msg*)self)->msg); } \
void v##_d0(void* self) __asm__("_ZNSt" n "D0Ev"); void v##_d0(void* self) { free(((Msg*)self)->msg); operator delete(self); } \
void v##_cs1(void* self, std::string const& s) __asm__("_ZNSt" n "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void v##_cs1(void* self, std::string const& s) { *(void**)self = &vt_##v.d1; setmsg(self, s.data(), s.size()); } \
void v##_cs2(void* self, std::string const& s) __asm__("_ZNSt" n "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void v##_cs2(void* self, std::string const& s) { *(void**)self = &vt_##v.d1; setmsg(self, s.data(), s.size()); } \
void v##_cc1(void* self, char const* s) __asm__("_ZNSt" n "C1EPKc"); void v##_cc1(void* self, char const* s) { *(void**)self = &vt_##v.d1; setmsg(self, s, strlen(s)); } \
void v##_cc2(void* self, char const* s) __asm__("_ZNSt" n "C2EPKc"); void v##_cc2(void* self, char const* s) { *(void**)self = &vt_##v.d1; setmsg(self, s, strlen(s)); } \
void v##_cp1(void* self, void const* o) __asm__("_ZNSt" n "C1ERKS_"); void v##_cp1(void* self, void const* o) { *(void**)self = &vt_##v.d1; char* m = ((Msg*)o)->msg; setmsg(self, m, strlen(m)); } \
void v##_cp2(void* self, void const* o) __asm__("_ZNSt" n "C2ERKS_"); void v##_cp2(void* self, void const* o) { *(void**)self = &vt_##v.d1; char* m = ((Msg*)o)->msg; setmsg(self, m, strlen(m)); } \
void v##_mv1(void* self, void const* o) __asm__("_ZNSt" n "C1EOS_"); void v##_mv1(void* self, void const* o) { *(void**)self = &vt_##v.d1; char* m = ((Msg*)o)->msg; setmsg(self, m, strlen(m)); } \
void v##_mv2(void* self, void const* o) __asm__("_ZNSt" n "C2EOS_"); void v##_mv2(void* self, void const* o) { *(void**)self = &vt_##v.d1; char* m = ((Msg*)o)->msg; setmsg(self, m, strlen(m)); } \
void* v##_as(void* self, void const* o) __asm__("_ZNSt" n "aSERKS_"); void* v##_as(void* self, void const* o) { if(self != o) { free(((Msg*)self)->msg); char* m = ((Msg*)o)->msg; setmsg(self, m, strlen(m)); } return self; } \
void* v##_am(void* self, void const* o) __asm__("_ZNSt" n "aSEOS_"); void* v##_am(void* self, void const* o) { if(self != o) { free(((Msg*)self)->msg); char* m = ((Msg*)o)->msg; setmsg(self, m, strlen(m)); } return self; }
#define DERIVED(v, n, w) extern VT vt_##v __asm__("_ZTVSt" n); extern void* ti_##v[3] __asm__("_ZTISt" n); void* ti_##v[3] = {0, (void*)("St" n), 0}; FAMILY(v, n) VT vt_##v{0, ti_##v, (void*)v##_d1, (void*)v##_d0, (void*)w};
BASE(rt, "13runtime_error", exc) BASE(lg, "11logic_error", exc)
VT vt_rt{0, ti_rt, (void*)rt_d1, (void*)rt_d0, (void*)rt_what};
VT vt_lg{0, ti_lg, (void*)lg_d1, (void*)lg_d0, (void*)lg_what};
DERIVED(oor, "12out_of_range", lg_what) DERIVED(inv, "16invalid_argument", lg_what) DERIVED(len, "12length_error", lg_what) DERIVED(dom, "12domain_error", lg_what)
DERIVED(rng, "11range_error", rt_what) DERIVED(ovf, "14overflow_error", rt_what) DERIVED(unf, "15underflow_error", rt_what)
// classes without one
#define PLAIN(v, n, text) extern VT vt_##v __asm__("_ZTVSt" n); extern void* ti_##v[3] __asm__("_ZTISt" n); void* ti_##v[3] = {0, (void*)("St" n), 0}; \
char const* v##_what(void* self) __asm__("_ZNKSt" n "4whatEv"); char const* v##_what(void*) { return text; } VT vt_##v{0, ti_##v, (void*)exc_d, (void*)exc_d0, (void*)v##_what};
#define PLAIND(v, n) void v##_d1(void* self) __asm__("_ZNSt" n "D1Ev"); void v##_d1(void*) {} void v##_d2(void* self) __asm__("_ZNSt" n "D2Ev"); void v##_d2(void*) {} void v##_d0(void* self) __asm__("_ZNSt" n "D0Ev"); void v##_d0(void* self) { operator delete(self); }
PLAIN(exc, "9exception", "std::exception") PLAIN(ba, "9bad_alloc", "std::bad_alloc") PLAIN(bal, "20bad_array_new_length", "std::bad_array_new_length") PLAIN(bc, "8bad_cast", "std::bad_cast") PLAIN(bti, "10bad_typeid", "std::bad_typeid") PLAIN(bf, "17bad_function_call", "bad_function_call")
PLAIND(ba, "9bad_alloc") PLAIND(bc, "8bad_cast") PLAIND(bti, "10bad_typeid") PLAIND(bf, "17bad_function_call")
extern VT vt_se __asm__("_ZTVSt12system_error"); extern void* ti_se[3] __asm__("_ZTISt12system_error"); void* ti_se[3] = {0, (void*)"St12system_error", 0};
void se_d2(void* self) __asm__("_ZNSt12system_errorD2Ev"); void se_d2(void* self) { free(((Msg*)self)->msg); }
void se_d1(void* self) __asm__("_ZNSt12system_errorD1Ev"); void se_d1(void* self) { free(((Msg*)self)->msg); }
void se_d0(void* self) __asm__("_ZNSt12system_errorD0Ev"); void se_d0(void* self) { free(((Msg*)self)->msg); operator delete(self); }
VT vt_se{0, ti_se, (void*)se_d1, (void*)se_d0, (void*)rt_what};

void* __cxa_allocate_exception(size_t) noexcept;
void __cxa_throw(void*, void*, void (*)(void*)) __attribute__((noreturn));
static void throwMsg(VT& vt, void* ti, char const* s) { Msg* m = (Msg*)__cxa_allocate_exception(sizeof(Msg)); m->vptr = &vt.d1; setmsg(m, s, strlen(s)); __cxa_throw(m, ti, rt_d1); }
static void throwPlain(VT& vt, void* ti) { Msg* m = (Msg*)__cxa_allocate_exception(sizeof(Msg)); m->vptr = &vt.d1; m->msg = 0; __cxa_throw(m, ti, exc_d); }
static void throwSystem(int);
void _msx_throw_bad_alloc() { throwPlain(vt_ba, ti_ba); }
void t1(char const*) __asm__("_ZSt20__throw_length_errorPKc"); void t1(char const* s) { throwMsg(vt_len, ti_len, s); }
void t2(char const*) __asm__("_ZSt19__throw_logic_errorPKc"); void t2(char const* s) { throwMsg(vt_lg, ti_lg, s); }
void t3(char const*, ...) __asm__("_ZSt24__throw_out_of_range_fmtPKcz"); void t3(char const* s, ...) { throwMsg(vt_oor, ti_oor, s); }
void t4(char const*) __asm__("_ZSt20__throw_out_of_rangePKc"); void t4(char const* s) { throwMsg(vt_oor, ti_oor, s); }
void t5() __asm__("_ZSt17__throw_bad_allocv"); void t5() { throwPlain(vt_ba, ti_ba); }
void t6() __asm__("_ZSt28__throw_bad_array_new_lengthv"); void t6() { throwPlain(vt_bal, ti_bal); }
void cbc() __asm__("__cxa_bad_cast"); void cbc() { throwPlain(vt_bc, ti_bc); }
void cbt() __asm__("__cxa_bad_typeid"); void cbt() { throwPlain(vt_bti, ti_bti); }
void t7() __asm__("_ZSt16__throw_bad_castv"); void t7() { throwPlain(vt_bc, ti_bc); }
void t8() __asm__("_ZSt25__throw_bad_function_callv"); void t8() { throwPlain(vt_bf, ti_bf); }
void t9(int) __asm__("_ZSt20__throw_system_errori"); void t9(int e) { throwSystem(e); }
void t10(char const*) __asm__("_ZSt24__throw_invalid_argumentPKc"); void t10(char const* s) { throwMsg(vt_inv, ti_inv, s); }
void t11(char const*) __asm__("_ZSt21__throw_runtime_errorPKc"); void t11(char const* s) { throwMsg(vt_rt, ti_rt, s); }
}

#define FUND(c) extern "C" void* ti_fund_##c[2] __asm__("_ZTI" #c); void* ti_fund_##c[2] = {0, (void*)#c};
FUND(i) FUND(v) FUND(b) FUND(c) FUND(h) FUND(a) FUND(s) FUND(t) FUND(j) FUND(l) FUND(m) FUND(x) FUND(y) FUND(d) FUND(f) FUND(PKc) FUND(Pc) FUND(Pv)
// ---------------------------------------------------------------- containers (unbalanced search tree: same observable order)
namespace std {
using NB = _Rb_tree_node_base;
NB* inc(NB* x) { if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; } NB* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; } if(x->_M_right != y) x = y; return x; }
NB* dec(NB* x) { if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if(x->_M_left) { NB* y = x->_M_left; while(y->_M_right) y = y->_M_right; return y; } NB* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
NB* _Rb_tree_increment(NB* x) throw() { return inc(x); }
NB const* _Rb_tree_increment(NB const* x) throw() { return inc(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw() { return dec(x); }
NB const* _Rb_tree_decrement(NB const* x) throw() { return dec(const_cast<NB*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if(left) { p->_M_left = x; if(p == &h) { h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if(p == h._M_right) h._M_right = x; }
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw() {
  auto replace = [&](NB* o, NB* n) { if(h._M_parent == o) h._M_parent = n; else if(o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if(n) n->_M_parent = o->_M_parent; };
  NB* nxt = h._M_left == z ? inc(z) : nullptr; NB* prv = h._M_right == z ? dec(z) : nullptr;
  bool only = h._M_parent == z && !z->_M_left && !z->_M_right;
  if(!z->_M_left) replace(z, z->_M_right);
  else if(!z->_M_right) replace(z, z->_M_left);
  else { NB* y = z->_M_right; while(y->_M_left) y = y->_M_left; if(y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if(only) { h._M_parent = 0; h._M_left = &h; h._M_right = &h; }
  else { if(nxt) h._M_left = nxt; if(prv) h._M_right = prv; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if(this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
// ---------------------------------------------------------------- threads
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
thread::_State::~_State() = default;
static void* thread_main(void* p) { std::unique_ptr<thread::_State> s((thread::_State*)p); s->_M_run(); return nullptr; }
void thread::_M_start_thread(unique_ptr<_State> s, void (*)()) { pthread_create(&_M_id._M_thread, nullptr, thread_main, s.release()); }
void thread::join() { pthread_join(_M_id._M_thread, nullptr); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
}
// ---------------------------------------------------------------- clocks, random numbers, error categories
#include <chrono>
#include <random>
#include <sys/utsname.h>
#include <sys/sysinfo.h>
#include <cerrno>
#include <exception>
#include <unordered_map>
static long msx_clock_ticks = 0;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000000000)); }
} }
void random_device::_M_init(std::string const&) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { return 0x5a; }
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
namespace { struct Cat: error_category { char const* nm; bool sys; Cat(char const* n, bool s): nm(n), sys(s) {} char const* name() const noexcept override { return nm; } string message(int i) const override { return string(strerror(i)); } error_condition default_error_condition(int i) const noexcept override; }; 
alignas(8) char cats[2][sizeof(Cat)]; bool made[2]; Cat const& cat(int i) { if(!made[i]) { made[i] = true; new(cats[i]) Cat(i ? "generic" : "system", i == 0); } return *(Cat const*)cats[i]; } }
error_category const& system_category() noexcept { return cat(0); }
error_category const& generic_category() noexcept { return cat(1); }
error_condition Cat::default_error_condition(int i) const noexcept { return error_condition(i, generic_category()); }
} }
namespace std {
nested_exception::~nested_exception() noexcept = default;
// unordered containers: the order of the elements is not specified, any hash will do; this one keeps symbolic keys out of the bucket index
size_t _Hash_bytes(void const*, size_t n, size_t) { return n; }
size_t _Fnv_hash_bytes(void const*, size_t n, size_t) { return n; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static unsigned char const fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; size_t r = 0; if(n < sizeof fast) { if(n == 0) return 1; r = fast[n]; } else for(r = n | 1;; r += 2) { bool p = true; for(size_t d = 3; d * d <= r && p; d += 2) p = r % d; if(p) break; } _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if(e + i > _M_next_resize) { size_t m = e + i; if(!_M_next_resize && m < 11) m = 11; if(m >= b) { size_t w = m + 1; if(w < 2 * b) w = 2 * b; return {true, _M_next_bkt(w)}; } _M_next_resize = b; return {false, 0}; } return {false, 0}; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { auto fix = [](_List_node_base& n, _List_node_base& was) { if(n._M_next == &was) n._M_next = n._M_prev = &n; else { n._M_next->_M_prev = &n; n._M_prev->_M_next = &n; } }; auto t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; fix(x, y); fix(y, x); }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while(t != this); }
}
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
extern "C" {
static void throwSystem(int e) { struct SE { void* vptr; char* msg; long code; void const* cat; }; auto* m = (SE*)__cxa_allocate_exception(sizeof(SE)); m->vptr = &vt_se.d1; char const* t = strerror(e); setmsg(m, t, strlen(t)); m->code = e; m->cat = &std::generic_category(); __cxa_throw(m, ti_se, se_d1); }
__attribute__((weak)) int uname(struct utsname* u) noexcept { memset(u, 0, sizeof *u); strcpy(u->nodename, "host"); return 0; }
__attribute__((weak)) int get_nprocs(void) noexcept { return 2; }
}

// one lock for all: a caller that comes while another thread runs the function waits for it
static pthread_mutex_t once_lock = PTHREAD_MUTEX_INITIALIZER;
extern "C" int pthread_once(pthread_once_t* c, void (*f)()) { pthread_mutex_lock(&once_lock); if(!*c) { try { f(); } catch(...) { pthread_mutex_unlock(&once_lock); throw; } *c = 2; } pthread_mutex_unlock(&once_lock); return 0; }
