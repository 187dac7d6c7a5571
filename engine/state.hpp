// Program state: copy-on-write memory objects, frames, threads.
#pragma once
#include "expr.hpp"
#include <map>
#include <set>

namespace llvm { class Function; class Instruction; class BasicBlock; class Type; class GlobalVariable; }

namespace msx {
struct Val { E e = nullptr; uint64_t c = 0; };
inline bool same(Val const& x, Val const& y) { return x.e == y.e && (x.e || x.c == y.c); }

template <class T> struct IPtr {
  T* p = nullptr;
  IPtr() = default;
  IPtr(T* q): p(q) { if(p) ++p->rc; }
  IPtr(IPtr const& o): p(o.p) { if(p) ++p->rc; }
  IPtr(IPtr&& o) noexcept: p(o.p) { o.p = nullptr; }
  IPtr& operator=(IPtr o) noexcept { std::swap(p, o.p); return *this; }
  ~IPtr() { if(p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
  // make exclusively owned
  T* own() { if(p->rc > 1) { T* n = new T(*p); n->rc = 0; IPtr t(n); std::swap(p, t.p); } return p; }
};

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_HEAP };
struct Obj {
  int rc = 0;
  uint64_t base = 0; uint32_t size = 0; ObjKind kind = OK_HEAP; bool ro = false; uint8_t how = 0; // how: 0 malloc,1 new,2 new[]
  std::vector<uint8_t> b;
  std::vector<E> s; // empty, or one entry per byte (null = concrete)
  mutable uint64_t h1 = 0, h2 = 0; mutable bool hv = false;
  void touch() { hv = false; }
};
struct Chunk { int rc = 0; IPtr<Obj> o[64]; };
struct Region { int rc = 0; std::vector<IPtr<Chunk>> ch; };

constexpr unsigned OFFBITS = 24, REGBITS = 20;
inline uint64_t mkaddr(unsigned region, uint64_t idx) { return (((uint64_t)region << REGBITS) | idx) << OFFBITS; }
inline unsigned regionOf(uint64_t a) { return (unsigned)(a >> (OFFBITS + REGBITS)); }
inline uint64_t idxOf(uint64_t a) { return (a >> OFFBITS) & ((1ull << REGBITS) - 1); }

struct Mem {
  std::vector<IPtr<Region>> r;
  Obj* find(uint64_t a) const {
    unsigned rg = regionOf(a); if(rg >= r.size() || !r[rg]) return nullptr;
    uint64_t i = idxOf(a); auto const& ch = r[rg]->ch;
    if((i >> 6) >= ch.size() || !ch[i >> 6]) return nullptr;
    return ch[i >> 6]->o[i & 63].p;
  }
  IPtr<Obj>& slot(unsigned rg, uint64_t i) {
    if(rg >= r.size()) r.resize(rg + 1);
    if(!r[rg]) r[rg] = IPtr<Region>(new Region);
    Region* R = r[rg].own();
    if((i >> 6) >= R->ch.size()) R->ch.resize((i >> 6) + 1);
    if(!R->ch[i >> 6]) R->ch[i >> 6] = IPtr<Chunk>(new Chunk);
    return R->ch[i >> 6].own()->o[i & 63];
  }
  Obj* wr(uint64_t a) { auto& s = slot(regionOf(a), idxOf(a)); Obj* o = s.own(); o->touch(); return o; }
};

struct FnInfo;
struct Frame {
  int rc = 0;
  FnInfo* fn = nullptr; uint32_t ip = 0;
  uint32_t stackMark = 0;
  std::vector<Val> regs;
};
enum TStat : uint8_t { T_RUN, T_COND, T_DONE };
struct Access { uint64_t a; uint32_t n; bool w; };
inline bool operator<(Access const& x, Access const& y) { return x.a != y.a ? x.a < y.a : x.n != y.n ? x.n < y.n : x.w < y.w; }
inline bool operator==(Access const& x, Access const& y) { return x.a == y.a && x.n == y.n && x.w == y.w; }
struct Thread {
  std::vector<IPtr<Frame>> fr;
  TStat st = T_RUN; bool granted = false; uint8_t stage = 0;
  bool atSync = false;  // stopped at a scheduling point with a pending operation
  int pendKind = 0; uint64_t pendA = 0, pendB = 0;
  uint32_t stackNext = 0, heapNext = 0;
  std::vector<uint32_t> freeList; // reuse mode, sorted descending
  std::vector<uint64_t> caught; uint64_t inflight = 0;
  std::vector<Access> acc; // plain accesses since the last synchronisation
  Val retv;
};
struct ExcInfo { uint64_t ti = 0, dtor = 0; int rc = 0; int handlers = 0; };
struct SyncObj { int owner = -1; int readers = 0; int count = 0; int depth = 0; };
struct Input { std::string name; std::vector<E> v; unsigned bytes; };

struct State {
  Mem mem;
  std::vector<Thread> th; int cur = 0;
  std::vector<E> pc;
  Model model;
  std::map<uint64_t, ExcInfo> exc;
  std::map<uint64_t, SyncObj> sync;
  std::vector<std::shared_ptr<Input>> inputs;
  std::map<std::string, unsigned> occ;
  std::vector<int> sched;
  std::vector<std::pair<Val, unsigned>> obs;
  std::vector<std::string> trace;
  uint64_t ctors = 0; uint64_t steps = 0; uint64_t mergeCount = 0; uint64_t depth = 0; uint64_t splitcode = 0;
  std::map<std::string, uint64_t> kv;
  std::map<uint64_t, uint64_t> tls;
};
} // namespace msx
