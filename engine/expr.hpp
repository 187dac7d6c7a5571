// Hash-consed bit-vector expressions with simplification, intervals, evaluation
// and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <memory>
#include <algorithm>
#include <cassert>
#include <deque>

namespace msx {
enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT
};

using VarSet = std::vector<uint32_t>;

struct Expr {
  Op op;
  uint8_t w;        // width in bits (1..64)
  bool ctree;       // tree of ITEs over constant leaves
  uint16_t csize;   // leaves in the ctree
  uint32_t id;
  uint64_t c;       // constant / var index / extract offset
  Expr* a; Expr* b; Expr* d;
  uint64_t lo, hi;  // unsigned interval
  // evaluation memo
  mutable uint64_t egen = 0; mutable uint64_t ev = 0;
  mutable void* z = nullptr; mutable uint64_t zgen = 0;
  mutable std::shared_ptr<VarSet> vs;
};
using E = Expr*;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
  if(w >= 64) return (int64_t)v;
  uint64_t s = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ s) - s);
}

struct VarInfo { std::string name; unsigned w; uint64_t lo, hi; };
using Model = std::vector<uint64_t>;

struct Ctx {
  std::deque<Expr> pool;
  struct H { size_t operator()(E e) const {
    uint64_t h = e->op * 1000003ull + e->w;
    h = h * 0x9E3779B97F4A7C15ull ^ e->c; h ^= h >> 29;
    h = h * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)e->a; h ^= h >> 31;
    h = h * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)e->b; h ^= h >> 31;
    h = h * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)e->d; h ^= h >> 31;
    return h; } };
  struct Q { bool operator()(E x, E y) const {
    return x->op == y->op && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
  std::unordered_set<E, H, Q> tab;
  std::vector<VarInfo> vars;
  std::vector<E> varExpr;
  uint64_t gen = 0;

  E mk(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
    Expr t{}; t.op = op; t.w = (uint8_t)w; t.c = c; t.a = a; t.b = b; t.d = d;
    auto it = tab.find(&t);
    if(it != tab.end()) return *it;
    t.id = (uint32_t)pool.size();
    t.lo = 0; t.hi = maskw(w);
    pool.push_back(t);
    E e = &pool.back();
    interval(e);
    if(op == ITE) {
      bool ca = a->op == CONST || a->ctree; (void)ca;
      bool cb = b->op == CONST || b->ctree, cd = d->op == CONST || d->ctree;
      if(cb && cd) { unsigned n = (b->ctree ? b->csize : 1) + (d->ctree ? d->csize : 1);
        if(n <= 64) { e->ctree = true; e->csize = (uint16_t)n; } }
    }
    tab.insert(e);
    return e;
  }
  void interval(E e) {
    E a = e->a, b = e->b, d = e->d; uint64_t m = maskw(e->w);
    switch(e->op) {
      case CONST: e->lo = e->hi = e->c; break;
      case VAR: e->lo = vars[e->c].lo; e->hi = vars[e->c].hi; break;
      case ADD: if(a->hi <= m - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
        else if(b->op == CONST && a->lo >= ((0 - b->c) & m) && b->c != 0) { // subtraction of a constant
          uint64_t k = (0 - b->c) & m; e->lo = a->lo - k; e->hi = a->hi - k; }
        break;
      case SUB: if(a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
      case MUL: { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if(p <= m) { e->lo = a->lo * b->lo; e->hi = (uint64_t)p; } break; }
      case UDIV: if(b->op == CONST && b->c) { e->lo = a->lo / b->c; e->hi = a->hi / b->c; } break;
      case UREM: if(b->op == CONST && b->c) { e->lo = 0; e->hi = std::min(a->hi, b->c - 1); } break;
      case AND: e->lo = 0; e->hi = std::min(a->hi, b->hi); break;
      case OR: { e->lo = std::max(a->lo, b->lo); uint64_t x = a->hi | b->hi; int s = x ? 64 - __builtin_clzll(x) : 0; e->hi = maskw(s ? s : 1) & m; if(!x) e->hi = 0; break; }
      case XOR: { e->lo = 0; uint64_t x = a->hi | b->hi; int s = x ? 64 - __builtin_clzll(x) : 0; e->hi = (s ? maskw(s) : 0) & m; break; }
      case SHL: if(b->op == CONST && b->c < e->w && a->hi <= (m >> b->c)) { e->lo = a->lo << b->c; e->hi = a->hi << b->c; } break;
      case LSHR: if(b->op == CONST && b->c < e->w) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } else { e->lo = 0; e->hi = a->hi; } break;
      case ITE: e->lo = std::min(b->lo, d->lo); e->hi = std::max(b->hi, d->hi); break;
      case CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi;
        if(a->lo != a->hi) { e->lo = a->lo << b->w; e->hi = (a->hi << b->w) | b->hi;
          if(false) {} }
        // lower part is between b->lo and b->hi for each value of the upper one
        e->lo = (a->lo << b->w) + b->lo; e->hi = (a->hi << b->w) + b->hi; break;
      case EXTRACT: if((a->hi >> e->c) <= m && (a->hi >> e->c) >= (a->lo >> e->c)) { e->lo = a->lo >> e->c; e->hi = a->hi >> e->c; } break;
      case ZEXT: e->lo = a->lo; e->hi = a->hi; break;
      case SEXT: if(a->hi < (1ull << (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; } break;
      default: break;
    }
  }
  E cst(uint64_t v, unsigned w) { return mk(CONST, w, v & maskw(w)); }
  E var(std::string const& name, unsigned w, uint64_t lo, uint64_t hi) {
    vars.push_back({name, w, lo, hi});
    E e = mk(VAR, w, vars.size() - 1);
    varExpr.push_back(e);
    return e;
  }
  static bool isc(E e) { return e->op == CONST; }
  static bool isc(E e, uint64_t v) { return e->op == CONST && e->c == v; }
  E tru() { return cst(1, 1); }
  E fls() { return cst(0, 1); }

  E Not(E e) {
    if(isc(e)) return cst(e->c ^ maskw(e->w), e->w);
    if(e->w == 1) {
      if(e->op == XOR && isc(e->b, 1)) return e->a;
      if(e->op == ULT) return mk(ULE, 1, 0, e->b, e->a);
      if(e->op == ULE) return mk(ULT, 1, 0, e->b, e->a);
      if(e->op == SLT) return mk(SLE, 1, 0, e->b, e->a);
      if(e->op == SLE) return mk(SLT, 1, 0, e->b, e->a);
      return mk(XOR, 1, 0, e, cst(1, 1));
    }
    return mk(XOR, e->w, 0, e, cst(maskw(e->w), e->w));
  }
  bool isNotOf(E x, E y) {
    if(x->w != 1) return false;
    if(x->op == XOR && isc(x->b, 1) && x->a == y) return true;
    if(y->op == XOR && isc(y->b, 1) && y->a == x) return true;
    if(x->op == ULT && y->op == ULE && x->a == y->b && x->b == y->a) return true;
    if(x->op == ULE && y->op == ULT && x->a == y->b && x->b == y->a) return true;
    if(x->op == SLT && y->op == SLE && x->a == y->b && x->b == y->a) return true;
    if(x->op == SLE && y->op == SLT && x->a == y->b && x->b == y->a) return true;
    return false;
  }
  static uint64_t fold(Op op, uint64_t x, uint64_t y, unsigned w) {
    uint64_t m = maskw(w);
    switch(op) {
      case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m;
      case UDIV: return y ? (x / y) & m : m; case UREM: return y ? x % y : x;
      case SDIV: { int64_t a = sx(x, w), b = sx(y, w); if(!b) return a < 0 ? 1 : m; if(b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
      case SREM: { int64_t a = sx(x, w), b = sx(y, w); if(!b) return x; if(b == -1) return 0; return (uint64_t)(a % b) & m; }
      case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
      case SHL: return y >= w ? 0 : (x << y) & m; case LSHR: return y >= w ? 0 : (x & m) >> y;
      case ASHR: { int64_t a = sx(x, w); return y >= w ? (uint64_t)(a < 0 ? -1 : 0) & m : (uint64_t)(a >> y) & m; }
      case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
      case SLT: return sx(x, w) < sx(y, w); case SLE: return sx(x, w) <= sx(y, w);
      default: abort();
    }
  }
  static bool isCmp(Op op) { return op >= EQ && op <= SLE; }
  E mapTree(E t, Op op, E k, bool left) { // apply op(leaf,k) (left) or op(k,leaf)
    if(isc(t)) return left ? bin(op, t, k) : bin(op, k, t);
    return ite(t->a, mapTree(t->b, op, k, left), mapTree(t->d, op, k, left));
  }
  E bin(Op op, E a, E b) {
    unsigned w = a->w; unsigned rw = isCmp(op) ? 1 : w;
    if(a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d vs %d\n", op, a->w, b->w); abort(); }
    if(isc(a) && isc(b)) return cst(fold(op, a->c, b->c, w), rw);
    // canonical: constant on the right for commutative
    if((op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ)) {
      if(isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b);
    }
    if(isc(b) && a->ctree && a->csize <= 32) return mapTree(a, op, b, true);
    if(isc(a) && b->ctree && b->csize <= 32) return mapTree(b, op, a, false);
    uint64_t m = maskw(w);
    switch(op) {
      case ADD:
        if(isc(b, 0)) return a;
        if(w == 1) return bin(XOR, a, b);
        if(isc(b) && a->op == ADD && isc(a->b)) return bin(ADD, a->a, cst(a->b->c + b->c, w));
        if(isc(b) && a->op == SUB && isc(a->a)) return bin(SUB, cst(a->a->c + b->c, w), a->b);
        if(a->op == ADD && isc(a->b)) return bin(ADD, bin(ADD, a->a, b), a->b);
        if(b->op == ADD && isc(b->b)) return bin(ADD, bin(ADD, a, b->a), b->b);
        if(b->op == SUB && b->b == a) return b->a;
        if(a->op == SUB && a->b == b) return a->a;
        break;
      case SUB:
        if(a == b) return cst(0, w);
        if(isc(b)) return bin(ADD, a, cst(0 - b->c, w));
        if(w == 1) return bin(XOR, a, b);
        if(a->op == ADD && a->a == b) return a->b;
        if(a->op == ADD && a->b == b) return a->a;
        if(a->op == ADD && isc(a->b)) return bin(ADD, bin(SUB, a->a, b), a->b);
        if(b->op == ADD && isc(b->b)) return bin(ADD, bin(SUB, a, b->a), cst(0 - b->b->c, w));
        break;
      case MUL:
        if(isc(b, 0)) return b; if(isc(b, 1)) return a;
        if(isc(b) && (b->c & (b->c - 1)) == 0) return bin(SHL, a, cst(__builtin_ctzll(b->c), w));
        break;
      case UDIV: if(isc(b, 1)) return a; if(isc(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(LSHR, a, cst(__builtin_ctzll(b->c), w)); break;
      case UREM: if(isc(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(AND, a, cst(b->c - 1, w)); if(isc(b) && a->hi < b->c) return a; break;
      case AND:
        if(isc(b, 0)) return b; if(isc(b, m)) return a; if(a == b) return a;
        if(w == 1 && isNotOf(a, b)) return cst(0, 1);
        if(isc(b) && a->op == AND && isc(a->b)) return bin(AND, a->a, cst(a->b->c & b->c, w));
        if(isc(b) && (b->c & (b->c + 1)) == 0 && a->hi <= b->c) return a;
        if(isc(b) && (b->c & (b->c + 1)) == 0 && b->c) { unsigned n = 64 - __builtin_clzll(b->c); return zext(extract(a, 0, n), w); }
        if(w == 1) {
          if(a->op == AND && (a->a == b || a->b == b)) return a;
          if(b->op == AND && (b->a == a || b->b == a)) return b;
          if(a->op == OR && (a->a == b || a->b == b)) return b;
          if(b->op == OR && (b->a == a || b->b == a)) return a;
          if(b->op == OR && isNotOf(b->a, a)) return bin(AND, a, b->b);
          if(b->op == OR && isNotOf(b->b, a)) return bin(AND, a, b->a);
          if(a->op == OR && isNotOf(a->a, b)) return bin(AND, b, a->b);
          if(a->op == OR && isNotOf(a->b, b)) return bin(AND, b, a->a);
          // x==c1 && x==c2
          if(a->op == EQ && b->op == EQ && a->a == b->a && isc(a->b) && isc(b->b) && a->b != b->b) return cst(0, 1);
          if(a->op == EQ && isc(a->b) && b->op == XOR && isc(b->b, 1) && b->a->op == EQ && b->a->a == a->a && isc(b->a->b)) return a;
          if(b->op == EQ && isc(b->b) && a->op == XOR && isc(a->b, 1) && a->a->op == EQ && a->a->a == b->a && isc(a->a->b)) return b;
        }
        break;
      case OR:
        if(isc(b, 0)) return a; if(isc(b, m)) return b; if(a == b) return a;
        if(w == 1 && isNotOf(a, b)) return cst(1, 1);
        if(w == 1) {
          if(a->op == OR && (a->a == b || a->b == b)) return a;
          if(b->op == OR && (b->a == a || b->b == a)) return b;
          if(a->op == AND && (a->a == b || a->b == b)) return b;
          if(b->op == AND && (b->a == a || b->b == a)) return a;
          if(b->op == AND && isNotOf(b->a, a)) return bin(OR, a, b->b);
          if(b->op == AND && isNotOf(b->b, a)) return bin(OR, a, b->a);
          if(a->op == AND && isNotOf(a->a, b)) return bin(OR, b, a->b);
          if(a->op == AND && isNotOf(a->b, b)) return bin(OR, b, a->a);
          if(a->op == AND && b->op == AND) { // (x&y)|(x&!y)
            if(a->a == b->a && isNotOf(a->b, b->b)) return a->a;
            if(a->b == b->b && isNotOf(a->a, b->a)) return a->b;
            if(a->a == b->b && isNotOf(a->b, b->a)) return a->a;
            if(a->b == b->a && isNotOf(a->a, b->b)) return a->b;
          }
        }
        // disjoint bit ranges: (zext x) | (y << k)
        if(w > 1) {
          E lo = a, hi = b;
          for(int t = 0; t < 2; ++t, std::swap(lo, hi)) {
            if(hi->op == SHL && isc(hi->b) && hi->b->c < w && lo->op == ZEXT && lo->a->w <= hi->b->c) {
              unsigned k = (unsigned)hi->b->c;
              E top = extract(hi->a, 0, w - k);
              return concat(top, zext(lo->a, k));
            }
            if(hi->op == CONCAT && isc(hi->b, 0) && lo->op == ZEXT && lo->a->w <= hi->b->w)
              return concat(hi->a, zext(lo->a, hi->b->w));
          }
        }
        break;
      case XOR:
        if(isc(b, 0)) return a; if(a == b) return cst(0, w);
        if(isc(b) && a->op == XOR && isc(a->b)) return bin(XOR, a->a, cst(a->b->c ^ b->c, w));
        if(w == 1 && isc(b, 1)) return Not(a);
        if(w == 1 && isNotOf(a, b)) return cst(1, 1);
        break;
      case SHL: case LSHR: case ASHR:
        if(isc(b, 0)) return a;
        if(isc(b) && op == SHL) { if(b->c >= w) return cst(0, w);
          return concat(extract(a, 0, w - (unsigned)b->c), cst(0, (unsigned)b->c)); }
        if(isc(b) && op == LSHR) { if(b->c >= w) return cst(0, w);
          return zext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
        if(isc(b) && op == ASHR && a->hi < (1ull << (w - 1))) return bin(LSHR, a, b);
        if(isc(b) && op == ASHR && b->c < w) return sext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        break;
      case EQ:
        if(a == b) return cst(1, 1);
        if(a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
        if(w == 1) { if(isc(b, 1)) return a; if(isc(b, 0)) return Not(a); return Not(mk(XOR, 1, 0, a, b)); }
        if(isc(b)) {
          if(a->op == ZEXT) return (b->c >> a->a->w) ? cst(0, 1) : bin(EQ, a->a, cst(b->c, a->a->w));
          if(a->op == SEXT) { uint64_t t = b->c & maskw(a->a->w); if(((uint64_t)sx(t, a->a->w) & m) != b->c) return cst(0, 1); return bin(EQ, a->a, cst(t, a->a->w)); }
          if(a->op == ADD && isc(a->b)) return bin(EQ, a->a, cst(b->c - a->b->c, w));
          if(a->op == XOR && isc(a->b)) return bin(EQ, a->a, cst(b->c ^ a->b->c, w));
          if(a->op == SUB && isc(a->a)) return bin(EQ, a->b, cst(a->a->c - b->c, w));
          if(a->op == SUB && b->c == 0) return bin(EQ, a->a, a->b);
          if(a->op == CONCAT) { return bin(AND, bin(EQ, a->a, cst(b->c >> a->b->w, a->a->w)), bin(EQ, a->b, cst(b->c, a->b->w))); }
          if(a->op == ITE && (isc(a->b) || isc(a->d) || a->b->op == ITE || a->d->op == ITE)) {
            E x = bin(EQ, a->b, b), y = bin(EQ, a->d, b);
            if(isc(x) || isc(y)) return ite(a->a, x, y);
          }
        } else {
          if(a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
          if(a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
          if(a->op == ADD && a->a == b && isc(a->b)) return cst(0, 1);
          if(b->op == ADD && b->a == a && isc(b->b)) return cst(0, 1);
          if(a->op == ADD && b->op == ADD && isc(a->b) && a->b == b->b) return bin(EQ, a->a, b->a);
        }
        break;
      case ULT:
        if(a == b) return cst(0, 1);
        if(a->hi < b->lo) return cst(1, 1); if(a->lo >= b->hi) return cst(0, 1);
        if(isc(b, 1)) return bin(EQ, a, cst(0, w));
        if(a->op == ZEXT && isc(b) && b->c <= maskw(a->a->w)) return bin(ULT, a->a, cst(b->c, a->a->w));
        if(b->op == ZEXT && isc(a) && a->c <= maskw(b->a->w)) return bin(ULT, cst(a->c, b->a->w), b->a);
        if(a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
        break;
      case ULE:
        if(a == b) return cst(1, 1);
        if(a->hi <= b->lo) return cst(1, 1); if(a->lo > b->hi) return cst(0, 1);
        if(isc(b, 0)) return bin(EQ, a, b);
        if(a->op == ZEXT && isc(b) && b->c <= maskw(a->a->w)) return bin(ULE, a->a, cst(b->c, a->a->w));
        if(b->op == ZEXT && isc(a) && a->c <= maskw(b->a->w)) return bin(ULE, cst(a->c, b->a->w), b->a);
        if(a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
        break;
      case SLT: case SLE: {
        if(a == b) return cst(op == SLE, 1);
        uint64_t s = 1ull << (w - 1);
        if(a->hi < s && b->hi < s) return bin(op == SLT ? ULT : ULE, a, b);
        if(a->lo >= s && b->lo >= s) return bin(op == SLT ? ULT : ULE, a, b);
        if(a->hi < s && b->lo >= s) return cst(0, 1);
        if(a->lo >= s && b->hi < s) return cst(1, 1);
        if(a->op == SEXT && isc(b)) { unsigned n = a->a->w; int64_t v = sx(b->c, w); int64_t mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
          if(v > mx) return cst(1, 1); if(v < mn) return cst(0, 1); return bin(op, a->a, cst((uint64_t)v, n)); }
        if(b->op == SEXT && isc(a)) { unsigned n = b->a->w; int64_t v = sx(a->c, w); int64_t mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
          if(v > mx) return cst(0, 1); if(v < mn) return cst(1, 1); return bin(op, cst((uint64_t)v, n), b->a); }
        if(a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        break; }
      default: break;
    }
    return mk(op, rw, 0, a, b);
  }
  E ite(E c, E t, E f) {
    if(isc(c)) return c->c ? t : f;
    if(t == f) return t;
    if(c->op == XOR && isc(c->b, 1)) return ite(c->a, f, t);
    if(t->op == ITE && t->a == c) t = t->b;
    if(f->op == ITE && f->a == c) f = f->d;
    if(t == f) return t;
    if(t->w == 1) {
      if(isc(t, 1)) return bin(OR, c, f);
      if(isc(t, 0)) return bin(AND, Not(c), f);
      if(isc(f, 0)) return bin(AND, c, t);
      if(isc(f, 1)) return bin(OR, Not(c), t);
    }
    if(f->op == ITE && f->b == t) return ite(bin(OR, c, f->a), t, f->d);
    if(f->op == ITE && f->d == t) return ite(bin(AND, Not(c), f->a), f->b, t);
    if(t->op == ITE && t->d == f) return ite(bin(AND, c, t->a), t->b, f);
    if(t->op == ITE && t->b == f) return ite(bin(AND, c, Not(t->a)), t->d, f);
    return mk(ITE, t->w, 0, c, t, f);
  }
  E extract(E a, unsigned off, unsigned w) {
    if(off == 0 && w == a->w) return a;
    if(isc(a)) return cst(a->c >> off, w);
    switch(a->op) {
      case EXTRACT: return extract(a->a, (unsigned)a->c + off, w);
      case CONCAT: {
        unsigned lw = a->b->w;
        if(off + w <= lw) return extract(a->b, off, w);
        if(off >= lw) return extract(a->a, off - lw, w);
        return concat(extract(a->a, 0, off + w - lw), extract(a->b, off, lw - off)); }
      case ZEXT: if(off + w <= a->a->w) return extract(a->a, off, w); if(off >= a->a->w) return cst(0, w);
        return zext(extract(a->a, off, a->a->w - off), w);
      case SEXT: if(off + w <= a->a->w) return extract(a->a, off, w);
        if(off == 0) return sext(a->a, w);
        break;
      case ITE: if(a->ctree || (isc(a->b) || isc(a->d))) return ite(a->a, extract(a->b, off, w), extract(a->d, off, w)); break;
      case AND: case OR: case XOR: if(isc(a->b) || off == 0) { return bin(a->op, extract(a->a, off, w), extract(a->b, off, w)); } break;
      case ADD: case SUB: case MUL: if(off == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      default: break;
    }
    if((a->hi >> off) == 0) return cst(0, w);
    return mk(EXTRACT, w, off, a);
  }
  E zext(E a, unsigned w) {
    if(w == a->w) return a;
    if(isc(a)) return cst(a->c, w);
    if(a->op == ZEXT) return zext(a->a, w);
    if(a->op == ITE && a->ctree) return ite(a->a, zext(a->b, w), zext(a->d, w));
    return mk(ZEXT, w, 0, a);
  }
  E sext(E a, unsigned w) {
    if(w == a->w) return a;
    if(isc(a)) return cst((uint64_t)sx(a->c, a->w), w);
    if(a->op == SEXT) return sext(a->a, w);
    if(a->hi < (1ull << (a->w - 1))) return zext(a, w);
    if(a->op == ITE && a->ctree) return ite(a->a, sext(a->b, w), sext(a->d, w));
    return mk(SEXT, w, 0, a);
  }
  E concat(E hi, E lo) { // widths add
    if(lo->w == 0) return hi;
    unsigned w = hi->w + lo->w;
    if(isc(hi) && isc(lo)) return cst((hi->c << lo->w) | lo->c, w);
    if(isc(hi, 0)) return zext(lo, w);
    if(hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return extract(hi->a, (unsigned)lo->c, w);
    if(hi->op == EXTRACT && hi->a == lo && hi->c == lo->w) return extract(lo, 0, w);
    if(lo->op == CONCAT) { // merge hi with upper part of lo when adjacent
      E u = lo->a;
      if(hi->op == EXTRACT && u->op == EXTRACT && hi->a == u->a && hi->c == u->c + u->w)
        return concat(extract(hi->a, (unsigned)u->c, hi->w + u->w), lo->b);
    }
    if(hi->op == CONCAT) {
      E u = hi->b;
      if(lo->op == EXTRACT && u->op == EXTRACT && lo->a == u->a && u->c == lo->c + lo->w)
        return concat(hi->a, extract(lo->a, (unsigned)lo->c, lo->w + u->w));
    }
    // ite trees with a common structure (values split over bytes by a merge)
    if(hi->op == ITE && lo->op == ITE && hi->a == lo->a)
      return ite(hi->a, concat(hi->b, lo->b), concat(hi->d, lo->d));
    if(isc(hi) && lo->op == ITE && lo->ctree) return ite(lo->a, concat(hi, lo->b), concat(hi, lo->d));
    if(isc(lo) && hi->op == ITE && hi->ctree) return ite(hi->a, concat(hi->b, lo), concat(hi->d, lo));
    return mk(CONCAT, w, 0, hi, lo);
  }

  // ---- evaluation under a model
  void newGen() { ++gen; }
  uint64_t evalRec(E e, Model const& m) {
    if(e->op == CONST) return e->c;
    if(e->egen == gen) return e->ev;
    uint64_t r;
    switch(e->op) {
      case VAR: r = e->c < m.size() ? m[e->c] : vars[e->c].lo; break;
      case ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
      case CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
      case EXTRACT: r = (evalRec(e->a, m) >> e->c) & maskw(e->w); break;
      case ZEXT: r = evalRec(e->a, m); break;
      case SEXT: r = (uint64_t)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
      case AND: { uint64_t x = evalRec(e->a, m); r = x ? (x & evalRec(e->b, m)) : 0; break; }
      default: r = fold(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w);
    }
    e->egen = gen; e->ev = r;
    return r;
  }
  uint64_t eval(E e, Model const& m) { newGen(); return evalRec(e, m); }

  std::shared_ptr<VarSet> emptyVS = std::make_shared<VarSet>();
  std::shared_ptr<VarSet> const& varsOf(E e) {
    if(e->vs) return e->vs;
    switch(e->op) {
      case CONST: e->vs = emptyVS; break;
      case VAR: e->vs = std::make_shared<VarSet>(VarSet{(uint32_t)e->c}); break;
      default: {
        std::shared_ptr<VarSet> r = varsOf(e->a);
        for(E k : {e->b, e->d}) if(k) {
          auto const& o = varsOf(k);
          if(o == r || o->empty()) continue;
          if(r->empty()) { r = o; continue; }
          if(std::includes(r->begin(), r->end(), o->begin(), o->end())) continue;
          if(std::includes(o->begin(), o->end(), r->begin(), r->end())) { r = o; continue; }
          auto n = std::make_shared<VarSet>();
          std::set_union(r->begin(), r->end(), o->begin(), o->end(), std::back_inserter(*n));
          r = n;
        }
        e->vs = r;
      }
    }
    return e->vs;
  }
};
} // namespace msx
