// Z3 back end: independence slicing, query cache, incremental QF_FD/QF_BV solver with
// assumption literals.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <map>

namespace msx {
struct Solver {
  Ctx& C;
  Z3_context z;
  Z3_solver s = nullptr;
  uint64_t zgen = 1;
  uint64_t asserted = 0;
  bool force = false; uint64_t finite = 0, queries = 0, cacheHits = 0, sats = 0, unsats = 0;
  double time = 0, maxTime = 0;
  unsigned timeoutMs = 120000;
  std::string logic = getenv("MSX_LOGIC") ? getenv("MSX_LOGIC") : "ALL"; uint64_t resetAt = getenv("MSX_RESET") ? strtoull(getenv("MSX_RESET"), 0, 10) : 300;
  std::unordered_map<uint32_t, Z3_ast> lit; // expr id -> assumption literal
  struct VH { size_t operator()(std::vector<uint32_t> const& v) const { uint64_t h = 1469598103934665603ull; for(auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
  struct Hit { bool sat; std::vector<std::pair<uint32_t, uint64_t>> m; };
  std::unordered_map<std::vector<uint32_t>, Hit, VH> cache;
  // -- optional dump of queries for cross-checking with a second solver
  std::string dumpDir; unsigned dumpMax = 0, dumped = 0;

  explicit Solver(Ctx& c): C(c) {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    reset();
  }
  void reset() {
    if(s) Z3_solver_dec_ref(z, s);
    s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, logic.c_str()));
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), 400000000u); // deterministic, and no timer thread per query
    Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
    lit.clear(); asserted = 0;
  }
  Z3_ast asBV(E e) { // w1 expressions are Bool in Z3
    Z3_ast t = tr(e);
    if(e->w == 1) {
      Z3_sort b1 = Z3_mk_bv_sort(z, 1);
      return Z3_mk_ite(z, t, Z3_mk_unsigned_int64(z, 1, b1), Z3_mk_unsigned_int64(z, 0, b1));
    }
    return t;
  }
  Z3_ast tr(E e) {
    if(e->z) return (Z3_ast)e->z;
    Z3_ast r = nullptr;
    bool b1 = e->w == 1;
    switch(e->op) {
      case CONST: r = b1 ? (e->c ? Z3_mk_true(z) : Z3_mk_false(z)) : Z3_mk_unsigned_int64(z, e->c, Z3_mk_bv_sort(z, e->w)); break;
      case VAR: { std::string n = "v" + std::to_string(e->c);
        r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), b1 ? Z3_mk_bool_sort(z) : Z3_mk_bv_sort(z, e->w)); break; }
      case EQ: r = Z3_mk_eq(z, tr(e->a), tr(e->b)); break;
      case ULT: r = Z3_mk_bvult(z, asBV(e->a), asBV(e->b)); break;
      case ULE: r = Z3_mk_bvule(z, asBV(e->a), asBV(e->b)); break;
      case SLT: r = Z3_mk_bvslt(z, asBV(e->a), asBV(e->b)); break;
      case SLE: r = Z3_mk_bvsle(z, asBV(e->a), asBV(e->b)); break;
      case ITE: r = Z3_mk_ite(z, tr(e->a), tr(e->b), tr(e->d)); break;
      case CONCAT: r = Z3_mk_concat(z, asBV(e->a), asBV(e->b)); break;
      case EXTRACT: { Z3_ast x = Z3_mk_extract(z, (unsigned)(e->c + e->w - 1), (unsigned)e->c, asBV(e->a));
        if(b1) x = Z3_mk_eq(z, x, Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)));
        r = x; break; }
      case ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, asBV(e->a)); break;
      case SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, asBV(e->a)); break;
      default:
        if(b1) {
          if(e->op == AND) { Z3_ast k[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(z, 2, k); break; }
          if(e->op == OR) { Z3_ast k[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(z, 2, k); break; }
          if(e->op == XOR) { if(e->b->op == CONST && e->b->c == 1) r = Z3_mk_not(z, tr(e->a)); else r = Z3_mk_xor(z, tr(e->a), tr(e->b)); break; }
        }
        {
          Z3_ast x = asBV(e->a), y = asBV(e->b);
          switch(e->op) {
            case ADD: r = Z3_mk_bvadd(z, x, y); break; case SUB: r = Z3_mk_bvsub(z, x, y); break;
            case MUL: r = Z3_mk_bvmul(z, x, y); break; case UDIV: r = Z3_mk_bvudiv(z, x, y); break;
            case SDIV: r = Z3_mk_bvsdiv(z, x, y); break; case UREM: r = Z3_mk_bvurem(z, x, y); break;
            case SREM: r = Z3_mk_bvsrem(z, x, y); break; case AND: r = Z3_mk_bvand(z, x, y); break;
            case OR: r = Z3_mk_bvor(z, x, y); break; case XOR: r = Z3_mk_bvxor(z, x, y); break;
            case SHL: r = Z3_mk_bvshl(z, x, y); break; case LSHR: r = Z3_mk_bvlshr(z, x, y); break;
            case ASHR: r = Z3_mk_bvashr(z, x, y); break;
            default: abort();
          }
          if(b1) r = Z3_mk_eq(z, r, Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)));
        }
    }
    e->z = r;
    return r;
  }
  enum Res { UNSAT, SAT, UNKNOWN };
  // constraints relevant to q
  void slice(std::vector<E> const& pc, E q, std::vector<E>& out) {
    std::vector<bool> used(pc.size());
    std::vector<uint8_t> in(C.vars.size());
    auto addv = [&](E e) { bool ch = false; for(auto v : *C.varsOf(e)) if(!in[v]) { in[v] = 1; ch = true; } return ch; };
    addv(q);
    bool ch = true;
    while(ch) {
      ch = false;
      for(size_t i = 0; i < pc.size(); ++i) if(!used[i]) {
        bool hit = false;
        for(auto v : *C.varsOf(pc[i])) if(in[v]) { hit = true; break; }
        if(hit) { used[i] = true; out.push_back(pc[i]); if(addv(pc[i])) ch = true; }
      }
    }
  }
  // Is pc && q satisfiable?  On SAT, *m (if given) is updated on the variables involved.
  Res check(std::vector<E> const& pc, E q, Model* m) {
    if(q->op == CONST) { if(!q->c) return UNSAT; }
    std::vector<E> cs; slice(pc, q, cs);
    if(q->op != CONST) cs.push_back(q);
    std::vector<uint32_t> key; key.reserve(cs.size());
    for(auto e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if(it != cache.end()) {
      ++cacheHits; if(!it->second.sat) return UNSAT;
      if(m) { fit(*m); for(auto& x : it->second.m) (*m)[x.first] = x.second; }
      return SAT;
    }
    Model mm; if(m) mm = *m;
    if(!force) { // a branch that depends on a single byte: look for a witness by evaluation; only the solver says no
      uint32_t one = ~0u; bool single = true; for(auto e : cs) { for(auto v : *C.varsOf(e)) { if(one == ~0u) one = (uint32_t)v; else if(one != (uint32_t)v) { single = false; break; } } if(!single) break; }
      if(single && one != ~0u && C.vars[one].w <= 8) {
        fit(mm); bool sat = false; uint64_t const first = mm[one], n = 1ull << C.vars[one].w;
        for(uint64_t i = 0; i < n && !sat; ++i) { mm[one] = (first + i) & (n - 1); sat = true; C.newGen(); for(auto e : cs) if(!C.evalRec(e, mm)) { sat = false; break; } }
        if(sat) { ++finite; auto& hit = cache[key]; hit.sat = true; hit.m.push_back({one, mm[one]}); if(m) *m = mm; return SAT; } mm[one] = first; } }
    auto t0 = std::chrono::steady_clock::now();
    if(asserted > resetAt) reset();
    std::vector<Z3_ast> as;
    for(auto e : cs) {
      auto l = lit.find(e->id);
      if(l == lit.end()) {
        std::string n = "p" + std::to_string(e->id);
        Z3_ast p = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), Z3_mk_bool_sort(z));
        Z3_solver_assert(z, s, Z3_mk_implies(z, p, tr(e)));
        ++asserted;
        l = lit.emplace(e->id, p).first;
      }
      as.push_back(l->second);
    }
    Z3_lbool r = Z3_solver_check_assumptions(z, s, (unsigned)as.size(), as.data());
    if(r == Z3_L_UNDEF) { // fall back to a fresh bit-vector solver
      Z3_solver f = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
      Z3_solver_inc_ref(z, f);
      Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
      Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeoutMs);
      Z3_solver_set_params(z, f, p); Z3_params_dec_ref(z, p);
      for(auto e : cs) Z3_solver_assert(z, f, tr(e));
      r = Z3_solver_check(z, f);
      if(r == Z3_L_TRUE) readModel(f, cs, mm);
      Z3_solver_dec_ref(z, f);
    } else if(r == Z3_L_TRUE) readModel(s, cs, mm);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    time += dt; if(dt > maxTime) maxTime = dt; ++queries;
    if(dumped < dumpMax && !dumpDir.empty()) dump(cs, r);
    if(r == Z3_L_UNDEF) return UNKNOWN;
    auto& hit = cache[key]; hit.sat = r == Z3_L_TRUE;
    if(hit.sat) { std::vector<uint8_t> seen(C.vars.size()); for(auto e : cs) for(auto v : *C.varsOf(e)) if(!seen[v]) { seen[v] = 1; hit.m.push_back({(uint32_t)v, mm[v]}); } if(m) *m = mm; }
    if(r == Z3_L_TRUE) ++sats; else ++unsats;
    return r == Z3_L_TRUE ? SAT : UNSAT;
  }
  void dump(std::vector<E> const& cs, Z3_lbool r) {
    std::string fn = dumpDir + "/q" + std::to_string(dumped++) + (r == Z3_L_TRUE ? ".sat" : r == Z3_L_FALSE ? ".unsat" : ".unknown") + ".smt2";
    std::vector<Z3_ast> v; for(auto e : cs) v.push_back(tr(e));
    Z3_ast all = v.empty() ? Z3_mk_true(z) : Z3_mk_and(z, (unsigned)v.size(), v.data());
    Z3_inc_ref(z, all);
    Z3_string str = Z3_benchmark_to_smtlib_string(z, "q", "QF_BV", "unknown", "", 0, nullptr, all);
    FILE* f = fopen(fn.c_str(), "w"); if(f) { fputs(str, f); fclose(f); }
    Z3_dec_ref(z, all);
  }
  void fit(Model& m) { if(m.size() < C.vars.size()) { size_t o = m.size(); m.resize(C.vars.size()); for(; o < m.size(); ++o) m[o] = C.vars[o].lo; } }
  void readModel(Z3_solver sv, std::vector<E> const& cs, Model& m) {
    Z3_model md = Z3_solver_get_model(z, sv); Z3_model_inc_ref(z, md);
    std::vector<uint8_t> seen(C.vars.size());
    if(m.size() < C.vars.size()) { size_t o = m.size(); m.resize(C.vars.size()); for(; o < m.size(); ++o) m[o] = C.vars[o].lo; }
    for(auto e : cs) for(auto v : *C.varsOf(e)) if(!seen[v]) {
      seen[v] = 1;
      Z3_ast out;
      if(Z3_model_eval(z, md, tr(C.varExpr[v]), true, &out)) {
        uint64_t val = 0;
        if(C.vars[v].w == 1) val = Z3_get_bool_value(z, out) == Z3_L_TRUE;
        else Z3_get_numeral_uint64(z, out, &val);
        m[v] = val;
      }
    }
    Z3_model_dec_ref(z, md);
  }
};
} // namespace msx
