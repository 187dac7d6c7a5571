// Built-in models of run-time functions (member functions of Engine).
void def(std::string const& n, std::function<R(State&, Ins&, std::vector<Val>&)> f) { btab[n] = (int)bfn.size(); bfn.push_back(std::move(f)); bname.push_back(n); }
Val argc_(std::vector<Val>& a, size_t i) { return i < a.size() ? a[i] : Val{}; }
R doAlloc(State& st, Ins& x, Val n, uint8_t how, bool zero = false) {
  conc(st, n, 64);
  if(n.c > (1ull << 22)) { // an absurd request: behaves like an allocation failure
    if(how) return throwStd(st, "_msx_throw_bad_alloc", {}); setRet(st, x, Val{}); return NEXT; }
  Obj* o = alloc(st, n.c ? n.c : 1, OK_HEAP, how); if(!o) return DEAD; if(!n.c) { o->size = 0; o->b.clear(); }
  if(zero) std::fill(o->b.begin(), o->b.end(), 0);
  setRet(st, x, Val{nullptr, o->base}); return NEXT;
}
R doFree(State& st, Val p, uint8_t how) {
  conc(st, p, 64); if(!p.c) return NEXT;
  Obj* o = st.mem.find(p.c); if(!o || o->base != p.c || o->kind != OK_HEAP) { violation(st, "memory", o ? "free of a pointer that was not allocated" : "double free or invalid free"); return DEAD; }
  if(o->how != how) { violation(st, "memory", "mismatched allocation and deallocation"); return DEAD; }
  note(st, p.c, o->size ? o->size : 1, true); if(st.steps == ~0ull) return DEAD;
  freeObj(st, p.c); return NEXT;
}
std::shared_ptr<Input> input(State& st, std::string const& name, unsigned bytes, unsigned w, uint64_t lo, uint64_t hi) {
  unsigned k = st.occ[name]++; auto key = std::make_pair(name + ":" + std::to_string(bytes) + ":" + std::to_string(w) + ":" + std::to_string(lo) + ":" + std::to_string(hi), k);
  auto it = inputTab.find(key); std::shared_ptr<Input> in;
  if(it != inputTab.end()) in = it->second;
  else { in = std::make_shared<Input>(); in->name = name; in->bytes = bytes;
    if(w == 8 && lo == 0 && hi == 255) for(unsigned i = 0; i < bytes; ++i) in->v.push_back(C.var(name + "#" + std::to_string(k) + "[" + std::to_string(i) + "]", 8, 0, 255));
    else in->v.push_back(C.var(name + "#" + std::to_string(k), w, lo, hi));
    inputTab[key] = in; }
  st.inputs.push_back(in); grow(st); return in;
}
bool memEq(State& st, Val a, Val b, Val n, std::vector<Val>& x, std::vector<Val>& y, uint64_t& mx) {
  conc(st, a, 64); conc(st, b, 64); if(n.e && n.e->hi > 512) conc(st, n, 64);
  mx = n.e ? n.e->hi : n.c; if(!mx) return true;
  Obj* o = st.mem.find(a.c); Obj* p = st.mem.find(b.c);
  if(!o || !p) { violation(st, "memory", "memcmp through an invalid pointer"); return false; }
  uint64_t av = std::min(o->base + o->size - a.c, p->base + p->size - b.c);
  if(av < mx) { E ok = C.bin(ULE, ex(n, 64), C.cst(av, 64)); Model m; if(may(st, C.Not(ok), &m)) { violation(st, "memory", "memcmp out of bounds", m); return false; } mx = av; }
  note(st, a.c, (unsigned)mx, false); note(st, b.c, (unsigned)mx, false); if(st.steps == ~0ull) return false;
  for(uint64_t i = 0; i < mx; ++i) { x.push_back(rdAt(o, a.c - o->base + i, 8)); y.push_back(rdAt(p, b.c - p->base + i, 8)); }
  return true;
}
bool recursive(State& st, uint64_t m) { auto it = st.sync.find(m); if(it == st.sync.end() || it->second.owner != st.cur) return false; Val k; return loadV(st, Val{nullptr, m + 16}, 32, k, true) && !k.e && k.c == 1; } // held by this thread already, PTHREAD_MUTEX_RECURSIVE
void setupBuiltins() {
  auto zero = [this](State& st, Ins& x, std::vector<Val>&) { setRet(st, x, Val{}); return NEXT; };
  // ---- harness interface
  def("msx_symbolic", [this](State& st, Ins&, std::vector<Val>& a) { conc(st, a[0], 64); conc(st, a[1], 64); Obj* o = st.mem.find(a[0].c); if(!o || a[0].c - o->base + a[1].c > o->size) { violation(st, "harness", "msx_symbolic out of bounds"); return DEAD; }
    auto in = input(st, cstr(st, a[2]), (unsigned)a[1].c, 8, 0, 255); Obj* w = st.mem.wr(o->base); for(size_t i = 0; i < in->v.size(); ++i) wrAt(w, a[0].c - w->base + i, Val{in->v[i], 0}, 8); return NEXT; });
  def("msx_range", [this](State& st, Ins& x, std::vector<Val>& a) { uint64_t lo = a[0].c, hi = a[1].c; if(lo == hi) { setRet(st, x, Val{nullptr, lo}); auto in0 = std::make_shared<Input>(); in0->name = cstr(st, a[2]); in0->bytes = 0; in0->v.push_back(C.cst(lo, 64)); 
      unsigned k = st.occ[in0->name]++; auto key = std::make_pair(in0->name + ":const" + std::to_string(lo), k); auto it = inputTab.find(key); if(it == inputTab.end()) it = inputTab.emplace(key, in0).first; st.inputs.push_back(it->second); return NEXT; }
    unsigned w = 64 - (unsigned)__builtin_clzll(hi | 1); auto in = input(st, cstr(st, a[2]), 0, w, lo, hi); E e = in->v[0]; 
    if(lo > 0) addPC(st, C.mk(ULE, 1, 0, C.cst(lo, w), e)); if(hi < maskw(w)) addPC(st, C.mk(ULE, 1, 0, e, C.cst(hi, w)));
    grow(st); setRet(st, x, mkv(C.zext(e, 64))); return NEXT; });
  def("msx_assume", [this](State& st, Ins&, std::vector<Val>& a) { Val c = bop(EQ, a[0], Val{}, 32); if(!c.e) { if(c.c) { ++killed; return DEAD; } return NEXT; } E e = C.Not(c.e); Model m; if(!may(st, e, &m)) { ++killed; return DEAD; } st.model = m; addPC(st, e); return NEXT; });
  def("msx_assert", [this](State& st, Ins&, std::vector<Val>& a) { ++assertsChecked; Val c = bop(EQ, a[0], Val{}, 32); if(!c.e) { if(c.c) { violation(st, "assertion", cstr(st, a[1])); return DEAD; } return NEXT; }
    ++assertQ; Model m; S.force = true; bool const bad = may(st, c.e, &m); S.force = false; if(bad) { violation(st, "assertion", cstr(st, a[1]), m); E ok = C.Not(c.e); if(!may(st, ok, &m)) return DEAD; st.model = m; addPC(st, ok); } return NEXT; });
  def("msx_reach", [this](State& st, Ins&, std::vector<Val>& a) { ++reach[cstr(st, a[0])]; return NEXT; });
  def("msx_merge", [this](State& st, Ins&, std::vector<Val>& a) { return park(st, a.empty() ? 0 : a[0].c); });
  def("msx_observe", [this](State& st, Ins&, std::vector<Val>& a) { st.obs.push_back({a[0], 64}); return NEXT; });
  def("msx_concretize", [this](State& st, Ins& x, std::vector<Val>& a) { forked = false; conc(st, a[0], 64, true); if(forked && splitDrop(st)) { ++dropped; return DEAD; } setRet(st, x, a[0]); return NEXT; });
  def("msx_is_symbolic", [this](State& st, Ins& x, std::vector<Val>& a) { setRet(st, x, Val{nullptr, a[0].e != nullptr}); return NEXT; });
  def("msx_trace", [this](State& st, Ins&, std::vector<Val>& a) { st.trace.push_back(cstr(st, a[0])); return NEXT; });
  def("msx_silent_end", [this](State& st, Ins&, std::vector<Val>&) { endPath(st); return DEAD; });
  def("msx_yield", [this](State& st, Ins&, std::vector<Val>&) { R r; if(st.th.size() > 1 && !syncPoint(st, P_YIELD, 0, 0, r)) return r; return NEXT; });
  def("msx_tid", [this](State& st, Ins& x, std::vector<Val>&) { setRet(st, x, Val{nullptr, (uint64_t)st.cur}); return NEXT; });
  def("msx_ite", [this](State& st, Ins& x, std::vector<Val>& a) { Val c = bop(EQ, a[0], Val{}, 32); setRet(st, x, iteV(c, a[2], a[1], 64)); return NEXT; });
  def("msx_fail", [this](State& st, Ins&, std::vector<Val>& a) { violation(st, "assertion", cstr(st, a[0])); return DEAD; });
  // ---- memory
  for(auto n : {"malloc"}) def(n, [this](State& st, Ins& x, std::vector<Val>& a) { return doAlloc(st, x, a[0], 0); });
  def("calloc", [this](State& st, Ins& x, std::vector<Val>& a) { return doAlloc(st, x, bop(MUL, a[0], a[1], 64), 0, true); });
  def("realloc", [this](State& st, Ins& x, std::vector<Val>& a) { conc(st, a[0], 64); conc(st, a[1], 64); uint64_t old = a[0].c; R r = doAlloc(st, x, a[1], 0); if(r != NEXT || !old) return r; Obj* o = st.mem.find(old); if(!o) { violation(st, "memory", "realloc of invalid pointer"); return DEAD; } uint64_t nw = top(st).regs[x.dst].c; Obj* w = st.mem.wr(nw); IPtr<Obj> keep(o); for(uint64_t i = 0; i < std::min<uint64_t>(keep->size, w->size); ++i) wrAt(w, i, rdAt(keep.p, i, 8), 8); freeObj(st, old); return NEXT; });
  for(auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) def(n, [this](State& st, Ins& x, std::vector<Val>& a) { return doAlloc(st, x, a[0], 1); });
  for(auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) def(n, [this](State& st, Ins& x, std::vector<Val>& a) { return doAlloc(st, x, a[0], 2); });
  def("free", [this](State& st, Ins&, std::vector<Val>& a) { return doFree(st, a[0], 0); });
  for(auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) def(n, [this](State& st, Ins&, std::vector<Val>& a) { return doFree(st, a[0], 1); });
  for(auto n : {"_ZdaPv", "_ZdaPvm"}) def(n, [this](State& st, Ins&, std::vector<Val>& a) { return doFree(st, a[0], 2); });
  for(auto n : {"memcpy", "memmove"}) def(n, [this](State& st, Ins& x, std::vector<Val>& a) { bool d; if(!copyBytes(st, a[0], a[1], a[2], d)) return DEAD; setRet(st, x, a[0]); return NEXT; });
  def("memset", [this](State& st, Ins& x, std::vector<Val>& a) { if(!setBytes(st, a[0], castV(a[1], 32, 8, false), a[2])) return DEAD; setRet(st, x, a[0]); return NEXT; });
  def("memcmp", [this](State& st, Ins& x, std::vector<Val>& a) { std::vector<Val> p, q; uint64_t mx; if(!memEq(st, a[0], a[1], a[2], p, q, mx)) return DEAD; Val r{};
    for(uint64_t i = mx; i-- > 0;) { Val d = iteV(bop(ULT, p[i], q[i], 8), Val{nullptr, 0xffffffffu}, Val{nullptr, 1}, 32); r = iteV(bop(EQ, p[i], q[i], 8), r, d, 32); if(a[2].e) r = iteV(bop(ULT, Val{nullptr, i}, a[2], 64), r, Val{}, 32); } setRet(st, x, r); return NEXT; });
  def("bcmp", [this](State& st, Ins& x, std::vector<Val>& a) { std::vector<Val> p, q; uint64_t mx; if(!memEq(st, a[0], a[1], a[2], p, q, mx)) return DEAD; Val eq{nullptr, 1};
    for(uint64_t i = 0; i < mx; ++i) { Val e = bop(EQ, p[i], q[i], 8); if(a[2].e) e = bop(OR, e, bop(ULE, a[2], Val{nullptr, i}, 64), 1); eq = bop(AND, eq, e, 1); } setRet(st, x, iteV(eq, Val{}, Val{nullptr, 1}, 32)); return NEXT; });
  // ---- process end
  def("abort", [this](State& st, Ins&, std::vector<Val>&) { violation(st, "abort", "abort() called"); return DEAD; });
  def("_ZSt9terminatev", [this](State& st, Ins&, std::vector<Val>&) { violation(st, "terminate", "std::terminate() called"); return DEAD; });
  def("__cxa_pure_virtual", [this](State& st, Ins&, std::vector<Val>&) { violation(st, "abort", "pure virtual call"); return DEAD; });
  def("__assert_fail", [this](State& st, Ins&, std::vector<Val>& a) { violation(st, "abort", "assert failed: " + cstr(st, a[0])); return DEAD; });
  def("_ZSt21__glibcxx_assert_failPKciS0_S0_", [this](State& st, Ins&, std::vector<Val>& a) { violation(st, "abort", "libstdc++ assertion failed: " + cstr(st, a[3])); return DEAD; });
  for(auto n : {"__cxa_atexit", "printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fputc", "__cxa_thread_atexit", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_attr_init", "pthread_attr_destroy", "signal", "perror", "fwrite"}) def(n, zero);
  auto fmt = [this](State& st, Ins& x, std::vector<Val>& a, uint64_t dst, uint64_t cap, size_t fi) -> R { // printf: the format is concrete, numbers are made concrete
    std::string f = cstr(st, a[fi]); std::vector<Val> out; size_t n = fi + 1;
    for(size_t i = 0; i < f.size(); ++i) {
      if(f[i] != '%') { out.push_back(Val{nullptr, (uint8_t)f[i]}); continue; }
      std::string sp = "%"; ++i; while(i < f.size() && std::string("-+ #0123456789.*").find(f[i]) != std::string::npos) { if(f[i] == '*') { if(n >= a.size()) break; Val w = a[n++]; conc(st, w, 32); sp += std::to_string((int)w.c); } else sp += f[i]; ++i; }
      int lng = 0; while(i < f.size() && std::string("hlzjt").find(f[i]) != std::string::npos) { lng += f[i] == 'h' ? -1 : f[i] == 'l' ? 1 : 2; ++i; }
      char c = i < f.size() ? f[i] : 0; if(c == '%') { out.push_back(Val{nullptr, '%'}); continue; }
      if(!c || n >= a.size() || !strchr("diouxXcsp", c)) { ++incomplete["printf conversion not modelled: " + f]; return DEAD; }
      Val v = a[n++];
      if(c == 's') { conc(st, v, 64); std::vector<Val> b; long prec = -1; auto dot = sp.find('.'); if(dot != std::string::npos) prec = atol(sp.c_str() + dot + 1); for(uint64_t k = 0; prec < 0 || (long)k < prec; ++k) { Val z; if(!loadV(st, Val{nullptr, v.c + k}, 8, z)) return DEAD; if(z.e) { Val nz = bop(EQ, z, Val{}, 8); if(nz.e) { conc(st, nz, 1); if(nz.c) break; } else if(nz.c) break; } else if(!z.c) break; b.push_back(z); }
        size_t w = (size_t)std::abs(atol(sp.c_str() + 1 + (sp[1] == '-'))); bool left = sp.find('-') != std::string::npos; if(!left) while(w > b.size()) { out.push_back(Val{nullptr, ' '}); --w; } for(auto& y : b) out.push_back(y); if(left) for(size_t k = b.size(); k < w; ++k) out.push_back(Val{nullptr, ' '}); continue; }
      if(c == 'c' && sp == "%") { out.push_back(castV(v, 32, 8, false)); continue; }
      unsigned w = (lng > 0 || c == 'p') ? 64 : 32; conc(st, v, w); char t[128]; unsigned long long u = v.c; if(strchr("di", c)) { long long q = w == 32 ? (long long)(int32_t)u : (long long)u; if(lng == -1) q = (int16_t)q; if(lng == -2) q = (int8_t)q; snprintf(t, sizeof t, (sp + "lld").c_str(), q); } else { if(lng == -1) u &= 0xffff; if(lng == -2) u &= 0xff; if(c == 'p') snprintf(t, sizeof t, "0x%llx", u); else if(c == 'c') snprintf(t, sizeof t, (sp + "c").c_str(), (int)u); else snprintf(t, sizeof t, (sp + "ll" + c).c_str(), u); }
      for(char* q = t; *q; ++q) out.push_back(Val{nullptr, (uint8_t)*q});
    }
    for(size_t k = 0; k < out.size() && k + 1 < cap; ++k) if(!storeV(st, Val{nullptr, dst + k}, out[k], 8)) return DEAD;
    if(cap) if(!storeV(st, Val{nullptr, dst + std::min<uint64_t>(out.size(), cap - 1)}, Val{}, 8)) return DEAD;
    setRet(st, x, Val{nullptr, out.size()}); return NEXT; };
  def("snprintf", [this, fmt](State& st, Ins& x, std::vector<Val>& a) { conc(st, a[0], 64); conc(st, a[1], 64); return fmt(st, x, a, a[0].c, a[1].c, 2); });
  def("sprintf", [this, fmt](State& st, Ins& x, std::vector<Val>& a) { conc(st, a[0], 64); return fmt(st, x, a, a[0].c, ~0ull >> 1, 1); });
  for(auto n : {"vprintf", "vfprintf", "write_to_nowhere", "putc", "fputs_unlocked"}) def(n, zero);
  // ---- C++ ABI
  def("__dynamic_cast", [this](State& st, Ins& x, std::vector<Val>& a) { conc(st, a[0], 64); Val vp, top_, ti; if(!loadV(st, a[0], 64, vp) || !loadV(st, Val{nullptr, vp.c - 16}, 64, top_) || !loadV(st, Val{nullptr, vp.c - 8}, 64, ti)) return DEAD;
    uint64_t full = a[0].c + top_.c; std::function<uint64_t(uint64_t, uint64_t)> find = [&](uint64_t t, uint64_t at) -> uint64_t { if(t == a[2].c) return at; auto it = addrG.find(t); if(it == addrG.end()) return 0; auto* cs = it->second->hasInitializer() ? dyn_cast<ConstantStruct>(it->second->getInitializer()) : nullptr;
      if(cs && cs->getNumOperands() > 4) { for(unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { std::vector<Val> b, o; constLeaves(cs->getOperand(i), b); constLeaves(cs->getOperand(i + 1), o); int64_t off = (int64_t)o[0].c >> 8; if(o[0].c & 1) { Val vt, vo; if(!loadV(st, Val{nullptr, at}, 64, vt) || !loadV(st, Val{nullptr, vt.c + off}, 64, vo)) return 0; off = (int64_t)vo.c; } if(auto r = find(b[0].c, at + off)) return r; } return 0; }
      for(auto b : tiBases(t)) if(auto r = find(b, at)) return r; return 0; };
    setRet(st, x, Val{nullptr, find(ti.c, full)}); return NEXT; });
  def("__cxa_init_primary_exception", [this](State& st, Ins& x, std::vector<Val>& a) { auto& e = st.exc[a[0].c]; e.ti = a[1].c; e.dtor = a[2].c; e.rc = 0; e.handlers = 0; setRet(st, x, a[0]); return NEXT; });
  for(auto n : {"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}) def(n, [this](State& st, Ins&, std::vector<Val>& a) { st.exc[a[1].c].rc++; if(!storeV(st, a[0], a[1], 64)) return DEAD; return NEXT; });
  for(auto n : {"_ZSt19uncaught_exceptionsv", "_ZSt18uncaught_exceptionv"}) def(n, zero);
  def("__cxa_allocate_exception", [this](State& st, Ins& x, std::vector<Val>& a) { return doAlloc(st, x, a[0], 0); });
  def("__cxa_free_exception", [this](State& st, Ins&, std::vector<Val>& a) { return doFree(st, a[0], 0); });
  def("__cxa_throw", [this](State& st, Ins&, std::vector<Val>& a) { auto& e = st.exc[a[0].c]; e.ti = a[1].c; e.dtor = a[2].c; e.rc = 1; e.handlers = 0; return unwind(st, a[0].c); });
  def("__cxa_begin_catch", [this](State& st, Ins& x, std::vector<Val>& a) { st.th[st.cur].caught.push_back(a[0].c); st.exc[a[0].c].handlers &= 0xff; setRet(st, x, a[0]); return NEXT; });
  def("__cxa_get_exception_ptr", [this](State& st, Ins& x, std::vector<Val>& a) { setRet(st, x, a[0]); return NEXT; });
  def("__cxa_end_catch", [this](State& st, Ins&, std::vector<Val>&) { auto& t = st.th[st.cur]; if(t.caught.empty()) return NEXT; uint64_t p = t.caught.back(); t.caught.pop_back(); auto& e = st.exc[p];
    if(e.handlers & 0x100) { e.handlers &= 0xff; return NEXT; } // rethrown
    return excRelease(st, p); });
  def("__cxa_rethrow", [this](State& st, Ins&, std::vector<Val>&) { auto& t = st.th[st.cur]; if(t.caught.empty()) { violation(st, "terminate", "rethrow without exception"); return DEAD; } uint64_t p = t.caught.back(); st.exc[p].handlers |= 0x100; return unwind(st, p); });
  def("_Unwind_Resume", [this](State& st, Ins&, std::vector<Val>& a) { auto& t = st.th[st.cur]; uint32_t mark = t.fr.back()->stackMark; t.fr.pop_back(); dropStack(st, mark); return unwind(st, a[0].c); });
  def("_ZSt17current_exceptionv", [this](State& st, Ins&, std::vector<Val>& a) { auto& t = st.th[st.cur]; uint64_t p = t.caught.empty() ? 0 : t.caught.back(); if(p) st.exc[p].rc++; if(!storeV(st, a[0], Val{nullptr, p}, 64)) return DEAD; return NEXT; });
  def("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", [this](State& st, Ins&, std::vector<Val>& a) { Val p; if(!loadV(st, a[0], 64, p, true)) return DEAD; if(p.c) st.exc[p.c].rc++; return NEXT; });
  def("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", [this](State& st, Ins&, std::vector<Val>& a) { Val p; if(!loadV(st, a[0], 64, p, true)) return DEAD; if(p.c) { if(!storeV(st, a[0], Val{}, 64, true)) return DEAD; return excRelease(st, p.c); } return NEXT; });
  def("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", [this](State& st, Ins&, std::vector<Val>& a) { Val p; if(!loadV(st, a[0], 64, p, true)) return DEAD; if(!p.c) { violation(st, "terminate", "rethrow of a null exception_ptr"); return DEAD; } st.exc[p.c].rc++; return unwind(st, p.c); });
  def("__cxa_guard_acquire", [this](State& st, Ins& x, std::vector<Val>& a) { Val v; if(!loadV(st, a[0], 8, v, true)) return DEAD; setRet(st, x, Val{nullptr, v.c ? 0u : 1u}); return NEXT; });
  def("__cxa_guard_release", [this](State& st, Ins&, std::vector<Val>& a) { if(!storeV(st, a[0], Val{nullptr, 1}, 8, true)) return DEAD; return NEXT; });
  def("__cxa_guard_abort", zero);
  // ---- threads
  def("pthread_create", [this](State& st, Ins& x, std::vector<Val>& a) {
    conc(st, a[2], 64); int id = (int)st.th.size(); if(id >= 30) { ++incomplete["too many threads"]; return DEAD; }
    if(!storeV(st, a[0], Val{nullptr, (uint64_t)id}, 64, true)) return DEAD;
    setRet(st, x, Val{}); st.th[st.cur].acc.clear();
    int me = st.cur; st.th.emplace_back(); st.mem.r.resize(std::max<size_t>(st.mem.r.size(), 3 + 2 * (size_t)id)); st.cur = id; Function* F = fnTab[idxOf(a[2].c) - 1]; bool ok = enter(st, F, {a[3]}); ++info(F).cnt; st.th[id].atSync = true; st.th[id].pendKind = P_START; st.cur = me; return ok ? NEXT : DEAD; });
  def("pthread_join", [this](State& st, Ins& x, std::vector<Val>& a) { conc(st, a[0], 64); if(a[0].c >= st.th.size()) { violation(st, "threads", "join of an invalid thread"); return DEAD; } R r; if(!syncPoint(st, P_JOIN, a[0].c, 0, r)) return r; setRet(st, x, Val{}); return NEXT; });
  def("pthread_detach", zero);
  def("pthread_self", [this](State& st, Ins& x, std::vector<Val>&) { setRet(st, x, Val{nullptr, (uint64_t)st.cur}); return NEXT; });
  def("msx_forget_locks", [this](State& st, Ins& x, std::vector<Val>& a) { st.sync.clear(); return NEXT; });
  def("pthread_mutex_lock", [this](State& st, Ins& x, std::vector<Val>& a) { R r; conc(st, a[0], 64); if(!st.mem.find(a[0].c)) { violation(st, "memory", "lock of a destroyed mutex"); return DEAD; } if(recursive(st, a[0].c)) { st.sync[a[0].c].depth++; setRet(st, x, Val{}); return NEXT; } if(!syncPoint(st, P_LOCK, a[0].c, 0, r)) return r; st.sync[a[0].c].owner = st.cur; setRet(st, x, Val{}); return NEXT; });
  def("pthread_mutex_trylock", [this](State& st, Ins& x, std::vector<Val>& a) { R r; conc(st, a[0], 64); if(!syncPoint(st, P_ATOMIC, a[0].c, 0, r)) return r; auto& s = st.sync[a[0].c]; if(recursive(st, a[0].c)) { s.depth++; setRet(st, x, Val{}); } else if(s.owner < 0) { s.owner = st.cur; setRet(st, x, Val{}); } else setRet(st, x, Val{nullptr, 16}); return NEXT; });
  def("pthread_mutex_unlock", [this](State& st, Ins& x, std::vector<Val>& a) { R r; conc(st, a[0], 64); if(!st.mem.find(a[0].c)) { violation(st, "memory", "unlock of a destroyed mutex"); return DEAD; } if(auto& q = st.sync[a[0].c]; q.owner == st.cur && q.depth) { --q.depth; setRet(st, x, Val{}); return NEXT; } if(race && st.th.size() > 1 && !syncPoint(st, P_UNLOCK, a[0].c, 0, r)) return r; auto& s = st.sync[a[0].c]; if(s.owner != st.cur) { violation(st, "threads", "unlock of a mutex not held by this thread"); return DEAD; } s.owner = -1; st.th[st.cur].acc.clear(); setRet(st, x, Val{}); return NEXT; });
  def("pthread_rwlock_rdlock", [this](State& st, Ins& x, std::vector<Val>& a) { R r; if(!syncPoint(st, P_RD, a[0].c, 0, r)) return r; st.sync[a[0].c].readers++; setRet(st, x, Val{}); return NEXT; });
  def("pthread_rwlock_wrlock", [this](State& st, Ins& x, std::vector<Val>& a) { R r; if(!syncPoint(st, P_WR, a[0].c, 0, r)) return r; st.sync[a[0].c].owner = st.cur; setRet(st, x, Val{}); return NEXT; });
  def("pthread_rwlock_unlock", [this](State& st, Ins& x, std::vector<Val>& a) { R r; if(race && st.th.size() > 1 && !syncPoint(st, P_RWUN, a[0].c, 0, r)) return r; auto& s = st.sync[a[0].c]; if(s.owner == st.cur) s.owner = -1; else if(s.readers > 0) s.readers--; else { violation(st, "threads", "unlock of an rwlock not held"); return DEAD; } setRet(st, x, Val{}); return NEXT; });
  def("pthread_cond_wait", [this](State& st, Ins& x, std::vector<Val>& a) {
    auto& t = st.th[st.cur]; R r;
    if(t.stage == 0) { if(!syncPoint(st, P_WAIT, a[0].c, a[1].c, r)) return r; auto& s = st.sync[a[1].c]; if(s.owner != st.cur) { violation(st, "threads", "condition wait without holding the mutex"); return DEAD; } s.owner = -1; t.acc.clear(); t.stage = 1; t.st = T_COND; t.pendA = a[0].c; t.pendB = a[1].c; return schedule(st); }
    // woken: reacquire
    if(!syncPoint(st, P_LOCK, a[1].c, 0, r)) return r;
    st.th[st.cur].stage = 0; st.sync[a[1].c].owner = st.cur; setRet(st, x, Val{}); return NEXT; });
  auto wake = [this](State& st, int i) { auto& t = st.th[i]; t.st = T_RUN; t.atSync = true; t.pendKind = P_LOCK; t.pendA = t.pendB; t.stage = 2; };
  def("pthread_cond_signal", [this, wake](State& st, Ins& x, std::vector<Val>& a) { R r; if(!syncPoint(st, P_SIGNAL, a[0].c, 0, r)) return r; setRet(st, x, Val{}); std::vector<int> w; for(size_t i = 0; i < st.th.size(); ++i) if(st.th[i].st == T_COND && st.th[i].pendA == a[0].c) w.push_back((int)i);
    if(w.empty()) return NEXT;
    for(size_t k = 1; k < w.size(); ++k) { State* s = clone(st); wake(*s, w[k]); s->sched.push_back(1000 + w[k]); advance(top(*s)); push(s); }
    if(w.size() > 1) st.sched.push_back(1000 + w[0]); wake(st, w[0]); return NEXT; });
  def("pthread_cond_broadcast", [this, wake](State& st, Ins& x, std::vector<Val>& a) { R r; if(!syncPoint(st, P_SIGNAL, a[0].c, 0, r)) return r; setRet(st, x, Val{}); for(size_t i = 0; i < st.th.size(); ++i) if(st.th[i].st == T_COND && st.th[i].pendA == a[0].c) wake(st, (int)i); return NEXT; });
}
R excRelease(State& st, uint64_t p) {
  auto& e = st.exc[p]; if(--e.rc > 0) return NEXT;
  uint64_t d = e.dtor; st.exc.erase(p);
  if(d) { Function* F = fnTab[idxOf(d) - 1]; if(!F->isDeclaration()) { ++info(F).cnt; return enter(st, F, {Val{nullptr, p}}) ? STAY : DEAD; } }
  return NEXT;
}
