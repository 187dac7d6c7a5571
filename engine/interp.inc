// Instruction interpreter (member functions of Engine).
Val cmpV(unsigned pred, Val const& a, Val const& b, unsigned w) {
  auto neg = [&](Val v) { return v.e ? mkv(C.Not(v.e)) : Val{nullptr, v.c ^ 1}; };
  switch(pred) {
    case CmpInst::ICMP_EQ: return bop(EQ, a, b, w); case CmpInst::ICMP_NE: return neg(bop(EQ, a, b, w));
    case CmpInst::ICMP_ULT: return bop(ULT, a, b, w); case CmpInst::ICMP_ULE: return bop(ULE, a, b, w);
    case CmpInst::ICMP_UGT: return bop(ULT, b, a, w); case CmpInst::ICMP_UGE: return bop(ULE, b, a, w);
    case CmpInst::ICMP_SLT: return bop(SLT, a, b, w); case CmpInst::ICMP_SLE: return bop(SLE, a, b, w);
    case CmpInst::ICMP_SGT: return bop(SLT, b, a, w); case CmpInst::ICMP_SGE: return bop(SLE, b, a, w);
    default: abort();
  }
}
static double asD(uint64_t v, unsigned w) { if(w == 32) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if(w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t v; memcpy(&v, &d, 8); return v; }
R unsupported(State& st, std::string const& what) { ++incomplete["unsupported: " + what + " at " + where(st)]; return DEAD; }
Val iteV(Val const& c, Val const& a, Val const& b, unsigned w) { if(!c.e) return c.c ? a : b; return mkv(C.ite(c.e, ex(a, w), ex(b, w))); }
Val castV(Val const& v, unsigned sw, unsigned dw, bool sgn) {
  if(!v.e) { uint64_t c = v.c & maskw(sw); if(dw > sw && sgn) c = (uint64_t)sx(c, sw); return Val{nullptr, c & maskw(dw)}; }
  if(dw == sw) return v; if(dw < sw) return mkv(C.extract(v.e, 0, dw)); return mkv(sgn ? C.sext(v.e, dw) : C.zext(v.e, dw));
}

R step(State& st) {
  Frame& f = top(st); Ins& x = f.fn->code[f.ip]; ++insts;
  switch(x.opc) {
    case Instruction::Ret: { std::vector<Val> v; if(!x.ops.empty()) for(unsigned k = 0; k < x.ops[0].n; ++k) v.push_back(get(f, x.ops[0], k)); return ret(st, v); }
    case Instruction::Br: {
      if(x.t1 < 0) { jump(f, x.blk, x.t0); return STAY; }
      Val c = get(f, x.ops[0]);
      if(!c.e) { jump(f, x.blk, c.c & 1 ? x.t0 : x.t1); return STAY; }
      int blk = x.blk, t0 = x.t0, t1 = x.t1;
      bool v = branch(st, c.e, [&](State& s, bool b) { jump(top(s), blk, b ? t0 : t1); });
      if(forked && splitDrop(st)) { ++dropped; return DEAD; }
      jump(top(st), blk, v ? t0 : t1); return STAY; }
    case Instruction::Switch: {
      Val c = get(f, x.ops[0]);
      if(!c.e) { int t = x.t0; for(auto& p : x.cases) if((p.first & maskw(x.w)) == (c.c & maskw(x.w))) { t = p.second; break; } jump(f, x.blk, t); return STAY; }
      std::map<int, E> by; std::vector<int> order; E none = C.tru();
      for(auto& p : x.cases) { E e = C.bin(EQ, c.e, C.cst(p.first, x.w)); if(e->op == CONST && !e->c) continue; none = C.bin(AND, none, C.Not(e)); auto it = by.find(p.second); if(it == by.end()) { by[p.second] = e; order.push_back(p.second); } else it->second = C.bin(OR, it->second, e); }
      { auto it = by.find(x.t0); if(it == by.end()) { by[x.t0] = none; order.push_back(x.t0); } else it->second = C.bin(OR, it->second, none); }
      grow(st); int mine = -1; for(int t : order) if(C.eval(by[t], st.model)) { mine = t; break; }
      int blk = x.blk; bool fk = false;
      std::vector<std::pair<int, Model>> sibs;
      for(int t : order) if(t != mine) { if(by[t]->op == CONST && !by[t]->c) continue; Model m = st.model; auto r = S.check(st.pc, by[t], &m); if(r == Solver::UNKNOWN) ++incomplete["solver unknown at switch " + where(st)]; if(r == Solver::SAT) sibs.push_back({t, m}); }
      for(auto& p : sibs) { State* s = clone(st); s->model = p.second; addPC(*s, by[p.first]); ++s->depth; s->splitcode = s->splitcode * 31 + (uint64_t)p.first + 7; jump(top(*s), blk, p.first); push(s); fk = true; }
      if(fk) { addPC(st, by[mine]); ++st.depth; st.splitcode = st.splitcode * 31 + (uint64_t)mine + 7; if(splitDrop(st)) { ++dropped; return DEAD; } }
      jump(top(st), blk, mine); return STAY; }
    case Instruction::Load: {
      Val a = get(f, x.ops[0]);
      if(x.pred) { R r; if(!atomicPoint(st, a, r)) return r; }
      for(size_t i = 0; i < x.lv.size(); ++i) {
        if(x.lv[i].w > 64) return unsupported(st, "wide load");
        Val ai = x.lv[i].off ? bop(ADD, a, Val{nullptr, x.lv[i].off}, 64) : a; Val v; if(!loadV(st, ai, x.lv[i].w, v, x.pred)) return DEAD; top(st).regs[x.dst + i] = v; }
      break; }
    case Instruction::Store: {
      Val a = get(f, x.ops[1]);
      if(x.pred) { R r; if(!atomicPoint(st, a, r)) return r; }
      for(size_t i = 0; i < x.lv.size(); ++i) {
        if(x.lv[i].w > 64) return unsupported(st, "wide store");
        Val ai = x.lv[i].off ? bop(ADD, a, Val{nullptr, x.lv[i].off}, 64) : a; if(!storeV(st, ai, get(top(st), x.ops[0], (unsigned)i), x.lv[i].w, x.pred)) return DEAD; }
      break; }
    case Instruction::Alloca: {
      Val n = get(f, x.ops[0]); conc(st, n, 64); Obj* o = alloc(st, (uint64_t)x.off * n.c, OK_STACK); if(!o) return DEAD; top(st).regs[x.dst] = Val{nullptr, o->base}; break; }
    case Instruction::GetElementPtr: {
      Val a = get(f, x.ops[0]); if(x.off) a = bop(ADD, a, Val{nullptr, (uint64_t)x.off}, 64);
      for(auto& g : x.gi) { Val i = castV(get(f, g.o), g.w, 64, true); if(g.scale != 1) i = bop(MUL, i, Val{nullptr, (uint64_t)g.scale}, 64); a = bop(ADD, a, i, 64); }
      f.regs[x.dst] = a; break; }
    case Instruction::ICmp: for(unsigned k = 0; k < x.n; ++k) { if(x.sw > 64) return unsupported(st, "wide icmp"); f.regs[x.dst + k] = cmpV(x.pred, get(f, x.ops[0], k), get(f, x.ops[1], k), x.sw); } break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Op op; switch(x.opc) { case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break; case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break; case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; default: op = ASHR; }
      if(x.w > 64) return unsupported(st, "wide arithmetic");
      for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = bop(op, get(f, x.ops[0], k), get(f, x.ops[1], k), x.w); break; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Op op = x.opc == Instruction::UDiv ? UDIV : x.opc == Instruction::SDiv ? SDIV : x.opc == Instruction::URem ? UREM : SREM;
      if(x.w > 64) return unsupported(st, "wide division");
      for(unsigned k = 0; k < x.n; ++k) {
        Val b = get(f, x.ops[1], k);
        if(b.e) { E z = C.bin(EQ, b.e, C.cst(0, x.w)); Model m; if(may(st, z, &m)) { violation(st, "ub", "division by zero", m); addPC(st, C.Not(z)); if(stop) return DEAD; } }
        else if((b.c & maskw(x.w)) == 0) { violation(st, "ub", "division by zero"); return DEAD; }
        f.regs[x.dst + k] = bop(op, get(f, x.ops[0], k), b, x.w); }
      break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: if(x.w > 64 || x.sw > 64) return unsupported(st, "wide cast"); for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = castV(get(f, x.ops[0], k), x.sw, x.w, false); break;
    case Instruction::SExt: for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = castV(get(f, x.ops[0], k), x.sw, x.w, true); break;
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
      if(x.ops[0].n == x.n) { for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = get(f, x.ops[0], k); break; }
      if(x.n == 1 && x.w <= 64) { E r = nullptr; for(unsigned k = 0; k < x.ops[0].n; ++k) { E v = ex(get(f, x.ops[0], k), x.sw); r = r ? C.concat(v, r) : v; } f.regs[x.dst] = mkv(r); break; }
      if(x.ops[0].n == 1 && x.sw <= 64) { Val v = get(f, x.ops[0]); for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = mkv(C.extract(ex(v, x.sw), k * x.w, x.w)); break; }
      return unsupported(st, "bitcast");
    case Instruction::Select: {
      if(x.pred && x.n == 1) { Val c = get(f, x.ops[0]); if(c.e) { Val p = get(f, x.ops[1]), q = get(f, x.ops[2]); if(p.e != q.e || p.c != q.c) conc(st, c, 1); } Frame& g = top(st); g.regs[x.dst] = iteV(c, get(g, x.ops[1]), get(g, x.ops[2]), flatW(x, 0)); break; }
      for(unsigned k = 0; k < x.n; ++k) { Val c = get(f, x.ops[0], x.ops[0].n > 1 ? k : 0); unsigned w = flatW(x, k); f.regs[x.dst + k] = iteV(c, get(f, x.ops[1], k), get(f, x.ops[2], k), w); } break; }
    case Instruction::ExtractValue: for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = get(f, x.ops[0], x.soff + k); break;
    case Instruction::InsertValue: for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = (k >= x.soff && k < x.soff + x.ops[1].n) ? get(f, x.ops[1], k - x.soff) : get(f, x.ops[0], k); break;
    case Instruction::ExtractElement: { Val i = get(f, x.ops[1]); if(i.e) return unsupported(st, "symbolic extractelement"); f.regs[x.dst] = get(f, x.ops[0], (unsigned)i.c); break; }
    case Instruction::InsertElement: { Val i = get(f, x.ops[2]); if(i.e) return unsupported(st, "symbolic insertelement"); for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = k == i.c ? get(f, x.ops[1]) : get(f, x.ops[0], k); break; }
    case Instruction::ShuffleVector: { std::vector<Val> r; unsigned n0 = x.ops[0].n; for(unsigned m : x.path) r.push_back((int)m < 0 ? Val{} : m < n0 ? get(f, x.ops[0], m) : get(f, x.ops[1], m - n0)); for(unsigned k = 0; k < x.n; ++k) f.regs[x.dst + k] = r[k]; break; }
    case Instruction::Call: case Instruction::Invoke: return call(st, f, x);
    case Instruction::LandingPad: { auto& t = st.th[st.cur]; f.regs[x.dst] = Val{nullptr, t.inflight}; f.regs[x.dst + 1] = t.retv; t.inflight = 0; break; }
    case Instruction::Resume: { Val p = get(f, x.ops[0]); auto& t = st.th[st.cur]; uint32_t mark = t.fr.back()->stackMark; t.fr.pop_back(); dropStack(st, mark); if(t.fr.empty()) { violation(st, "uncaught-exception", "exception escapes a thread"); return DEAD; } return unwind(st, p.c); }
    case Instruction::Unreachable: violation(st, "unreachable", "unreachable code reached (undefined behaviour or failed noreturn)"); return DEAD;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
      Val a = get(f, x.ops[0]); R r; if(!atomicPoint(st, a, r)) return r; unsigned w = x.lv[0].w; Val o; if(!loadV(st, a, w, o, true)) return DEAD; Val b = get(top(st), x.ops[1]), nv;
      switch(x.pred) { case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = bop(ADD, o, b, w); break; case AtomicRMWInst::Sub: nv = bop(SUB, o, b, w); break; case AtomicRMWInst::And: nv = bop(AND, o, b, w); break; case AtomicRMWInst::Or: nv = bop(OR, o, b, w); break; case AtomicRMWInst::Xor: nv = bop(XOR, o, b, w); break; default: return unsupported(st, "atomicrmw"); }
      if(!storeV(st, a, nv, w, true)) return DEAD; top(st).regs[x.dst] = o; break; }
    case Instruction::AtomicCmpXchg: {
      Val a = get(f, x.ops[0]); R r; if(!atomicPoint(st, a, r)) return r; unsigned w = x.lv[0].w; Val o; if(!loadV(st, a, w, o, true)) return DEAD; Val eq = bop(EQ, o, get(top(st), x.ops[1]), w);
      Val nv = iteV(eq, get(top(st), x.ops[2]), o, w); if(!storeV(st, a, nv, w, true)) return DEAD; top(st).regs[x.dst] = o; top(st).regs[x.dst + 1] = eq; break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      for(unsigned k = 0; k < x.n; ++k) { Val a = get(top(st), x.ops[0], k), b = get(top(st), x.ops[1], k); conc(st, a, x.w); conc(st, b, x.w); double p = asD(a.c, x.w), q = asD(b.c, x.w), r = x.opc == Instruction::FAdd ? p + q : x.opc == Instruction::FSub ? p - q : x.opc == Instruction::FMul ? p * q : p / q; top(st).regs[x.dst + k] = Val{nullptr, fromD(r, x.w)}; } break; }
    case Instruction::FNeg: { Val a = get(f, x.ops[0]); conc(st, a, x.w); top(st).regs[x.dst] = Val{nullptr, fromD(-asD(a.c, x.w), x.w)}; break; }
    case Instruction::SIToFP: case Instruction::UIToFP: { Val a = get(f, x.ops[0]); conc(st, a, x.sw); double d = x.opc == Instruction::SIToFP ? (double)sx(a.c, x.sw) : (double)(a.c & maskw(x.sw)); top(st).regs[x.dst] = Val{nullptr, fromD(d, x.w)}; break; }
    case Instruction::FPToSI: case Instruction::FPToUI: { Val a = get(f, x.ops[0]); conc(st, a, x.sw); double d = asD(a.c, x.sw); top(st).regs[x.dst] = Val{nullptr, (x.opc == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(x.w)}; break; }
    case Instruction::FPExt: case Instruction::FPTrunc: { Val a = get(f, x.ops[0]); conc(st, a, x.sw); top(st).regs[x.dst] = Val{nullptr, fromD(asD(a.c, x.sw), x.w)}; break; }
    case Instruction::FCmp: { Val a = get(f, x.ops[0]), b = get(f, x.ops[1]); conc(st, a, x.sw); conc(st, b, x.sw); double p = asD(a.c, x.sw), q = asD(b.c, x.sw); bool un = p != p || q != q, r = false;
      switch(x.pred) { case CmpInst::FCMP_OEQ: r = p == q; break; case CmpInst::FCMP_OGT: r = p > q; break; case CmpInst::FCMP_OGE: r = p >= q; break; case CmpInst::FCMP_OLT: r = p < q; break; case CmpInst::FCMP_OLE: r = p <= q; break; case CmpInst::FCMP_ONE: r = !un && p != q; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || p == q; break; case CmpInst::FCMP_UGT: r = un || p > q; break; case CmpInst::FCMP_UGE: r = un || p >= q; break; case CmpInst::FCMP_ULT: r = un || p < q; break; case CmpInst::FCMP_ULE: r = un || p <= q; break; case CmpInst::FCMP_UNE: r = un || p != q; break; case CmpInst::FCMP_TRUE: r = true; break; default: break; }
      top(st).regs[x.dst] = Val{nullptr, r}; break; }
    default: return unsupported(st, std::string("instruction ") + x.I->getOpcodeName());
  }
  ++top(st).ip; return STAY;
}
unsigned flatW(Ins& x, unsigned k) { return flat(x.I->getType())[k].w; }
bool atomicPoint(State& st, Val& a, R& r) {
  if(st.th.size() < 2) return true;
  conc(st, a, 64);
  return syncPoint(st, P_ATOMIC, a.c, 0, r);
}

R call(State& st, Frame& f, Ins& x) {
  if(x.iid) return intrinsic(st, f, x);
  Function* F = x.callee;
  std::vector<Val> args; for(size_t i = 0; i + 1 < x.ops.size(); ++i) for(unsigned k = 0; k < x.ops[i].n; ++k) args.push_back(get(f, x.ops[i], k));
  int b = x.builtin;
  if(!F) {
    Val p = get(f, x.ops.back()); conc(st, p, 64);
    uint64_t ix = idxOf(p.c); if(regionOf(p.c) != 63 || ix == 0 || ix > fnTab.size() || (p.c & ((1ull << OFFBITS) - 1))) { violation(st, "memory", "call through an invalid function pointer"); return DEAD; }
    F = fnTab[ix - 1];
    if(F->isDeclaration()) { auto it = btab.find(F->getName().str()); if(it != btab.end()) b = it->second; }
  }
  if(b >= 0) {
    R r = bfn[b](st, x, args);
    if(r == NEXT) { advance(top(st)); return STAY; }
    return r;
  }
  if(F->isDeclaration()) { ++incomplete["unmodelled external function " + llvm::demangle(F->getName().str()) + " called from " + where(st)]; return DEAD; }
  ++info(F).cnt;
  return enter(st, F, args) ? STAY : DEAD;
}
void setRet(State& st, Ins& x, Val v) { if(x.dst >= 0) top(st).regs[x.dst] = v; }

bool copyBytes(State& st, Val d, Val s, Val n, bool& died) {
  died = true;
  if(n.e && n.e->hi > 512) { conc(st, n, 64); }
  uint64_t mx = n.e ? n.e->hi : n.c; if(mx == 0) { died = false; return true; }
  if(n.e) { // symbolic length with a small bound
    conc(st, d, 64); conc(st, s, 64);
    Obj* od = st.mem.find(d.c); Obj* os = st.mem.find(s.c);
    E zero = C.bin(EQ, n.e, C.cst(0, 64));
    if(!od || !os) { if(may(st, C.Not(zero), nullptr)) { violation(st, "memory", "memcpy through an invalid pointer"); return false; } died = false; return true; }
    uint64_t av = std::min(od->base + od->size - d.c, os->base + os->size - s.c);
    if(av < mx) { E ok = C.bin(ULE, n.e, C.cst(av, 64)); Model m; if(may(st, C.Not(ok), &m)) { violation(st, "memory", "memcpy out of bounds", m); return false; } mx = av; }
    std::vector<Val> src; for(uint64_t i = 0; i < mx; ++i) src.push_back(rdAt(os, s.c - os->base + i, 8));
    Obj* w = st.mem.wr(od->base); if(w->ro) { violation(st, "memory", "write to constant memory"); return false; }
    for(uint64_t i = 0; i < mx; ++i) { E c = C.bin(ULT, C.cst(i, 64), n.e); uint64_t off = d.c - w->base + i; wrAt(w, off, iteV(mkv(c), src[i], rdAt(w, off, 8), 8), 8); }
    died = false; return true;
  }
  Obj *os, *od; Val so, dof;
  if(!resolve(st, s, n.c, os, so, "memcpy source")) return false;
  if(!resolve(st, d, n.c, od, dof, "memcpy destination")) return false;
  if(od->ro) { violation(st, "memory", "write to constant memory"); return false; }
  if(!s.e) { note(st, s.c, (unsigned)n.c, false); if(st.steps == ~0ull) return false; }
  if(!d.e) { note(st, d.c, (unsigned)n.c, true); if(st.steps == ~0ull) return false; }
  if(!so.e && !dof.e) {
    IPtr<Obj> keep(os); Obj* w = st.mem.wr(od->base); Obj* src = (os == od || os->base == w->base) ? w : os; (void)src;
    if(keep->base == w->base) { std::vector<Val> t; for(uint64_t i = 0; i < n.c; ++i) t.push_back(rdAt(w, so.c + i, 8)); for(uint64_t i = 0; i < n.c; ++i) wrAt(w, dof.c + i, t[i], 8); }
    else { memcpy(w->b.data() + dof.c, keep->b.data() + so.c, n.c); if(!keep->s.empty()) { if(w->s.empty()) w->s.assign(w->size, nullptr); for(uint64_t i = 0; i < n.c; ++i) w->s[dof.c + i] = keep->s[so.c + i]; } else if(!w->s.empty()) for(uint64_t i = 0; i < n.c; ++i) w->s[dof.c + i] = nullptr; }
  } else {
    std::vector<Val> t; for(uint64_t i = 0; i < n.c; ++i) { Val v; if(!rd(st, os, bop(ADD, so, Val{nullptr, i}, 64), 8, v)) return false; t.push_back(v); }
    Obj* w = st.mem.wr(od->base); for(uint64_t i = 0; i < n.c; ++i) if(!wr(st, w, bop(ADD, dof, Val{nullptr, i}, 64), t[i], 8)) return false;
  }
  died = false; return true;
}
bool setBytes(State& st, Val d, Val c, Val n) {
  if(n.e && n.e->hi > 512) conc(st, n, 64);
  if(n.e) { conc(st, d, 64); Obj* o = st.mem.find(d.c); uint64_t mx = n.e->hi; if(!o) { violation(st, "memory", "memset through invalid pointer"); return false; }
    uint64_t av = o->base + o->size - d.c; if(av < mx) { Model m; if(may(st, C.Not(C.bin(ULE, n.e, C.cst(av, 64))), &m)) { violation(st, "memory", "memset out of bounds", m); return false; } mx = av; }
    Obj* w = st.mem.wr(o->base); for(uint64_t i = 0; i < mx; ++i) { uint64_t off = d.c - w->base + i; wrAt(w, off, iteV(mkv(C.bin(ULT, C.cst(i, 64), n.e)), c, rdAt(w, off, 8), 8), 8); } return true; }
  if(n.c == 0) return true;
  Obj* o; Val off; if(!resolve(st, d, n.c, o, off, "memset")) return false;
  if(!d.e) { note(st, d.c, (unsigned)n.c, true); if(st.steps == ~0ull) return false; }
  Obj* w = st.mem.wr(o->base); for(uint64_t i = 0; i < n.c; ++i) if(!wr(st, w, bop(ADD, off, Val{nullptr, i}, 64), c, 8)) return false; return true;
}
R intrinsic(State& st, Frame& f, Ins& x) {
  auto A = [&](unsigned i, unsigned k = 0) { return get(top(st), x.ops[i], k); };
  unsigned w = x.w;
  auto set = [&](unsigned k, Val v) { top(st).regs[x.dst + k] = v; };
  auto done = [&]() { advance(top(st)); return STAY; };
  (void)f;
  switch(x.iid) {
    case 999999: return done(); // inline asm (compiler barriers)
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { bool died; if(!copyBytes(st, A(0), A(1), A(2), died)) return DEAD; return done(); }
    case Intrinsic::memset: case Intrinsic::memset_inline: if(!setBytes(st, A(0), A(1), A(2))) return DEAD; return done();
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: set(0, A(0)); return done();
    case Intrinsic::is_constant: set(0, Val{}); return done();
    case Intrinsic::objectsize: set(0, Val{nullptr, ~0ull & maskw(w)}); return done();
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: for(unsigned k = 0; k < x.n; ++k) { Val a = A(0, k), b = A(1, k); Val c = bop(x.iid == Intrinsic::smax || x.iid == Intrinsic::smin ? SLT : ULT, a, b, w); bool mn = x.iid == Intrinsic::smin || x.iid == Intrinsic::umin; set(k, mn ? iteV(c, a, b, w) : iteV(c, b, a, w)); } return done();
    case Intrinsic::abs: { Val a = A(0); set(0, iteV(bop(SLT, a, Val{}, w), bop(SUB, Val{}, a, w), a, w)); return done(); }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1); set(0, iteV(bop(ULT, a, b, w), Val{}, bop(SUB, a, b, w), w)); return done(); }
    case Intrinsic::uadd_sat: { Val a = A(0), b = A(1), s = bop(ADD, a, b, w); set(0, iteV(bop(ULT, s, a, w), Val{nullptr, maskw(w)}, s, w)); return done(); }
    case Intrinsic::uadd_with_overflow: { unsigned v = x.sw; Val s = bop(ADD, A(0), A(1), v); Val o = bop(ULT, s, A(0), v); set(0, s); set(1, o); return done(); }
    case Intrinsic::usub_with_overflow: { unsigned v = x.sw; Val o = bop(ULT, A(0), A(1), v); Val s = bop(SUB, A(0), A(1), v); set(0, s); set(1, o); return done(); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { unsigned v = x.sw; Val a = A(0), b = A(1); bool ad = x.iid == Intrinsic::sadd_with_overflow; Val s = bop(ad ? ADD : SUB, a, b, v); Val t = ad ? bop(AND, bop(XOR, s, a, v), bop(XOR, s, b, v), v) : bop(AND, bop(XOR, a, b, v), bop(XOR, s, a, v), v); set(0, s); set(1, bop(SLT, t, Val{}, v)); return done(); }
    case Intrinsic::umul_with_overflow: { unsigned v = x.sw; Val a = A(0), b = A(1); Val p = bop(MUL, a, b, v), o;
      if(!a.e && !b.e) { unsigned __int128 q = (unsigned __int128)(a.c & maskw(v)) * (b.c & maskw(v)); o = Val{nullptr, q > maskw(v)}; }
      else if(!b.e || !a.e) { Val k = b.e ? a : b, y = b.e ? b : a; o = k.c ? bop(ULT, Val{nullptr, maskw(v) / k.c}, y, v) : Val{}; }
      else return unsupported(st, "umul.with.overflow symbolic");
      set(0, p); set(1, o); return done(); }
    case Intrinsic::ctpop: { Val a = A(0); if(!a.e) set(0, Val{nullptr, (uint64_t)__builtin_popcountll(a.c & maskw(w))}); else { E r = C.cst(0, w); for(unsigned i = 0; i < w; ++i) r = C.bin(ADD, r, C.zext(C.extract(a.e, i, 1), w)); set(0, mkv(r)); } return done(); }
    case Intrinsic::ctlz: case Intrinsic::cttz: { Val a = A(0); bool lz = x.iid == Intrinsic::ctlz; if(!a.e) { uint64_t v = a.c & maskw(w); uint64_t r = v ? (lz ? (uint64_t)__builtin_clzll(v) - (64 - w) : (uint64_t)__builtin_ctzll(v)) : w; set(0, Val{nullptr, r}); } else { E r = C.cst(w, w); for(unsigned i = 0; i < w; ++i) { unsigned bit = lz ? i : w - 1 - i; r = C.ite(C.bin(EQ, C.extract(a.e, bit, 1), C.cst(1, 1)), C.cst(lz ? w - 1 - bit : bit, w), r); } set(0, mkv(r)); } return done(); }
    case Intrinsic::bswap: { Val a = A(0); E r = nullptr; E e = ex(a, w); for(unsigned i = 0; i < w / 8; ++i) { E b = C.extract(e, i * 8, 8); r = r ? C.concat(r, b) : b; } set(0, mkv(r)); return done(); }
    case Intrinsic::fshl: case Intrinsic::fshr: { Val c = A(2); if(c.e) return unsupported(st, "symbolic funnel shift"); unsigned s = (unsigned)(c.c % w); Val a = A(0), b = A(1); bool l = x.iid == Intrinsic::fshl; if(s == 0) set(0, l ? a : b); else { unsigned ls = l ? s : w - s; set(0, bop(OR, bop(SHL, a, Val{nullptr, ls}, w), bop(LSHR, b, Val{nullptr, w - ls}, w), w)); } return done(); }
    case Intrinsic::eh_typeid_for: { Val a = A(0); set(0, Val{nullptr, (uint64_t)typeId(a.c)}); return done(); }
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation(st, "trap", "trap reached"); return DEAD;
    case Intrinsic::stacksave: set(0, Val{nullptr, 1}); return done();
    case Intrinsic::stackrestore: return done();
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: { Op op = x.iid == Intrinsic::vector_reduce_or ? OR : x.iid == Intrinsic::vector_reduce_and ? AND : ADD; Val r = A(0, 0); for(unsigned k = 1; k < x.ops[0].n; ++k) r = bop(op, r, A(0, k), w); set(0, r); return done(); }
    default: return unsupported(st, "intrinsic " + (x.callee ? x.callee->getName().str() : std::string("?")));
  }
}
