// msx: symbolic executor for LLVM 18 bitcode, deciding branch feasibility and assertions with Z3.
#include "expr.hpp"
#include "solver.hpp"
#include "state.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <chrono>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
namespace msx {

struct Leaf { uint32_t off; uint16_t w; };
struct Opd { int slot = -1; uint16_t n = 1; std::vector<Val> c; };
struct GepIx { Opd o; int64_t scale; unsigned w; };
struct Ins {
  unsigned opc = 0; int dst = -1; unsigned n = 0; unsigned w = 0, sw = 0; unsigned pred = 0;
  std::vector<Opd> ops; std::vector<Leaf> lv; int64_t off = 0; std::vector<GepIx> gi;
  int t0 = -1, t1 = -1; std::vector<std::pair<uint64_t, int>> cases; int blk = 0;
  std::vector<unsigned> path; unsigned soff = 0;
  const Instruction* I = nullptr; Function* callee = nullptr; unsigned iid = 0; int builtin = -1; int vaslot = -1;
};
struct Phi { int dst; unsigned n; std::map<int, Opd> in; };
struct Blk { uint32_t start; std::vector<Phi> phis; std::vector<int> succ; };
struct FnInfo {
  Function* F = nullptr; bool compiled = false;
  std::vector<Ins> code; std::vector<Blk> blk; unsigned nslots = 0; std::vector<unsigned> argSlot, argN;
  uint64_t cnt = 0; std::string file, name; unsigned line = 0;
  // liveness
  bool liveDone = false; std::vector<std::vector<bool>> liveOut; std::map<uint32_t, std::vector<bool>> liveAt;
};

struct Viol { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, std::vector<uint64_t>>> in; std::vector<unsigned> inBytes; std::vector<int> sched; std::vector<std::string> trace; std::vector<uint64_t> obs; };

enum R { NEXT, STAY, DEAD }; // advance / state moved itself or must be re-run / state is finished
enum PK { P_START = 1, P_LOCK, P_UNLOCK, P_JOIN, P_SIGNAL, P_WAIT, P_RD, P_WR, P_RWUN, P_ATOMIC, P_YIELD };

struct Engine {
  LLVMContext lc; std::unique_ptr<Module> M; const DataLayout* DL = nullptr;
  Ctx C; Solver S{C};
  // options
  double maxTime = 600; uint64_t maxSteps = 20000000; uint64_t maxPaths = ~0ull; bool reuse = false; bool race = true; bool oneSchedule = false; unsigned maxViol = 1; bool checkMem = true;
  unsigned splitI = 0, splitN = 1, splitD = 8; unsigned sampleMax = 8; uint64_t maxForkVals = 600; bool dedupe = true; bool mergeOn = true; uint64_t spurious = 0; double memLimitGB = 0;
  std::string entry, outFile; std::string repoPrefix = "/repo/"; bool quiet = false; int preempt = -1;
  // program
  std::map<Function*, FnInfo> fns; std::vector<Function*> fnTab; std::map<const GlobalValue*, uint64_t> gaddr; std::map<uint64_t, const GlobalVariable*> addrG;
  std::map<std::string, int> btab; std::vector<std::function<R(State&, Ins&, std::vector<Val>&)>> bfn; std::vector<std::string> bname;
  State init0;
  // exploration
  std::vector<State*> work; struct Key { uint64_t mc; std::vector<uint64_t> sig; bool operator<(Key const& o) const { return mc != o.mc ? mc < o.mc : sig < o.sig; } };
  std::map<Key, std::vector<State*>> parked;
  std::unordered_map<uint64_t, std::vector<uint64_t>> visited;
  std::map<std::pair<std::string, unsigned>, std::shared_ptr<Input>> inputTab;
  std::vector<Viol> viol; std::map<std::string, uint64_t> reach; std::map<std::string, uint64_t> incomplete; std::set<std::string> violKeys;
  std::vector<Viol> samples; std::map<std::string, int> typeids;
  uint64_t paths = 0, forks = 0, merges = 0, mergedStates = 0, insts = 0, dropped = 0, schedPoints = 0, assertsChecked = 0, assertQ = 0, killed = 0, maxLive = 0;
  std::map<std::string, uint64_t> forkAt;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  bool stop = false;

  // ------------------------------------------------------------------ values
  E ex(Val const& v, unsigned w) { return v.e ? v.e : C.cst(v.c, w); }
  Val mkv(E e) { if(e->op == CONST) return Val{nullptr, e->c}; return Val{e, 0}; }
  Val bop(Op op, Val const& a, Val const& b, unsigned w) {
    if(!a.e && !b.e) return Val{nullptr, Ctx::fold(op, a.c & maskw(w), b.c & maskw(w), w)};
    return mkv(C.bin(op, ex(a, w), ex(b, w)));
  }
  void flatten(Type* T, uint64_t off, std::vector<Leaf>& out) {
    if(auto* st = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if(auto* at = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for(uint64_t i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * es, out); return; }
    if(auto* vt = dyn_cast<FixedVectorType>(T)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for(unsigned i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), off + i * es, out); return; }
    if(T->isVoidTy()) return;
    if(T->isPointerTy()) { out.push_back({(uint32_t)off, 64}); return; }
    out.push_back({(uint32_t)off, (uint16_t)DL->getTypeSizeInBits(T)});
  }
  std::vector<Leaf> flat(Type* T) { std::vector<Leaf> v; flatten(T, 0, v); return v; }
  unsigned nleaf(Type* T) { return (unsigned)flat(T).size(); }
  uint64_t fnAddr(Function* F) { auto it = gaddr.find(F); if(it != gaddr.end()) return it->second; fnTab.push_back(F); uint64_t a = mkaddr(63, fnTab.size()); gaddr[F] = a; return a; }
  uint64_t gvAddr(const GlobalValue* G) {
    if(auto* A = dyn_cast<GlobalAlias>(G)) { auto* b = A->getAliaseeObject(); std::vector<Val> v; constLeaves(A->getAliasee(), v); (void)b; return v[0].c; }
    if(auto* F = dyn_cast<Function>(G)) return fnAddr(const_cast<Function*>(F));
    auto it = gaddr.find(G); if(it == gaddr.end()) { errs() << "no address for global " << G->getName() << "\n"; exit(3); }
    return it->second;
  }
  void constLeaves(const Constant* K, std::vector<Val>& out) {
    if(auto* ci = dyn_cast<ConstantInt>(K)) { if(ci->getBitWidth() <= 64) out.push_back({nullptr, ci->getZExtValue()}); else out.push_back({nullptr, ci->getValue().trunc(64).getZExtValue()}); return; }
    if(auto* cf = dyn_cast<ConstantFP>(K)) { auto b = cf->getValueAPF().bitcastToAPInt(); out.push_back({nullptr, b.getBitWidth() <= 64 ? b.getZExtValue() : 0}); return; }
    if(isa<ConstantPointerNull>(K)) { out.push_back({}); return; }
    if(isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) { unsigned n = nleaf(K->getType()); for(unsigned i = 0; i < n; ++i) out.push_back({}); return; }
    if(auto* g = dyn_cast<GlobalValue>(K)) { out.push_back({nullptr, gvAddr(g)}); return; }
    if(auto* ca = dyn_cast<ConstantAggregate>(K)) { for(unsigned i = 0; i < ca->getNumOperands(); ++i) constLeaves(ca->getOperand(i), out); return; }
    if(auto* cd = dyn_cast<ConstantDataSequential>(K)) { for(unsigned i = 0; i < cd->getNumElements(); ++i) constLeaves(cd->getElementAsConstant(i), out); return; }
    if(auto* ce = dyn_cast<ConstantExpr>(K)) {
      auto one = [&](unsigned i) { std::vector<Val> v; constLeaves(ce->getOperand(i), v); return v[0].c; };
      switch(ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL, off)) break; out.push_back({nullptr, one(0) + off.getZExtValue()}); return; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back({nullptr, one(0)}); return;
        case Instruction::Add: out.push_back({nullptr, one(0) + one(1)}); return;
        case Instruction::Sub: out.push_back({nullptr, one(0) - one(1)}); return;
        case Instruction::Trunc: out.push_back({nullptr, one(0) & maskw(ce->getType()->getIntegerBitWidth())}); return;
        case Instruction::ICmp: { auto p = ce->getPredicate(); uint64_t a = one(0), b = one(1); if(p == CmpInst::ICMP_EQ) { out.push_back({nullptr, a == b}); return; } if(p == CmpInst::ICMP_NE) { out.push_back({nullptr, a != b}); return; } break; }
        default: break;
      }
    }
    errs() << "unsupported constant: " << *K << "\n"; exit(3);
  }
  void initBytes(Obj* o, const Constant* K, uint64_t off) {
    Type* T = K->getType();
    if(isa<ConstantAggregateZero>(K) || isa<UndefValue>(K)) return;
    if(auto* st = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); ++i) initBytes(o, K->getAggregateElement(i), off + sl->getElementOffset(i)); return; }
    if(auto* cd = dyn_cast<ConstantDataSequential>(K)) { StringRef r = cd->getRawDataValues(); memcpy(o->b.data() + off, r.data(), r.size()); return; }
    if(auto* at = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for(uint64_t i = 0; i < at->getNumElements(); ++i) initBytes(o, K->getAggregateElement(i), off + i * es); return; }
    auto lv = flat(T); std::vector<Val> v; constLeaves(K, v);
    for(size_t i = 0; i < lv.size(); ++i) { unsigned nb = (lv[i].w + 7) / 8; if(nb > 8) nb = 8; memcpy(o->b.data() + off + lv[i].off, &v[i].c, nb); }
  }
  // ------------------------------------------------------------------ loading
  Obj* newObj(State& st, unsigned rg, uint64_t idx, uint64_t size, ObjKind k) {
    auto& sl = st.mem.slot(rg, idx); Obj* o = new Obj; o->base = mkaddr(rg, idx); o->size = (uint32_t)size; o->kind = k; o->b.assign(size, k == OK_GLOBAL ? 0 : 0xAA); sl = IPtr<Obj>(o); return o;
  }
  void load(std::string const& file) {
    SMDiagnostic d; M = parseIRFile(file, d, lc);
    if(!M) { d.print("msx", errs()); exit(3); }
    DL = &M->getDataLayout();
    // a harness that models a system call X defines msx_sys_X; the code under test is then linked against it
    for(auto& F : *M) if(F.isDeclaration() && !F.isIntrinsic() && !F.use_empty()) if(auto* R = M->getFunction("msx_sys_" + F.getName().str())) if(!R->isDeclaration()) F.replaceAllUsesWith(R);
    unsigned gi = 1;
    for(auto& G : M->globals()) {
      if(G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used" || G.getName() == "llvm.global_dtors") continue;
      uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
      if(!G.hasInitializer() && sz < 128) sz = 128;
      Obj* o = newObj(init0, 0, gi, sz, OK_GLOBAL); o->ro = G.isConstant(); if(G.isThreadLocal() || G.getName().contains("msx_ghost")) o->how = 9;
      gaddr[&G] = o->base; addrG[o->base] = &G; ++gi;
    }
    for(auto& F : *M) fnAddr(&F);
    for(auto& G : M->globals()) if(gaddr.count(&G) && G.hasInitializer()) initBytes(init0.mem.wr(gaddr[&G]), G.getInitializer(), 0);
    setupBuiltins();
  }
  Opd opnd(FnInfo& fi, std::map<const Value*, int>& sl, const Value* v) {
    Opd o;
    if(auto* k = dyn_cast<Constant>(v)) { constLeaves(k, o.c); o.n = (uint16_t)o.c.size(); return o; }
    if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { o.c.push_back({}); return o; }
    auto it = sl.find(v); if(it == sl.end()) { errs() << "no slot: " << *v << "\n"; exit(3); }
    o.slot = it->second; o.n = (uint16_t)nleaf(v->getType()); return o;
  }
  std::map<std::pair<std::string, unsigned>, std::string> subs; std::set<const DISubprogram*> seenSub;
  void noteSub(const DISubprogram* sp) { if(!seenSub.insert(sp).second) return; std::string fn = sp->getFilename().str(); if(!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; if(fn.rfind(repoPrefix, 0) != 0) return; std::string n = sp->getLinkageName().empty() ? sp->getName().str() : llvm::demangle(sp->getLinkageName().str()); subs[{fn.substr(repoPrefix.size()), sp->getLine()}] = n; }
  FnInfo& info(Function* F) {
    auto& fi = fns[F];
    if(fi.compiled) return fi;
    fi.compiled = true; fi.F = F; fi.name = F->getName().str();
    if(auto* sp = F->getSubprogram()) { std::string dir = sp->getDirectory().str(), fn = sp->getFilename().str(); fi.file = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn; fi.line = sp->getLine(); }
    std::map<const Value*, int> sl; unsigned ns = 0;
    for(auto& A : F->args()) { unsigned n = nleaf(A.getType()); sl[&A] = (int)ns; fi.argSlot.push_back(ns); fi.argN.push_back(n); ns += n; }
    std::map<const BasicBlock*, int> bi; int nb = 0;
    for(auto& B : *F) { bi[&B] = nb++; for(auto& I : B) { unsigned n = nleaf(I.getType()); if(n) { sl[&I] = (int)ns; ns += n; } } }
    fi.nslots = ns; fi.blk.resize(nb);
    for(auto& B : *F) {
      int b = bi[&B]; auto& bk = fi.blk[b]; bk.start = (uint32_t)fi.code.size();
      for(auto& I : B) {
        if(auto* ph = dyn_cast<PHINode>(&I)) {
          Phi p; p.dst = sl[&I]; p.n = nleaf(I.getType());
          for(unsigned i = 0; i < ph->getNumIncomingValues(); ++i) p.in[bi[ph->getIncomingBlock(i)]] = opnd(fi, sl, ph->getIncomingValue(i));
          bk.phis.push_back(std::move(p)); continue;
        }
        if(isa<DbgInfoIntrinsic>(&I)) continue;
        if(auto* ii = dyn_cast<IntrinsicInst>(&I)) { switch(ii->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe: continue; default: break; } }
        Ins x; x.I = &I; x.opc = I.getOpcode(); x.blk = b;
        auto lv = flat(I.getType()); x.n = (unsigned)lv.size(); if(x.n) { x.dst = sl[&I]; x.w = lv[0].w; }
        auto addop = [&](const Value* v) { x.ops.push_back(opnd(fi, sl, v)); };
        switch(x.opc) {
          case Instruction::Br: { auto* br = cast<BranchInst>(&I); x.t0 = bi[br->getSuccessor(0)]; bk.succ.push_back(x.t0); if(br->isConditional()) { x.t1 = bi[br->getSuccessor(1)]; bk.succ.push_back(x.t1); addop(br->getCondition()); } break; }
          case Instruction::Switch: { auto* sw = cast<SwitchInst>(&I); addop(sw->getCondition()); x.w = sw->getCondition()->getType()->getIntegerBitWidth(); x.t0 = bi[sw->getDefaultDest()]; bk.succ.push_back(x.t0); for(auto& c : sw->cases()) { x.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]}); bk.succ.push_back(bi[c.getCaseSuccessor()]); } break; }
          case Instruction::Load: { auto* l = cast<LoadInst>(&I); addop(l->getPointerOperand()); x.lv = lv; x.pred = l->isAtomic(); break; }
          case Instruction::Store: { auto* s = cast<StoreInst>(&I); addop(s->getValueOperand()); addop(s->getPointerOperand()); x.lv = flat(s->getValueOperand()->getType()); x.pred = s->isAtomic(); break; }
          case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); addop(a->getArraySize()); x.off = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()); break; }
          case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(&I); addop(g->getPointerOperand());
            for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
              const Value* ix = it.getOperand();
              if(auto* stt = it.getStructTypeOrNull()) { x.off += (int64_t)DL->getStructLayout(stt)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
              int64_t es = (int64_t)DL->getTypeAllocSize(it.getIndexedType());
              if(auto* ci = dyn_cast<ConstantInt>(ix)) x.off += ci->getSExtValue() * es;
              else x.gi.push_back({opnd(fi, sl, ix), es, ix->getType()->getIntegerBitWidth()});
            }
            break; }
          case Instruction::ICmp: case Instruction::FCmp: { auto* c = cast<CmpInst>(&I); x.pred = c->getPredicate(); addop(c->getOperand(0)); addop(c->getOperand(1)); x.sw = flat(c->getOperand(0)->getType())[0].w; break; }
          // a choice between addresses is a branch: what is reached through a symbolic address is expensive to reason about
          case Instruction::Select: { auto* q = cast<SelectInst>(&I); for(unsigned k = 0; k < 3; ++k) addop(q->getOperand(k)); x.lv = lv; bool g = false; for(auto* u : I.users()) if(isa<GEPOperator>(u)) g = true;
            x.pred = I.getType()->isPointerTy() || (g && isa<ConstantInt>(q->getTrueValue()) && isa<ConstantInt>(q->getFalseValue())); break; }
          case Instruction::Call: case Instruction::Invoke: {
            auto* cb = cast<CallBase>(&I);
            for(auto& a : cb->args()) addop(a.get());
            addop(cb->getCalledOperand());
            const Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
            if(auto* f = dyn_cast<Function>(cv)) { x.callee = const_cast<Function*>(f); x.iid = f->getIntrinsicID(); }
            if(isa<InlineAsm>(cb->getCalledOperand())) x.iid = 999999;
            if(x.callee && !x.iid && x.callee->isDeclaration()) { auto it = btab.find(x.callee->getName().str()); if(it != btab.end()) x.builtin = it->second; }
            if(x.callee && x.callee->getName().starts_with("msx_")) { auto it = btab.find(x.callee->getName().str()); if(it != btab.end()) x.builtin = it->second; }
            if(cb->arg_size()) x.sw = flat(cb->getArgOperand(0)->getType()).empty() ? 0 : flat(cb->getArgOperand(0)->getType())[0].w;
            if(auto* iv = dyn_cast<InvokeInst>(&I)) { x.t0 = bi[iv->getNormalDest()]; x.t1 = bi[iv->getUnwindDest()]; bk.succ = {x.t0, x.t1}; }
            break; }
          case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(&I); addop(ev->getAggregateOperand()); Type* T = ev->getAggregateOperand()->getType(); x.soff = leafOff(T, ev->getIndices()); break; }
          case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(&I); addop(iv->getAggregateOperand()); addop(iv->getInsertedValueOperand()); x.soff = leafOff(iv->getAggregateOperand()->getType(), iv->getIndices()); break; }
          case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); addop(sv->getOperand(0)); addop(sv->getOperand(1)); for(int m : sv->getShuffleMask()) x.path.push_back((unsigned)m); break; }
          case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(&I); addop(a->getPointerOperand()); addop(a->getValOperand()); x.pred = a->getOperation(); x.lv = lv; break; }
          case Instruction::AtomicCmpXchg: { auto* a = cast<AtomicCmpXchgInst>(&I); addop(a->getPointerOperand()); addop(a->getCompareOperand()); addop(a->getNewValOperand()); x.lv = flat(a->getCompareOperand()->getType()); break; }
          default:
            for(auto& o : I.operands()) addop(o.get());
            if(I.getNumOperands() && !flat(I.getOperand(0)->getType()).empty()) x.sw = flat(I.getOperand(0)->getType())[0].w;
        }
        if(auto& dl = I.getDebugLoc()) for(auto* l = dl.get(); l; l = l->getInlinedAt()) if(auto* sp = l->getScope()->getSubprogram()) noteSub(sp);
        fi.code.push_back(std::move(x));
      }
    }
    return fi;
  }
  unsigned leafOff(Type* T, ArrayRef<unsigned> ix) { unsigned o = 0; for(unsigned i : ix) { if(auto* st = dyn_cast<StructType>(T)) { for(unsigned k = 0; k < i; ++k) o += nleaf(st->getElementType(k)); T = st->getElementType(i); } else { auto* at = cast<ArrayType>(T); o += i * nleaf(at->getElementType()); T = at->getElementType(); } } return o; }

  // liveness of register slots after instruction ip (exclusive)
  std::vector<bool> const& live(FnInfo& fi, uint32_t ip, bool before) {
    if(!fi.liveDone) {
      fi.liveDone = true; size_t nb = fi.blk.size(); std::vector<std::vector<bool>> in(nb, std::vector<bool>(fi.nslots)); fi.liveOut.assign(nb, std::vector<bool>(fi.nslots));
      auto useOf = [&](Ins& x, auto&& f) { for(auto& o : x.ops) if(o.slot >= 0) for(unsigned k = 0; k < o.n; ++k) f(o.slot + k); for(auto& g : x.gi) if(g.o.slot >= 0) f(g.o.slot); };
      bool ch = true;
      while(ch) {
        ch = false;
        for(size_t bb = nb; bb-- > 0;) {
          std::vector<bool> out(fi.nslots);
          for(int s : fi.blk[bb].succ) {
            auto li = in[s];
            for(auto& p : fi.blk[s].phis) for(unsigned k = 0; k < p.n; ++k) li[p.dst + k] = false;
            for(auto& p : fi.blk[s].phis) { auto it = p.in.find((int)bb); if(it != p.in.end() && it->second.slot >= 0) for(unsigned k = 0; k < it->second.n; ++k) li[it->second.slot + k] = true; }
            for(unsigned k = 0; k < fi.nslots; ++k) if(li[k]) out[k] = true;
          }
          fi.liveOut[bb] = out;
          uint32_t st = fi.blk[bb].start, en = bb + 1 < nb ? fi.blk[bb + 1].start : (uint32_t)fi.code.size();
          for(uint32_t i = en; i-- > st;) { auto& x = fi.code[i]; if(x.dst >= 0) for(unsigned k = 0; k < x.n; ++k) out[x.dst + k] = false; useOf(x, [&](unsigned s) { out[s] = true; }); }
          // phi dests are defined at block start but keep them for "in" (handled above)
          if(out != in[bb]) { in[bb] = out; ch = true; }
        }
      }
    }
    uint32_t key = ip * 2 + before; auto it = fi.liveAt.find(key); if(it != fi.liveAt.end()) return it->second;
    size_t bb = (size_t)fi.code[ip].blk; std::vector<bool> out = fi.liveOut[bb];
    uint32_t en = bb + 1 < fi.blk.size() ? fi.blk[bb + 1].start : (uint32_t)fi.code.size();
    for(uint32_t i = en; i-- > ip;) {
      auto& x = fi.code[i]; if(i == ip && !before) { if(x.dst >= 0) for(unsigned k = 0; k < x.n; ++k) out[x.dst + k] = false; break; }
      if(x.dst >= 0) for(unsigned k = 0; k < x.n; ++k) out[x.dst + k] = false;
      for(auto& o : x.ops) if(o.slot >= 0) for(unsigned k = 0; k < o.n; ++k) out[o.slot + k] = true;
      for(auto& g : x.gi) if(g.o.slot >= 0) out[g.o.slot] = true;
    }
    return fi.liveAt[key] = out;
  }

  // ------------------------------------------------------------------ helpers on state
  Frame& top(State& st) { return *st.th[st.cur].fr.back().own(); }
  Val get(Frame& f, Opd const& o, unsigned k = 0) { return o.slot >= 0 ? f.regs[o.slot + k] : o.c[k]; }
  std::string where(State& st, int depth = 0) {
    auto& fr = st.th[st.cur].fr; if((int)fr.size() <= depth) return "?";
    auto& f = *fr[fr.size() - 1 - depth]; auto* I = f.fn->code[f.ip].I; std::string s = f.fn->name;
    if(auto& dl = I->getDebugLoc()) { s = dl->getFilename().str() + ":" + std::to_string(dl->getLine()) + " (" + f.fn->name + ")"; }
    return s;
  }
  const Instruction* curInst(State& st) { auto& fr = st.th[st.cur].fr; if(fr.empty()) return nullptr; auto& f = *fr.back(); return f.ip < f.fn->code.size() ? f.fn->code[f.ip].I : nullptr; }
  void addPC(State& st, E e) {
    if(e->op == CONST) return;
    if(e->op == AND && e->w == 1) { addPC(st, e->a); addPC(st, e->b); return; }
    for(auto x : st.pc) if(x == e) return;
    st.pc.push_back(e);
  }
  void grow(State& st) { if(st.model.size() < C.vars.size()) { size_t o = st.model.size(); st.model.resize(C.vars.size()); for(; o < st.model.size(); ++o) st.model[o] = C.vars[o].lo; } }
  uint64_t evalM(State& st, E e) { grow(st); return C.eval(e, st.model); }
  // can e hold?  if so and m given, model satisfying pc && e
  bool may(State& st, E e, Model* m) {
    if(e->op == CONST) { if(e->c && m) { grow(st); *m = st.model; } return e->c; }
    grow(st);
    if(C.eval(e, st.model)) { if(m) *m = st.model; return true; }
    Model t = st.model; auto r = S.check(st.pc, e, &t);
    if(r == Solver::UNKNOWN) { ++incomplete["solver returned unknown at " + where(st)]; return false; }
    if(r == Solver::SAT) { if(m) *m = t; return true; }
    return false;
  }
  bool must(State& st, E e) { return !may(st, C.Not(e), nullptr); }
  std::vector<uint64_t> inputVals(Input const& in, Model const& m) { std::vector<uint64_t> r; for(auto e : in.v) r.push_back(C.eval(e, m)); return r; }
  void fill(Viol& v, State& st, Model const& m) {
    for(auto& in : st.inputs) { v.in.push_back({in->name, inputVals(*in, m)}); v.inBytes.push_back(in->bytes); }
    v.sched = st.sched; v.trace = st.trace;
    for(auto& o : st.obs) v.obs.push_back(o.first.e ? C.eval(o.first.e, m) : o.first.c);
  }
  void violation(State& st, std::string kind, std::string msg, Model const& m) {
    Viol v; v.kind = kind; v.msg = msg; v.where = where(st);
    for(int i = 0; i < (int)st.th[st.cur].fr.size() && i < 12; ++i) v.stack.push_back(where(st, i));
    fill(v, st, m);
    std::string key = kind + "|" + msg;
    if(violKeys.insert(key).second) viol.push_back(v);
    if(viol.size() >= maxViol) stop = true;
  }
  void violation(State& st, std::string kind, std::string msg) { grow(st); violation(st, kind, msg, st.model); }
  State* clone(State& st) { ++forks; ++forkAt[where(st)]; return new State(st); }
  void push(State* s) {
    if(splitDrop(*s)) { delete s; ++dropped; return; }
    work.push_back(s);
  }
  // Forks on e; returns the value of e in st, pushes the sibling.  ok=false when st is dropped by splitting.
  bool forked = false;
  bool branch(State& st, E e, std::function<void(State&, bool)> const& onSib) {
    grow(st); forked = false;
    bool v = C.eval(e, st.model); E other = v ? C.Not(e) : e;
    Model m = st.model; auto r = S.check(st.pc, other, &m);
    if(r == Solver::UNKNOWN) { ++incomplete["solver returned unknown at " + where(st)]; }
    if(r == Solver::SAT) {
      State* s = clone(st); s->model = m; addPC(*s, other);
      ++s->depth; s->splitcode = s->splitcode * 31 + (!v) + 7; onSib(*s, !v); 
      addPC(st, v ? e : C.Not(e)); ++st.depth; st.splitcode = st.splitcode * 31 + v + 7;
      push(s); forked = true;
    }
    return v;
  }
  // concretise v in place (forking over other values; siblings re-execute the current instruction)
  bool conc(State& st, Val& v, unsigned w, bool split = false) {
    if(!v.e) return true;
    E e = v.e; uint64_t x = evalM(st, e); E eq = C.bin(EQ, e, C.cst(x, w));
    Model m = st.model; auto r = S.check(st.pc, C.Not(eq), &m);
    if(r == Solver::UNKNOWN) { ++incomplete["solver unknown in concretisation at " + where(st)]; }
    forked = false;
    if(r == Solver::SAT) { State* s = clone(st); s->model = m; addPC(*s, C.Not(eq)); if(split) { ++s->depth; s->splitcode = s->splitcode * 31 + 7; ++st.depth; st.splitcode = st.splitcode * 31 + 8; forked = true; } push(s); addPC(st, eq); }
    // substitute in the top frame
    for(auto& rg : top(st).regs) if(rg.e == e) rg = Val{nullptr, x};
    v = Val{nullptr, x};
    return true;
  }
  bool splitDrop(State& st) { return splitN > 1 && st.depth == splitD && mix(splitN, st.splitcode) % splitN != splitI; }

  // ------------------------------------------------------------------ memory
  Obj* alloc(State& st, uint64_t size, ObjKind k, uint8_t how = 0) {
    auto& t = st.th[st.cur]; unsigned rg = 1 + 2 * (unsigned)st.cur + (k == OK_HEAP); uint64_t idx;
    if(k == OK_STACK) idx = t.stackNext++;
    else if(reuse && !t.freeList.empty()) { idx = t.freeList.back(); t.freeList.pop_back(); }
    else idx = ++t.heapNext;
    if(size >= (1ull << OFFBITS) || idx >= (1ull << REGBITS)) { ++incomplete["allocation too large / too many objects at " + where(st)]; return nullptr; }
    Obj* o = newObj(st, rg, idx, size, k); o->how = how; return o;
  }
  void freeObj(State& st, uint64_t a) {
    auto& sl = st.mem.slot(regionOf(a), idxOf(a)); ObjKind k = sl->kind; sl = IPtr<Obj>();
    if(reuse && k == OK_HEAP) { unsigned tid = (regionOf(a) - 2) / 2; auto& fl = st.th[tid].freeList; uint32_t ix = (uint32_t)idxOf(a); fl.insert(std::upper_bound(fl.begin(), fl.end(), ix, std::greater<uint32_t>()), ix); }
  }
  void note(State& st, uint64_t a, unsigned n, bool w) {
    if(!race || st.th.size() < 2) return;
    Obj* o = st.mem.find(a); if(!o || o->ro || o->how == 9) return;
    if(o->kind == OK_STACK && regionOf(a) == 1 + 2u * (unsigned)st.cur) { /* own stack: others may access it too */ }
    if(const Instruction* I = curInst(st)) if(auto& dl = I->getDebugLoc()) { StringRef f = cast<DIScope>(dl.getScope())->getFilename(); if(f.ends_with("jansson.h") || f.ends_with("jansson.cpp")) return; }
    auto& me = st.th[st.cur]; Access x{a, n, w};
    for(size_t i = 0; i < st.th.size(); ++i) if((int)i != st.cur && st.th[i].st != T_DONE) for(auto& y : st.th[i].acc) if((w || y.w) && y.a < a + n && a < y.a + y.n) {
      violation(st, "data-race", "conflicting unsynchronised accesses to shared memory"); st.steps = ~0ull; return; }
    auto it = std::lower_bound(me.acc.begin(), me.acc.end(), x); if(it == me.acc.end() || !(*it == x)) me.acc.insert(it, x);
  }
  // Resolves an n byte access.  Returns object and (concrete or symbolic) offset, or false if the state died.
  bool resolve(State& st, Val& addr, uint64_t n, Obj*& o, Val& off, const char* what) {
    if(!addr.e) {
      o = st.mem.find(addr.c);
      if(!o) { violation(st, "memory", std::string(what) + (addr.c < (1ull << OFFBITS) ? ": null pointer dereference" : ": access to freed or invalid memory")); return false; }
      uint64_t f = addr.c - o->base;
      if(f + n > o->size) { violation(st, "memory", std::string(what) + ": out of bounds access"); return false; }
      off = Val{nullptr, f}; return true;
    }
    uint64_t v = evalM(st, addr.e);
    o = st.mem.find(v);
    if(!o || v - o->base + n > o->size) { violation(st, "memory", std::string(what) + ": out of bounds or invalid access (symbolic address)"); 
      // continue with the in-bounds part, if any
      return false; }
    E f = C.bin(SUB, addr.e, C.cst(o->base, 64)); E inb = C.bin(ULE, f, C.cst(o->size - n, 64));
    if(inb->op != CONST) {
      Model m = st.model; auto r = S.check(st.pc, C.Not(inb), &m);
      if(r == Solver::UNKNOWN) ++incomplete["solver unknown in bounds check at " + where(st)];
      if(r == Solver::SAT) { State* s = clone(st); s->model = m; addPC(*s, C.Not(inb)); push(s); addPC(st, inb); }
    }
    off = mkv(f); return true;
  }
  static unsigned tz(E e) {
    switch(e->op) { case CONST: return e->c ? (unsigned)__builtin_ctzll(e->c) : 64; case CONCAT: return e->b->op == CONST && e->b->c == 0 ? e->b->w + tz(e->a) : std::min(tz(e->b), (unsigned)e->b->w); case ADD: case SUB: return std::min(tz(e->a), tz(e->b)); case ITE: return std::min(tz(e->b), tz(e->d)); case ZEXT: case SEXT: return std::min<unsigned>(tz(e->a), e->a->w); case SHL: return e->b->op == CONST ? tz(e->a) + (unsigned)e->b->c : tz(e->a); case MUL: return tz(e->a) + tz(e->b); case AND: return std::max(tz(e->a), tz(e->b)); case OR: return std::min(tz(e->a), tz(e->b)); default: return 0; }
  }
  Val rdAt(Obj* o, uint64_t off, unsigned w) { // w bits at byte offset
    unsigned nb = (w + 7) / 8;
    bool sym = false; if(!o->s.empty()) for(unsigned i = 0; i < nb; ++i) if(o->s[off + i]) { sym = true; break; }
    if(!sym) { uint64_t v = 0; memcpy(&v, o->b.data() + off, nb); return Val{nullptr, v & maskw(w)}; }
    E r = nullptr;
    for(unsigned i = 0; i < nb; ++i) { E b = o->s[off + i] ? o->s[off + i] : C.cst(o->b[off + i], 8); r = r ? C.concat(b, r) : b; }
    if(r->w != w) r = C.extract(r, 0, w);
    return mkv(r);
  }
  void wrAt(Obj* o, uint64_t off, Val const& v, unsigned w) {
    unsigned nb = (w + 7) / 8;
    if(!v.e) { uint64_t x = v.c & maskw(w); memcpy(o->b.data() + off, &x, nb); if(!o->s.empty()) for(unsigned i = 0; i < nb; ++i) o->s[off + i] = nullptr; return; }
    if(o->s.empty()) o->s.assign(o->size, nullptr);
    E e = v.e; if(w < nb * 8) e = C.zext(e, nb * 8);
    for(unsigned i = 0; i < nb; ++i) { E b = C.extract(e, i * 8, 8); if(b->op == CONST) { o->s[off + i] = nullptr; o->b[off + i] = (uint8_t)b->c; } else o->s[off + i] = b; }
  }
  void offRange(State& st, Obj* o, E f, unsigned nb, uint64_t& lo, uint64_t& hi, uint64_t& step) {
    lo = f->lo; hi = std::min<uint64_t>(f->hi, o->size - nb); step = 1ull << std::min(tz(f), 6u); lo = (lo + step - 1) / step * step;
    // addresses are base+small; base has many trailing zeros, so tz applies to offset
    (void)st;
  }
  bool rd(State& st, Obj* o, Val const& off, unsigned w, Val& out) {
    if(!off.e) { out = rdAt(o, off.c, w); return true; }
    unsigned nb = (w + 7) / 8; uint64_t lo, hi, step; offRange(st, o, off.e, nb, lo, hi, step);
    if((hi - lo) / step > 8192) { ++incomplete["symbolic read over a large object at " + where(st)]; return false; }
    // segments of equal values, from the top
    E r = nullptr; E cur = nullptr; uint64_t x = lo + (hi - lo) / step * step;
    std::vector<std::pair<uint64_t, E>> seg; // (start, value) ascending later
    for(;; x -= step) { E v = ex(rdAt(o, x, w), w); if(v != cur) { seg.push_back({x, v}); cur = v; } else seg.back().first = x; if(x < lo + step) break; }
    // seg[0] is the highest
    for(size_t i = 0; i < seg.size(); ++i) { E v = seg[i].second; if(!r) r = v; else { // offsets below the start of the previous (higher) segment take v
        uint64_t bound = seg[i - 1].first; bool single = (i + 1 < seg.size() ? seg[i].first == bound - step : seg[i].first == bound - step);
        E cnd = (single && i + 1 <= seg.size() && seg[i].first == bound - step && seg.size() > 2 && false) ? C.bin(EQ, off.e, C.cst(seg[i].first, 64)) : C.bin(ULT, off.e, C.cst(bound, 64));
        r = C.ite(cnd, v, r); } }
    out = mkv(r); return true;
  }
  bool wr(State& st, Obj* o, Val const& off, Val const& v, unsigned w) {
    if(!off.e) { wrAt(o, off.c, v, w); return true; }
    unsigned nb = (w + 7) / 8; uint64_t lo, hi, step; offRange(st, o, off.e, nb, lo, hi, step);
    if((hi - lo) / step > 8192) { ++incomplete["symbolic write over a large object at " + where(st)]; return false; }
    std::vector<E> nv(o->size, nullptr);
    for(uint64_t x = lo; x <= hi; x += step) { E c = C.bin(EQ, off.e, C.cst(x, 64)); if(c->op == CONST && !c->c) continue;
      for(unsigned i = 0; i < nb; ++i) { E nw = C.extract(C.zext(ex(v, w), nb * 8), i * 8, 8); E old = nv[x + i] ? nv[x + i] : ex(rdAt(o, x + i, 8), 8); nv[x + i] = C.ite(c, nw, old); } }
    for(uint64_t i = 0; i < o->size; ++i) if(nv[i]) wrAt(o, i, mkv(nv[i]), 8);
    return true;
  }
  bool loadV(State& st, Val addr, unsigned w, Val& out, bool atomic = false) {
    Obj* o; Val off; if(!resolve(st, addr, (w + 7) / 8, o, off, "read")) return false;
    if(!atomic && !addr.e) { note(st, addr.c, (w + 7) / 8, false); if(st.steps == ~0ull) return false; }
    return rd(st, o, off, w, out);
  }
  bool storeV(State& st, Val addr, Val const& v, unsigned w, bool atomic = false) {
    Obj* o; Val off; if(!resolve(st, addr, (w + 7) / 8, o, off, "write")) return false;
    if(o->ro) { violation(st, "memory", "write to constant memory"); return false; }
    if(!atomic && !addr.e) { note(st, addr.c, (w + 7) / 8, true); if(st.steps == ~0ull) return false; }
    return wr(st, st.mem.wr(o->base), off, v, w);
  }
  std::string cstr(State& st, Val p) { std::string s; if(p.e) return "<symbolic>"; Obj* o = st.mem.find(p.c); if(!o) return "<bad>"; for(uint64_t i = p.c - o->base; i < o->size; ++i) { if(!o->s.empty() && o->s[i]) { s += '?'; continue; } if(!o->b[i]) break; s += (char)o->b[i]; } return s; }

  // ------------------------------------------------------------------ control
  void jump(Frame& f, int from, int to) {
    auto& b = f.fn->blk[to];
    if(!b.phis.empty()) {
      std::vector<Val> tmp;
      for(auto& p : b.phis) { auto& o = p.in.at(from); for(unsigned k = 0; k < p.n; ++k) tmp.push_back(get(f, o, k)); }
      size_t i = 0; for(auto& p : b.phis) for(unsigned k = 0; k < p.n; ++k) f.regs[p.dst + k] = tmp[i++];
    }
    f.ip = b.start;
  }
  void advance(Frame& f) { // after a completed call
    auto& x = f.fn->code[f.ip];
    if(x.opc == Instruction::Invoke) jump(f, x.blk, x.t0); else ++f.ip;
  }
  bool enter(State& st, Function* F, std::vector<Val> const& args) {
    FnInfo& fi = info(F);
    Frame* f = new Frame; f->fn = &fi; f->regs.resize(fi.nslots); f->ip = fi.blk[0].start; f->stackMark = st.th[st.cur].stackNext;
    size_t a = 0;
    for(unsigned i = 0; i < fi.argSlot.size(); ++i) {
      if(F->hasParamAttribute(i, Attribute::ByVal) && a < args.size() && !args[a].e) {
        uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i)); Obj* src = st.mem.find(args[a].c);
        if(src) { uint64_t so = args[a].c - src->base; IPtr<Obj> keep(src); Obj* o = alloc(st, sz, OK_STACK); for(uint64_t k = 0; k < sz && so + k < keep->size; ++k) wrAt(o, k, rdAt(keep.p, so + k, 8), 8); f->regs[fi.argSlot[i]] = Val{nullptr, o->base}; ++a; continue; }
      }
      for(unsigned k = 0; k < fi.argN[i] && a < args.size(); ++k) f->regs[fi.argSlot[i] + k] = args[a++];
    }
    st.th[st.cur].fr.push_back(IPtr<Frame>(f));
    if(st.th[st.cur].fr.size() > 4000) { violation(st, "stack-overflow", "call depth exceeds 4000 frames"); return false; }
    return true;
  }
  void dropStack(State& st, uint32_t mark) { auto& t = st.th[st.cur]; unsigned rg = 1 + 2 * (unsigned)st.cur; while(t.stackNext > mark) { --t.stackNext; st.mem.slot(rg, t.stackNext) = IPtr<Obj>(); } }
  R ret(State& st, std::vector<Val> const& v) {
    auto& t = st.th[st.cur]; uint32_t mark = t.fr.back()->stackMark; t.fr.pop_back(); dropStack(st, mark);
    if(t.fr.empty()) { if(!v.empty()) t.retv = v[0]; return threadDone(st); }
    Frame& f = top(st); auto& x = f.fn->code[f.ip];
    if(st.ctors && st.ctors == t.fr.size() && st.cur == 0) { st.ctors--; return STAY; }
    if(x.dst >= 0) for(unsigned k = 0; k < x.n && k < v.size(); ++k) f.regs[x.dst + k] = v[k];
    advance(f); return STAY;
  }
  R threadDone(State& st) {
    auto& t = st.th[st.cur]; t.st = T_DONE; t.acc.clear(); t.atSync = false;
    if(st.cur == 0) { endPath(st); return DEAD; }
    return schedule(st);
  }
  void endPath(State& st) {
    ++paths;
    if(samples.size() < sampleMax || (paths % 97 == 0 && samples.size() < sampleMax * 2)) { Viol v; v.kind = "sample"; grow(st); fill(v, st, st.model); samples.push_back(v); }
    if(paths >= maxPaths) { ++incomplete["path limit reached"]; stop = true; }
  }
  // ---- exceptions
  std::string tiName(uint64_t a) { auto it = addrG.find(a); return it == addrG.end() ? "?" : it->second->getName().str(); }
  std::vector<uint64_t> tiBases(uint64_t a) {
    std::vector<uint64_t> r; auto it = addrG.find(a); if(it == addrG.end()) return r;
    auto* G = it->second; std::string n = G->getName().str();
    static std::map<std::string, std::string> stdb = {
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11regex_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"}};
    auto sb = stdb.find(n);
    if(sb != stdb.end()) { if(auto* B = M->getNamedGlobal(sb->second)) r.push_back(gaddr[B]); else { // base not in the module: continue through the chain
        auto s2 = stdb.find(sb->second); while(s2 != stdb.end()) { if(auto* B2 = M->getNamedGlobal(s2->second)) { r.push_back(gaddr[B2]); break; } s2 = stdb.find(s2->second); } }
      return r; }
    if(G->hasInitializer()) if(auto* st = dyn_cast<ConstantStruct>(G->getInitializer())) {
      if(st->getNumOperands() == 3) { std::vector<Val> v; constLeaves(st->getOperand(2), v); r.push_back(v[0].c); }
      else if(st->getNumOperands() > 4) for(unsigned i = 4; i < st->getNumOperands(); i += 2) { std::vector<Val> v; constLeaves(st->getOperand(i), v); r.push_back(v[0].c); }
    }
    return r;
  }
  bool isA(uint64_t t, uint64_t c) { if(t == c) return true; for(auto b : tiBases(t)) if(isA(b, c)) return true; return false; }
  int typeId(uint64_t ti) { std::string k = std::to_string(ti); auto it = typeids.find(k); if(it != typeids.end()) return it->second; int n = (int)typeids.size() + 1; typeids[k] = n; return n; }
  uint64_t thLandPtr = 0;
  // unwinds the current thread with exception object p, starting at the frame on top (whose ip is at a call)
  R unwind(State& st, uint64_t p) {
    auto& t = st.th[st.cur]; uint64_t ti = st.exc[p].ti;
    auto sel = [&](Frame& f, bool& cleanup) -> int { // >0 handler
      auto& x = f.fn->code[f.ip]; cleanup = false; if(x.opc != Instruction::Invoke) return 0;
      auto* lp = cast<InvokeInst>(x.I)->getLandingPadInst(); cleanup = lp->isCleanup();
      for(unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if(lp->isCatch(i)) { std::vector<Val> v; constLeaves(lp->getClause(i), v); if(v[0].c == 0 || isA(ti, v[0].c)) return typeId(v[0].c); }
        else { // filter: treat an empty filter (throw()) as terminate
          cleanup = true; }
      }
      return 0; };
    bool found = false; bool cl;
    for(size_t i = t.fr.size(); i-- > 0 && !found;) found = sel(*t.fr[i], cl) > 0;
    if(!found) { violation(st, "uncaught-exception", "exception of type " + llvm::demangle(tiName(ti).substr(tiName(ti).rfind("_ZTI", 0) == 0 ? 4 : 0)) + " escapes"); return DEAD; }
    while(!t.fr.empty()) {
      Frame& f = top(st); int s = sel(f, cl);
      if(s > 0 || cl) { auto& x = f.fn->code[f.ip]; dropAbove(st); t.inflight = p; f.regs.size(); jump(f, x.blk, x.t1); t.retv = Val{nullptr, (uint64_t)s}; return STAY; }
      uint32_t mark = t.fr.back()->stackMark; t.fr.pop_back(); dropStack(st, mark);
    }
    return DEAD;
  }
  void dropAbove(State&) {}
  uint64_t gname(const char* n) { auto* G = M->getNamedGlobal(n); return G ? gaddr[G] : 0; }
  R throwStd(State& st, const char* fn, std::vector<Val> args) { // delegate to a model function that throws
    auto* F = M->getFunction(fn); if(!F || F->isDeclaration()) { ++incomplete[std::string("missing model ") + fn]; return DEAD; }
    if(!enter(st, F, args)) return DEAD; return STAY;
  }
  // ------------------------------------------------------------------ scheduling
  bool enabled(State& st, int i) {
    auto& t = st.th[i]; if(t.st != T_RUN || !t.atSync) return false;
    auto so = [&](uint64_t a) -> SyncObj* { auto it = st.sync.find(a); return it == st.sync.end() ? nullptr : &it->second; };
    switch(t.pendKind) {
      case P_LOCK: { auto* s = so(t.pendA); return !s || s->owner < 0; }
      case P_RD: { auto* s = so(t.pendA); return !s || s->owner < 0; }
      case P_WR: { auto* s = so(t.pendA); return !s || (s->owner < 0 && s->readers == 0); }
      case P_JOIN: return st.th[t.pendA].st == T_DONE;
      default: return true;
    }
  }
  // Called by sync builtins.  Returns true when the operation may be performed now.
  bool syncPoint(State& st, int kind, uint64_t a, uint64_t b, R& r) {
    auto& t = st.th[st.cur];
    if(t.granted) { t.granted = false; t.atSync = false; t.acc.clear(); return true; }
    bool others = false; for(size_t i = 0; i < st.th.size(); ++i) if((int)i != st.cur && st.th[i].st != T_DONE) others = true;
    t.atSync = true; t.pendKind = kind; t.pendA = a; t.pendB = b;
    if(!others) { if(enabled(st, st.cur)) { t.atSync = false; t.acc.clear(); return true; } }
    r = schedule(st); return false;
  }
  uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
  void objHash(Obj const& o) {
    if(o.hv) return; uint64_t h1 = o.base, h2 = ~o.base; h1 = mix(h1, o.size); h2 = mix(h2, o.size * 77);
    for(size_t i = 0; i < o.b.size(); i += 8) { uint64_t v = 0; memcpy(&v, o.b.data() + i, std::min<size_t>(8, o.b.size() - i)); if(!o.s.empty()) for(size_t k = i; k < std::min(i + 8, o.b.size()); ++k) if(o.s[k]) { v &= ~(0xffull << (8 * (k - i))); h1 = mix(h1, o.s[k]->id * 131 + k); h2 = mix(h2, o.s[k]->id * 137 + k); } h1 = mix(h1, v); h2 = mix(h2, v ^ 0x5555); }
    o.h1 = h1; o.h2 = h2; o.hv = true;
  }
  std::pair<uint64_t, uint64_t> hashState(State& st) {
    uint64_t a = 1, b = 2; auto add = [&](uint64_t v) { a = mix(a, v); b = mix(b, v * 0x9E3779B1 + 7); };
    for(auto& rg : st.mem.r) if(rg) for(auto& ch : rg->ch) if(ch) for(auto& o : ch->o) if(o) { if(o->ro) continue; objHash(*o); add(o->h1); add(o->h2); }
    for(auto& t : st.th) {
      add(t.st * 16 + t.atSync * 8 + t.stage); add(t.pendKind); add(t.pendA); add(t.pendB); add(t.heapNext); add(t.stackNext); add(t.inflight); for(auto c : t.caught) add(c); for(auto f : t.freeList) add(f);
      for(auto& x : t.acc) { add(x.a); add(x.n * 2 + x.w); }
      for(size_t i = 0; i < t.fr.size(); ++i) { auto& f = *t.fr[i]; add((uint64_t)(uintptr_t)f.fn); add(f.ip); auto& lv = live(*f.fn, f.ip, i + 1 == t.fr.size()); for(unsigned k = 0; k < f.regs.size(); ++k) if(lv[k]) { add(k); if(f.regs[k].e) add(f.regs[k].e->id * 2 + 1); else add(f.regs[k].c * 2); } }
      add(0xfeed);
    }
    for(auto& s : st.sync) { if(s.second.owner < 0 && !s.second.readers && !s.second.count) continue; add(s.first); add((uint64_t)s.second.owner); add((uint64_t)s.second.readers); add((uint64_t)s.second.count); }
    for(auto& e : st.exc) { add(e.first); add((uint64_t)e.second.rc); add((uint64_t)e.second.handlers); add(e.second.ti); }
    for(auto& k : st.kv) { for(char c : k.first) add((uint64_t)c); add(k.second); }
    for(auto& k : st.occ) { for(char c : k.first) add((uint64_t)c); add(k.second); }
    for(auto& o : st.obs) add(o.first.e ? o.first.e->id * 2 + 1 : o.first.c * 2);
    std::vector<uint32_t> ids; for(auto e : st.pc) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); for(auto i : ids) add(i);
    return {a, b};
  }
  R schedule(State& st) {
    ++schedPoints;
    std::vector<int> en; for(size_t i = 0; i < st.th.size(); ++i) if(enabled(st, (int)i)) en.push_back((int)i);
    if(oneSchedule && en.size() > 1) en.resize(1);
    if(en.empty()) {
      bool all = true; for(auto& t : st.th) if(t.st != T_DONE) all = false;
      if(all) return DEAD;
      violation(st, "deadlock", "deadlock: no thread can make progress"); return DEAD;
    }
    if(dedupe) { auto h = hashState(st); auto& v = visited[h.first]; for(auto x : v) if(x == h.second) { ++dropped; return DEAD; } v.push_back(h.second); }
    for(size_t k = 1; k < en.size(); ++k) { State* s = clone(st); grant(*s, en[k]); s->sched.push_back(en[k]); ++s->depth; s->splitcode = s->splitcode * 31 + en[k] + 7; push(s); }
    if(en.size() > 1) { ++st.depth; st.splitcode = st.splitcode * 31 + (uint64_t)en[0] + 7; }
    grant(st, en[0]); st.sched.push_back(en[0]);
    if(splitDrop(st) && en.size() > 1) { ++dropped; return DEAD; }
    return STAY;
  }
  void grant(State& st, int i) { st.cur = i; auto& t = st.th[i]; t.granted = true; if(t.pendKind == P_START) { t.granted = false; t.atSync = false; t.acc.clear(); } }

  // ------------------------------------------------------------------ merging
  R park(State& st, uint64_t id) {
    auto& t = st.th[st.cur]; ++st.mergeCount;
    Frame& f = top(st); advance(f);
    if(!mergeOn) return STAY;
    Key k; k.mc = st.mergeCount; k.sig.push_back(id); for(auto& fr : t.fr) { k.sig.push_back((uint64_t)(uintptr_t)fr->fn); k.sig.push_back(fr->ip); }
    parked[k].push_back(new State(st)); return DEAD;
  }
  static bool ptrLike(uint64_t v) { return regionOf(v) >= 1 && regionOf(v) < 64; }
  bool valCompat(Val const& x, Val const& y) {
    if(same(x, y)) return true;
    if(!x.e && !y.e && (x.c >> OFFBITS) != (y.c >> OFFBITS) && (ptrLike(x.c) || ptrLike(y.c))) return false;
    return true;
  }
  bool objCompat(Obj const& x, Obj const& y) {
    if(x.size != y.size || x.kind != y.kind) return false;
    for(uint32_t i = 0; i + 8 <= x.size; i += 8) {
      if(memcmp(&x.b[i], &y.b[i], 8) == 0 && x.s.empty() && y.s.empty()) continue;
      uint64_t a, b; memcpy(&a, &x.b[i], 8); memcpy(&b, &y.b[i], 8);
      bool sx_ = false, sy = false; for(int k = 0; k < 8; ++k) { if(!x.s.empty() && x.s[i + k]) sx_ = true; if(!y.s.empty() && y.s[i + k]) sy = true; }
      if(!sx_ && !sy && a != b && (a >> OFFBITS) != (b >> OFFBITS) && (ptrLike(a) || ptrLike(b)) && (a < (1ull << 50)) && (b < (1ull << 50))) {
        // only real addresses matter
        return false; }
    }
    return true;
  }
  bool compat(State& x, State& y) {
    if(x.th.size() != 1 || y.th.size() != 1) return false;
    auto &tx = x.th[0], &ty = y.th[0];
    if(tx.stackNext != ty.stackNext || tx.caught != ty.caught || x.exc.size() != y.exc.size() || x.inputs != y.inputs || x.obs.size() != y.obs.size() || x.kv != y.kv) return false;
    for(auto& e : x.exc) { auto it = y.exc.find(e.first); if(it == y.exc.end() || it->second.rc != e.second.rc || it->second.ti != e.second.ti || it->second.handlers != e.second.handlers) return false; }
    // memory shape
    size_t nr = std::max(x.mem.r.size(), y.mem.r.size());
    for(size_t r = 0; r < nr; ++r) {
      Region* a = r < x.mem.r.size() ? x.mem.r[r].p : nullptr; Region* b = r < y.mem.r.size() ? y.mem.r[r].p : nullptr;
      if(a == b) continue;
      size_t nc = std::max(a ? a->ch.size() : 0, b ? b->ch.size() : 0);
      for(size_t c = 0; c < nc; ++c) {
        Chunk* p = a && c < a->ch.size() ? a->ch[c].p : nullptr; Chunk* q = b && c < b->ch.size() ? b->ch[c].p : nullptr; if(p == q) continue;
        for(int k = 0; k < 64; ++k) { Obj* u = p ? p->o[k].p : nullptr; Obj* v = q ? q->o[k].p : nullptr; if(u == v) continue; if(!u || !v) return false; if(!objCompat(*u, *v)) return false; }
      }
    }
    for(size_t i = 0; i < tx.fr.size(); ++i) {
      auto &f = *tx.fr[i], &g = *ty.fr[i]; if(&f == &g) continue; if(f.stackMark != g.stackMark) return false;
      auto& lv = live(*f.fn, f.ip, i + 1 == tx.fr.size());
      for(unsigned k = 0; k < f.regs.size(); ++k) if(lv[k] && !valCompat(f.regs[k], g.regs[k])) return false;
    }
    return true;
  }
  void mergeGroup(std::vector<State*>& g) { // merges into g[0]
    State& st = *g[0]; size_t n = g.size();
    // common constraints
    std::set<uint32_t> common; for(auto e : g[0]->pc) common.insert(e->id);
    for(size_t i = 1; i < n; ++i) { std::set<uint32_t> s; for(auto e : g[i]->pc) if(common.count(e->id)) s.insert(e->id); common.swap(s); }
    std::vector<E> cond(n); std::vector<E> base; for(auto e : g[0]->pc) if(common.count(e->id)) base.push_back(e);
    E any = C.fls();
    for(size_t i = 0; i < n; ++i) { E c = C.tru(); for(auto e : g[i]->pc) if(!common.count(e->id)) c = C.bin(AND, c, e); cond[i] = c; any = C.bin(OR, any, c); }
    auto mergeE = [&](std::vector<E>& v) -> E { // ite over cond, last one default
      E r = v[n - 1]; bool all = true; for(size_t i = 0; i + 1 < n; ++i) if(v[i] != r) { all = false; break; }
      if(all) return r;
      // most common value as default
      std::map<E, E> by; std::vector<E> order; std::map<E, int> cnt;
      for(size_t i = 0; i < n; ++i) { auto it = by.find(v[i]); if(it == by.end()) { by[v[i]] = cond[i]; order.push_back(v[i]); } else it->second = C.bin(OR, it->second, cond[i]); cnt[v[i]]++; }
      E def = order[0]; for(auto o : order) if(cnt[o] > cnt[def]) def = o;
      r = def; for(auto o : order) if(o != def) r = C.ite(by[o], o, r);
      return r; };
    // widths: find by instruction types is awkward; use expression widths or 64 for concrete
    auto mergeVal = [&](std::vector<Val>& v) -> Val {
      bool all = true; for(size_t i = 1; i < n; ++i) if(!same(v[0], v[i])) { all = false; break; } if(all) return v[0];
      unsigned w = 64; for(auto& x : v) if(x.e) w = x.e->w; std::vector<E> es(n); for(size_t i = 0; i < n; ++i) es[i] = ex(v[i], w);
      return mkv(mergeE(es)); };
    auto& t = st.th[0];
    for(size_t i = 0; i < t.fr.size(); ++i) {
      bool diff = false; for(size_t j = 1; j < n; ++j) if(g[j]->th[0].fr[i].p != t.fr[i].p) diff = true; if(!diff) continue;
      auto& lv = live(*t.fr[i]->fn, t.fr[i]->ip, i + 1 == t.fr.size()); auto& wd = slotWidths(*t.fr[i]->fn);
      Frame* f = t.fr[i].own();
      for(unsigned k = 0; k < f->regs.size(); ++k) {
        if(!lv[k]) { f->regs[k] = Val{}; continue; }
        bool all = true; for(size_t j = 1; j < n; ++j) if(!same(f->regs[k], g[j]->th[0].fr[i]->regs[k])) { all = false; break; } if(all) continue;
        std::vector<E> es(n); for(size_t j = 0; j < n; ++j) es[j] = ex(j ? g[j]->th[0].fr[i]->regs[k] : f->regs[k], wd[k]);
        f->regs[k] = mkv(mergeE(es));
      }
    }
    size_t nr = st.mem.r.size();
    for(size_t r = 0; r < nr; ++r) {
      if(!st.mem.r[r]) continue; size_t nc = st.mem.r[r]->ch.size();
      for(size_t c = 0; c < nc; ++c) {
        auto chunk = [&](size_t j) -> Chunk* { auto& R = g[j]->mem.r; if(r >= R.size() || !R[r] || c >= R[r]->ch.size()) return nullptr; return R[r]->ch[c].p; };
        bool diff = false; for(size_t j = 1; j < n; ++j) if(chunk(j) != chunk(0)) diff = true; if(!diff) continue;
        for(int k = 0; k < 64; ++k) {
          auto ob = [&](size_t j) { Chunk* h = chunk(j); return h ? h->o[k].p : nullptr; };
          Obj* o0 = ob(0); if(!o0) continue; bool d = false; for(size_t j = 1; j < n; ++j) if(ob(j) != o0) d = true; if(!d) continue;
          std::vector<Obj*> os(n); for(size_t j = 0; j < n; ++j) os[j] = ob(j);
          IPtr<Obj> keep(o0); Obj* w = st.mem.wr(o0->base); os[0] = keep.p;
          for(uint32_t b = 0; b < w->size; ++b) {
            bool all = true; Val v0 = rdAt(os[0], b, 8); for(size_t j = 1; j < n; ++j) { Val v = rdAt(os[j], b, 8); if(!same(v, v0)) { all = false; break; } } if(all) continue;
            std::vector<E> es(n); for(size_t j = 0; j < n; ++j) es[j] = ex(rdAt(os[j], b, 8), 8);
            wrAt(w, b, mkv(mergeE(es)), 8);
          }
        }
      }
    }
    for(size_t i = 0; i < st.obs.size(); ++i) { std::vector<Val> v(n); for(size_t j = 0; j < n; ++j) v[j] = g[j]->obs[i].first; st.obs[i].first = mergeVal(v); }
    for(size_t j = 1; j < n; ++j) { st.th[0].heapNext = std::max(st.th[0].heapNext, g[j]->th[0].heapNext); st.steps = std::max(st.steps, g[j]->steps); }
    if(reuse) { // free list = all dead indices below heapNext
      auto& tt = st.th[0]; tt.freeList.clear(); for(uint32_t i = tt.heapNext; i >= 1; --i) if(!st.mem.find(mkaddr(2, i))) tt.freeList.push_back(i); }
    // constraint: drop when implied
    st.pc = base;
    if(any->op != CONST) { if(S.check(base, C.Not(any), nullptr) != Solver::UNSAT) addPC(st, any); }
    merges++; mergedStates += n - 1;
    for(size_t j = 1; j < n; ++j) delete g[j];
  }
  std::map<FnInfo*, std::vector<unsigned>> swCache;
  std::vector<unsigned>& slotWidths(FnInfo& fi) {
    auto it = swCache.find(&fi); if(it != swCache.end()) return it->second;
    std::vector<unsigned> w(fi.nslots, 64); unsigned ns = 0;
    for(auto& A : fi.F->args()) for(auto& l : flat(A.getType())) w[ns++] = l.w;
    for(auto& B : *fi.F) for(auto& I : B) for(auto& l : flat(I.getType())) w[ns++] = l.w;
    return swCache[&fi] = w;
  }
  bool unpark() {
    if(parked.empty()) return false;
    auto it = parked.begin(); auto v = std::move(it->second); parked.erase(it);
    std::vector<std::vector<State*>> groups;
    for(auto* s : v) { bool done = false; for(auto& g : groups) if(compat(*g[0], *s)) { g.push_back(s); done = true; break; } if(!done) groups.push_back({s}); }
    for(auto& g : groups) { if(g.size() > 1) mergeGroup(g); work.push_back(g[0]); }
    return true;
  }

#include "builtins.inc"
#include "interp.inc"

  // ------------------------------------------------------------------ main loop
  void run() {
    State* s = new State(init0); s->th.resize(1); s->mem.r.resize(3);
    Function* F = M->getFunction(entry); if(!F || F->isDeclaration()) { errs() << "no entry " << entry << "\n"; exit(3); }
    enter(*s, F, {});
    std::vector<Function*> ctors;
    if(auto* G = M->getNamedGlobal("llvm.global_ctors")) if(auto* ca = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> v; for(unsigned i = 0; i < ca->getNumOperands(); ++i) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); if(auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for(auto& p : v) ctors.push_back(p.second); }
    for(size_t i = ctors.size(); i-- > 0;) enter(*s, ctors[i], {});
    s->ctors = ctors.size();
    work.push_back(s);
    uint64_t tick = 0;
    for(;;) {
      while(!work.empty() && !stop) {
        State* st = work.back(); work.pop_back(); maxLive = std::max<uint64_t>(maxLive, work.size() + 1);
        R r = STAY;
        while(!stop) {
          r = step(*st);
          if(r == DEAD) break;
          if(++st->steps > maxSteps) { violation(*st, "step-bound", "path exceeds " + std::to_string(maxSteps) + " instructions (possible non-termination)"); break; }
          if((++tick & 0xffff) == 0) {
            if(elapsed() > maxTime) { ++incomplete["time limit reached"]; stop = true; }
            if(memLimitGB > 0 && (tick & 0xfff) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if(ru.ru_maxrss / 1048576.0 > memLimitGB) { ++incomplete["memory limit reached"]; stop = true; } }
          }
        }
        delete st;
        if((paths & 0xff) == 0 && elapsed() > maxTime) { ++incomplete["time limit reached"]; stop = true; }
      }
      if(stop || !unpark()) break;
      if(elapsed() > maxTime) { ++incomplete["time limit reached"]; stop = true; break; }
    }
  }
  static std::string js(std::string const& s) { std::string r = "\""; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
  void emitViol(std::ostream& o, Viol& v) {
    o << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"stack\":["; for(size_t i = 0; i < v.stack.size(); ++i) o << (i ? "," : "") << js(v.stack[i]);
    o << "],\"inputs\":["; for(size_t i = 0; i < v.in.size(); ++i) { o << (i ? "," : "") << "{\"name\":" << js(v.in[i].first) << ",\"bytes\":" << v.inBytes[i] << ",\"v\":["; for(size_t k = 0; k < v.in[i].second.size(); ++k) o << (k ? "," : "") << v.in[i].second[k]; o << "]}"; }
    o << "],\"sched\":["; for(size_t i = 0; i < v.sched.size(); ++i) o << (i ? "," : "") << v.sched[i];
    o << "],\"obs\":["; for(size_t i = 0; i < v.obs.size(); ++i) o << (i ? "," : "") << v.obs[i];
    o << "],\"trace\":["; for(size_t i = 0; i < v.trace.size(); ++i) o << (i ? "," : "") << js(v.trace[i]); o << "]}";
  }
  void report() {
    std::ofstream o(outFile);
    o << "{\"status\":\"" << (viol.empty() ? (incomplete.empty() ? "ok" : "incomplete") : "violation") << "\",\n\"violations\":["; for(size_t i = 0; i < viol.size(); ++i) { if(i) o << ",\n"; emitViol(o, viol[i]); }
    o << "],\n\"samples\":["; for(size_t i = 0; i < samples.size(); ++i) { if(i) o << ",\n"; emitViol(o, samples[i]); }
    o << "],\n\"incomplete\":{"; bool f = true; for(auto& p : incomplete) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
    o << "},\n\"reach\":{"; f = true; for(auto& p : reach) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
    o << "},\n\"functions\":["; f = true; for(auto& p : subs) { o << (f ? "" : ",\n") << "{\"fn\":" << js(p.second) << ",\"file\":" << js(p.first.first) << ",\"line\":" << p.first.second << "}"; f = false; }
    o << "],\n\"forks_at\":["; std::vector<std::pair<uint64_t, std::string>> fv; for(auto& p : forkAt) fv.push_back({p.second, p.first}); std::sort(fv.rbegin(), fv.rend()); for(size_t i = 0; i < fv.size() && i < 12; ++i) o << (i ? "," : "") << "[" << fv[i].first << "," << js(fv[i].second) << "]";
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    o << "],\n\"stats\":{\"paths\":" << paths << ",\"forks\":" << forks << ",\"merges\":" << merges << ",\"merged_states\":" << mergedStates << ",\"instructions\":" << insts << ",\"finite_domain\":" << S.finite << ",\"queries\":" << S.queries << ",\"sat\":" << S.sats << ",\"unsat\":" << S.unsats << ",\"cache_hits\":" << S.cacheHits << ",\"solver_s\":" << S.time << ",\"max_query_s\":" << S.maxTime << ",\"asserts\":" << assertsChecked << ",\"assert_queries\":" << assertQ << ",\"sched_points\":" << schedPoints << ",\"deduped\":" << dropped << ",\"symbolic_vars\":" << C.vars.size() << ",\"exprs\":" << C.pool.size() << ",\"assumed_away\":" << killed << ",\"max_worklist\":" << maxLive << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"wall_s\":" << elapsed() << "}}\n";
  }
};
} // namespace msx

static int g_argc; static char** g_argv;
static void* realMain(void*) {
  using namespace msx; static int rc; Engine* e = new Engine; std::string in;
  for(int i = 1; i < g_argc; ++i) {
    std::string a = g_argv[i]; auto val = [&]() { return std::string(g_argv[++i]); };
    if(a == "--entry") e->entry = val(); else if(a == "--out") e->outFile = val(); else if(a == "--max-time") e->maxTime = atof(val().c_str());
    else if(a == "--max-steps") e->maxSteps = strtoull(val().c_str(), 0, 10); else if(a == "--reuse") e->reuse = true; else if(a == "--no-race") e->race = false; else if(a == "--one-schedule") e->oneSchedule = true;
    else if(a == "--max-viol") e->maxViol = (unsigned)atoi(val().c_str()); else if(a == "--no-dedupe") e->dedupe = false; else if(a == "--no-merge") e->mergeOn = false; else if(a == "--samples") e->sampleMax = (unsigned)atoi(val().c_str());
    else if(a == "--split") { std::string s = val(); sscanf(s.c_str(), "%u/%u/%u", &e->splitI, &e->splitN, &e->splitD); }
    else if(a == "--dump") { e->S.dumpDir = val(); e->S.dumpMax = (unsigned)atoi(val().c_str()); } else if(a == "--mem") e->memLimitGB = atof(val().c_str());
    else if(a == "--repo") e->repoPrefix = val(); else if(a == "--timeout-ms") { e->S.timeoutMs = (unsigned)atoi(val().c_str()); e->S.reset(); }
    else in = a;
  }
  e->load(in); e->run(); e->report();
  rc = e->viol.empty() ? (e->incomplete.empty() ? 0 : 2) : 1;
  fflush(nullptr); _exit(rc);
}
int main(int argc, char** argv) {
  g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t t; pthread_create(&t, &at, realMain, nullptr); pthread_join(t, nullptr); return 3;
}
