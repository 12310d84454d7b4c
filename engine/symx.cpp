// symx: symbolic executor for LLVM IR (KLEE class) with threads, C++ exceptions and an
// object-granular memory model. See DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/CommandLine.h>
#include <memory>
#include <set>
#include <sstream>
#include <functional>
#include <sys/resource.h>
#include <pthread.h>
#include <fstream>
using namespace llvm;

// ---------------------------------------------------------------- options
static std::string optIn, optEntry, optOut, optJson;
static u64 optMaxSteps = 3000000, optMaxYields = 400, optMaxPaths = 0;
static double optTime = 600;
static int optPreempt = 2, optTso = 0, optMaxViol = 12, optTrace = 0, optUnwind = 0;
static bool optStopFirst = false;
static int optWitness = 0; static std::vector<std::string> witnesses; static u64 nEnded = 0;
static std::set<std::string> optIgnore;

// ---------------------------------------------------------------- values and memory
struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> a; Val() {} Val(E x) : e(x) {} };
static Val mkAgg(std::vector<Val> v) { Val r; r.a = std::make_shared<std::vector<Val>>(std::move(v)); return r; }

enum OK_ : u8 { O_Global, O_Stack, O_Heap, O_Tls };
struct Obj {
  int rc = 1; u64 base = 0, size = 0; u8 kind = O_Heap; bool ro = false, freed = false; u32 seq = 0;
  std::string *freedAt = nullptr;
  std::vector<u8> conc; std::vector<E> sym;
  void materializeSym() { if (sym.empty()) sym.assign(size, nullptr); }
};
struct Mem {
  std::vector<std::pair<u64, Obj *>> v;
  Mem() {}
  Mem(const Mem &o) : v(o.v) { for (auto &p : v) p.second->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto &p : v) if (--p.second->rc == 0) delete p.second; }
  int idx(u64 a) const {  // last entry with base <= a
    auto it = std::upper_bound(v.begin(), v.end(), a, [](u64 x, const std::pair<u64, Obj *> &p) { return x < p.first; });
    return int(it - v.begin()) - 1;
  }
  Obj *find(u64 a, u64 n = 1) const { int i = idx(a); if (i < 0) return nullptr; Obj *o = v[i].second; if (a - o->base < o->size && n <= o->size - (a - o->base)) return o; return nullptr; }
  Obj *at(u64 base) const { int i = idx(base); if (i < 0 || v[i].first != base) return nullptr; return v[i].second; }
  void insert(Obj *o) { auto it = std::upper_bound(v.begin(), v.end(), o->base, [](u64 x, const std::pair<u64, Obj *> &p) { return x < p.first; }); v.insert(it, {o->base, o}); }
  Obj *wr(u64 base) { int i = idx(base); Obj *o = v[i].second; if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; o->rc--; v[i].second = n; return n; } return o; }
  void erase(u64 base) { int i = idx(base); if (i >= 0 && v[i].first == base) { Obj *o = v[i].second; if (--o->rc == 0) delete o; v.erase(v.begin() + i); } }
};
static Mem romem;  // constant globals, shared by all states

struct Op { int slot; Val c; };
struct II { Instruction *I; u32 opb; int dst; };
struct FI { Function *F; std::vector<II> ins; std::vector<Op> ops; DenseMap<BasicBlock *, int> bb; int nslots = 0; std::vector<int> argSlot; bool repo = false; std::string file; u64 calls = 0; };
struct Frame {
  int rc = 1; FI *fi = nullptr; int pc = 0; BasicBlock *prev = nullptr; std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs;
  std::vector<u32> *unw = nullptr;
};
enum TS : u8 { T_Run, T_Join, T_Done };
struct Pend { u64 addr, n, acc; std::vector<E> oth; bool conf, loadAfter; };  // a store that may still be in the store buffer, with the old (after a switch: the new) bytes
struct Thread { std::vector<Pend> sb, late; std::vector<std::shared_ptr<Frame>> st; TS status = T_Run; int joinOn = -1; u64 acc = 0; u64 stackBump = 0, heapBump = 0; E excPtr = nullptr; u64 selfYields = 0, spin = 0; std::map<GlobalVariable *, u64> tls; };
struct In { std::string name; u32 sym; unsigned bytes; };
struct Sched { int tid; u64 cnt; int next; std::vector<u64> late; };
struct State {
  std::vector<Thread> th; int cur = 0; Mem mem; std::vector<E> pc; Model model; std::vector<In> in; std::vector<Sched> sched;
  std::map<u64, u64> excT; u64 steps = 0, yields = 0; int preempts = 0, lates = 0; u32 hseq = 0; long liveHeap = 0; u64 forksHere = 0; std::vector<std::string> notes; u32 conc = 0;
  u32 nsym = 0;
};

// ---------------------------------------------------------------- engine globals
static LLVMContext ctx; static std::unique_ptr<Module> M; static const DataLayout *DL; static Solver *S;
static DenseMap<const Value *, u64> gaddr; static std::map<u64, Function *> fnAt; static DenseMap<Function *, FI *> fis;
static std::map<u64, GlobalVariable *> gvAt;
static std::vector<State *> work;
static State *initState;
static E fillSym;
static u64 nPaths = 0, nInstr = 0, nForks = 0, nSchedForks = 0, nChecks = 0, nChecksProved = 0, nMemChecks = 0, maxDepth = 0;
static std::map<std::string, u64> reach; static std::map<std::string, u64> incomplete; static std::map<std::string, u64> checksPerLabel;
struct Viol { std::string kind, label, where, test, detail; };
static std::vector<Viol> viols; static std::set<std::string> violKeys; static std::map<std::string,int> violCnt;
static std::chrono::steady_clock::time_point T0;
static std::set<u64> conflict; struct Acc { u64 r = 0, w = 0; }; static std::unordered_map<u64, Acc> accs;
static std::unordered_map<std::string, u32> symCache;  // name#k -> symbol (shared between paths)
static bool stopAll = false;

struct PathEnd {};  // thrown to terminate the current path
struct Restart {};  // state was forked / constrained: re-execute the current instruction

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static void noteIncomplete(const std::string &s) { incomplete[s]++; if (optTrace) fprintf(stderr, "INCOMPLETE %s\n", s.c_str()); }

static std::string locOf(Instruction *I) {
  std::string r = I->getFunction()->getName().str();
  if (auto &dl = I->getDebugLoc()) { auto *sc = dl.get(); r += " " + sc->getFilename().str() + ":" + std::to_string(dl.getLine()); }
  return r;
}
static Frame &top(State &s) { return *s.th[s.cur].st.back(); }
static Frame &topW(State &s) { auto &p = s.th[s.cur].st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
static std::string repoLoc(State &s) {
  // innermost frame whose source file is not a system header
  std::string first;
  for (int i = (int)s.th[s.cur].st.size() - 1; i >= 0; i--) {
    Frame &f = *s.th[s.cur].st[i]; Instruction *I = f.fi->ins[std::min<size_t>(f.pc, f.fi->ins.size() - 1)].I;
    if (auto &dl = I->getDebugLoc()) {
      for (DILocation *d = dl.get(); d; d = d->getInlinedAt()) {
        std::string fn = d->getFilename().str();
        if (fn.find("/repo/") != std::string::npos || fn.find("raftinc") != std::string::npos) return fn + ":" + std::to_string(d->getLine()) + " in " + (d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "?");
      }
    }
    if (first.empty()) first = locOf(I);
  }
  return first;
}
static std::string backtrace(State &s) {
  std::string r;
  for (int i = (int)s.th[s.cur].st.size() - 1; i >= 0; i--) { Frame &f = *s.th[s.cur].st[i]; r += "    " + locOf(f.fi->ins[std::min<size_t>(f.pc, f.fi->ins.size() - 1)].I) + "\n"; }
  return r;
}
static void writeTest(State &s, const Model &m, const std::string &fn, const std::string &kind, const std::string &label, const std::string &where) {
  std::ofstream o(fn);
  o << "entry " << optEntry << "\nkind " << kind << "\nlabel " << label << "\nwhere " << where << "\n";
  o << "fill " << (unsigned)evalE(fillSym, m) << "\n";
  for (auto &i : s.in) { u128 v = evalE(P.symexpr[i.sym], m); char b[64]; snprintf(b, 64, "%llx", (unsigned long long)v); o << "in " << (i.name.empty() ? "_" : i.name) << " " << i.bytes << " " << b << "\n"; }
  for (auto &e : s.sched) { o << "sched " << e.tid << " " << e.cnt << " " << e.next; for (u64 l : e.late) o << " " << l; o << "\n"; }
  o << "end\n";
}
static void violation(State &s, const Model &m, const std::string &kind, const std::string &label) {
  std::string where = repoLoc(s);
  std::string key = kind + "|" + label + "|" + (kind == "check" ? "" : where);
  // up to 3 witnesses per key so that one which does not replay does not hide another
  if (violCnt[key]++ >= 3) return;
  std::string t = optOut + "." + std::to_string(viols.size()) + ".test";
  if (!optOut.empty()) writeTest(s, m, t, kind, label, where);
  viols.push_back({kind, label, where, t, backtrace(s)});
  if (optTrace) fprintf(stderr, "VIOL %s %s at %s\n%s", kind.c_str(), label.c_str(), where.c_str(), backtrace(s).c_str());
  if (optStopFirst || (int)viols.size() >= optMaxViol) stopAll = true;
}
static void pathDone(State &s) {
  nEnded++; if ((int)witnesses.size() >= optWitness || optOut.empty() || (nEnded & (nEnded - 1))) return;
  std::string t = optOut + ".w" + std::to_string(witnesses.size()) + ".test"; writeTest(s, s.model, t, "witness", "path", ""); witnesses.push_back(t);
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &label) { violation(s, s.model, kind, label); throw PathEnd(); }

static State *clone(State &s) { State *n = new State(s); nForks++; return n; }
static void addC(State &s, E c) { if (isC(c)) return; 
  if (c->k == K_And && c->w == 1) { addC(s, c->o[0]); addC(s, c->o[1]); return; }
  for (E e : s.pc) if (e == c) return; s.pc.push_back(c); }

// can `cond` be true in s? out: model
static bool may(State &s, E cond, Model &out) {
  int r = S->check(s.pc, cond, s.model, out);
  if (r < 0) { noteIncomplete("solver unknown at " + repoLoc(s)); return false; }
  return r == 1;
}
// decide a boolean; if both outcomes are feasible, a clone taking the other outcome re-executes this instruction
static bool decide(State &s, E cond) {
  if (isC(cond)) return cond->c;
  bool v = evalE(cond, s.model);
  E other = v ? mkNot(cond) : cond; Model m2;
  if (may(s, other, m2)) { State *n = clone(s); addC(*n, other); n->model = m2; work.push_back(n); addC(s, v ? cond : mkNot(cond)); }
  return v;
}
static u64 concretize(State &s, E e) {
  if (isC(e)) return (u64)e->c;
  u64 v = (u64)evalE(e, s.model); E eq = mkEq(e, cst(v, e->w)); Model m2;
  if (may(s, mkNot(eq), m2)) {
    if (s.conc > 600) { noteIncomplete("too many concretizations at " + repoLoc(s)); }
    else { State *n = clone(s); n->conc++; addC(*n, mkNot(eq)); n->model = m2; work.push_back(n); }
    addC(s, eq);
  }
  return v;
}

// ---------------------------------------------------------------- constants and globals
static u64 tysz(Type *t) { return DL->getTypeAllocSize(t).getFixedValue(); }
static unsigned bits(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static Val evalConst(Constant *c);
static Val zeroVal(Type *t) {
  if (unsigned b = bits(t)) return cst(0, b);
  std::vector<Val> v;
  if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.push_back(zeroVal(e));
  else if (auto *at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroVal(at->getElementType()));
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroVal(vt->getElementType()));
  return mkAgg(v);
}
static u64 gepConst(GEPOperator *g) {
  u64 b = (u64)evalConst(cast<Constant>(g->getPointerOperand())).e->c;
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { errs() << "bad const gep " << *g << "\n"; exit(3); }
  return b + off.getSExtValue();
}
static Val evalConst(Constant *c) {
  if (auto *x = dyn_cast<ConstantInt>(c)) { APInt v = x->getValue(); u128 r = v.getRawData()[0]; if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64; return cst(r, v.getBitWidth()); }
  if (auto *x = dyn_cast<ConstantFP>(c)) { APInt v = x->getValueAPF().bitcastToAPInt(); u128 r = v.getRawData()[0]; if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64; return cst(r, v.getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return cst(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
  if (auto *a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
  if (isa<GlobalValue>(c)) { auto it = gaddr.find(c); if (it == gaddr.end()) { errs() << "no address for " << c->getName() << "\n"; exit(3); } return cst(it->second, 64); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { std::vector<Val> v; for (auto &o : c->operands()) v.push_back(evalConst(cast<Constant>(o))); return mkAgg(v); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return cst(gepConst(cast<GEPOperator>(ce)), 64);
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return mkZ(evalConst(ce->getOperand(0)).e, bits(ce->getType()));
      case Instruction::Add: return mkBin(K_Add, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
      case Instruction::Sub: return mkBin(K_Sub, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
      default: break;
    }
  }
  if (auto *d = dyn_cast<DSOLocalEquivalent>(c)) return evalConst(d->getGlobalValue());
  errs() << "unsupported constant " << *c << "\n"; exit(3);
}
static void initBytes(Constant *c, std::vector<u8> &b, u64 off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = tysz(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initBytes(cd->getElementAsConstant(i), b, off + i * es); return; }
  if (isa<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) initBytes(cast<Constant>(c->getOperand(i)), b, off + sl->getElementOffset(i)); return; }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { u64 es = tysz(c->getOperand(0)->getType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initBytes(cast<Constant>(c->getOperand(i)), b, off + i * es); return; }
  E e = evalConst(c).e; u128 v = e->c; for (u64 i = 0; i < (e->w + 7) / 8; i++) b[off + i] = (u8)(v >> (8 * i));
}
static Obj *mkObj(u64 base, u64 size, u8 kind) { Obj *o = new Obj; o->base = base; o->size = size; o->kind = kind; o->conc.assign(size, 0); return o; }
static void initGlobals(State &s) {
  u64 fa = 0x700000; for (auto &F : *M) { gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
  u64 ra = 0x40000000, wa = 0x10000000;
  auto place = [&](GlobalVariable &G) {
    u64 sz = G.getValueType()->isSized() ? tysz(G.getValueType()) : 0; if (G.isDeclaration()) sz = std::max<u64>(sz, 1024); if (!sz) sz = 1;
    u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16); u64 &p = G.isConstant() ? ra : wa;
    p = (p + al - 1) / al * al; gaddr[&G] = p; gvAt[p] = &G; p += sz + 64; };
  for (auto &G : M->globals()) place(G);
  for (auto &G : M->globals()) {
    if (G.isThreadLocal()) continue;
    u64 sz = G.getValueType()->isSized() ? tysz(G.getValueType()) : 0; if (G.isDeclaration()) sz = std::max<u64>(sz, 1024); if (!sz) sz = 1;
    Obj *o = mkObj(gaddr[&G], sz, O_Global); o->ro = G.isConstant();
    if (G.hasInitializer()) initBytes(G.getInitializer(), o->conc, 0);
    (G.isConstant() ? romem : s.mem).insert(o);
  }
}
// ---------------------------------------------------------------- functions
static FI *getFI(Function *F) {
  auto it = fis.find(F); if (it != fis.end()) return it->second;
  FI *f = new FI; f->F = F; fis[F] = f; DenseMap<const Value *, int> slot; int n = 0;
  for (auto &A : F->args()) { slot[&A] = n; f->argSlot.push_back(n++); }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
  f->nslots = n;
  for (auto &B : *F) { f->bb[&B] = f->ins.size();
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      II ii; ii.I = &I; ii.opb = f->ops.size(); ii.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      for (auto &U : I.operands()) { Op o; o.slot = -1; Value *v = U.get();
        if (auto it2 = slot.find(v); it2 != slot.end()) o.slot = it2->second;
        else if (auto *c = dyn_cast<Constant>(v)) { if (!(isa<LandingPadInst>(I) && isa<ConstantArray>(c))) o.c = evalConst(c); }
        f->ops.push_back(o); }
      f->ins.push_back(ii);
    } }
  if (auto *sp = F->getSubprogram()) { f->file = sp->getFilename().str(); if (sp->getFile() && f->file.size() && f->file[0] != '/') f->file = (sp->getDirectory() + "/" + f->file).str(); f->repo = f->file.find("/repo/") != std::string::npos; }
  return f;
}
static const Val &opv(Frame &f, const II &ii, unsigned i) { const Op &o = f.fi->ops[ii.opb + i]; return o.slot >= 0 ? f.regs[o.slot] : o.c; }

// ---------------------------------------------------------------- memory access
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
// find the single object an n byte access at `addr` refers to; forks/reports as needed. returns object, sets off
static Obj *resolve(State &s, E addr, u64 n, bool write, E &off) {
  nMemChecks++;
  u64 v = (u64)evalE(addr, s.model);
  Obj *o = s.mem.find(v); if (!o) o = romem.find(v);
  if (!o || o->freed || n > o->size) {
    if (!isC(addr)) { // is there a feasible good address? then split
      E eq = mkEq(addr, cst(v, 64)); Model m2;
      if (may(s, mkNot(eq), m2)) { if (++s.conc > 200) noteIncomplete("address splits"); else { State *k = clone(s); addC(*k, mkNot(eq)); k->model = m2; work.push_back(k); } }
      addC(s, eq);
    }
    if (o && o->freed) fail(s, "use-after-free", write ? "write" : "read");
    if (v < 4096) fail(s, "null-deref", write ? "write" : "read");
    fail(s, "out-of-bounds", std::string(write ? "write" : "read"));
  }
  if (write && o->ro) fail(s, "write-to-constant", "write");
  if (isC(addr)) {
    u64 d = v - o->base;
    if (d + n > o->size) fail(s, "out-of-bounds", std::string(write ? "write" : "read"));
    off = cst(d, 64); return o;
  }
  E d = mkBin(K_Sub, addr, cst(o->base, 64)); E inb = mkBin(K_Ule, d, cst(o->size - n, 64)); Model m2;
  if (!isC(inb, 1)) {
    bool cur = evalE(inb, s.model);
    E oth = cur ? mkNot(inb) : inb;
    if (may(s, oth, m2)) { State *k = clone(s); addC(*k, oth); k->model = m2; work.push_back(k); addC(s, cur ? inb : mkNot(inb)); }
    if (!cur) { // this state's address is outside although base object found
      fail(s, "out-of-bounds", std::string(write ? "write" : "read"));
    }
  }
  off = d; return o;
}
static E readByte(Obj *o, u64 i) { if (!o->sym.empty() && o->sym[i]) return o->sym[i]; return cst(o->conc[i], 8); }
static E readAt(Obj *o, u64 off, u64 n) {
  bool conc = o->sym.empty();
  if (!conc) { conc = true; for (u64 i = 0; i < n; i++) if (o->sym[off + i]) { conc = false; break; } }
  if (conc) { u128 v = 0; for (u64 i = 0; i < n; i++) v |= (u128)o->conc[off + i] << (8 * i); return cst(v, n * 8); }
  E r = readByte(o, off); for (u64 i = 1; i < n; i++) r = mkConcat(readByte(o, off + i), r); return r;
}
static void writeAt(Obj *o, u64 off, u64 n, E v) {
  if (isC(v)) { for (u64 i = 0; i < n; i++) { o->conc[off + i] = (u8)(v->c >> (8 * i)); if (!o->sym.empty()) o->sym[off + i] = nullptr; } return; }
  o->materializeSym();
  for (u64 i = 0; i < n; i++) { E b = mkExtract(v, 8 * i, 8); if (isC(b)) { o->conc[off + i] = (u8)b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
static E loadBytes(State &s, E addr, u64 n) {
  E off; Obj *o = resolve(s, addr, n, false, off);
  if (isC(off)) return readAt(o, (u64)off->c, n);
  unsigned tz = std::min(trailingZeros(off), 6u); u64 stride = 1ull << tz; u64 cnt = (o->size - n) / stride + 1;
  if (cnt <= 64) { // ITE chain over all offsets
    // pointer sized loads of concrete pointers: still an ITE, resolved later by forking
    E r = nullptr; for (u64 k = 0; k < cnt; k++) { E v = readAt(o, k * stride, n); r = r ? mkIte(mkEq(off, cst(k * stride, 64)), v, r) : v; } return r;
  }
  u64 d = concretize(s, off); return readAt(o, d, n);
}
static void storeBytes(State &s, E addr, u64 n, E v) {
  E off; Obj *o = resolve(s, addr, n, true, off); u64 base = o->base;
  if (isC(off)) { writeAt(s.mem.wr(base), (u64)off->c, n, v); return; }
  unsigned tz = std::min(trailingZeros(off), 6u); u64 stride = 1ull << tz; u64 cnt = (o->size - n) / stride + 1;
  if (cnt <= 32 && stride >= n) {
    Obj *w = s.mem.wr(base);
    for (u64 k = 0; k < cnt; k++) { E old = readAt(w, k * stride, n); writeAt(w, k * stride, n, mkIte(mkEq(off, cst(k * stride, 64)), v, old)); } return;
  }
  u64 d = concretize(s, off); writeAt(s.mem.wr(base), d, n, v);
}
static Val loadVal(State &s, E addr, Type *t) {
  if (unsigned b = bits(t)) { u64 n = (b + 7) / 8; E e = loadBytes(s, addr, n); return mkZ(e, b); }
  std::vector<Val> v;
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadVal(s, mkAdd(addr, cst(sl->getElementOffset(i), 64)), st->getElementType(i))); }
  else { Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); u64 es = t->isArrayTy() ? tysz(et) : (bits(et) + 7) / 8; for (u64 i = 0; i < n; i++) v.push_back(loadVal(s, mkAdd(addr, cst(i * es, 64)), et)); }
  return mkAgg(v);
}
static void storeVal(State &s, E addr, const Val &v, Type *t) {
  if (unsigned b = bits(t)) { u64 n = (b + 7) / 8; storeBytes(s, addr, n, mkZ(v.e, n * 8)); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(s, mkAdd(addr, cst(sl->getElementOffset(i), 64)), (*v.a)[i], st->getElementType(i)); }
  else { Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); u64 es = t->isArrayTy() ? tysz(et) : (bits(et) + 7) / 8; for (u64 i = 0; i < n; i++) storeVal(s, mkAdd(addr, cst(i * es, 64)), (*v.a)[i], et); }
}
static u64 ldc(State &s, u64 a, u64 n = 8) { E e = loadBytes(s, cst(a, 64), n); return concretize(s, e); }
static std::string cstr(State &s, E p) {
  u64 a = concretize(s, p); std::string r; if (!a) return "(null)";
  for (int i = 0; i < 400; i++) { u8 c = (u8)ldc(s, a + i, 1); if (!c) break; r += (char)c; } return r;
}
static u64 heapAlloc(State &s, u64 size, u64 align, bool zero) {
  Thread &t = s.th[s.cur]; u64 al = std::max<u64>(16, align); u64 p = (t.heapBump + al - 1) / al * al; t.heapBump = p + size + 48;
  Obj *o = mkObj(p, size, O_Heap); o->seq = s.hseq++;
  if (!zero && size && size <= 65536) o->sym.assign(size, fillSym);
  s.mem.insert(o); s.liveHeap++; return p;
}
static u64 stackAlloc(State &s, u64 size, u64 align) {
  Thread &t = s.th[s.cur]; u64 al = std::max<u64>(16, align); u64 p = (t.stackBump + al - 1) / al * al; t.stackBump = p + size + 32;
  Obj *o = mkObj(p, size, O_Stack); std::fill(o->conc.begin(), o->conc.end(), 0xAA); s.mem.insert(o); topW(s).allocas.push_back(p); return p;
}
static void heapFree(State &s, u64 p) {
  if (!p) return;
  Obj *o = s.mem.at(p);
  if (!o || o->kind != O_Heap) fail(s, "invalid-free", "free of a pointer that is not a live heap block");
  if (o->freed) fail(s, "double-free", "free");
  Obj *w = s.mem.wr(p); w->freed = true; w->conc.clear(); w->conc.shrink_to_fit(); w->sym.clear(); w->sym.shrink_to_fit(); s.liveHeap--;
}

// ---------------------------------------------------------------- threads
static bool runnable(State &s, int t) { Thread &x = s.th[t]; if (x.status == T_Run) return true; if (x.status == T_Join) return s.th[x.joinOn].status == T_Done; return false; }
static int aliveCount(State &s) { int n = 0; for (auto &t : s.th) if (t.status != T_Done) n++; return n; }
static int runnableCount(State &s) { int n = 0; for (size_t i = 0; i < s.th.size(); i++) if (runnable(s, i)) n++; return n; }
// exchange the bytes kept for a delayed store with those in memory
static void exchange(State &s, Pend &p) { Obj *o = s.mem.find(p.addr, p.n); if (!o || o->freed) return; u64 d = p.addr - o->base; Obj *w = s.mem.wr(o->base); for (u64 i = 0; i < p.n; i++) { E t = readByte(w, d + i); writeAt(w, d + i, 1, p.oth[i]); p.oth[i] = t; } }
// the youngest `late` stores of the current thread become visible only when it runs again (x86-TSO)
static void switchTo(State &s, int t, size_t late = 0) {
  Thread &me = s.th[s.cur]; Sched e{s.cur, me.acc, t, {}};
  if (late) { s.lates++; me.late.assign(me.sb.end() - late, me.sb.end()); for (size_t i = me.late.size(); i-- > 0;) exchange(s, me.late[i]); for (auto &p : me.late) e.late.push_back(p.acc); }
  me.sb.clear(); s.sched.push_back(e); s.cur = t; for (auto &p : s.th[t].late) exchange(s, p); s.th[t].late.clear(); if (s.th[t].status == T_Join) s.th[t].status = T_Run;
}
// the current thread cannot or does not want to go on; go to the next in round robin order.
// with preemption budget left also try the other candidates.
static void reschedule(State &s, bool canStay) {
  int n = s.th.size(); std::vector<int> c;
  for (int k = 1; k < n; k++) { int t = (s.cur + k) % n; if (runnable(s, t)) c.push_back(t); }
  if (c.empty()) {
    if (canStay) { if (++s.th[s.cur].selfYields > 60) fail(s, "blocked", "operation waits forever (no other thread can run)"); return; }
    fail(s, "deadlock", "all threads blocked");
  }
  s.th[s.cur].selfYields = 0;
  for (size_t k = 1; k < c.size() && s.preempts < optPreempt; k++) { State *x = clone(s); nSchedForks++; x->preempts++; switchTo(*x, c[k]); work.push_back(x); }
  switchTo(s, c[0]);
}
static void popFrame(State &s) {
  Frame &f = top(s);
  for (u64 a : f.allocas) s.mem.erase(a);
  s.th[s.cur].st.pop_back();
}
static void pushCall(State &s, Function *F, const std::vector<Val> &args) {
  FI *fi = getFI(F); fi->calls++;
  auto fr = std::make_shared<Frame>(); fr->fi = fi; fr->regs.resize(fi->nslots);
  for (size_t i = 0; i < fi->argSlot.size() && i < args.size(); i++) fr->regs[fi->argSlot[i]] = args[i];
  for (size_t i = fi->argSlot.size(); i < args.size(); i++) fr->varargs.push_back(args[i]);
  s.th[s.cur].st.push_back(fr);
  if (s.th[s.cur].st.size() > 400) fail(s, "stack-overflow", "call depth");
  maxDepth = std::max<u64>(maxDepth, s.th[s.cur].st.size());
}
static const char *optCov = getenv("SYMX_COV"); static DenseSet<BasicBlock *> covered; // development aid: lines executed
static void gotoBB(State &s, BasicBlock *from, BasicBlock *to) {
  if (optCov) covered.insert(to);
  Frame &f = topW(s); int pc = f.fi->bb[to]; std::vector<std::pair<int, Val>> upd;
  while (pc < (int)f.fi->ins.size()) { auto *phi = dyn_cast<PHINode>(f.fi->ins[pc].I); if (!phi) break; int k = phi->getBasicBlockIndex(from); upd.push_back({f.fi->ins[pc].dst, opv(f, f.fi->ins[pc], k)}); pc++; }
  for (auto &u : upd) f.regs[u.first] = u.second;
  f.pc = pc; f.prev = from;
  if (optUnwind) { if (!f.unw) ; }
}
static void setRes(State &s, const II &ii, const Val &v) { if (ii.dst >= 0) topW(s).regs[ii.dst] = v; }
static void advance(State &s) {  // after a call-like instruction completes
  Frame &f = topW(s); Instruction *I = f.fi->ins[f.pc].I;
  if (auto *iv = dyn_cast<InvokeInst>(I)) gotoBB(s, I->getParent(), iv->getNormalDest()); else f.pc++;
}
// ---------------------------------------------------------------- exceptions / rtti
static bool upcast(State &s, u64 from, u64 to, u64 &off, int depth = 0) {
  if (from == to) { off = 0; return true; }
  // same type name in distinct objects
  if (depth > 16) return false;
  auto nm = [&](u64 t) -> std::string { auto it = gvAt.find(t); return it == gvAt.end() ? "" : it->second->getName().str(); };
  std::string kn; u64 vp = 0; Obj *o = romem.find(from, 16); if (!o) o = s.mem.find(from, 16); if (!o) return false;
  vp = ldc(s, from); auto it = gvAt.upper_bound(vp); if (it != gvAt.begin()) { --it; kn = it->second->getName().str(); }
  if (kn == "_ZTVN10__cxxabiv120__si_class_type_infoE") { u64 b = ldc(s, from + 16); return upcast(s, b, to, off, depth + 1); }
  if (kn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    u64 n = ldc(s, from + 20, 4);
    for (u64 i = 0; i < n; i++) { u64 b = ldc(s, from + 24 + 16 * i), fl = ldc(s, from + 32 + 16 * i); u64 o2; if (upcast(s, b, to, o2, depth + 1)) { if (fl & 1) { off = ~0ull; } else off = (u64)((int64_t)fl >> 8) + o2; return true; } }
  }
  (void)nm; return false;
}
static std::map<u64, int> typeIds;  // typeinfo address -> selector
static int typeIdOf(u64 t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[t] = n; }
static void unwind(State &s, u64 exc, u64 tinfo) {
  s.excT[exc] = tinfo;
  for (;;) {
    if (s.th[s.cur].st.empty()) break;
    Frame &f = top(s); Instruction *I = f.fi->ins[f.pc].I;
    if (auto *iv = dyn_cast<InvokeInst>(I)) {
      LandingPadInst *lp = iv->getLandingPadInst(); int sel = 0; bool stop = lp->isCleanup(); 
      for (unsigned k = 0; k < lp->getNumClauses(); k++) {
        if (lp->isCatch(k)) {
          u64 t = (u64)evalConst(lp->getClause(k)).e->c; u64 off = 0;
          if (!t || upcast(s, tinfo, t, off)) { if (off) noteIncomplete("exception base offset"); sel = typeIdOf(t); stop = true; break; }
        } else { auto *ca = lp->getClause(k); if (isa<ConstantAggregateZero>(ca) && cast<ArrayType>(ca->getType())->getNumElements() == 0) { sel = -1; stop = true; break; }
          noteIncomplete("exception filter"); }
      }
      if (stop) {
        BasicBlock *from = I->getParent(); gotoBB(s, from, iv->getUnwindDest());
        Frame &g = topW(s); // now at landingpad
        const II &li = g.fi->ins[g.pc]; if (!isa<LandingPadInst>(li.I)) { errs() << "landingpad expected\n"; exit(3); }
        g.regs[li.dst] = mkAgg({Val(cst(exc, 64)), Val(cst((u32)sel, 32))}); g.pc++;
        return;
      }
    }
    if (s.th[s.cur].st.size() == 1) { std::string tn = gvAt.count(tinfo) ? gvAt[tinfo]->getName().str() : "?"; fail(s, "uncaught-exception", tn); }
    popFrame(s);
  }
}

// ---------------------------------------------------------------- builtins
typedef std::function<void(State &, const II &, CallBase *, std::vector<Val> &)> BI;
static std::unordered_map<std::string, BI> bi;
static E freshSym(State &s, const std::string &name, unsigned w) {
  std::string key = std::to_string(s.nsym++) + ":" + name + ":" + std::to_string(w);
  auto it = symCache.find(key); u32 id;
  if (it == symCache.end()) { E e = newSym(name, w); id = e->lo; symCache[key] = id; } else id = it->second;
  return P.symexpr[id];
}
static void doCheck(State &s, E c, const std::string &label) {
  nChecks++; checksPerLabel[label]++;
  E n = mkNot(c); Model m;
  if (may(s, n, m)) {
    violation(s, m, "check", label);
    Model m2; if (may(s, c, m2)) { addC(s, c); s.model = m2; } else throw PathEnd();
  } else nChecksProved++;
}
static void doYield(State &s, bool adv) {
  Thread &t = s.th[s.cur]; if (s.th.size() > 1) t.acc++; t.spin = 0; 
  if (adv) advance(s);
  if (++s.yields > optMaxYields) fail(s, "no-progress", "threads keep waiting for each other");
  reschedule(s, true);
}
static void doMemcpy(State &s, E dst, E src, E len, bool) {
  u64 n = concretize(s, len); if (!n) return;
  E so, d0; Obj *o = resolve(s, src, n, false, so);
  u64 sd = isC(so) ? (u64)so->c : concretize(s, so);
  std::vector<u8> cb(o->conc.begin() + sd, o->conc.begin() + sd + n); std::vector<E> sb; bool any = false;
  if (!o->sym.empty()) { sb.assign(o->sym.begin() + sd, o->sym.begin() + sd + n); for (E e : sb) if (e) any = true; }
  Obj *d = resolve(s, dst, n, true, d0); u64 db = d->base; u64 dd = isC(d0) ? (u64)d0->c : concretize(s, d0);
  Obj *w = s.mem.wr(db); memcpy(w->conc.data() + dd, cb.data(), n);
  if (any) { w->materializeSym(); for (u64 i = 0; i < n; i++) w->sym[dd + i] = sb[i]; } else if (!w->sym.empty()) for (u64 i = 0; i < n; i++) w->sym[dd + i] = nullptr;
}
static void doMemset(State &s, E dst, E v, E len) {
  u64 n = concretize(s, len); if (!n) return; E d0; Obj *d = resolve(s, dst, n, true, d0); u64 db = d->base; u64 dd = isC(d0) ? (u64)d0->c : concretize(s, d0);
  Obj *w = s.mem.wr(db); E b = mkZ(v, 8); for (u64 i = 0; i < n; i++) writeAt(w, dd + i, 1, b);
}
static void initBuiltins() {
#define B(n) bi[n] = [](State & s, const II &ii, CallBase *cb, std::vector<Val> &a)
  B("symx_sym") { unsigned bytes = (unsigned)concretize(s, a[1].e); std::string nm = cstr(s, a[0].e); E e = freshSym(s, nm, bytes * 8); s.in.push_back({nm, e->lo, bytes}); setRes(s, ii, mkZ(e, 64)); advance(s); };
  B("symx_assume") { E c = mkNot(mkEq(a[0].e, cst(0, a[0].e->w))); Model m; if (!may(s, c, m)) throw PathEnd(); addC(s, c); s.model = m; advance(s); };
  B("symx_check") { E c = mkNot(mkEq(a[0].e, cst(0, a[0].e->w))); std::string l = cstr(s, a[1].e); doCheck(s, c, l); advance(s); };
  B("symx_reach") { reach[cstr(s, a[0].e)]++; advance(s); };
  B("symx_print") { if (optTrace) fprintf(stderr, "PRINT %s %s\n", cstr(s, a[0].e).c_str(), strE(a[1].e).c_str()); advance(s); };
  B("symx_end") { pathDone(s); throw PathEnd(); };
  B("symx_concretize") { u64 v = concretize(s, a[0].e); setRes(s, ii, cst(v, a[0].e->w)); advance(s); };
  B("symx_live_heap") { setRes(s, ii, cst(s.liveHeap, 64)); advance(s); };
  B("symx_malloc") { u64 n = concretize(s, a[0].e); if (n > (1ull << 26)) { setRes(s, ii, cst(0, 64)); advance(s); return; } u64 p = heapAlloc(s, n, 16, false); setRes(s, ii, cst(p, 64)); advance(s); };
  bi["symx_new"] = [](State &s, const II &ii, CallBase *cb, std::vector<Val> &a) { u64 n = concretize(s, a[0].e); if (n > (1ull << 26)) fail(s, "huge-allocation", "operator new of an absurd size"); u64 p = heapAlloc(s, n, a.size() > 1 && a[1].e->w == 64 ? concretize(s, a[1].e) : 16, false); setRes(s, ii, cst(p, 64)); advance(s); };
  B("symx_calloc") { u64 n = concretize(s, mkBin(K_Mul, a[0].e, a[1].e)); u64 p = heapAlloc(s, n, 16, true); setRes(s, ii, cst(p, 64)); advance(s); };
  B("symx_aligned_alloc") { u64 al = concretize(s, a[0].e), n = concretize(s, a[1].e); u64 p = heapAlloc(s, n, al, false); setRes(s, ii, cst(p, 64)); advance(s); };
  B("symx_posix_memalign") { u64 al = concretize(s, a[1].e), n = concretize(s, a[2].e); E oo; resolve(s, a[0].e, 8, true, oo); u64 p = heapAlloc(s, n, al, false); storeBytes(s, a[0].e, 8, cst(p, 64)); setRes(s, ii, cst(0, 32)); advance(s); };
  B("symx_free") { u64 p = concretize(s, a[0].e); heapFree(s, p); advance(s); };
  bi["symx_delete"] = bi["symx_free"];
  B("symx_realloc") { u64 p = concretize(s, a[0].e), n = concretize(s, a[1].e); u64 q = heapAlloc(s, n, 16, false);
    if (p) { Obj *o = s.mem.at(p); if (!o || o->freed || o->kind != O_Heap) fail(s, "invalid-free", "realloc"); u64 m = std::min(o->size, n); if (m) { Obj *w = s.mem.wr(q); for (u64 i = 0; i < m; i++) writeAt(w, i, 1, readByte(o, i)); } heapFree(s, p); }
    setRes(s, ii, cst(q, 64)); advance(s); };
  B("symx_thread_create") {
    u64 fn = concretize(s, a[0].e); auto it = fnAt.find(fn); if (it == fnAt.end()) fail(s, "bad-call", "thread function"); if (s.th.size() >= 8) { noteIncomplete("too many threads"); throw PathEnd(); }
    int tid = s.th.size(); Val arg = a[1]; setRes(s, ii, cst(tid, 32)); advance(s);
    s.th.emplace_back(); Thread &t = s.th.back(); t.stackBump = 0x200000000000ull + ((u64)tid << 36); t.heapBump = 0x500000000000ull + ((u64)tid << 36);
    FI *fi = getFI(it->second); fi->calls++; auto fr = std::make_shared<Frame>(); fr->fi = fi; fr->regs.resize(fi->nslots); if (fi->argSlot.size()) fr->regs[fi->argSlot[0]] = arg; t.st.push_back(fr); };
  B("symx_thread_join") { int t = (int)concretize(s, a[0].e); if (t < 0 || t >= (int)s.th.size()) fail(s, "bad-call", "join"); if (s.th.size() > 1) s.th[s.cur].acc++; advance(s); if (s.th[t].status != T_Done) { s.th[s.cur].status = T_Join; s.th[s.cur].joinOn = t; reschedule(s, false); } };
  B("symx_thread_self") { setRes(s, ii, cst(s.cur, 32)); advance(s); };
  B("symx_yield") { setRes(s, ii, cst(0, 32)); doYield(s, true); };
  B("symx_unwind") { u64 e = concretize(s, a[0].e), t = concretize(s, a[1].e); unwind(s, e, t); };
  B("symx_exc_type") { u64 e = concretize(s, a[0].e); setRes(s, ii, cst(s.excT[e], 64)); advance(s); };
  B("symx_access") {
    Thread &t = s.th[s.cur]; if (s.th.size() > 1) t.acc++;
    if (s.th.size() < 2) { advance(s); return; }
    u64 addr = (u64)evalE(a[0].e, s.model), n = (u64)evalE(a[1].e, s.model); unsigned kd = (unsigned)evalE(a[2].e, s.model); bool w = kd & 1; bool conf = false;
    if (aliveCount(s) >= 2 && n <= 65536) {
      if (addr < 0x200000000000ull || addr >= 0x500000000000ull || true) {
        for (u64 g = addr >> 3; g <= (addr + (n ? n - 1 : 0)) >> 3; g++) { Acc &x = accs[g]; (w ? x.w : x.r) |= 1ull << s.cur; if (conflict.count(g)) conf = true; } }
    }
    advance(s);
    if (conf && s.preempts < optPreempt) for (size_t k = 0; k < s.th.size(); k++) if ((int)k != s.cur && runnable(s, k)) { State *x = clone(s); nSchedForks++; x->preempts++; switchTo(*x, k); work.push_back(x);
      // the same with the youngest stores not yet visible; only worth it when a shared location has been read in between
      if (s.lates < optTso) for (size_t l = 1; l <= s.th[s.cur].sb.size(); l++) { Pend &p = s.th[s.cur].sb[s.th[s.cur].sb.size() - l]; if (p.conf && p.loadAfter) { State *y = clone(s); nSchedForks++; y->preempts++; switchTo(*y, k, l); work.push_back(y); } } }
    if (optTso) { auto &sb = s.th[s.cur].sb;
      if (kd & 2) sb.clear();
      else if (w) { Obj *o = isC(a[0].e) && n >= 1 && n <= 64 ? s.mem.find(addr, n) : nullptr; if (!o || o->freed) sb.clear(); else { Pend p{addr, n, s.th[s.cur].acc, {}, conf, false}; for (u64 i = 0; i < n; i++) p.oth.push_back(readByte(o, addr - o->base + i)); if (sb.size() >= 12) sb.erase(sb.begin()); sb.push_back(std::move(p)); } }
      else if (conf) for (auto &p : sb) p.loadAfter = true; }
    if (++s.th[s.cur].spin > 3000) { s.th[s.cur].spin = 0; if (++s.yields > optMaxYields) fail(s, "no-progress", "threads keep waiting for each other"); reschedule(s, true); } };
  B("symx_fail") { fail(s, "check", cstr(s, a[0].e)); };
  B("symx_abort") { fail(s, "abort", cstr(s, a[0].e)); };
  B("symx_fence") { s.th[s.cur].sb.clear(); advance(s); };
  B("symx_step_mark") { advance(s); };
  B("__assert_fail") { std::string e = cstr(s, a[0].e), fl = cstr(s, a[1].e); u64 ln = concretize(s, a[2].e); fail(s, "assert", e + " " + fl.substr(fl.rfind('/') + 1)); (void)ln; };
  B("abort") { fail(s, "abort", "abort()"); };
  B("_ZSt9terminatev") { fail(s, "terminate", "std::terminate"); };
  B("exit") { fail(s, "exit", "exit() called"); };
  B("_exit") { fail(s, "exit", "_exit() called"); };
  B("__dynamic_cast") {
    u64 p = concretize(s, a[0].e); u64 dt = concretize(s, a[2].e); u64 vt = ldc(s, p); u64 ott = ldc(s, vt - 16), ti = ldc(s, vt - 8); u64 full = p + ott, off = 0; u64 r = 0;
    if (upcast(s, ti, dt, off)) { if (off == ~0ull) { noteIncomplete("dynamic_cast virtual base"); throw PathEnd(); } r = full + off; }
    setRes(s, ii, cst(r, 64)); advance(s); };
  bi["symx_nop"] = [](State &s, const II &ii, CallBase *cb, std::vector<Val> &a) { if (ii.dst >= 0) setRes(s, ii, zeroVal(cb->getType())); advance(s); };
  for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "symx_lifetime", "posix_madvise", "madvise"}) bi[n] = bi["symx_nop"];
  bi["memcpy"] = bi["memmove"] = [](State &s, const II &ii, CallBase *cb, std::vector<Val> &a) { doMemcpy(s, a[0].e, a[1].e, a[2].e, false); setRes(s, ii, a[0]); advance(s); };
  bi["memset"] = [](State &s, const II &ii, CallBase *cb, std::vector<Val> &a) { doMemset(s, a[0].e, a[1].e, a[2].e); setRes(s, ii, a[0]); advance(s); };
  for (auto n : {"sqrt", "sqrtf"}) bi[n] = [](State &s, const II &ii, CallBase *cb, std::vector<Val> &a) { setRes(s, ii, mkFp(K_FSqrt, a[0].e->w, 0, a[0].e)); advance(s); };
  bi["floor"] = [](State &s, const II &ii, CallBase *cb, std::vector<Val> &a) { setRes(s, ii, mkFp(K_FRint, a[0].e->w, 0, a[0].e)); advance(s); };
  bi["ceil"] = [](State &s, const II &ii, CallBase *cb, std::vector<Val> &a) { setRes(s, ii, mkFp(K_FRint, a[0].e->w, 1, a[0].e)); advance(s); };
#undef B
}
static bool ostreamish(StringRef n) {
  return n.starts_with("_ZNSo") || n.starts_with("_ZSt16__ostream_insert") || n.starts_with("_ZStls") || n.starts_with("_ZNSt9basic_iosI") || n.starts_with("_ZNKSt9basic_iosI") || n.starts_with("_ZNSt8ios_base") || n.starts_with("_ZSt4endl") || n.starts_with("_ZSt5flush") || n.starts_with("_ZNSt14basic_ofstream") || n.starts_with("_ZNSt13basic_filebuf") || n.starts_with("_ZNSt6locale") || n.starts_with("_ZNKSt5ctypeIcE") || n.starts_with("_ZNSt7__cxx1119basic_ostringstream") || n.starts_with("_ZNSt7__cxx1118basic_stringstream") || n.starts_with("_ZNSt7__cxx1115basic_stringbuf") || n == "fprintf" || n == "printf" || n == "puts" || n == "putchar" || n == "fwrite" || n == "fputs" || n == "fputc" || n == "fflush" || n == "perror" || n == "vfprintf";
}

// ---------------------------------------------------------------- instruction execution
static E asBool(const Val &v) { return v.e; }
static Val binop(State &s, unsigned opc, const Val &a, const Val &b, Instruction *I) {
  if (a.a) { std::vector<Val> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(binop(s, opc, (*a.a)[i], (*b.a)[i], I)); return mkAgg(r); }
  E x = a.e, y = b.e; unsigned w = x->w;
  switch (opc) {
    case Instruction::Add: return mkBin(K_Add, x, y);
    case Instruction::Sub: return mkBin(K_Sub, x, y);
    case Instruction::Mul: return mkBin(K_Mul, x, y);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E z = mkEq(y, cst(0, w)); if (!isC(z, 0)) { if (decide(s, z)) fail(s, "division-by-zero", "integer division by zero"); }
      return mkBin(opc == Instruction::UDiv ? K_UDiv : opc == Instruction::SDiv ? K_SDiv : opc == Instruction::URem ? K_URem : K_SRem, x, y); }
    case Instruction::And: return mkBin(K_And, x, y);
    case Instruction::Or: return mkBin(K_Or, x, y);
    case Instruction::Xor: return mkBin(K_Xor, x, y);
    case Instruction::Shl: return mkBin(K_Shl, x, y);
    case Instruction::LShr: return mkBin(K_LShr, x, y);
    case Instruction::AShr: return mkBin(K_AShr, x, y);
    case Instruction::FAdd: return mkFp(K_FAdd, w, 0, x, y);
    case Instruction::FSub: return mkFp(K_FSub, w, 0, x, y);
    case Instruction::FMul: return mkFp(K_FMul, w, 0, x, y);
    case Instruction::FDiv: return mkFp(K_FDiv, w, 0, x, y);
    default: noteIncomplete(std::string("binop ") + I->getOpcodeName()); throw PathEnd();
  }
}
static Val icmp(unsigned p, const Val &a, const Val &b) {
  if (a.a) { std::vector<Val> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(icmp(p, (*a.a)[i], (*b.a)[i])); return mkAgg(r); }
  E x = a.e, y = b.e;
  switch (p) {
    case CmpInst::ICMP_EQ: return mkBin(K_Eq, x, y);
    case CmpInst::ICMP_NE: return mkNot(mkBin(K_Eq, x, y));
    case CmpInst::ICMP_ULT: return mkBin(K_Ult, x, y);
    case CmpInst::ICMP_ULE: return mkBin(K_Ule, x, y);
    case CmpInst::ICMP_UGT: return mkBin(K_Ult, y, x);
    case CmpInst::ICMP_UGE: return mkBin(K_Ule, y, x);
    case CmpInst::ICMP_SLT: return mkBin(K_Slt, x, y);
    case CmpInst::ICMP_SLE: return mkBin(K_Sle, x, y);
    case CmpInst::ICMP_SGT: return mkBin(K_Slt, y, x);
    default: return mkBin(K_Sle, y, x);
  }
}
static Val castop(unsigned opc, const Val &v, Type *dt) {
  if (v.a && dt->isVectorTy()) { auto *vt = cast<FixedVectorType>(dt); if (v.a->size() == vt->getNumElements() && opc != Instruction::BitCast) { std::vector<Val> r; for (auto &x : *v.a) r.push_back(castop(opc, x, vt->getElementType())); return mkAgg(r); } }
  if (opc == Instruction::BitCast) {
    if (!v.a && bits(dt)) return v;
    E all = nullptr; if (v.a) { for (auto &x : *v.a) all = all ? mkConcat(x.e, all) : x.e; } else all = v.e;
    if (unsigned b = bits(dt)) { (void)b; return all; }
    auto *vt = cast<FixedVectorType>(dt); unsigned eb = bits(vt->getElementType()); std::vector<Val> r; for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(mkExtract(all, i * eb, eb)); return mkAgg(r);
  }
  E x = v.e; unsigned w = bits(dt);
  switch (opc) {
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: return mkZ(x, w);
    case Instruction::SExt: return mkS(x, w);
    case Instruction::FPToSI: return mkFp(K_FToSI, w, 0, x);
    case Instruction::FPToUI: return mkFp(K_FToUI, w, 0, x);
    case Instruction::SIToFP: return mkFp(K_SIToF, w, 0, x);
    case Instruction::UIToFP: return mkFp(K_UIToF, w, 0, x);
    case Instruction::FPExt: case Instruction::FPTrunc: return mkFp(K_FToF, w, 0, x);
    default: return x;
  }
}
static void retFrom(State &s, const Val *rv) {
  popFrame(s); Thread &t = s.th[s.cur];
  if (t.st.empty()) {
    t.status = T_Done; t.acc++;
    if (s.cur == 0) { pathDone(s); throw PathEnd(); }
    reschedule(s, false); return;
  }
  Frame &f = top(s); const II &ii = f.fi->ins[f.pc]; if (rv && ii.dst >= 0) topW(s).regs[ii.dst] = *rv; advance(s);
}
static bool intrinsic(State &s, const II &ii, CallBase *cb, Intrinsic::ID id, std::vector<Val> &a) {
  auto res = [&](const Val &v) { setRes(s, ii, v); advance(s); return true; };
  auto map2 = [&](auto f) { if (a[0].a) { std::vector<Val> r; for (size_t i = 0; i < a[0].a->size(); i++) r.push_back(f((*a[0].a)[i].e, (*a[1].a)[i].e)); return res(mkAgg(r)); } return res(Val(f(a[0].e, a[1].e))); };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
    case Intrinsic::assume: if (ii.dst >= 0) setRes(s, ii, zeroVal(cb->getType())); advance(s); return true;
    case Intrinsic::stacksave: return res(cst(0, 64));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(s, a[0].e, a[1].e, a[2].e, false); advance(s); return true;
    case Intrinsic::memset: doMemset(s, a[0].e, a[1].e, a[2].e); advance(s); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return res(a[0]);
    case Intrinsic::objectsize: return res(cst(~(u64)0, bits(cb->getType())));
    case Intrinsic::is_constant: return res(cst(0, 1));
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s, "trap", "llvm.trap");
    case Intrinsic::eh_typeid_for: return res(cst((u32)typeIdOf((u64)a[0].e->c), 32));
    case Intrinsic::threadlocal_address: {
      auto *G = cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()); Thread &t = s.th[s.cur]; auto it = t.tls.find(G);
      if (it != t.tls.end()) return res(cst(it->second, 64));
      u64 sz = tysz(G->getValueType()); u64 p = (t.stackBump + 63) / 64 * 64; t.stackBump = p + sz + 32; Obj *o = mkObj(p, sz, O_Tls); if (G->hasInitializer()) initBytes(G->getInitializer(), o->conc, 0); s.mem.insert(o); t.tls[G] = p; return res(cst(p, 64)); }
    case Intrinsic::umax: return map2([](E x, E y) { return mkIte(mkBin(K_Ult, x, y), y, x); });
    case Intrinsic::umin: return map2([](E x, E y) { return mkIte(mkBin(K_Ult, x, y), x, y); });
    case Intrinsic::smax: return map2([](E x, E y) { return mkIte(mkBin(K_Slt, x, y), y, x); });
    case Intrinsic::smin: return map2([](E x, E y) { return mkIte(mkBin(K_Slt, x, y), x, y); });
    case Intrinsic::abs: { E x = a[0].e; return res(mkIte(mkBin(K_Slt, x, cst(0, x->w)), mkBin(K_Sub, cst(0, x->w), x), x)); }
    case Intrinsic::usub_sat: return map2([](E x, E y) { return mkIte(mkBin(K_Ult, x, y), cst(0, x->w), mkBin(K_Sub, x, y)); });
    case Intrinsic::uadd_sat: return map2([](E x, E y) { E r = mkAdd(x, y); return mkIte(mkBin(K_Ult, r, x), cst(mask(x->w), x->w), r); });
    case Intrinsic::uadd_with_overflow: { E r = mkAdd(a[0].e, a[1].e); return res(mkAgg({Val(r), Val(mkBin(K_Ult, r, a[0].e))})); }
    case Intrinsic::usub_with_overflow: return res(mkAgg({Val(mkBin(K_Sub, a[0].e, a[1].e)), Val(mkBin(K_Ult, a[0].e, a[1].e))}));
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { unsigned w = a[0].e->w; Kind k = id == Intrinsic::sadd_with_overflow ? K_Add : K_Sub; E r = mkBin(k, mkS(a[0].e, w + 1), mkS(a[1].e, w + 1)); E lo = mkExtract(r, 0, w); return res(mkAgg({Val(lo), Val(mkNot(mkEq(mkS(lo, w + 1), r)))})); }
    case Intrinsic::umul_with_overflow: { unsigned w = a[0].e->w; if (w > 64) break; E r = mkBin(K_Mul, mkZ(a[0].e, 2 * w), mkZ(a[1].e, 2 * w)); return res(mkAgg({Val(mkExtract(r, 0, w)), Val(mkNot(mkEq(mkExtract(r, w, w), cst(0, w))))})); }
    case Intrinsic::smul_with_overflow: { unsigned w = a[0].e->w; if (w > 64) break; E r = mkBin(K_Mul, mkS(a[0].e, 2 * w), mkS(a[1].e, 2 * w)); E lo = mkExtract(r, 0, w); return res(mkAgg({Val(lo), Val(mkNot(mkEq(mkS(lo, 2 * w), r)))})); }
    case Intrinsic::ctpop: { E x = a[0].e; E r = cst(0, x->w); for (unsigned i = 0; i < x->w; i++) r = mkAdd(r, mkZ(mkExtract(x, i, 1), x->w)); return res(r); }
    case Intrinsic::ctlz: { E x = a[0].e; E r = cst(x->w, x->w); for (unsigned i = 0; i < x->w; i++) r = mkIte(mkExtract(x, i, 1), cst(x->w - 1 - i, x->w), r); return res(r); }
    case Intrinsic::cttz: { E x = a[0].e; E r = cst(x->w, x->w); for (int i = x->w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), cst(i, x->w), r); return res(r); }
    case Intrinsic::bswap: { E x = a[0].e; E r = nullptr; for (unsigned i = 0; i < x->w / 8; i++) { E b = mkExtract(x, 8 * i, 8); r = r ? mkConcat(r, b) : b; } return res(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { E x = a[0].e, y = a[1].e; unsigned w = x->w; if (w > 64) break; E c = mkBin(K_URem, mkZ(a[2].e, 2 * w), cst(w, 2 * w)); E cc = mkConcat(x, y); if (id == Intrinsic::fshl) return res(mkExtract(mkBin(K_Shl, cc, c), w, w)); return res(mkExtract(mkBin(K_LShr, cc, c), 0, w)); }
    case Intrinsic::sqrt: return res(mkFp(K_FSqrt, a[0].e->w, 0, a[0].e));
    case Intrinsic::floor: return res(mkFp(K_FRint, a[0].e->w, 0, a[0].e));
    case Intrinsic::ceil: return res(mkFp(K_FRint, a[0].e->w, 1, a[0].e));
    case Intrinsic::trunc: return res(mkFp(K_FRint, a[0].e->w, 2, a[0].e));
    case Intrinsic::rint: case Intrinsic::nearbyint: return res(mkFp(K_FRint, a[0].e->w, 3, a[0].e));
    case Intrinsic::fabs: { E x = a[0].e; return res(mkBin(K_And, x, cst(mask(x->w - 1), x->w))); }
    case Intrinsic::fmuladd: return res(mkFp(K_FAdd, a[0].e->w, 0, mkFp(K_FMul, a[0].e->w, 0, a[0].e, a[1].e), a[2].e));
    case Intrinsic::is_fpclass: { E x = a[0].e; unsigned tm = (unsigned)a[1].e->c; unsigned w = x->w; unsigned mb = w == 64 ? 52 : 23; E ex = mkExtract(x, mb, w - 1 - mb), mn = mkExtract(x, 0, mb); E exAll = mkEq(ex, cst(mask(ex->w), ex->w)), mz = mkEq(mn, cst(0, mb)); E isn = mkAnd(exAll, mkNot(mz)), isinf = mkAnd(exAll, mz); E r = fls(); if ((tm & 3) == 3) r = mkOr(r, isn); if ((tm & 0x204) == 0x204) r = mkOr(r, isinf); if (tm & ~0x207u) break; return res(r); }
    default: break;
  }
  return false;
}
static void doCall(State &s, const II &ii) {
  auto *cb = cast<CallBase>(ii.I); Frame &f = top(s);
  if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) { doYield(s, true); return; } noteIncomplete("inline asm with result"); setRes(s, ii, zeroVal(cb->getType())); advance(s); return; }
  Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
  std::vector<Val> a; unsigned na = cb->arg_size(); a.reserve(na);
  for (unsigned i = 0; i < na; i++) { if (cb->getArgOperand(i)->getType()->isMetadataTy()) { a.push_back(Val()); continue; } a.push_back(opv(f, ii, i)); }
  if (!F) {
    E t = opv(f, ii, cb->getNumOperands() - 1).e; u64 ad = concretize(s, t); auto it = fnAt.find(ad);
    if (it == fnAt.end()) fail(s, ad < 4096 ? "null-call" : "bad-call", "indirect call");
    F = it->second;
  }
  if (Intrinsic::ID id = F->getIntrinsicID()) { if (intrinsic(s, ii, cb, id, a)) return; noteIncomplete("intrinsic " + F->getName().str()); throw PathEnd(); }
  if (!F->isDeclaration() && !bi.count(F->getName().str())) {
    for (unsigned i = 0; i < na; i++) if (cb->isByValArgument(i)) { Type *t = cb->getParamByValType(i); u64 p = stackAlloc(s, tysz(t), 16); doMemcpy(s, cst(p, 64), a[i].e, cst(tysz(t), 64), false); a[i] = cst(p, 64); }
    pushCall(s, F, a); return;
  }
  auto it = bi.find(F->getName().str());
  if (it != bi.end()) { it->second(s, ii, cb, a); return; }
  if (ostreamish(F->getName())) { if (ii.dst >= 0) { if (cb->getType()->isPointerTy() && na) setRes(s, ii, a[0]); else setRes(s, ii, zeroVal(cb->getType())); } advance(s); return; }
  noteIncomplete("external function " + F->getName().str() + " at " + repoLoc(s)); throw PathEnd();
}
static E gepAddr(State &s, Frame &f, const II &ii, GetElementPtrInst *g) {
  E p = opv(f, ii, 0).e; unsigned k = 1;
  for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi, ++k) {
    const Val &iv = opv(f, ii, k);
    if (auto *st = gi.getStructTypeOrNull()) { p = mkAdd(p, cst(DL->getStructLayout(st)->getElementOffset((unsigned)iv.e->c), 64)); continue; }
    E i = mkS(iv.e, 64); if (iv.e->w > 64) i = mkExtract(iv.e, 0, 64);
    u64 sz = tysz(gi.getIndexedType()); p = mkAdd(p, isC(i) ? cst((u64)i->c * sz, 64) : mkBin(K_Mul, i, cst(sz, 64)));
  }
  return p;
}
static void branchTo(State &s, E c, BasicBlock *from, BasicBlock *t, BasicBlock *f) {
  if (isC(c)) { gotoBB(s, from, c->c ? t : f); return; }
  bool v = evalE(c, s.model); E other = v ? mkNot(c) : c; Model m2;
  if (may(s, other, m2)) { State *n = clone(s); addC(*n, other); n->model = m2; gotoBB(*n, from, v ? f : t); work.push_back(n); addC(s, v ? c : mkNot(c)); }
  gotoBB(s, from, v ? t : f);
}
static void step(State &s) {
  nInstr++; if (++s.steps > optMaxSteps) fail(s, "step-limit", "path exceeds the step limit (possible endless loop)");
  Frame &f = top(s); const II &ii = f.fi->ins[f.pc]; Instruction *I = ii.I;
  if (optTrace > 1) { std::string str; raw_string_ostream os(str); os << *I; fprintf(stderr, "[%d] %s: %s\n", s.cur, f.fi->F->getName().str().c_str(), str.c_str()); }
  switch (I->getOpcode()) {
    case Instruction::Ret: { if (auto *r = cast<ReturnInst>(I); r->getReturnValue()) { Val v = opv(f, ii, 0); retFrom(s, &v); } else retFrom(s, nullptr); return; }
    case Instruction::Br: { auto *b = cast<BranchInst>(I); if (b->isUnconditional()) gotoBB(s, I->getParent(), b->getSuccessor(0)); else branchTo(s, asBool(opv(f, ii, 0)), I->getParent(), b->getSuccessor(0), b->getSuccessor(1)); return; }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I); E c = opv(f, ii, 0).e; 
      if (isC(c)) { APInt v(c->w, (u64)c->c); auto h = sw->findCaseValue(cast<ConstantInt>(ConstantInt::get(sw->getCondition()->getType(), v))); gotoBB(s, I->getParent(), h->getCaseSuccessor()); return; }
      // group by successor
      std::vector<std::pair<BasicBlock *, E>> g; E any = fls();
      for (auto &cs : sw->cases()) { E e = mkEq(c, evalConst(cs.getCaseValue()).e); any = mkOr(any, e); bool hit = false; for (auto &x : g) if (x.first == cs.getCaseSuccessor()) { x.second = mkOr(x.second, e); hit = true; } if (!hit) g.push_back({cs.getCaseSuccessor(), e}); }
      { bool hit = false; for (auto &x : g) if (x.first == sw->getDefaultDest()) { x.second = mkOr(x.second, mkNot(any)); hit = true; } if (!hit) g.push_back({sw->getDefaultDest(), mkNot(any)}); }
      int mine = -1; for (size_t i = 0; i < g.size(); i++) if (evalE(g[i].second, s.model)) mine = i;
      for (size_t i = 0; i < g.size(); i++) if ((int)i != mine) { Model m2; if (may(s, g[i].second, m2)) { State *n = clone(s); addC(*n, g[i].second); n->model = m2; gotoBB(*n, I->getParent(), g[i].first); work.push_back(n); } }
      addC(s, g[mine].second); gotoBB(s, I->getParent(), g[mine].first); return; }
    case Instruction::Unreachable: fail(s, "unreachable", "reached code marked unreachable");
    case Instruction::Call: case Instruction::Invoke: doCall(s, ii); return;
    case Instruction::Resume: { Val v = opv(f, ii, 0); u64 e = (u64)(*v.a)[0].e->c; popFrame(s); if (s.th[s.cur].st.empty()) fail(s, "uncaught-exception", gvAt.count(s.excT[e]) ? gvAt[s.excT[e]]->getName().str() : "?"); unwind(s, e, s.excT[e]); return; }
    case Instruction::LandingPad: errs() << "landingpad reached\n"; exit(3);
    default: break;
  }
  Val r;
  switch (I->getOpcode()) {
    case Instruction::Alloca: { auto *al = cast<AllocaInst>(I); u64 n = concretize(s, opv(f, ii, 0).e); r = cst(stackAlloc(s, n * tysz(al->getAllocatedType()), al->getAlign().value()), 64); break; }
    case Instruction::Load: r = loadVal(s, opv(f, ii, 0).e, I->getType()); break;
    case Instruction::Store: { Val v = opv(f, ii, 0); storeVal(s, opv(f, ii, 1).e, v, cast<StoreInst>(I)->getValueOperand()->getType()); topW(s).pc++; return; }
    case Instruction::GetElementPtr: r = gepAddr(s, f, ii, cast<GetElementPtrInst>(I)); break;
    case Instruction::ICmp: r = icmp(cast<ICmpInst>(I)->getPredicate(), opv(f, ii, 0), opv(f, ii, 1)); break;
    case Instruction::FCmp: r = mkFp(K_FCmp, 1, cast<FCmpInst>(I)->getPredicate(), opv(f, ii, 0).e, opv(f, ii, 1).e); break;
    case Instruction::FNeg: { E x = opv(f, ii, 0).e; r = mkBin(K_Xor, x, cst((u128)1 << (x->w - 1), x->w)); break; }
    case Instruction::Select: { const Val &c = opv(f, ii, 0), &t = opv(f, ii, 1), &e = opv(f, ii, 2);
      if (c.a) { std::vector<Val> v; for (size_t i = 0; i < c.a->size(); i++) v.push_back(mkIte((*c.a)[i].e, (*t.a)[i].e, (*e.a)[i].e)); r = mkAgg(v); }
      else if (t.a) { if (isC(c.e)) r = c.e->c ? t : e; else { bool d = decide(s, c.e); Frame &f2 = top(s); r = d ? opv(f2, ii, 1) : opv(f2, ii, 2); } }
      else r = mkIte(c.e, t.e, e.e); break; }
    case Instruction::ExtractValue: { Val v = opv(f, ii, 0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.a)[i]; v = t; } r = v; break; }
    case Instruction::InsertValue: { auto idx = cast<InsertValueInst>(I)->getIndices(); Val v = opv(f, ii, 0); Val x = opv(f, ii, 1);
      std::function<Val(const Val &, unsigned)> ins = [&](const Val &b, unsigned d) -> Val { if (d == idx.size()) return x; std::vector<Val> c = *b.a; c[idx[d]] = ins(c[idx[d]], d + 1); return mkAgg(c); }; r = ins(v, 0); break; }
    case Instruction::ExtractElement: { Val v = opv(f, ii, 0); u64 i = concretize(s, opv(f, ii, 1).e); r = (*v.a)[i]; break; }
    case Instruction::InsertElement: { Val v = opv(f, ii, 0); Val x = opv(f, ii, 1); u64 i = concretize(s, opv(f, ii, 2).e); std::vector<Val> c = *v.a; c[i] = x; r = mkAgg(c); break; }
    case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); Val a = opv(f, ii, 0), b = opv(f, ii, 1); std::vector<Val> c; for (int k : sv->getShuffleMask()) { if (k < 0) c.push_back((*a.a)[0]); else if (k < (int)a.a->size()) c.push_back((*a.a)[k]); else c.push_back((*b.a)[k - a.a->size()]); } r = mkAgg(c); break; }
    case Instruction::Freeze: r = opv(f, ii, 0); break;
    case Instruction::AtomicRMW: {
      auto *rm = cast<AtomicRMWInst>(I); E p = opv(f, ii, 0).e, v = opv(f, ii, 1).e; E old = loadVal(s, p, I->getType()).e; E nv;
      switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkBin(K_Sub, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = mkBin(K_And, old, v); break; case AtomicRMWInst::Or: nv = mkBin(K_Or, old, v); break; case AtomicRMWInst::Xor: nv = mkBin(K_Xor, old, v); break; default: noteIncomplete("atomicrmw"); throw PathEnd(); }
      storeVal(s, p, nv, I->getType()); r = old; break; }
    case Instruction::AtomicCmpXchg: { E p = opv(f, ii, 0).e; Val c = opv(f, ii, 1), n = opv(f, ii, 2); Type *t = cast<AtomicCmpXchgInst>(I)->getCompareOperand()->getType(); E old = loadVal(s, p, t).e; E eq = mkEq(old, c.e); storeVal(s, p, mkIte(eq, n.e, old), t); r = mkAgg({Val(old), Val(eq)}); break; }
    case Instruction::Fence: topW(s).pc++; return;
    case Instruction::VAArg: noteIncomplete("va_arg"); throw PathEnd();
    default:
      if (I->isBinaryOp()) r = binop(s, I->getOpcode(), opv(f, ii, 0), opv(f, ii, 1), I);
      else if (I->isCast()) r = castop(I->getOpcode(), opv(f, ii, 0), I->getType());
      else { noteIncomplete(std::string("instruction ") + I->getOpcodeName()); throw PathEnd(); }
  }
  Frame &w = topW(s); if (ii.dst >= 0) w.regs[ii.dst] = r; w.pc++;
}
static void runPath(State *s) {
  try {
    u32 k = 0;
    while (!stopAll) { step(*s); if ((++k & 1023) == 0 && elapsed() > optTime) { noteIncomplete("time limit"); stopAll = true; } }
  } catch (PathEnd &) { nPaths++; }
  delete s;
}
static void explore(State *s) {
  work.push_back(s);
  while (!work.empty() && !stopAll) {
    State *x = work.back(); work.pop_back(); runPath(x);
    if (optMaxPaths && nPaths >= optMaxPaths && !work.empty()) { noteIncomplete("path limit"); stopAll = true; }
  }
  for (auto *x : work) delete x; work.clear();
}
static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((u8)c < 32) r += ' '; else r += c; } return r + "\""; }

static int realMain(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--json") optJson = nx(); else if (a == "--max-steps") optMaxSteps = std::stoull(nx()); else if (a == "--max-yields") optMaxYields = std::stoull(nx());
    else if (a == "--time") optTime = std::stod(nx()); else if (a == "--preempt") optPreempt = std::stoi(nx()); else if (a == "--tso") optTso = std::stoi(nx()); else if (a == "--trace") optTrace++; else if (a == "--stop-first") optStopFirst = true; else if (a == "--max-viol") optMaxViol = std::stoi(nx()); else if (a == "--witness") optWitness = std::stoi(nx()); else if (a == "--max-paths") optMaxPaths = std::stoull(nx());
    else optIn = a; }
  T0 = std::chrono::steady_clock::now();
  SMDiagnostic err; M = parseIRFile(optIn, err, ctx); if (!M) { err.print("symx", errs()); return 3; }
  DL = &M->getDataLayout(); S = new Solver(); initBuiltins();
  State *s0 = new State; initGlobals(*s0); fillSym = newSym("fill", 8); symCache["fill"] = fillSym->lo; s0->model.assign(1, 0x5A); 
  s0->th.emplace_back(); s0->th[0].stackBump = 0x200000000000ull; s0->th[0].heapBump = 0x500000000000ull;
  Function *F = M->getFunction(optEntry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  // static constructors
  std::vector<Function *> ctors;
  if (auto *G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(G->getInitializer())) { std::vector<std::pair<u64, Function *>> v; for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) ctors.push_back(p.second); }
  // run: entry frame at the bottom is a synthetic driver; simplest is to run ctors one by one to completion
  for (Function *c : ctors) { pushCall(*s0, c, {}); 
    try { size_t base = 1; (void)base; while (!s0->th[0].st.empty()) { 
        if (s0->th[0].st.size() == 1 && isa<ReturnInst>(top(*s0).fi->ins[top(*s0).pc].I)) { popFrame(*s0); break; }
        step(*s0); } } catch (PathEnd &) { fprintf(stderr, "static constructor failed\n"); return 3; }
    if (!work.empty()) { fprintf(stderr, "static constructor forked\n"); return 3; } }
  s0->steps = 0; s0->liveHeap = 0;
  initState = s0; int rounds = 0; std::vector<std::string> roundInfo;
  for (;;) {
    rounds++; nPaths = 0; nEnded = 0; witnesses.clear(); nForks = 0; nSchedForks = 0; reach.clear(); accs.clear(); checksPerLabel.clear(); nChecks = nChecksProved = 0;
    State *r = new State(*s0); pushCall(*r, F, {}); explore(r);
    if (stopAll) break;
    bool grown = false; for (auto &p : accs) { u64 all = p.second.r | p.second.w; if (p.second.w && (all & (all - 1)) && !(p.second.w == all && (p.second.w & (p.second.w - 1)) == 0)) if (conflict.insert(p.first).second) grown = true; }
    if (!grown) break;
  }
  double wall = elapsed(); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::ostringstream o; o << "{\n \"entry\": " << js(optEntry) << ",\n \"status\": \"" << (!viols.empty() ? "violation" : !incomplete.empty() ? "incomplete" : "ok") << "\",\n";
  o << " \"paths\": " << nPaths << ", \"instructions\": " << nInstr << ", \"forks\": " << nForks << ", \"sched_forks\": " << nSchedForks << ", \"rounds\": " << rounds << ", \"conflict_locations\": " << conflict.size() << ",\n";
  o << " \"checks\": " << nChecks << ", \"checks_proved\": " << nChecksProved << ", \"memory_checks\": " << nMemChecks << ", \"symbols\": " << P.symtab.size() << ", \"preemption_bound\": " << optPreempt << ", \"delayed_store_bound\": " << optTso << ",\n";
  o << " \"queries\": " << S->st.queries << ", \"sat\": " << S->st.sat << ", \"unsat\": " << S->st.unsat << ", \"unknown\": " << S->st.unknown << ", \"cache_hits\": " << S->st.cacheHits << ", \"model_hits\": " << S->st.modelHits << ", \"solver_s\": " << S->st.solverSec << ", \"max_query_s\": " << S->st.maxQuery << ", \"wall_s\": " << wall << ", \"rss_mb\": " << ru.ru_maxrss / 1024 << ",\n";
  auto mapj = [&](std::map<std::string, u64> &m) { std::string r = "{"; bool fst = true; for (auto &p : m) { r += (fst ? "" : ", ") + js(p.first) + ": " + std::to_string(p.second); fst = false; } return r + "}"; };
  o << " \"reach\": " << mapj(reach) << ",\n \"labels\": " << mapj(checksPerLabel) << ",\n \"incomplete\": " << mapj(incomplete) << ",\n \"functions\": [";
  { bool fst = true; std::set<std::string> fs; for (auto &p : fis) if (p.second->repo && p.second->calls) { std::string n = p.first->getSubprogram()->getName().str(); std::string fl = p.second->file; fs.insert(fl.substr(fl.find("/repo/") + 6) + ":" + n); }
    // inlined functions
    for (auto &p : fis) if (p.second->calls) for (auto &x : p.second->ins) if (auto &dl = x.I->getDebugLoc()) for (DILocation *d = dl.get(); d; d = d->getInlinedAt()) if (auto *sp = d->getScope()->getSubprogram()) { std::string fl = sp->getFilename().str(); if (fl.find("/repo/") != std::string::npos) fs.insert(fl.substr(fl.find("/repo/") + 6) + ":" + sp->getName().str()); }
    for (auto &n : fs) { o << (fst ? "" : ", ") << js(n); fst = false; } }
   o << "],\n \"witnesses\": ["; for (size_t i = 0; i < witnesses.size(); i++) o << (i ? ", " : "") << js(witnesses[i]); o << "],\n \"violations\": ["; for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; o << (i ? ",\n  " : "\n  ") << "{\"kind\": " << js(v.kind) << ", \"label\": " << js(v.label) << ", \"where\": " << js(v.where) << ", \"test\": " << js(v.test) << ", \"trace\": " << js(v.detail) << "}"; }
  o << "]\n}\n";
  if (optCov) { std::ofstream c(std::string(optCov) + "/" + optEntry + ".cov"); std::set<std::string> y, n; for (auto &p : fis) for (auto &x : p.second->ins) { bool hit = p.second->calls && (covered.count(x.I->getParent()) || x.I->getParent() == &p.first->getEntryBlock()); if (auto &dl = x.I->getDebugLoc()) for (DILocation *d = dl.get(); d; d = d->getInlinedAt()) (hit ? y : n).insert(d->getFilename().str() + ":" + std::to_string(d->getLine())); }
    for (auto &l : y) c << "+" << l << "\n"; for (auto &l : n) if (!y.count(l)) c << "-" << l << "\n"; }
  if (!optJson.empty()) { std::ofstream(optJson) << o.str(); } else fputs(o.str().c_str(), stdout);
  fflush(stdout);
  _Exit(viols.empty() ? incomplete.empty() ? 0 : 2 : 1);
}
struct MA { int c; char **v; int r; };
int main(int argc, char **argv) {
  MA ma{argc, argv, 0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t t;
  pthread_create(&t, &at, [](void *p) -> void * { MA *m = (MA *)p; m->r = realMain(m->c, m->v); return nullptr; }, &ma); pthread_join(t, nullptr); return ma.r;
}
