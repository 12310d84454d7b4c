// prep: rewrites harness bitcode so that allocation, threading and clock functions go through
// the symx runtime (modelled by the engine, implemented natively for replay); with --access also
// inserts a symx_access call before every shared-capable memory access (scheduling points).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <map>
#include <set>
using namespace llvm;
static const std::map<std::string, std::string> ren = {
  {"malloc", "symx_malloc"}, {"free", "symx_free"}, {"calloc", "symx_calloc"}, {"realloc", "symx_realloc"}, {"posix_memalign", "symx_posix_memalign"}, {"aligned_alloc", "symx_aligned_alloc"}, {"memalign", "symx_aligned_alloc"},
  {"_Znwm", "symx_new"}, {"_Znam", "symx_new_arr"}, {"_ZdlPv", "symx_delete"}, {"_ZdaPv", "symx_delete_arr"}, {"_ZdlPvm", "symx_delete_sz"}, {"_ZdaPvm", "symx_delete_arr_sz"},
  {"_ZnwmRKSt9nothrow_t", "symx_new_nt"}, {"_ZnamRKSt9nothrow_t", "symx_new_nt"},
  {"_ZnwmSt11align_val_t", "symx_new_al"}, {"_ZnamSt11align_val_t", "symx_new_al"}, {"_ZdlPvSt11align_val_t", "symx_delete_al"}, {"_ZdlPvmSt11align_val_t", "symx_delete_al_sz"}, {"_ZdaPvSt11align_val_t", "symx_delete_al"}, {"_ZdaPvmSt11align_val_t", "symx_delete_al_sz"},
  {"strdup", "symx_strdup"}, {"__strdup", "symx_strdup"},
  {"pthread_mutex_lock", "symx_mutex_lock"}, {"pthread_mutex_unlock", "symx_mutex_unlock"}, {"pthread_mutex_trylock", "symx_mutex_trylock"},
  {"pthread_mutex_timedlock", "symx_mutex_timedlock"}, {"pthread_mutex_clocklock", "symx_mutex_clocklock"}, {"pthread_once", "symx_once"}, {"pthread_mutex_init", "symx_mutex_init"}, {"pthread_mutex_destroy", "symx_mutex_destroy"}, {"pthread_mutexattr_init", "symx_mattr_init"}, {"pthread_mutexattr_settype", "symx_mattr_type"}, {"pthread_mutexattr_destroy", "symx_mattr_destroy"},
  {"pthread_rwlock_init", "symx_rw_init"}, {"pthread_rwlock_destroy", "symx_rw_destroy"}, {"pthread_rwlock_rdlock", "symx_rw_rd"}, {"pthread_rwlock_wrlock", "symx_rw_wr"}, {"pthread_rwlock_tryrdlock", "symx_rw_tryrd"}, {"pthread_rwlock_trywrlock", "symx_rw_trywr"}, {"pthread_rwlock_unlock", "symx_rw_un"},
  {"pthread_cond_wait", "symx_cond_wait"}, {"pthread_cond_timedwait", "symx_cond_timedwait"}, {"pthread_cond_clockwait", "symx_cond_clockwait"}, {"pthread_cond_signal", "symx_cond_notify"}, {"pthread_cond_broadcast", "symx_cond_notify"}, {"pthread_cond_init", "symx_cond_init"}, {"pthread_cond_destroy", "symx_rw_destroy"},
  {"sched_yield", "symx_sched_yield"}, {"nanosleep", "symx_nanosleep"}, {"usleep", "symx_usleep"}, {"clock_nanosleep", "symx_clock_nanosleep"},
  {"pthread_self", "symx_pthread_self"}, {"pthread_yield", "symx_sched_yield"},
  {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "symx_std_thread_start"},
  {"_ZNSt6thread4joinEv", "symx_std_thread_join"}, {"_ZNSt6thread6detachEv", "symx_std_thread_detach"}, {"_ZNSt6thread20hardware_concurrencyEv", "symx_hw_concurrency"},
  {"_ZNSt6thread6_StateD2Ev", "symx_thread_state_dtor"},
  {"_ZNSt6chrono3_V212system_clock3nowEv", "symx_clock_now"}, {"_ZNSt6chrono3_V212steady_clock3nowEv", "symx_clock_now"}, {"clock_gettime", "symx_clock_gettime"}, {"gettimeofday", "symx_gettimeofday"}, {"time", "symx_time"},
  {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "symx_cv_wait"}, {"_ZNSt18condition_variable10notify_oneEv", "symx_cv_notify"}, {"_ZNSt18condition_variable10notify_allEv", "symx_cv_notify"}, {"_ZNSt18condition_variableC1Ev", "symx_cv_ctor"}, {"_ZNSt18condition_variableD1Ev", "symx_cv_ctor"},
  {"_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "symx_rd_init"}, {"_ZNSt13random_device9_M_getvalEv", "symx_rd_getval"}, {"_ZNSt13random_device7_M_finiEv", "symx_rd_fini"},
};
// a store of the code under test may stay in the store buffer for a while; all others take effect at once
static bool late(Instruction *I) { auto &dl = I->getDebugLoc(); if (!dl) return false; auto f = dl->getFilename(); return f.contains("raftinc/") || (f.contains("/src/") && f.ends_with(".cpp")); }
int main(int argc, char **argv) {
  bool access = false, asan = false; std::string in, out;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--access") access = true; else if (a == "--asan") asan = true; else if (a == "-o") out = argv[++i]; else in = a; }
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(in, err, C); if (!M) { err.print("prep", errs()); return 1; }
  for (auto &F : make_early_inc_range(*M)) if (F.isDeclaration()) { auto it = ren.find(F.getName().str()); if (it != ren.end()) {
    if (auto *G = M->getFunction(it->second)) { F.replaceAllUsesWith(G); F.eraseFromParent(); }
    else { F.setName(it->second); F.setAttributes(AttributeList()); } } }
  Type *V = Type::getVoidTy(C), *PT = PointerType::getUnqual(C), *I64 = Type::getInt64Ty(C), *I32 = Type::getInt32Ty(C);
  FunctionCallee yield = M->getOrInsertFunction("symx_yield", V);
  for (auto &F : *M) for (auto &B : F) for (auto &I : make_early_inc_range(B)) if (auto *ci = dyn_cast<CallInst>(&I)) if (ci->isInlineAsm()) {
    auto *ia = cast<InlineAsm>(ci->getCalledOperand()); std::string s = std::string(ia->getAsmString());
    if (s.find("pause") != std::string::npos || s.find("rep; nop") != std::string::npos || s.find("rep nop") != std::string::npos) { IRBuilder<> b(ci); b.SetCurrentDebugLocation(ci->getDebugLoc()); b.CreateCall(yield); ci->eraseFromParent(); }
    else if (s.find("mfence") != std::string::npos || s.find("lock") != std::string::npos) { IRBuilder<> b(ci); b.SetCurrentDebugLocation(ci->getDebugLoc()); b.CreateCall(M->getOrInsertFunction("symx_fence", V)); if (!ci->getType()->isVoidTy()) ci->replaceAllUsesWith(Constant::getNullValue(ci->getType())); ci->eraseFromParent(); }
    else if (ci->getType()->isVoidTy()) ci->eraseFromParent();  // prefetch and the like
    else { ci->replaceAllUsesWith(Constant::getNullValue(ci->getType())); ci->eraseFromParent(); } }
  if (access) {
    FunctionCallee acc = M->getOrInsertFunction("symx_access", V, PT, I64, I32); auto &DL = M->getDataLayout();
    for (auto &F : *M) { if (F.getName().starts_with("symx_")) continue;
      std::vector<Instruction *> w; for (auto &B : F) for (auto &I : B) w.push_back(&I);
      for (auto *I : w) {
        auto add = [&](Value *p, Value *n, int wr) { Value *q = p->stripInBoundsOffsets(); if (isa<AllocaInst>(q)) { } if (auto *G = dyn_cast<GlobalVariable>(q)) if (G->isConstant()) return; IRBuilder<> b(I); b.SetCurrentDebugLocation(I->getDebugLoc()); b.CreateCall(acc, {p, n, ConstantInt::get(I32, wr)}); };
        auto sz = [&](Type *t) { return ConstantInt::get(I64, DL.getTypeStoreSize(t)); };
        if (auto *l = dyn_cast<LoadInst>(I)) add(l->getPointerOperand(), sz(l->getType()), 0);
        else if (auto *s = dyn_cast<StoreInst>(I)) add(s->getPointerOperand(), sz(s->getValueOperand()->getType()), s->getOrdering() == AtomicOrdering::SequentiallyConsistent || !late(I) ? 3 : 1);
        else if (auto *r = dyn_cast<AtomicRMWInst>(I)) add(r->getPointerOperand(), sz(r->getType()), 3);
        else if (auto *x = dyn_cast<AtomicCmpXchgInst>(I)) add(x->getPointerOperand(), sz(x->getCompareOperand()->getType()), 3);
        else if (auto *mt = dyn_cast<MemTransferInst>(I)) { add(mt->getSource(), mt->getLength(), 0); add(mt->getDest(), mt->getLength(), late(I) ? 1 : 3); }
        else if (auto *ms = dyn_cast<MemSetInst>(I)) add(ms->getDest(), ms->getLength(), late(I) ? 1 : 3);
        else if (auto *fe = dyn_cast<FenceInst>(I)) { if (fe->getOrdering() == AtomicOrdering::SequentiallyConsistent && fe->getSyncScopeID() != SyncScope::SingleThread) { IRBuilder<> b(I); b.SetCurrentDebugLocation(I->getDebugLoc()); b.CreateCall(M->getOrInsertFunction("symx_fence", V)); } }
      } } }
  if (asan) for (auto &F : *M) if (!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress);
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os); return 0;
}
