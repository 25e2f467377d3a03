// LLVM pass plugin: turns a module into a symbolically executing one (see /verif/DESIGN.md, "Engine").
//   sym-redirect    (before optimisation)  replaces calls of environment functions by models
//   sym-instrument  (after optimisation)   adds a shadow expression to every scalar SSA value
// Shadow of a value = pointer to a runtime expression, or null when the value is concrete.
// Invariant: when a shadow is non-null the native value is meaningless (and only fed to slow paths).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <string>
#include <cstdlib>
#include <cstring>
using namespace llvm;

namespace {

// ---------------------------------------------------------------------------------------------
// libc functions whose calls go to models in models.cpp (compiled with instrumentation).
static const std::set<std::string> kModels = {
  "tolower","toupper","isspace","ispunct","isdigit","isalpha","isalnum","isupper","islower","isxdigit","isprint",
  "strlen","strcmp","strncmp","strchr","memchr","memcmp","bcmp","strtol","strtoul","strtoll","strtoull",
  "__isoc23_strtol","__isoc23_strtoul","__isoc23_strtoll","__isoc23_strtoull","strtof","strtod","atoi","atol",
  "_ZSt11_Hash_bytesPKvmm","time","localtime_r","gmtime_r","snprintf","vsnprintf","sprintf",
};

// Externals that neither read symbolic memory in a way that matters nor write program data, or that
// only move program structure (tree/list/hash bookkeeping, allocation, exceptions, locale objects).
static bool extIsBenign(StringRef n) {
  static const char *exact[] = {
    "__cxa_allocate_exception","__cxa_atexit","__cxa_begin_catch","__cxa_end_catch","__cxa_free_exception",
    "__cxa_guard_abort","__cxa_guard_acquire","__cxa_guard_release","__cxa_pure_virtual","__cxa_rethrow",
    "__cxa_throw","__dynamic_cast","__errno_location","__gxx_personality_v0","__cxa_get_exception_ptr",
    "_Znwm","_Znam","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","malloc","free","calloc","abort","exit","_exit",
    "__cxa_bad_cast","__cxa_throw_bad_array_new_length","__cxa_call_unexpected","_Unwind_Resume","__assert_fail","__clang_call_terminate",
    "_ZSt9terminatev","__stack_chk_fail","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","fflush","fputs","puts","putchar","fputc","fwrite","printf","fprintf","vfprintf","getenv",
  };
  for (auto *e : exact) if (n == e) return true;
  static const char *pre[] = {
    "_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_", "_ZSt29_Rb_tree", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash_policy",
    "_ZSt17__throw_", "_ZSt16__throw_", "_ZSt19__throw_", "_ZSt20__throw_", "_ZSt24__throw_", "_ZSt25__throw_", "_ZSt28__throw_", "_ZSt21__throw_", "_ZSt18__throw_", "_ZSt22__throw_", "_ZSt23__throw_", "_ZSt26__throw_",
    "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt11logic_error", "_ZNKSt11logic_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt12length_error",
    "_ZNSt13runtime_error", "_ZNKSt13runtime_error", "_ZNSt11regex_error", "_ZNSt8bad_cast", "_ZNSt9exception", "_ZNKSt9exception", "_ZNSt9bad_alloc",
    "_ZNKSt5ctypeIcE13_M_widen_init", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt15__exception_ptr", "_ZSt18uncaught_exception", "_ZSt19uncaught_exceptions",
    "_ZNSo", "_ZNSi", "_ZStls", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush", "_ZNSt9basic_ios", "_ZNKSt9basic_ios",
  };
  for (auto *p : pre) if (n.starts_with(p)) return true;
  return false;
}
// Externals that are output sinks: symbolic arguments need not be concretised for them.
static bool extIsSink(StringRef n) {
  return n.starts_with("_ZNSo") || n.starts_with("_ZStls") || n.starts_with("_ZSt16__ostream_insert");
}
static bool isRuntime(StringRef n) { return n.starts_with("symrt_"); }     // raw runtime, no shadow ABI
static bool isShadowABI(StringRef n) { return n.starts_with("sym_"); }     // runtime functions using the shadow ABI

// ---------------------------------------------------------------------------------------------
struct RedirectPass : PassInfoMixin<RedirectPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    // a function  __symredir__<mangled-prefix>  (via asm label "symredir.<mangled name>") replaces <mangled name>
    std::vector<std::pair<Function*, Function*>> todo;
    for (Function &F : M) {
      StringRef n = F.getName();
      if (!n.starts_with("symredir.")) continue;
      if (Function *G = M.getFunction(n.drop_front(9))) todo.push_back({G, &F});
      else errs() << "symredir: target not present: " << n << "\n";
    }
    for (auto &p : todo) {
      p.first->replaceAllUsesWith(p.second);
      if (!p.first->isDeclaration()) { p.first->deleteBody(); }
      p.second->setLinkage(GlobalValue::ExternalLinkage);
    }
    for (Function &F : M) {               // keep models out of line and never infer attributes from garbage
      if (F.getName().starts_with("symredir.") || F.getName().starts_with("__symm_")) F.addFnAttr(Attribute::NoInline);
    }
    for (auto &name : kModels) {
      Function *F = M.getFunction(name);
      if (!F) continue;
      Function *Mo = M.getFunction("__symm_" + name);
      if (!Mo) continue;
      if (Mo->getFunctionType() != F->getFunctionType()) { errs() << "model type mismatch: " << name << "\n"; continue; }
      F->replaceAllUsesWith(Mo);
    }
    return PreservedAnalyses::none();
  }
};

struct Instrumenter {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I64, *I32, *I8, *I1, *Ptr; Constant *Null;
  GlobalVariable *gCallee, *gArgs, *gZero, *gRet, *gCval, *gDummy;
  FunctionCallee fBin,fCmp,fCast,fSelect,fGep,fFbin,fFcmp,fIntr,fBr,fSwitch,fLoad,fLoadSA,fStore,fConc,fMemcpy,fMemset,fClear,fCheckC,fIsInstr,fExtArg,fPure,fFn,fUnk,fOvf,fByval;
  std::string repo;
  std::vector<std::pair<std::string,std::string>> fnNames; // name, file
  unsigned maxArgs = 64;

  Instrumenter(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I8 = Type::getInt8Ty(C); I1 = Type::getInt1Ty(C); Ptr = PointerType::get(C, 0);
    Null = ConstantPointerNull::get(cast<PointerType>(Ptr));
    auto gv = [&](const char *n, Type *t) { return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n); };
    gCallee = gv("symrt_g_callee", Ptr); gArgs = gv("symrt_g_args", ArrayType::get(Ptr, maxArgs)); gZero = gv("symrt_g_zero", ArrayType::get(Ptr, maxArgs));
    gRet = gv("symrt_g_ret", ArrayType::get(Ptr, 8)); gCval = gv("symrt_g_cval", I64); gDummy = gv("symrt_g_dummy", ArrayType::get(I64, 16));
    auto fn = [&](const char *n, Type *r, std::vector<Type*> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
    Type *V = Type::getVoidTy(C);
    fBin = fn("symrt_bin", Ptr, {I32,I32,Ptr,I64,Ptr,I64}); fCmp = fn("symrt_cmp", Ptr, {I32,I32,Ptr,I64,Ptr,I64});
    fCast = fn("symrt_cast", Ptr, {I32,I32,I32,Ptr}); fSelect = fn("symrt_select", Ptr, {Ptr,I64,I32,Ptr,I64,Ptr,I64});
    fGep = fn("symrt_gep", Ptr, {Ptr,I64,Ptr,I64,I64,I64}); fFbin = fn("symrt_fbin", Ptr, {I32,I32,Ptr,I64,Ptr,I64});
    fFcmp = fn("symrt_fcmp", Ptr, {I32,I32,Ptr,I64,Ptr,I64}); fIntr = fn("symrt_intr", Ptr, {I32,I32,Ptr,I64,Ptr,I64});
    fBr = fn("symrt_br", I1, {Ptr,I1}); fSwitch = fn("symrt_switch", I64, {Ptr,I32,I32,Ptr,Ptr});
    fLoad = fn("symrt_load", Ptr, {Ptr,I32}); fLoadSA = fn("symrt_load_sa", Ptr, {Ptr,I32});
    fStore = fn("symrt_store", V, {Ptr,I32,Ptr}); fConc = fn("symrt_conc", I64, {Ptr,I64,I32});
    fMemcpy = fn("symrt_memcpy", V, {Ptr,Ptr,I64}); fMemset = fn("symrt_memset", V, {Ptr,Ptr,I64});
    fClear = fn("symrt_clear", V, {Ptr,I64}); fCheckC = fn("symrt_check_concrete", V, {Ptr,I64,Ptr});
    fIsInstr = fn("symrt_is_instr", I1, {Ptr}); fExtArg = fn("symrt_ext_arg", I64, {Ptr,I64,I32,Ptr});
    fPure = fn("symrt_pure", I1, {Ptr,I32,I32,Ptr,Ptr}); fFn = fn("symrt_fn", V, {I32}); fUnk = fn("symrt_unknown_ext", V, {Ptr,Ptr});
    fOvf = fn("symrt_ovf", Ptr, {I32,I32,Ptr,I64,Ptr,I64}); fByval = fn("symrt_byval", V, {Ptr,Ptr,I64});
    if (const char *r = getenv("SYM_REPO")) repo = r; else repo = "/repo";
  }

  bool scalar(Type *T) { return (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) || T->isPointerTy() || T->isFloatTy() || T->isDoubleTy(); }
  unsigned width(Type *T) { return T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits().getFixedValue(); }
  bool flat(Type *T, std::vector<Type*> &out) { // flatten a first-class struct of scalars
    if (scalar(T)) { out.push_back(T); return true; }
    if (auto *S = dyn_cast<StructType>(T)) { for (Type *E : S->elements()) if (!flat(E, out)) return false; return true; }
    if (auto *A = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < A->getNumElements(); i++) if (!flat(A->getElementType(), out)) return false; return true; }
    return false;
  }
  unsigned flatIndex(Type *T, ArrayRef<unsigned> idx) {
    unsigned r = 0; Type *cur = T;
    for (unsigned i : idx) {
      for (unsigned k = 0; k < i; k++) { std::vector<Type*> t; flat(cast<StructType>(cur) ? cast<StructType>(cur)->getElementType(k) : nullptr, t); r += t.size(); }
      cur = cast<StructType>(cur)->getElementType(i);
    }
    return r;
  }
  Value *toI64(IRBuilder<> &B, Value *V) {
    Type *T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(V, I32), I64);
    if (T->isDoubleTy()) return B.CreateBitCast(V, I64);
    return B.CreateZExtOrTrunc(V, I64);
  }
  Value *fromI64(IRBuilder<> &B, Value *V, Type *T) {
    if (T->isPointerTy()) return B.CreateIntToPtr(V, T);
    if (T->isFloatTy()) return B.CreateBitCast(B.CreateTrunc(V, I32), T);
    if (T->isDoubleTy()) return B.CreateBitCast(V, T);
    return B.CreateZExtOrTrunc(V, T);
  }

  typedef std::vector<Value*> SV;
  std::map<Value*, SV> sh; // flattened shadows
  Value *S(Value *V) { auto it = sh.find(V); return it == sh.end() || it->second.empty() ? (Value*)Null : it->second[0]; }
  SV SA(Value *V) {
    auto it = sh.find(V); if (it != sh.end()) return it->second;
    std::vector<Type*> t; if (!flat(V->getType(), t)) return {}; return SV(t.size(), Null);
  }
  bool sn(Value *s) { return s == Null; }
  Value *cst(unsigned v) { return ConstantInt::get(I32, v); }

  // generic slow/fast split around instruction I.  slow(B) emits the runtime call and returns the Expr*.
  template <class FN> void slowFast(Instruction *I, ArrayRef<Value*> shadows, FN slow) {
    SmallVector<Value*, 4> live;
    for (Value *s : shadows) if (!sn(s)) live.push_back(s);
    if (live.empty()) return;
    IRBuilder<> B(I);
    Value *any = B.CreateIsNotNull(live[0]);
    for (unsigned i = 1; i < live.size(); i++) any = B.CreateOr(any, B.CreateIsNotNull(live[i]));
    Instruction *T1, *T2;
    MDNode *W = MDBuilder(C).createBranchWeights(1, 1000);
    SplitBlockAndInsertIfThenElse(any, I->getIterator(), &T1, &T2, W);
    IRBuilder<> BS(T1); BS.SetCurrentDebugLocation(I->getDebugLoc());
    Value *e = slow(BS);
    Value *cv = fromI64(BS, BS.CreateLoad(I64, gCval), I->getType());
    Instruction *cont = I;            // I is the first instruction of the tail block
    BasicBlock *tail = I->getParent();
    I->moveBefore(T2);
    IRBuilder<> BT(tail, tail->begin());
    PHINode *v = BT.CreatePHI(I->getType(), 2), *s = BT.CreatePHI(Ptr, 2);
    I->replaceAllUsesWith(v);
    v->addIncoming(cv, T1->getParent()); v->addIncoming(I, T2->getParent());
    s->addIncoming(e, T1->getParent()); s->addIncoming(Null, T2->getParent());
    sh[v] = {s}; (void)cont;
  }

  Value *argSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), gArgs, 0, i); }
  Value *retSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP2_32(gRet->getValueType(), gRet, 0, i); }

  bool instrumented(Function *F) { return !F->isDeclaration() && !isRuntime(F->getName()); }

  void visitCall(CallBase *CB) {
    if (CB->isInlineAsm()) return;
    Function *F = CB->getCalledFunction();
    if (!F) if (auto *A = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(A->getAliaseeObject());
    if (auto *CI = dyn_cast<CallInst>(CB)) CI->setTailCall(false);
    // strip attributes that become false with garbage natives
    if (F && F->isIntrinsic()) return visitIntrinsic(cast<CallInst>(CB), F);
    if (F && isRuntime(F->getName())) {   // models calling the runtime: arguments must be concrete
      IRBuilder<> B(CB);
      for (unsigned i = 0; i < CB->arg_size(); i++) { Value *a = CB->getArgOperand(i); if (!scalar(a->getType()) || sn(S(a))) continue;
        CB->setArgOperand(i, fromI64(B, B.CreateCall(fConc, {S(a), toI64(B, a), cst(width(a->getType()))}), a->getType())); }
      return;
    }
    bool direct = F != nullptr;
    bool abi = direct && (instrumented(F) || isShadowABI(F->getName()));
    IRBuilder<> B(CB);
    // symbolic callee pointer: concretise
    if (!direct && !sn(S(CB->getCalledOperand()))) {
      Value *v = B.CreateCall(fConc, {S(CB->getCalledOperand()), toI64(B, CB->getCalledOperand()), cst(64)});
      CB->setCalledOperand(B.CreateIntToPtr(v, Ptr));
    }
    Value *callee = CB->getCalledOperand();
    bool handled = false;
    if (!abi && direct) {
      StringRef n = F->getName();
      bool sink = extIsSink(n) && CB->arg_size() && CB->getArgOperand(0)->getType()->isPointerTy();
      if (sink) for (unsigned i = 1; i < CB->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isPointerTy())
        B.CreateCall(M.getOrInsertFunction("symrt_sink_mem", FunctionType::get(Type::getVoidTy(C), {Ptr, Ptr, Ptr}, false)), {CB->getArgOperand(0), CB->getArgOperand(i), B.CreateGlobalStringPtr(n, "symn")});
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        Value *a = CB->getArgOperand(i);
        if (!scalar(a->getType()) || sn(S(a))) continue;
        Value *nm = B.CreateGlobalStringPtr(n, "symn");
        if (sink && i > 0) {
          Value *v = B.CreateCall(M.getOrInsertFunction("symrt_sink_arg", FunctionType::get(I64, {Ptr, Ptr, I64, I32, Ptr}, false)), {CB->getArgOperand(0), S(a), toI64(B, a), cst(width(a->getType())), nm});
          CB->setArgOperand(i, fromI64(B, v, a->getType())); continue;
        }
        Value *v = B.CreateCall(fExtArg, {S(a), toI64(B, a), cst(width(a->getType())), nm});
        CB->setArgOperand(i, fromI64(B, v, a->getType()));
      }
      if (!extIsBenign(n)) {
        Value *nm = B.CreateGlobalStringPtr(n, "symn");
        for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isPointerTy()) B.CreateCall(fUnk, {CB->getArgOperand(i), nm});
      }
      if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm")
        B.CreateCall(M.getOrInsertFunction("symrt_free", FunctionType::get(Type::getVoidTy(C), {Ptr}, false)), {CB->getArgOperand(0)});
      handled = true;
    }
    if (!direct) {
      // is the target instrumented?  if not, concretise symbolic arguments (or apply a pure table)
      bool any = false;
      for (Value *a : CB->args()) if (scalar(a->getType()) && !sn(S(a))) any = true;
      if (any) {
        // pack shadows and values; symrt_icall rewrites values for native targets
        unsigned n = CB->arg_size();
        Function *Fn = CB->getFunction();
        IRBuilder<> BE(&*Fn->getEntryBlock().getFirstInsertionPt());
        AllocaInst *se = BE.CreateAlloca(ArrayType::get(Ptr, n)), *sv = BE.CreateAlloca(ArrayType::get(I64, n));
        for (unsigned i = 0; i < n; i++) {
          Value *a = CB->getArgOperand(i);
          B.CreateStore(scalar(a->getType()) ? S(a) : (Value*)Null, B.CreateConstInBoundsGEP2_32(se->getAllocatedType(), se, 0, i));
          B.CreateStore(scalar(a->getType()) ? toI64(B, a) : ConstantInt::get(I64, 0), B.CreateConstInBoundsGEP2_32(sv->getAllocatedType(), sv, 0, i));
        }
        FunctionCallee fI = M.getOrInsertFunction("symrt_icall", FunctionType::get(Ptr, {Ptr,I32,Ptr,Ptr}, false));
        Value *tgt = B.CreateCall(fI, {callee, cst(n), se, sv});   // returns the function to really call
        for (unsigned i = 0; i < n; i++) {
          Value *a = CB->getArgOperand(i);
          if (scalar(a->getType()) && !sn(S(a)))
            CB->setArgOperand(i, fromI64(B, B.CreateLoad(I64, B.CreateConstInBoundsGEP2_32(sv->getAllocatedType(), sv, 0, i)), a->getType()));
          // shadow reloaded: null for native targets
        }
        CB->setCalledOperand(tgt); callee = tgt;
      }
    }
    if (!handled) {
      B.CreateStore(callee, gCallee);
      for (unsigned i = 0; i < CB->arg_size() && i < maxArgs; i++) {
        Value *a = CB->getArgOperand(i);
        if (CB->isByValArgument(i)) { B.CreateStore(a, argSlot(B, i)); continue; }
        // note: operands may have been rewritten by symrt_icall; shadows are looked up by original value
        Value *orig = a;
        SV s = SA(orig);
        if (auto it = origArg.find({CB, i}); it != origArg.end()) s = SA(it->second);
        B.CreateStore(s.empty() ? (Value*)Null : s[0], argSlot(B, i));
      }
      B.CreateStore(Null, retSlot(B, 0));
    }
    Type *RT = CB->getType();
    std::vector<Type*> fl;
    if (RT->isVoidTy() || !flat(RT, fl) || fl.size() > 8) return;
    if (handled) return;
    if (!direct) for (unsigned i = 1; i < fl.size(); i++) B.CreateStore(Null, retSlot(B, i));
    Instruction *pos;
    if (auto *II = dyn_cast<InvokeInst>(CB)) {
      BasicBlock *ND = II->getNormalDest();
      if (!ND->getSinglePredecessor()) {
        BasicBlock *NB = BasicBlock::Create(C, "", ND->getParent(), ND); BranchInst::Create(ND, NB);
        ND->replacePhiUsesWith(II->getParent(), NB); II->setNormalDest(NB); ND = NB;
      }
      pos = &*ND->getFirstInsertionPt();
    } else pos = CB->getNextNode();
    IRBuilder<> BR(pos);
    SV s; for (unsigned i = 0; i < fl.size(); i++) s.push_back(BR.CreateLoad(Ptr, retSlot(BR, i)));
    sh[CB] = s;
  }
  std::map<std::pair<CallBase*,unsigned>, Value*> origArg;

  void visitIntrinsic(CallInst *CI, Function *F) {
    IRBuilder<> B(CI);
    auto bin = [&](unsigned id) {
      Value *a = CI->getArgOperand(0), *b = CI->arg_size() > 1 && scalar(CI->getArgOperand(1)->getType()) ? CI->getArgOperand(1) : nullptr;
      slowFast(CI, {S(a), b ? S(b) : (Value*)Null}, [&](IRBuilder<> &BS) {
        return BS.CreateCall(fIntr, {cst(id), cst(width(a->getType())), S(a), toI64(BS, a), b ? S(b) : (Value*)Null, b ? toI64(BS, b) : ConstantInt::get(I64, 0)});
      });
    };
    auto ovf = [&](unsigned id) {
      Value *a = CI->getArgOperand(0), *b = CI->getArgOperand(1);
      if (sn(S(a)) && sn(S(b))) return;
      // {iN,i1}: runtime returns value expr in ret, overflow expr in symrt_g_ret[1]; cval = value, symrt_g_ret[2] = overflow bit
      IRBuilder<> B(CI);
      Value *any = B.CreateOr(B.CreateIsNotNull(S(a)), B.CreateIsNotNull(S(b)));
      Instruction *T1, *T2; SplitBlockAndInsertIfThenElse(any, CI->getIterator(), &T1, &T2);
      IRBuilder<> BS(T1);
      Value *e = BS.CreateCall(fOvf, {cst(id), cst(width(a->getType())), S(a), toI64(BS, a), S(b), toI64(BS, b)});
      Value *o = BS.CreateLoad(Ptr, retSlot(BS, 1));
      Value *cv = BS.CreateTrunc(BS.CreateLoad(I64, gCval), a->getType());
      Value *ov = BS.CreateTrunc(BS.CreatePtrToInt(BS.CreateLoad(Ptr, retSlot(BS, 2)), I64), I1);
      Value *agg = BS.CreateInsertValue(PoisonValue::get(CI->getType()), cv, 0); agg = BS.CreateInsertValue(agg, ov, 1);
      BasicBlock *tail = CI->getParent(); CI->moveBefore(T2);
      IRBuilder<> BT(tail, tail->begin());
      PHINode *v = BT.CreatePHI(CI->getType(), 2), *s0 = BT.CreatePHI(Ptr, 2), *s1 = BT.CreatePHI(Ptr, 2);
      CI->replaceAllUsesWith(v);
      v->addIncoming(agg, T1->getParent()); v->addIncoming(CI, T2->getParent());
      s0->addIncoming(e, T1->getParent()); s0->addIncoming(Null, T2->getParent());
      s1->addIncoming(o, T1->getParent()); s1->addIncoming(Null, T2->getParent());
      sh[v] = {s0, s1};
    };
    auto concPtrArg = [&](unsigned i) {
      Value *a = CI->getArgOperand(i);
      if (sn(S(a))) return;
      Value *v = B.CreateCall(fConc, {S(a), toI64(B, a), cst(width(a->getType()))});
      CI->setArgOperand(i, fromI64(B, v, a->getType()));
    };
    switch (F->getIntrinsicID()) {
      case Intrinsic::umin: bin(0); break; case Intrinsic::umax: bin(1); break;
      case Intrinsic::smin: bin(2); break; case Intrinsic::smax: bin(3); break;
      case Intrinsic::abs: bin(4); break; case Intrinsic::usub_sat: bin(5); break; case Intrinsic::uadd_sat: bin(6); break;
      case Intrinsic::ctlz: bin(7); break; case Intrinsic::cttz: bin(8); break; case Intrinsic::bswap: bin(9); break; case Intrinsic::ctpop: bin(13); break;
      case Intrinsic::floor: bin(10); break; case Intrinsic::ceil: bin(11); break; case Intrinsic::fabs: bin(12); break; case Intrinsic::trunc: bin(14); break;
      case Intrinsic::fmuladd: {
        // a*b+c : split
        IRBuilder<> B2(CI);
        Value *m = B2.CreateFMul(CI->getArgOperand(0), CI->getArgOperand(1)), *r = B2.CreateFAdd(m, CI->getArgOperand(2));
        Instruction *mi = dyn_cast<Instruction>(m), *ri = dyn_cast<Instruction>(r);
        CI->replaceAllUsesWith(r); if (mi) visit(mi); if (ri) visit(ri); CI->eraseFromParent(); break; }
      case Intrinsic::sadd_with_overflow: ovf(0); break; case Intrinsic::uadd_with_overflow: ovf(1); break;
      case Intrinsic::ssub_with_overflow: ovf(2); break; case Intrinsic::usub_with_overflow: ovf(3); break;
      case Intrinsic::smul_with_overflow: ovf(4); break; case Intrinsic::umul_with_overflow: ovf(5); break;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        concPtrArg(0); concPtrArg(1); concPtrArg(2);
        B.CreateCall(fMemcpy, {CI->getArgOperand(0), CI->getArgOperand(1), toI64(B, CI->getArgOperand(2))}); break;
      case Intrinsic::memset: {
        concPtrArg(0); concPtrArg(2);
        B.CreateCall(fMemset, {CI->getArgOperand(0), S(CI->getArgOperand(1)), toI64(B, CI->getArgOperand(2))}); break; }
      case Intrinsic::lifetime_start:
        B.CreateCall(fClear, {CI->getArgOperand(1), CI->getArgOperand(0)}); break;
      case Intrinsic::assume: CI->eraseFromParent(); break;   // garbage natives
      case Intrinsic::expect: { Value *a = CI->getArgOperand(0); CI->replaceAllUsesWith(a); CI->eraseFromParent(); break; }
      case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::invariant_start: case Intrinsic::load_relative: case Intrinsic::dbg_label: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::prefetch: case Intrinsic::vastart: case Intrinsic::vaend:
        break;
      default: {
        // unknown intrinsic: arguments must be concrete
        for (unsigned i = 0; i < CI->arg_size(); i++) if (scalar(CI->getArgOperand(i)->getType()) && !sn(S(CI->getArgOperand(i)))) concPtrArg(i);
        errs() << "symexec: intrinsic treated as concrete: " << F->getName() << "\n"; }
    }
  }

  void visit(Instruction *I) {
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      if (!scalar(I->getType())) return;
      bool fp = I->getType()->isFloatingPointTy();
      bool disj = false;
      if (auto *PD = dyn_cast<PossiblyDisjointInst>(I)) disj = PD->isDisjoint();
      I->dropPoisonGeneratingFlags();
      if (!fp && I->getType()->isPointerTy()) return;
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      unsigned op = BO->getOpcode(), w = width(I->getType());
      if (disj) op = Instruction::Add;
      slowFast(I, {S(a), S(b)}, [&](IRBuilder<> &B) {
        return B.CreateCall(fp ? fFbin : fBin, {cst(op), cst(w), S(a), toI64(B, a), S(b), toI64(B, b)}); });
    } else if (auto *U = dyn_cast<UnaryOperator>(I)) { // fneg
      if (!scalar(I->getType())) return;
      Value *a = U->getOperand(0);
      slowFast(I, {S(a)}, [&](IRBuilder<> &B) { return B.CreateCall(fIntr, {cst(15), cst(width(a->getType())), S(a), toI64(B, a), Null, ConstantInt::get(I64, 0)}); });
    } else if (auto *CM = dyn_cast<CmpInst>(I)) {
      Value *a = CM->getOperand(0), *b = CM->getOperand(1);
      if (!scalar(a->getType())) return;
      bool fp = a->getType()->isFloatingPointTy();
      slowFast(I, {S(a), S(b)}, [&](IRBuilder<> &B) {
        return B.CreateCall(fp ? fFcmp : fCmp, {cst(CM->getPredicate()), cst(width(a->getType())), S(a), toI64(B, a), S(b), toI64(B, b)}); });
    } else if (auto *CA = dyn_cast<CastInst>(I)) {
      Value *a = CA->getOperand(0);
      if (!scalar(a->getType()) || !scalar(I->getType())) {
        if (scalar(a->getType()) && !sn(S(a))) { // e.g. zext to i128: concretise
          IRBuilder<> B(I); Value *v = B.CreateCall(fConc, {S(a), toI64(B, a), cst(width(a->getType()))}); I->setOperand(0, fromI64(B, v, a->getType()));
        }
        return;
      }
      I->dropPoisonGeneratingFlags();
      unsigned op = CA->getOpcode();
      slowFast(I, {S(a)}, [&](IRBuilder<> &B) { return B.CreateCall(fCast, {cst(op), cst(width(a->getType())), cst(width(I->getType())), S(a)}); });
    } else if (auto *SE = dyn_cast<SelectInst>(I)) {
      Value *c = SE->getCondition(), *t = SE->getTrueValue(), *f = SE->getFalseValue();
      if (!scalar(I->getType()) ) {
        IRBuilder<> B(I);
        if (!sn(S(c))) SE->setCondition(B.CreateCall(fBr, {S(c), c}));
        SV st = SA(t), sf = SA(f), r;
        for (unsigned i = 0; i < st.size(); i++) r.push_back(B.CreateSelect(SE->getCondition(), st[i], sf[i]));
        sh[I] = r; return;
      }
      Value *sc = S(c), *stv = S(t), *sfv = S(f);
      if (sn(sc)) {
        if (sn(stv) && sn(sfv)) return;
        IRBuilder<> B(I); sh[I] = {B.CreateSelect(c, stv, sfv)}; return;
      }
      // condition may be symbolic
      {
        IRBuilder<> B(I);
        Value *any = B.CreateIsNotNull(sc);
        Instruction *T1, *T2; SplitBlockAndInsertIfThenElse(any, I->getIterator(), &T1, &T2, MDBuilder(C).createBranchWeights(1, 1000));
        IRBuilder<> BS(T1);
        Value *e = BS.CreateCall(fSelect, {sc, toI64(BS, c), cst(width(I->getType())), stv, toI64(BS, t), sfv, toI64(BS, f)});
        Value *cv = fromI64(BS, BS.CreateLoad(I64, gCval), I->getType());
        BasicBlock *tail = I->getParent(); I->moveBefore(T2);
        IRBuilder<> BF(T2); Value *sf2 = (sn(stv) && sn(sfv)) ? (Value*)Null : BF.CreateSelect(c, stv, sfv);
        IRBuilder<> BT(tail, tail->begin());
        PHINode *v = BT.CreatePHI(I->getType(), 2), *s = BT.CreatePHI(Ptr, 2);
        I->replaceAllUsesWith(v);
        v->addIncoming(cv, T1->getParent()); v->addIncoming(I, T2->getParent());
        s->addIncoming(e, T1->getParent()); s->addIncoming(sf2, T2->getParent());
        sh[v] = {s};
      }
    } else if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      if (!scalar(I->getType())) return;
      G->setIsInBounds(false);
      unsigned bw = 64; MapVector<Value*, APInt> vars; APInt cofs(bw, 0);
      if (!cast<GEPOperator>(G)->collectOffset(DL, bw, vars, cofs)) return;
      std::vector<Value*> shs{S(G->getPointerOperand())};
      for (auto &p : vars) shs.push_back(S(p.first));
      Value *base = G->getPointerOperand();
      slowFast(I, shs, [&](IRBuilder<> &B) -> Value* {
        Value *e = S(base), *v = toI64(B, base); bool first = true;
        if (vars.empty()) return B.CreateCall(fGep, {e, v, Null, ConstantInt::get(I64, 0), ConstantInt::get(I64, 0), ConstantInt::get(I64, cofs.getSExtValue())});
        for (auto &p : vars) {
          Value *iv = p.first; 
          // index is sign-extended to 64 bits
          Value *ie = S(iv);
          unsigned iw = width(iv->getType());
          Value *iv64 = iw < 64 ? B.CreateSExt(iv, I64) : iv;
          Value *ies = ie;
          if (iw < 64 && !sn(ie)) ies = B.CreateCall(M.getOrInsertFunction("symrt_sext_opt", FunctionType::get(Ptr, {Ptr, I32}, false)), {ie, cst(iw)});
          e = B.CreateCall(fGep, {e, v, ies, iv64, ConstantInt::get(I64, p.second.getSExtValue()), ConstantInt::get(I64, first ? cofs.getSExtValue() : 0)});
          v = B.CreateLoad(I64, gCval); first = false;
        }
        return e;
      });
    } else if (auto *L = dyn_cast<LoadInst>(I)) {
      L->setMetadata(LLVMContext::MD_range, nullptr); L->setMetadata(LLVMContext::MD_noundef, nullptr); L->setMetadata(LLVMContext::MD_nonnull, nullptr);
      L->setMetadata(LLVMContext::MD_invariant_load, nullptr); L->setMetadata(LLVMContext::MD_align, nullptr); L->setMetadata(LLVMContext::MD_dereferenceable, nullptr);
      IRBuilder<> B(I);
      Value *p = L->getPointerOperand(), *sp = S(p);
      unsigned sz = DL.getTypeStoreSize(L->getType());
      if (!scalar(L->getType())) {
        if (!sn(sp)) { Value *v = B.CreateCall(fConc, {sp, toI64(B, p), cst(64)}); L->setOperand(0, B.CreateIntToPtr(v, Ptr)); }
        std::vector<Type*> fl;
        if (auto *ST = dyn_cast<StructType>(L->getType()); ST && flat(ST, fl)) {
          const StructLayout *SL = DL.getStructLayout(ST); SV r;
          bool simple = fl.size() == ST->getNumElements();
          if (simple) { for (unsigned i = 0; i < fl.size(); i++) r.push_back(B.CreateCall(fLoad, {B.CreateConstGEP1_64(I8, L->getPointerOperand(), SL->getElementOffset(i)), cst(DL.getTypeStoreSize(fl[i]))})); sh[I] = r; return; }
        }
        B.CreateCall(fCheckC, {L->getPointerOperand(), ConstantInt::get(I64, sz), B.CreateGlobalStringPtr("wide load", "symn")});
        return;
      }
      if (!sn(sp)) {
        Value *any = B.CreateIsNotNull(sp);
        Instruction *T1, *T2; SplitBlockAndInsertIfThenElse(any, I->getIterator(), &T1, &T2);
        IRBuilder<> BS(T1); Value *e1 = BS.CreateCall(fLoadSA, {sp, cst(sz)});
        IRBuilder<> BF(T2); Value *e2 = BF.CreateCall(fLoad, {p, cst(sz)});
        BasicBlock *tail = I->getParent();
        IRBuilder<> BT(tail, tail->begin());
        PHINode *np = BT.CreatePHI(Ptr, 2), *s = BT.CreatePHI(Ptr, 2);
        np->addIncoming(gDummy, T1->getParent()); np->addIncoming(p, T2->getParent());
        s->addIncoming(e1, T1->getParent()); s->addIncoming(e2, T2->getParent());
        L->setOperand(0, np); sh[I] = {s};
      } else sh[I] = {B.CreateCall(fLoad, {p, cst(sz)})};
    } else if (auto *ST = dyn_cast<StoreInst>(I)) {
      IRBuilder<> B(I);
      Value *p = ST->getPointerOperand(), *sp = S(p), *v = ST->getValueOperand();
      if (!sn(sp)) { Value *c = B.CreateCall(fConc, {sp, toI64(B, p), cst(64)}); p = B.CreateIntToPtr(c, Ptr); ST->setOperand(1, p); }
      unsigned sz = DL.getTypeStoreSize(v->getType());
      if (scalar(v->getType())) { B.CreateCall(fStore, {p, cst(sz), S(v)}); return; }
      std::vector<Type*> fl;
      if (auto *T = dyn_cast<StructType>(v->getType()); T && flat(T, fl) && fl.size() == T->getNumElements()) {
        const StructLayout *SL = DL.getStructLayout(T); SV s = SA(v);
        for (unsigned i = 0; i < fl.size(); i++) B.CreateCall(fStore, {B.CreateConstGEP1_64(I8, p, SL->getElementOffset(i)), cst(DL.getTypeStoreSize(fl[i])), s[i]});
        return;
      }
      B.CreateCall(fClear, {p, ConstantInt::get(I64, sz)});
    } else if (auto *RM = dyn_cast<AtomicRMWInst>(I)) {
      IRBuilder<> B(I); B.CreateCall(fCheckC, {RM->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(RM->getType())), B.CreateGlobalStringPtr("atomicrmw", "symn")});
      if (!sn(S(RM->getValOperand()))) { Value *c = B.CreateCall(fConc, {S(RM->getValOperand()), toI64(B, RM->getValOperand()), cst(width(RM->getType()))}); RM->setOperand(1, fromI64(B, c, RM->getType())); }
    } else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(I)) {
      IRBuilder<> B(I); B.CreateCall(fCheckC, {CX->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(CX->getNewValOperand()->getType())), B.CreateGlobalStringPtr("cmpxchg", "symn")});
    } else if (auto *BR = dyn_cast<BranchInst>(I)) {
      if (BR->isConditional() && !sn(S(BR->getCondition()))) { IRBuilder<> B(I); BR->setCondition(B.CreateCall(fBr, {S(BR->getCondition()), BR->getCondition()})); }
    } else if (auto *SW = dyn_cast<SwitchInst>(I)) {
      Value *c = SW->getCondition(); Value *s = S(c);
      if (sn(s)) return;
      // tables of case values and successor groups
      std::vector<Constant*> cv, cg; std::map<BasicBlock*, unsigned> grp; grp[SW->getDefaultDest()] = 0;
      bool defUnreach = isa<UnreachableInst>(SW->getDefaultDest()->getFirstNonPHIOrDbg());
      for (auto &cs : SW->cases()) {
        auto it = grp.insert({cs.getCaseSuccessor(), grp.size()}).first;
        // a successor with PHIs reached by different cases is still the same edge set only if phi values agree; use separate groups otherwise
        unsigned g = it->second;
        bool hasPhi = isa<PHINode>(cs.getCaseSuccessor()->front());
        if (hasPhi) g = 1000 + cg.size();
        cv.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue())); cg.push_back(ConstantInt::get(I32, g));
      }
      (void)defUnreach;
      auto *A1 = ArrayType::get(I64, cv.size()); auto *A2 = ArrayType::get(I32, cg.size());
      auto *g1 = new GlobalVariable(M, A1, true, GlobalValue::PrivateLinkage, ConstantArray::get(A1, cv), "symsw");
      auto *g2 = new GlobalVariable(M, A2, true, GlobalValue::PrivateLinkage, ConstantArray::get(A2, cg), "symsw");
      IRBuilder<> B(I);
      Value *any = B.CreateIsNotNull(s);
      Instruction *T = SplitBlockAndInsertIfThen(any, I->getIterator(), false);
      BasicBlock *pre = T->getParent()->getSinglePredecessor();
      IRBuilder<> BS(T); Value *r = fromI64(BS, BS.CreateCall(fSwitch, {s, cst(width(c->getType())), cst(cv.size()), g1, g2}), c->getType());
      IRBuilder<> BT(SW->getParent(), SW->getParent()->begin());
      PHINode *v = BT.CreatePHI(c->getType(), 2); v->addIncoming(r, T->getParent()); v->addIncoming(c, pre);
      SW->setCondition(v);
    } else if (auto *RI = dyn_cast<ReturnInst>(I)) {
      Value *v = RI->getReturnValue(); if (!v) return;
      SV s = SA(v); IRBuilder<> B(I);
      for (unsigned i = 0; i < s.size() && i < 8; i++) B.CreateStore(s[i], retSlot(B, i));
    } else if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
      Type *AT = EV->getAggregateOperand()->getType(); std::vector<Type*> fl;
      if (!AT->isStructTy() || !flat(AT, fl)) return;
      SV s = SA(EV->getAggregateOperand()); unsigned k = flatIndex(AT, EV->getIndices());
      std::vector<Type*> f2; flat(I->getType(), f2);
      sh[I] = SV(s.begin() + k, s.begin() + k + f2.size());
    } else if (auto *IV = dyn_cast<InsertValueInst>(I)) {
      Type *AT = I->getType(); std::vector<Type*> fl;
      if (!AT->isStructTy() || !flat(AT, fl)) return;
      SV s = SA(IV->getAggregateOperand()), x = SA(IV->getInsertedValueOperand()); unsigned k = flatIndex(AT, IV->getIndices());
      for (unsigned i = 0; i < x.size(); i++) s[k + i] = x[i];
      sh[I] = s;
    } else if (auto *FR = dyn_cast<FreezeInst>(I)) { sh[I] = SA(FR->getOperand(0)); }
    else if (auto *CB = dyn_cast<CallBase>(I)) visitCall(CB);
    else if (isa<VAArgInst>(I)) errs() << "symexec: va_arg not supported\n";
    else if (auto *AL = dyn_cast<AllocaInst>(I)) { (void)AL; }
  }

  void runOn(Function &F) {
    sh.clear();
    // function attributes that could be violated by the added runtime calls
    F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); F.removeFnAttr(Attribute::NoSync); F.removeFnAttr(Attribute::NoFree); F.removeFnAttr(Attribute::NoRecurse); F.removeFnAttr(Attribute::NoCallback); F.removeFnAttr(Attribute::MustProgress); F.removeFnAttr(Attribute::Speculatable);
    for (unsigned i = 0; i < F.arg_size(); i++) { for (auto k : {Attribute::NoUndef, Attribute::NonNull, Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoAlias, Attribute::Returned, Attribute::NoCapture, Attribute::Dereferenceable, Attribute::DereferenceableOrNull, Attribute::Alignment, Attribute::Writable, Attribute::DeadOnUnwind}) if (!(k == Attribute::Alignment && F.hasParamAttribute(i, Attribute::ByVal))) F.removeParamAttr(i, k); }
    for (auto k : {Attribute::NoUndef, Attribute::NonNull, Attribute::NoAlias, Attribute::Dereferenceable, Attribute::DereferenceableOrNull, Attribute::Alignment}) F.removeRetAttr(k);
    std::vector<Instruction*> work; std::vector<PHINode*> phis; std::vector<AllocaInst*> allocas;
    ReversePostOrderTraversal<Function*> RPO(&F);
    for (BasicBlock *BB : RPO) for (Instruction &I : *BB) { if (auto *P = dyn_cast<PHINode>(&I)) phis.push_back(P); else work.push_back(&I); if (auto *A = dyn_cast<AllocaInst>(&I)) allocas.push_back(A); }
    for (Instruction *I : work) if (auto *CB = dyn_cast<CallBase>(I)) {
      for (unsigned i = 0; i < CB->arg_size(); i++) for (auto k : {Attribute::NoUndef, Attribute::NonNull, Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoAlias, Attribute::Returned, Attribute::NoCapture, Attribute::Dereferenceable, Attribute::DereferenceableOrNull}) CB->removeParamAttr(i, k);
      for (auto k : {Attribute::NoUndef, Attribute::NonNull, Attribute::NoAlias, Attribute::Dereferenceable, Attribute::DereferenceableOrNull}) CB->removeRetAttr(k);
      if (!CB->getCalledFunction() || !CB->getCalledFunction()->isIntrinsic()) { CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::WillReturn); }
      CB->setMetadata(LLVMContext::MD_range, nullptr);
    }
    // entry: fetch argument shadows
    IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
    while (isa<AllocaInst>(&*B.GetInsertPoint())) B.SetInsertPoint(&*std::next(B.GetInsertPoint()));
    // file-based function registry
    if (DISubprogram *SP = F.getSubprogram()) {
      std::string path = SP->getFilename().str(); if (!path.empty() && path[0] != '/') path = SP->getDirectory().str() + "/" + path;
      if (path.rfind(repo + "/", 0) == 0) { B.CreateCall(fFn, {cst(fnNames.size())}); fnNames.push_back({F.getName().str(), path.substr(repo.size() + 1) + ":" + std::to_string(SP->getLine())}); }
    }
    if (F.arg_size()) {
      Value *ok = B.CreateICmpEQ(B.CreateLoad(Ptr, gCallee), &F);
      Value *base = B.CreateSelect(ok, gArgs, gZero);
      unsigned i = 0;
      for (Argument &A : F.args()) {
        if (i < maxArgs && scalar(A.getType())) {
          Value *slot = B.CreateConstInBoundsGEP2_32(gArgs->getValueType(), base, 0, i);
          Value *v = B.CreateLoad(Ptr, slot);
          if (A.hasByValAttr()) B.CreateCall(fByval, {&A, v, ConstantInt::get(I64, DL.getTypeStoreSize(A.getParamByValType()))});
          else if (A.hasStructRetAttr()) {}
          else sh[&A] = {v};
        }
        i++;
      }
      B.CreateStore(Null, gCallee);
    }
    for (AllocaInst *A : allocas) {
      auto sz = A->getAllocationSize(DL); if (!sz || A->isArrayAllocation()) continue;
      IRBuilder<> BA(A->getNextNode()); while (isa<AllocaInst>(&*BA.GetInsertPoint())) BA.SetInsertPoint(&*std::next(BA.GetInsertPoint()));
      BA.CreateCall(fClear, {A, ConstantInt::get(I64, sz->getFixedValue())});
    }
    std::vector<std::pair<PHINode*, SV>> sphis;
    for (PHINode *P : phis) {
      std::vector<Type*> fl; if (!flat(P->getType(), fl)) continue;
      SV s; for (unsigned i = 0; i < fl.size(); i++) { IRBuilder<> BP(P); s.push_back(BP.CreatePHI(Ptr, P->getNumIncomingValues())); }
      sh[P] = s; sphis.push_back({P, s});
    }
    // remember original indirect-call operands (they are rewritten)
    for (Instruction *I : work) {
      if (auto *CB = dyn_cast<CallBase>(I); CB && !CB->getCalledFunction()) { pend.clear(); }
      visitWrap(I);
    }
    for (auto &ps : sphis) for (unsigned k = 0; k < ps.second.size(); k++) {
      PHINode *sp = cast<PHINode>(ps.second[k]);
      for (unsigned i = 0; i < ps.first->getNumIncomingValues(); i++) {
        SV s = SA(ps.first->getIncomingValue(i));
        sp->addIncoming(s.empty() ? (Value*)Null : s[k], ps.first->getIncomingBlock(i));
      }
    }
  }
  std::vector<int> pend;
  void visitWrap(Instruction *I) {
    if (auto *CB = dyn_cast<CallBase>(I); CB && !CB->getCalledFunction())
      for (unsigned i = 0; i < CB->arg_size(); i++) origArg[{CB, i}] = CB->getArgOperand(i);
    visit(I);
  }

  void run() {
    std::vector<Function*> fs;
    for (Function &F : M) if (instrumented(&F) && F.getName() != "main_raw") fs.push_back(&F);
    std::vector<Constant*> addrs;
    for (Function *F : fs) addrs.push_back(F);
    for (Function *F : fs) runOn(*F);
    auto *AT = ArrayType::get(Ptr, addrs.size());
    new GlobalVariable(M, AT, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT, addrs), "symrt_fn_addrs");
    new GlobalVariable(M, I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(I64, addrs.size()), "symrt_fn_naddrs");
    std::vector<Constant*> names;
    for (auto &p : fnNames) {
      Constant *c = ConstantDataArray::getString(C, p.first + "\t" + p.second);
      names.push_back(new GlobalVariable(M, c->getType(), true, GlobalValue::PrivateLinkage, c, "symfnname"));
    }
    auto *NT = ArrayType::get(Ptr, names.size());
    new GlobalVariable(M, NT, true, GlobalValue::ExternalLinkage, ConstantArray::get(NT, names), "symrt_fn_names");
    new GlobalVariable(M, I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(I64, names.size()), "symrt_fn_nnames");
    // report externals that are neither modelled nor known benign
    for (Function &F : M) if (F.isDeclaration() && !F.isIntrinsic() && !isRuntime(F.getName()) && !isShadowABI(F.getName()) && !extIsBenign(F.getName()) && !F.use_empty())
      errs() << "symexec: external without model: " << F.getName() << "\n";
  }
};

struct InstrumentPass : PassInfoMixin<InstrumentPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Instrumenter(M).run(); return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "sym-redirect") { MPM.addPass(RedirectPass()); return true; }
      if (N == "sym-instrument") { MPM.addPass(InstrumentPass()); return true; }
      return false; });
  }};
}
