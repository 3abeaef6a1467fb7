// LLVM pass plugin: turns every operation on `double` into a call of the symbolic
// runtime (mode "sym"), or only substitutes the randomness / environment stubs
// (mode "native", used to build the replayer of the very same sources).
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>

using namespace llvm;
namespace {
    struct VP : PassInfoMixin<VP> {
        bool sym, race;
        Module* M;
        Type *D, *I1, *I32, *I64, *P;
        std::set<std::string> encoded;

        FunctionCallee fn(const std::string& n, Type* r, std::vector<Type*> a)
        {
            auto c = M->getOrInsertFunction(n, FunctionType::get(r, a, false));
            return c;
        }

        static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
        static bool has(const std::string& s, const std::string& p) { return s.find(p) != std::string::npos; }

        // bodies replaced by environment stubs (both modes)
        bool stub_body(Function& F, const std::string& dn)
        {
            if (F.isDeclaration())
                return false;
            auto kill = [&](Function& F) {
                F.deleteBody();
                F.setLinkage(GlobalValue::LinkOnceODRLinkage);
                F.setComdat(nullptr);
                F.setLinkage(GlobalValue::InternalLinkage);
                F.setSubprogram(nullptr);
                return BasicBlock::Create(M->getContext(), "entry", &F);
            };
            if ((starts(dn, "double std::uniform_real_distribution<double>::operator()<") || starts(dn, "double std::normal_distribution<double>::operator()<")) && F.arg_size() == 3) {
                bool norm = has(dn, "normal_distribution");
                auto* bb = kill(F);
                IRBuilder<> B(bb);
                if (race) // the state of the generator changes
                    B.CreateCall(fn("__vp_access", Type::getVoidTy(M->getContext()), {P, I64, I32}), {F.getArg(1), B.getInt64(8), B.getInt32(1)});
                Value* p = F.getArg(2);
                Value* a = B.CreateLoad(D, p);
                Value* b = B.CreateLoad(D, B.CreateConstGEP1_64(D, p, 1));
                B.CreateRet(B.CreateCall(fn(norm ? "__vp_rand_normal" : "__vp_rand_uniform", D, {D, D}), {a, b}));
                return true;
            }
            if (has(dn, "std::uniform_int_distribution<") && has(dn, ">::operator()<") && F.arg_size() == 3 && F.getReturnType()->isIntegerTy() && !has(dn, "__detail") && dn.find("std::uniform_int_distribution<") < dn.find("operator()")) {
                auto* bb = kill(F);
                IRBuilder<> B(bb);
                Value* p = F.getArg(2);
                Type* T = F.getReturnType();
                if (race)
                    B.CreateCall(fn("__vp_access", Type::getVoidTy(M->getContext()), {P, I64, I32}), {F.getArg(1), B.getInt64(8), B.getInt32(1)});
                bool uns = has(dn.substr(0, dn.find(">::operator()")), "unsigned");
                auto ext = [&](Value* v) { return uns ? B.CreateZExtOrTrunc(v, I64) : B.CreateSExtOrTrunc(v, I64); };
                Value* a = ext(B.CreateLoad(T, p));
                Value* b = ext(B.CreateLoad(T, B.CreateConstGEP1_64(T, p, 1)));
                Value* r = B.CreateCall(fn("__vp_rand_int", I64, {I64, I64}), {a, b});
                B.CreateRet(B.CreateTruncOrBitCast(r, T));
                return true;
            }
            if (starts(dn, "Eigen::internal::random_default_impl<double, false, false>::run(double const&, double const&)")) {
                auto* bb = kill(F);
                IRBuilder<> B(bb);
                Value* a = B.CreateLoad(D, F.getArg(0));
                Value* b = B.CreateLoad(D, F.getArg(1));
                B.CreateRet(B.CreateCall(fn("__vp_rand_uniform", D, {D, D}), {a, b}));
                return true;
            }
            if (starts(dn, "double std::generate_canonical<double")) {
                auto* bb = kill(F);
                IRBuilder<> B(bb);
                B.CreateRet(B.CreateCall(fn("__vp_rand_uniform", D, {D, D}), {ConstantFP::get(D, 0.0), ConstantFP::get(D, 1.0)}));
                return true;
            }
            return false;
        }

        void replace_fn(const char* from, const char* to)
        {
            Function* F = M->getFunction(from);
            if (!F || !F->isDeclaration())
                return;
            auto c = M->getOrInsertFunction(to, F->getFunctionType());
            F->replaceAllUsesWith(c.getCallee());
        }

        PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&)
        {
            M = &Mod;
            const char* m = getenv("VP_PASS_MODE");
            sym = m && std::string(m) == "sym";
            race = getenv("VP_PASS_RACE") != nullptr;
            auto& C = M->getContext();
            D = Type::getDoubleTy(C);
            I1 = Type::getInt1Ty(C);
            I32 = Type::getInt32Ty(C);
            I64 = Type::getInt64Ty(C);
            P = PointerType::getUnqual(C);
            std::vector<Function*> fs;
            for (auto& F : *M)
                fs.push_back(&F);
            for (auto* F : fs) {
                if (F->isDeclaration())
                    continue;
                std::string dn = demangle(F->getName().str());
                if (stub_body(*F, dn))
                    continue;
                if (starts(F->getName().str(), "__vp_"))
                    continue;
                if (race)
                    accesses(*F, dn);
                if (!sym)
                    continue;
                unsigned flags = 0;
                if (has(F->getName().str(), "5Eigen")) {
                    // exact-zero skips inside the linear algebra kernels
                    if (starts(dn, "Eigen::") || has(dn.substr(0, dn.find('(')), " Eigen::") || has(dn.substr(0, 200), "Eigen::internal::"))
                        flags |= 1;
                    // LLT::compute: the l1-norm only feeds rcond()
                    if (has(dn, "Eigen::LLT<") && has(dn, "::compute<"))
                        flags |= 2;
                }
                // Eigen::numext::{not_}equal_strict
                if (starts(dn, "std::not_equal_to<double>::operator()") || starts(dn, "std::equal_to<double>::operator()"))
                    flags |= 1;
                if (has(F->getName().str(), "5limbo")) {
                    std::string n = dn.substr(0, dn.find('('));
                    encoded.insert(n.substr(0, 220));
                }
                instrument(*F, flags);
            }
            if (sym) {
                replace_fn("strtod", "__vp_strtod");
                replace_fn("_ZNSolsEd", "__vp_ostream_d");
                replace_fn("_ZNSo9_M_insertIdEERSoT_", "__vp_ostream_d");
                replace_fn("_ZNSirsERd", "__vp_istream_d");
                replace_fn("_ZNSi10_M_extractIdEERSiRT_", "__vp_istream_d");
            }
            if (const char* f = getenv("VP_FUNCS_OUT")) {
                std::ofstream o(f);
                for (auto& e : encoded)
                    o << e << "\n";
            }
            return PreservedAnalyses::none();
        }

        // ---- memory accesses of the bodies of parallel loops ----
        void accesses(Function& F, const std::string& dn)
        {
            std::string head = dn.substr(0, dn.find_first_of("(<"));
            if (has(head, "tbb::") || has(dn, "__exchange_and_add") || has(dn, "__atomic_add"))
                return;
            Type* Vo = Type::getVoidTy(M->getContext());
            auto acc = fn("__vp_access", Vo, {P, I64, I32});
            auto& DL = M->getDataLayout();
            std::vector<Instruction*> ins;
            for (auto& I : instructions(F))
                ins.push_back(&I);
            for (auto* I : ins) {
                IRBuilder<> B(I);
                if (auto* l = dyn_cast<LoadInst>(I)) {
                    if (!l->isAtomic() && !isa<AllocaInst>(l->getPointerOperand()))
                        B.CreateCall(acc, {l->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(l->getType())), B.getInt32(0)});
                }
                else if (auto* s = dyn_cast<StoreInst>(I)) {
                    if (!s->isAtomic() && !isa<AllocaInst>(s->getPointerOperand()))
                        B.CreateCall(acc, {s->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(s->getValueOperand()->getType())), B.getInt32(1)});
                }
                else if (auto* m = dyn_cast<MemIntrinsic>(I)) {
                    B.CreateCall(acc, {m->getRawDest(), B.CreateZExtOrTrunc(m->getLength(), I64), B.getInt32(1)});
                    if (auto* t = dyn_cast<MemTransferInst>(m))
                        B.CreateCall(acc, {t->getRawSource(), B.CreateZExtOrTrunc(t->getLength(), I64), B.getInt32(0)});
                }
                else if (auto* c = dyn_cast<CallBase>(I)) {
                    Function* f = c->getCalledFunction();
                    if (!f || !f->isDeclaration())
                        continue;
                    std::string n = f->getName().str();
                    if (n == "free" || n == "realloc" || starts(n, "_ZdlPv") || starts(n, "_ZdaPv"))
                        B.CreateCall(fn("__vp_freed", Vo, {P}), {c->getArgOperand(0)});
                    else if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock")
                        B.CreateCall(fn(n == "pthread_mutex_lock" ? "__vp_locked" : "__vp_unlocked", Vo, {P}), {c->getArgOperand(0)});
                    else if (n == "__cxa_guard_acquire") {
                        // open only when this call initialises
                        if (isa<CallInst>(c)) {
                            B.SetInsertPoint(I->getNextNode());
                            B.CreateCall(fn("__vp_guarded", Vo, {I32}), {B.CreateZExtOrTrunc(c, I32)});
                        }
                    }
                    else if (n == "__cxa_guard_release" || n == "__cxa_guard_abort")
                        B.CreateCall(fn("__vp_guarded", Vo, {I32}), {B.getInt32(-1)});
                }
            }
        }

        // ---- long double: the value lives as a double (possibly boxed) in the low 64 bits ----
        Type* X;
        AllocaInst* slot(Function& F)
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            return B.CreateAlloca(ArrayType::get(I64, 2));
        }
        Value* pack(IRBuilder<>& B, Value* d)
        {
            auto* a = slot(*B.GetInsertBlock()->getParent());
            B.CreateStore(ConstantInt::get(I64, 0), B.CreateConstGEP1_64(I64, a, 1), true);
            B.CreateStore(d, a, true);
            return B.CreateAlignedLoad(X, a, Align(8), true);
        }
        Value* unpack(IRBuilder<>& B, Value* x)
        {
            if (auto* c = dyn_cast<ConstantFP>(x)) {
                APFloat v = c->getValueAPF();
                bool l;
                v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
                return ConstantFP::get(D, v.convertToDouble());
            }
            auto* a = slot(*B.GetInsertBlock()->getParent());
            B.CreateAlignedStore(x, a, Align(8), true);
            return B.CreateLoad(D, a, true);
        }
        void long_double(Function& F, unsigned flags)
        {
            std::vector<Instruction*> ins;
            bool any = false;
            for (auto& I : instructions(F)) {
                any |= I.getType() == X;
                for (auto& o : I.operands())
                    any |= o->getType() == X;
                ins.push_back(&I);
            }
            if (!any)
                return;
            static const std::map<std::string, std::string> lm = {{"expl", "exp"}, {"logl", "log"}, {"sqrtl", "sqrt"}, {"fabsl", "fabs"}, {"powl", "pow"}, {"floorl", "floor"}, {"ceill", "ceil"}, {"roundl", "round"}, {"log10l", "log10"}, {"log2l", "log2"}, {"log1pl", "log1p"}, {"expm1l", "expm1"}, {"erfl", "erf"}, {"fmaxl", "fmax"}, {"fminl", "fmin"}, {"sinl", "sin"}, {"cosl", "cos"}, {"tanhl", "tanh"}, {"atanl", "atan"},
                {"llvm.fabs.f80", "fabs"}, {"llvm.sqrt.f80", "sqrt"}, {"llvm.exp.f80", "exp"}, {"llvm.log.f80", "log"}, {"llvm.pow.f80", "pow"}, {"llvm.floor.f80", "floor"}, {"llvm.ceil.f80", "ceil"}, {"llvm.maxnum.f80", "fmax"}, {"llvm.minnum.f80", "fmin"}};
            for (auto* I : ins) {
                IRBuilder<> B(I);
                Value* r = nullptr;
                unsigned op = I->getOpcode();
                if (I->getType() == X && I->isBinaryOp()) {
                    const char* n = op == Instruction::FAdd ? "__vp_fadd" : op == Instruction::FSub ? "__vp_fsub" : op == Instruction::FMul ? "__vp_fmul" : op == Instruction::FDiv ? "__vp_fdiv" : "__vp_fmod";
                    r = pack(B, B.CreateCall(fn(n, D, {D, D}), {unpack(B, I->getOperand(0)), unpack(B, I->getOperand(1))}));
                }
                else if (op == Instruction::FNeg && I->getType() == X)
                    r = pack(B, B.CreateCall(fn("__vp_fneg", D, {D}), {unpack(B, I->getOperand(0))}));
                else if (op == Instruction::FPExt && I->getType() == X)
                    r = pack(B, I->getOperand(0)->getType() == D ? I->getOperand(0) : B.CreateFPExt(I->getOperand(0), D));
                else if (op == Instruction::FPTrunc && I->getOperand(0)->getType() == X) {
                    r = unpack(B, I->getOperand(0));
                    if (I->getType() != D)
                        r = B.CreateFPTrunc(B.CreateCall(fn("__vp_concrete", D, {D, I32}), {r, B.getInt32(1)}), I->getType());
                }
                else if ((op == Instruction::SIToFP || op == Instruction::UIToFP) && I->getType() == X)
                    r = pack(B, op == Instruction::SIToFP ? B.CreateSIToFP(I->getOperand(0), D) : B.CreateUIToFP(I->getOperand(0), D));
                else if ((op == Instruction::FPToSI || op == Instruction::FPToUI) && I->getOperand(0)->getType() == X)
                    r = B.CreateTruncOrBitCast(B.CreateCall(fn(op == Instruction::FPToUI ? "__vp_fptoui" : "__vp_fptosi", I64, {D}), {unpack(B, I->getOperand(0))}), I->getType());
                else if (op == Instruction::FCmp && I->getOperand(0)->getType() == X)
                    r = B.CreateICmpNE(B.CreateCall(fn("__vp_fcmp", I32, {I32, D, D, I32}),
                                           {B.getInt32(cast<FCmpInst>(I)->getPredicate()), unpack(B, I->getOperand(0)), unpack(B, I->getOperand(1)), B.getInt32(flags)}),
                        B.getInt32(0));
                else if (op == Instruction::Load && I->getType() == X && isa<GlobalVariable>(I->getOperand(0)) && cast<GlobalVariable>(I->getOperand(0))->isConstant()) {
                    auto* l = I->clone();
                    l->insertBefore(I);
                    r = pack(B, B.CreateFPTrunc(l, D));
                }
                else if (auto* c = dyn_cast<CallBase>(I)) {
                    Function* f = c->getCalledFunction();
                    auto it = f ? lm.find(f->getName().str()) : lm.end();
                    if (f && f->isDeclaration() && it != lm.end() && I->getType() == X) {
                        std::vector<Type*> ts(f->arg_size(), D);
                        std::vector<Value*> as;
                        for (auto& a : c->args())
                            as.push_back(unpack(B, a));
                        r = pack(B, B.CreateCall(fn("__vp_" + it->second, D, ts), as));
                    }
                }
                if (r) {
                    I->replaceAllUsesWith(r);
                    if (auto* inv = dyn_cast<InvokeInst>(I)) {
                        inv->getUnwindDest()->removePredecessor(inv->getParent());
                        BranchInst::Create(inv->getNormalDest(), inv->getParent());
                    }
                    I->eraseFromParent();
                    continue;
                }
                // constants that flow into memory, calls, selects, returns
                for (unsigned k = 0; k < I->getNumOperands(); k++)
                    if (auto* c = dyn_cast<ConstantFP>(I->getOperand(k)))
                        if (c->getType() == X) {
                            IRBuilder<> B2(isa<PHINode>(I) ? cast<PHINode>(I)->getIncomingBlock(k)->getTerminator() : I);
                            I->setOperand(k, pack(B2, unpack(B2, c)));
                        }
            }
        }

        void instrument(Function& F, unsigned flags)
        {
            X = Type::getX86_FP80Ty(M->getContext());
            long_double(F, flags);
            std::vector<Instruction*> ins;
            for (auto& I : instructions(F))
                ins.push_back(&I);
            for (auto* I : ins) {
                IRBuilder<> B(I);
                Value* r = nullptr;
                switch (I->getOpcode()) {
                case Instruction::FAdd:
                case Instruction::FSub:
                case Instruction::FMul:
                case Instruction::FDiv:
                case Instruction::FRem: {
                    if (I->getType()->isVectorTy())
                        report_fatal_error("vp: vector fp op");
                    if (!I->getType()->isDoubleTy())
                        break;
                    const char* n = I->getOpcode() == Instruction::FAdd ? "__vp_fadd" : I->getOpcode() == Instruction::FSub ? "__vp_fsub"
                        : I->getOpcode() == Instruction::FMul                                                               ? "__vp_fmul"
                        : I->getOpcode() == Instruction::FDiv                                                               ? "__vp_fdiv"
                                                                                                                            : "__vp_fmod";
                    r = B.CreateCall(fn(n, D, {D, D}), {I->getOperand(0), I->getOperand(1)});
                    break;
                }
                case Instruction::FNeg:
                    if (I->getType()->isDoubleTy())
                        r = B.CreateCall(fn("__vp_fneg", D, {D}), {I->getOperand(0)});
                    break;
                case Instruction::FCmp: {
                    auto* c = cast<FCmpInst>(I);
                    if (c->getOperand(0)->getType()->isVectorTy())
                        report_fatal_error("vp: vector fcmp");
                    if (!c->getOperand(0)->getType()->isDoubleTy())
                        break;
                    Value* v = B.CreateCall(fn("__vp_fcmp", I32, {I32, D, D, I32}),
                        {B.getInt32(c->getPredicate()), c->getOperand(0), c->getOperand(1), B.getInt32(flags)});
                    r = B.CreateICmpNE(v, B.getInt32(0));
                    break;
                }
                case Instruction::FPToSI:
                case Instruction::FPToUI:
                    if (I->getOperand(0)->getType()->isDoubleTy()) {
                        bool u = I->getOpcode() == Instruction::FPToUI;
                        Value* v = B.CreateCall(fn(u ? "__vp_fptoui" : "__vp_fptosi", I64, {D}), {I->getOperand(0)});
                        r = B.CreateTruncOrBitCast(v, I->getType());
                    }
                    break;
                case Instruction::FPTrunc:
                case Instruction::FPExt:
                    if (I->getOperand(0)->getType()->isDoubleTy()) {
                        Value* v = B.CreateCall(fn("__vp_concrete", D, {D, I32}), {I->getOperand(0), B.getInt32(1)});
                        I->setOperand(0, v);
                    }
                    break;
                case Instruction::BitCast:
                    if (I->getOperand(0)->getType()->isDoubleTy() && I->getType()->isIntegerTy()) {
                        Value* v = B.CreateCall(fn("__vp_concrete", D, {D, I32}), {I->getOperand(0), B.getInt32(2)});
                        I->setOperand(0, v);
                    }
                    break;
                case Instruction::Call:
                case Instruction::Invoke:
                    r = call(B, cast<CallBase>(I));
                    break;
                default:
                    break;
                }
                if (r) {
                    I->replaceAllUsesWith(r);
                    if (auto* inv = dyn_cast<InvokeInst>(I)) {
                        // libm calls never unwind
                        inv->getUnwindDest()->removePredecessor(inv->getParent());
                        BranchInst::Create(inv->getNormalDest(), inv->getParent());
                    }
                    I->eraseFromParent();
                }
            }
        }

        Value* call(IRBuilder<>& B, CallBase* c)
        {
            Function* f = c->getCalledFunction();
            if (!f)
                return nullptr;
            std::string n = f->getName().str();
            static const std::map<std::string, std::string> m = {
                {"exp", "exp"}, {"exp2", "exp2"}, {"log", "log"}, {"log10", "log10"}, {"log2", "log2"}, {"log1p", "log1p"}, {"expm1", "expm1"},
                {"pow", "pow"}, {"sqrt", "sqrt"}, {"sin", "sin"}, {"cos", "cos"}, {"tan", "tan"}, {"tanh", "tanh"}, {"sinh", "sinh"}, {"cosh", "cosh"},
                {"atan", "atan"}, {"atan2", "atan2"}, {"asin", "asin"}, {"acos", "acos"}, {"erf", "erf"}, {"erfc", "erfc"}, {"tgamma", "tgamma"}, {"lgamma", "lgamma"},
                {"floor", "floor"}, {"ceil", "ceil"}, {"round", "round"}, {"trunc", "trunc"}, {"rint", "rint"}, {"nearbyint", "rint"},
                {"fabs", "fabs"}, {"fmax", "fmax"}, {"fmin", "fmin"}, {"fmod", "fmod"}, {"hypot", "hypot"}, {"copysign", "copysign"}, {"cbrt", "cbrt"}, {"fdim", "fdim"}};
            static const std::map<std::string, std::string> in = {
                {"llvm.fabs.f64", "fabs"}, {"llvm.sqrt.f64", "sqrt"}, {"llvm.exp.f64", "exp"}, {"llvm.exp2.f64", "exp2"}, {"llvm.log.f64", "log"}, {"llvm.log2.f64", "log2"}, {"llvm.log10.f64", "log10"},
                {"llvm.pow.f64", "pow"}, {"llvm.sin.f64", "sin"}, {"llvm.cos.f64", "cos"}, {"llvm.floor.f64", "floor"}, {"llvm.ceil.f64", "ceil"}, {"llvm.round.f64", "round"},
                {"llvm.trunc.f64", "trunc"}, {"llvm.rint.f64", "rint"}, {"llvm.nearbyint.f64", "rint"}, {"llvm.minnum.f64", "fmin"}, {"llvm.maxnum.f64", "fmax"}, {"llvm.copysign.f64", "copysign"}};
            std::string t;
            auto it = m.find(n);
            if (it != m.end() && f->isDeclaration() && f->getReturnType()->isDoubleTy())
                t = it->second;
            auto jt = in.find(n);
            if (jt != in.end())
                t = jt->second;
            if (!t.empty()) {
                std::vector<Type*> ts(f->arg_size(), D);
                std::vector<Value*> as(c->arg_begin(), c->arg_end());
                return B.CreateCall(fn("__vp_" + t, D, ts), as);
            }
            if (n == "llvm.fmuladd.f64" || n == "llvm.fma.f64" || (n == "fma" && f->isDeclaration())) {
                Value* x = B.CreateCall(fn("__vp_fmul", D, {D, D}), {c->getArgOperand(0), c->getArgOperand(1)});
                return B.CreateCall(fn("__vp_fadd", D, {D, D}), {x, c->getArgOperand(2)});
            }
            if (n == "llvm.powi.f64.i32") {
                Value* y = B.CreateSIToFP(c->getArgOperand(1), D);
                return B.CreateCall(fn("__vp_pow", D, {D, D}), {c->getArgOperand(0), y});
            }
            if (n == "llvm.is.fpclass.f64") {
                Value* v = B.CreateCall(fn("__vp_fpclass", I32, {D, I32}), {c->getArgOperand(0), c->getArgOperand(1)});
                return B.CreateICmpNE(v, B.getInt32(0));
            }
            if ((n == "lround" || n == "llround" || n == "lrint" || n == "llrint") && f->isDeclaration()) {
                Value* x = B.CreateCall(fn("__vp_round", D, {D}), {c->getArgOperand(0)});
                return B.CreateCall(fn("__vp_fptosi", I64, {D}), {x});
            }
            if (f->isIntrinsic() && f->getReturnType()->isDoubleTy())
                report_fatal_error(Twine("vp: unsupported fp intrinsic ") + n);
            return nullptr;
        }
        static bool isRequired() { return true; }
    };
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "vp", "1", [](PassBuilder& PB) {
                PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(VP()); });
            }};
}
