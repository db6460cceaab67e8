// Decoding of LLVM IR into the compact internal form executed by exec.cpp.
#include "engine.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Linker/Linker.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <cxxabi.h>
using namespace llvm;

std::string demangle(const std::string& n) {
    int st = 0; char* r = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    if (st == 0 && r) { std::string s(r); free(r); return s; }
    return n;
}

void Engine::load(const std::vector<std::string>& files) {
    SMDiagnostic err;
    M = parseIRFile(files[0], err, ctx);
    if (!M) { err.print("sx", errs()); exit(3); }
    for (size_t i = 1; i < files.size(); i++) {
        auto m2 = parseIRFile(files[i], err, ctx);
        if (!m2) { err.print("sx", errs()); exit(3); }
        if (Linker::linkModules(*M, std::move(m2))) { fprintf(stderr, "link failure %s\n", files[i].c_str()); exit(3); }
    }
    DL = &M->getDataLayout();
}

unsigned Engine::bitw(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}

void Engine::flattenType(Type* t, u64 off, std::vector<std::pair<u64, Type*>>& out) {
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) flattenType(s->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) flattenType(a->getElementType(), off + i * sz, out);
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        u64 sz = DL->getTypeStoreSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); i++) flattenType(v->getElementType(), off + i * sz, out);
    } else if (t->isVoidTy()) { }
    else out.push_back({off, t});
}

u64 Engine::constInt(const Constant* c) {
    Val v = constVal(c, c->getType());
    return v.c;
}

Val Engine::constVal(const Constant* c, Type* leaf) {
    Val v;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) v.c = ci->getZExtValue();
        else { u128 x = ci->getValue().getRawData()[0]; if (ci->getValue().getNumWords() > 1) x |= (u128)ci->getValue().getRawData()[1] << 64;
            v.s = X.cst(x, ci->getBitWidth()); }
        return v;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isDoubleTy() || c->getType()->isFloatTy()) { v.c = cf->getValueAPF().bitcastToAPInt().getZExtValue(); return v; }
        return v; // long double: unsupported at use
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (leaf->isIntegerTy() && leaf->getIntegerBitWidth() > 64) v.s = X.cst(0, leaf->getIntegerBitWidth());
        return v; }
    if (auto* f = dyn_cast<Function>(c)) { v.c = getFunc(const_cast<Function*>(f))->addr; return v; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { v.c = globalAddr.at(g); return v; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), leaf);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            u64 base = constInt(ce->getOperand(0));
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); }
            v.c = base + off.getSExtValue(); return v; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            v.c = constInt(ce->getOperand(0)); unsigned w = bitw(leaf); if (w && w < 64) v.c &= (u64)maskw(w); return v; }
        case Instruction::Trunc: v.c = constInt(ce->getOperand(0)) & (u64)maskw(bitw(ce->getType())); return v;
        case Instruction::Add: v.c = (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & (u64)maskw(bitw(ce->getType())); return v;
        case Instruction::Sub: v.c = (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & (u64)maskw(bitw(ce->getType())); return v;
        case Instruction::ICmp: {
            u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
            switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: v.c = a == b; break; case CmpInst::ICMP_NE: v.c = a != b; break;
                case CmpInst::ICMP_ULT: v.c = a < b; break; case CmpInst::ICMP_UGT: v.c = a > b; break; default: abort(); }
            return v; }
        case Instruction::Select: return constVal(constInt(ce->getOperand(0)) ? ce->getOperand(1) : ce->getOperand(2), leaf);
        default: break;
        }
        std::string s; raw_string_ostream os(s); ce->print(os);
        fprintf(stderr, "unsupported const expr %s\n", s.c_str()); abort();
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "unsupported constant %s\n", s.c_str()); abort();
}

void Engine::flattenConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned n;
        if (auto* s = dyn_cast<StructType>(t)) n = s->getNumElements();
        else if (auto* a = dyn_cast<ArrayType>(t)) n = (unsigned)a->getNumElements();
        else n = cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Constant* e = c->getAggregateElement(i);
            if (!e) { fprintf(stderr, "flattenConst\n"); abort(); }
            flattenConst(e, out);
        }
        return;
    }
    out.push_back(constVal(c, t));
}

void Engine::initGlobal(State& st, u64 addr, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    Type* t = c->getType();
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        Obj* o = st.mem.getW(addr >> OFFBITS);
        memcpy(o->bytes + (addr & OFFMASK), r.data(), r.size());
        return;
    }
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) initGlobal(st, addr + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) initGlobal(st, addr + i * sz, c->getAggregateElement((unsigned)i));
        return;
    }
    if (auto* a = dyn_cast<FixedVectorType>(t)) {
        u64 sz = DL->getTypeStoreSize(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) initGlobal(st, addr + i * sz, c->getAggregateElement((unsigned)i));
        return;
    }
    if (t->isX86_FP80Ty()) return;
    Val v = constVal(c, t);
    u64 n = DL->getTypeStoreSize(t);
    std::string err;
    if (!storeMem(st, addr, (unsigned)n, v, err)) { fprintf(stderr, "init global: %s\n", err.c_str()); abort(); }
}

FuncInfo* Engine::getFunc(Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    auto* f = new FuncInfo(); f->F = F; f->name = F->getName().str();
    funcs[F] = f; funcByName[f->name] = f;
    u32 id = initial->mem.alloc(16, OK_FUNC);
    f->addr = Mem::addr(id); funcByAddr[f->addr] = f;
    auto n = natives.find(f->name);
    if (n != natives.end()) f->native = n->second;
    return f;
}

void Engine::setupGlobals() {
    for (auto& F : *M) getFunc(&F);
    for (auto& g : M->globals()) {
        u64 sz = g.hasInitializer() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 256;
        if (sz > OFFMASK) { fprintf(stderr, "huge global\n"); abort(); }
        u32 id = initial->mem.alloc((u32)sz, OK_GLOBAL);
        globalAddr[&g] = Mem::addr(id);
        globalNameByAddr[Mem::addr(id)] = g.getName().str();
    }
    for (auto& g : M->globals()) {
        if (g.hasInitializer()) {
            if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_dtors") continue;
            initGlobal(*initial, globalAddr[&g], g.getInitializer());
        }
    }
    for (auto& g : M->globals()) if (g.isConstant()) initial->mem.getW(globalAddr[&g] >> OFFBITS)->ro = true;
}

namespace {
struct Dec {
    Engine& E_; FuncInfo* f; Function* F;
    std::unordered_map<const Value*, u32> regOf;
    std::unordered_map<const BasicBlock*, u32> bbPc;
    u32 nregs = 0;
    struct Fix { u32 inst; int which; const BasicBlock* from; const BasicBlock* to; size_t ci; };
    std::vector<Fix> fixes;

    Dec(Engine& e, FuncInfo* fi) : E_(e), f(fi), F(fi->F) {}
    unsigned slots(Type* t) { std::vector<std::pair<u64, Type*>> v; E_.flattenType(t, 0, v); return (unsigned)v.size(); }
    void operands(const Value* v, std::vector<Operand>& out) {
        if (auto* c = dyn_cast<Constant>(v)) {
            std::vector<Val> vs; E_.flattenConst(c, vs);
            for (auto& x : vs) { Operand o; o.k = x; out.push_back(o); }
            return;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { Operand o; out.push_back(o); return; }
        u32 b = regOf.at(v); unsigned n = slots(v->getType());
        for (unsigned i = 0; i < n; i++) { Operand o; o.reg = (int)(b + i); out.push_back(o); }
    }
    static Type* scalarTy(Type* t) { return t->getScalarType(); }
    void setOps(Inst& I, std::vector<Operand>& v) {
        I.nops = (u32)v.size(); I.ops = new Operand[v.size() ? v.size() : 1];
        for (size_t i = 0; i < v.size(); i++) I.ops[i] = v[i];
    }
    void unsup(Inst& I, const std::string& why) { I.op = O_UNSUP; I.text = new std::string(why); }

    void run() {
        for (auto& a : F->args()) { unsigned n = slots(a.getType()); regOf[&a] = nregs; nregs += n; }
        f->nargs = nregs;
        for (auto& bb : *F) for (auto& i : bb) {
            unsigned n = slots(i.getType());
            if (n) { regOf[&i] = nregs; nregs += n; }
        }
        for (auto& bb : *F) {
            bbPc[&bb] = (u32)f->code.size();
            for (auto& i : bb) {
                if (isa<PHINode>(i)) continue;
                if (isa<DbgInfoIntrinsic>(i)) continue;
                decodeInst(i);
            }
        }
        for (auto& fx : fixes) {
            Inst& I = f->code[fx.inst];
            Edge* e = fx.which == 0 ? &I.e0 : fx.which == 1 ? &I.e1 : &(*I.cases)[fx.ci].second;
            e->pc = bbPc[fx.to];
            std::vector<Copy> cp;
            for (auto& phi : fx.to->phis()) {
                Value* in = phi.getIncomingValueForBlock(fx.from);
                std::vector<Operand> o; operands(in, o);
                u32 d = regOf.at(&phi);
                for (size_t k = 0; k < o.size(); k++) { if (o[k].reg == (int)(d + k)) continue; cp.push_back({(u32)(d + k), o[k]}); }
            }
            e->ncp = (u32)cp.size();
            if (e->ncp) { e->cp = new Copy[cp.size()]; for (size_t k = 0; k < cp.size(); k++) e->cp[k] = cp[k]; }
        }
        f->nregs = nregs;
    }

    void decodeInst(Instruction& i) {
        f->code.emplace_back();
        u32 idx = (u32)f->code.size() - 1;
        Inst I; I.op = O_NOP;
        std::vector<Operand> ops;
        Type* ty = i.getType();
        I.nret = slots(ty);
        if (I.nret) I.dst = regOf[&i];
        Type* sc = scalarTy(ty);
        auto bad80 = [&](Type* t) { return t->isX86_FP80Ty() || t->isHalfTy() || t->isFP128Ty(); };
        bool has80 = bad80(sc);
        for (auto& o : i.operands()) if (o->getType()->isSized() && bad80(scalarTy(o->getType()))) has80 = true;
        if (has80 && !isa<LoadInst>(i) && !isa<StoreInst>(i)) { unsup(I, "long double"); 
            if (auto* ci = dyn_cast<CallInst>(&i)) { (void)ci; } f->code[idx] = I; return; }
        if (has80) { unsup(I, "long double"); f->code[idx] = I; return; }
        switch (i.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            I.op = O_BIN; I.width = (u8)E_.bitw(sc);
            static const std::map<unsigned, EOp> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV},
                {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR},
                {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
            I.sub = m.at(i.getOpcode());
            if (I.width == 0 || E_.bitw(sc) > 128) { unsup(I, "wide int"); break; }
            operands(i.getOperand(0), ops); operands(i.getOperand(1), ops); setOps(I, ops); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            I.op = O_FBIN; I.sub = (u16)i.getOpcode(); I.isFloat32 = sc->isFloatTy(); I.isDouble = sc->isDoubleTy();
            operands(i.getOperand(0), ops); operands(i.getOperand(1), ops); setOps(I, ops); break;
        case Instruction::FNeg: I.op = O_FNEG; I.isFloat32 = sc->isFloatTy(); operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::ICmp: { I.op = O_ICMP; I.sub = cast<ICmpInst>(i).getPredicate(); I.width = (u8)E_.bitw(scalarTy(i.getOperand(0)->getType()));
            operands(i.getOperand(0), ops); operands(i.getOperand(1), ops); setOps(I, ops); break; }
        case Instruction::FCmp: { I.op = O_FCMP; I.sub = cast<FCmpInst>(i).getPredicate(); I.isFloat32 = scalarTy(i.getOperand(0)->getType())->isFloatTy();
            operands(i.getOperand(0), ops); operands(i.getOperand(1), ops); setOps(I, ops); break; }
        case Instruction::Select: { I.op = O_SELECT; I.width = 64;
            std::vector<Operand> c; operands(i.getOperand(0), c);
            std::vector<Operand> a, b; operands(i.getOperand(1), a); operands(i.getOperand(2), b);
            I.sub = c.size() > 1; // per-element condition
            if (c.size() > 1 && c.size() != a.size()) { unsup(I, "select vec"); break; }
            for (auto& o : c) ops.push_back(o);
            for (auto& o : a) ops.push_back(o);
            for (auto& o : b) ops.push_back(o);
            I.gw = new std::vector<u8>(); { std::vector<std::pair<u64, Type*>> v; E_.flattenType(ty, 0, v); for (auto& p : v) I.gw->push_back((u8)E_.bitw(p.second)); }
            setOps(I, ops); break; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
            I.op = i.getOpcode() == Instruction::ZExt ? O_ZEXT : i.getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC;
            I.width = (u8)E_.bitw(scalarTy(i.getOperand(0)->getType())); I.width2 = (u8)E_.bitw(sc);
            if (E_.bitw(scalarTy(i.getOperand(0)->getType())) > 128 || E_.bitw(sc) > 128) { unsup(I, "wide int"); break; }
            operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::PtrToInt: { unsigned w = E_.bitw(sc); I.op = w < 64 ? O_TRUNC : O_MOV; I.width = 64; I.width2 = (u8)w; operands(i.getOperand(0), ops); setOps(I, ops); break; }
        case Instruction::IntToPtr: { unsigned w = E_.bitw(scalarTy(i.getOperand(0)->getType())); I.op = w < 64 ? O_ZEXT : O_MOV; I.width = (u8)w; I.width2 = 64; operands(i.getOperand(0), ops); setOps(I, ops); break; }
        case Instruction::BitCast: { operands(i.getOperand(0), ops); unsigned n0 = (unsigned)ops.size();
            if (n0 != I.nret) {
                I.op = O_INTR; I.sub = 0xFFFF; // vector reshape
                I.width = (u8)E_.bitw(scalarTy(i.getOperand(0)->getType())); I.width2 = (u8)E_.bitw(sc); setOps(I, ops); break; }
            I.op = O_MOV; setOps(I, ops); break; }
        case Instruction::Freeze: case Instruction::AddrSpaceCast: I.op = O_MOV; operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::SIToFP: case Instruction::UIToFP: I.op = i.getOpcode() == Instruction::SIToFP ? O_SITOFP : O_UITOFP;
            I.width = (u8)E_.bitw(scalarTy(i.getOperand(0)->getType())); I.isFloat32 = sc->isFloatTy(); operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::FPToSI: case Instruction::FPToUI: I.op = i.getOpcode() == Instruction::FPToSI ? O_FPTOSI : O_FPTOUI;
            I.width = (u8)E_.bitw(sc); I.isFloat32 = scalarTy(i.getOperand(0)->getType())->isFloatTy(); operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::FPExt: I.op = O_FPEXT; operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::FPTrunc: I.op = O_FPTRUNC; operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::Load: {
            I.op = O_LOAD; operands(cast<LoadInst>(i).getPointerOperand(), ops); setOps(I, ops);
            layout(I, ty); break; }
        case Instruction::Store: {
            I.op = O_STORE; auto& s = cast<StoreInst>(i); operands(s.getPointerOperand(), ops); operands(s.getValueOperand(), ops); setOps(I, ops);
            layout(I, s.getValueOperand()->getType()); break; }
        case Instruction::Alloca: { auto& a = cast<AllocaInst>(i); I.op = O_ALLOCA; I.size = E_.DL->getTypeAllocSize(a.getAllocatedType());
            operands(a.getArraySize(), ops); setOps(I, ops); break; }
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(i);
            if (ty->isVectorTy()) { unsup(I, "vector gep"); break; }
            I.op = O_GEP; operands(g.getPointerOperand(), ops);
            i64 off = 0; I.gidx = new std::vector<std::pair<u32, i64>>(); I.gw = new std::vector<u8>();
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* ix = it.getOperand();
                if (StructType* s = it.getStructTypeOrNull()) { off += E_.DL->getStructLayout(s)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
                i64 sz = (i64)E_.DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                if (auto* ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * sz; continue; }
                I.gidx->push_back({(u32)ops.size(), sz}); I.gw->push_back((u8)E_.bitw(ix->getType()));
                operands(ix, ops);
            }
            I.goff = off; setOps(I, ops); break; }
        case Instruction::Br: {
            auto& b = cast<BranchInst>(i);
            if (b.isConditional()) { I.op = O_CONDBR; operands(b.getCondition(), ops); setOps(I, ops);
                fixes.push_back({idx, 0, i.getParent(), b.getSuccessor(0), 0}); fixes.push_back({idx, 1, i.getParent(), b.getSuccessor(1), 0}); }
            else { I.op = O_BR; fixes.push_back({idx, 0, i.getParent(), b.getSuccessor(0), 0}); }
            break; }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(i); I.op = O_SWITCH; I.width = (u8)E_.bitw(s.getCondition()->getType());
            operands(s.getCondition(), ops); setOps(I, ops);
            I.cases = new std::vector<std::pair<u64, Edge>>();
            fixes.push_back({idx, 0, i.getParent(), s.getDefaultDest(), 0});
            size_t k = 0;
            for (auto& c : s.cases()) { I.cases->push_back({c.getCaseValue()->getZExtValue(), Edge{}}); fixes.push_back({idx, 2, i.getParent(), c.getCaseSuccessor(), k++}); }
            break; }
        case Instruction::Ret: I.op = O_RET; if (i.getNumOperands()) operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::Unreachable: I.op = O_UNREACHABLE; break;
        case Instruction::Resume: I.op = O_RESUME; operands(i.getOperand(0), ops); setOps(I, ops); break;
        case Instruction::LandingPad: {
            auto& l = cast<LandingPadInst>(i); I.op = O_LANDINGPAD; I.cleanup = l.isCleanup(); I.clauses = new std::vector<LPClause>();
            for (unsigned k = 0; k < l.getNumClauses(); k++) {
                LPClause c{}; c.isCatch = l.isCatch(k);
                if (c.isCatch) c.ti = E_.constInt(l.getClause(k));
                else { std::vector<Val> vs; E_.flattenConst(l.getClause(k), vs); for (auto& v : vs) c.filter.push_back(v.c); }
                I.clauses->push_back(c);
            }
            break; }
        case Instruction::ExtractValue: {
            auto& e = cast<ExtractValueInst>(i); std::vector<Operand> all; operands(e.getAggregateOperand(), all);
            unsigned off = aggOff(e.getAggregateOperand()->getType(), e.getIndices());
            for (unsigned k = 0; k < I.nret; k++) ops.push_back(all[off + k]);
            I.op = O_MOV; setOps(I, ops); break; }
        case Instruction::InsertValue: {
            auto& e = cast<InsertValueInst>(i); operands(e.getAggregateOperand(), ops);
            unsigned off = aggOff(e.getAggregateOperand()->getType(), e.getIndices());
            std::vector<Operand> v; operands(e.getInsertedValueOperand(), v);
            for (size_t k = 0; k < v.size(); k++) ops[off + k] = v[k];
            I.op = O_MOV; setOps(I, ops); break; }
        case Instruction::ExtractElement: {
            auto* ci = dyn_cast<ConstantInt>(i.getOperand(1)); if (!ci) { unsup(I, "extractelement var"); break; }
            std::vector<Operand> all; operands(i.getOperand(0), all); ops.push_back(all[ci->getZExtValue()]); I.op = O_MOV; setOps(I, ops); break; }
        case Instruction::InsertElement: {
            auto* ci = dyn_cast<ConstantInt>(i.getOperand(2)); if (!ci) { unsup(I, "insertelement var"); break; }
            operands(i.getOperand(0), ops); std::vector<Operand> v; operands(i.getOperand(1), v); ops[ci->getZExtValue()] = v[0]; I.op = O_MOV; setOps(I, ops); break; }
        case Instruction::ShuffleVector: {
            auto& s = cast<ShuffleVectorInst>(i); std::vector<Operand> a, b; operands(s.getOperand(0), a); operands(s.getOperand(1), b);
            for (int m : s.getShuffleMask()) { if (m < 0) ops.push_back(Operand{}); else if ((size_t)m < a.size()) ops.push_back(a[m]); else ops.push_back(b[m - a.size()]); }
            I.op = O_MOV; setOps(I, ops); break; }
        case Instruction::AtomicRMW: { auto& a = cast<AtomicRMWInst>(i); I.op = O_RMW; I.sub = (u16)a.getOperation(); I.width = (u8)E_.bitw(ty);
            operands(a.getPointerOperand(), ops); operands(a.getValOperand(), ops); setOps(I, ops); break; }
        case Instruction::AtomicCmpXchg: { auto& a = cast<AtomicCmpXchgInst>(i); I.op = O_CMPXCHG; I.width = (u8)E_.bitw(a.getNewValOperand()->getType());
            operands(a.getPointerOperand(), ops); operands(a.getCompareOperand(), ops); operands(a.getNewValOperand(), ops); setOps(I, ops); break; }
        case Instruction::Fence: I.op = O_NOP; break;
        case Instruction::Call: case Instruction::Invoke: {
            auto& cb = cast<CallBase>(i);
            bool inv = isa<InvokeInst>(i);
            if (cb.isInlineAsm()) { if (cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty() && ty->isVoidTy()) { I.op = O_NOP; break; } unsup(I, "inline asm"); break; }
            Function* cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
            if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject());
            if (cf && cf->isIntrinsic()) {
                I.op = O_INTR; I.sub = (u16)cf->getIntrinsicID();
                switch (cf->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch:
                case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                    I.op = O_NOP; f->code[idx] = I; if (inv) { Inst B; B.op = O_BR; f->code.push_back(B); fixes.push_back({(u32)f->code.size() - 1, 0, i.getParent(), cast<InvokeInst>(i).getNormalDest(), 0}); } return;
                default: break;
                }
                for (auto& a : cb.args()) operands(a, ops);
                setOps(I, ops);
                I.width = (u8)(sc->isSized() && !sc->isAggregateType() ? E_.bitw(sc) : 0);
                if (cb.arg_size()) I.width2 = (u8)E_.bitw(scalarTy(cb.getArgOperand(0)->getType()));
                I.isFloat32 = sc->isFloatTy();
                f->code[idx] = I;
                if (inv) { Inst B; B.op = O_BR; f->code.push_back(B); fixes.push_back({(u32)f->code.size() - 1, 0, i.getParent(), cast<InvokeInst>(i).getNormalDest(), 0}); }
                return;
            }
            I.op = O_CALL; I.invoke = inv;
            if (cf) I.callee = E_.getFunc(cf);
            else operands(cb.getCalledOperand(), ops); // ops[0] is callee pointer
            I.sub = cf ? 0 : 1;
            I.gidx = nullptr;
            for (unsigned k = 0; k < cb.arg_size(); k++) {
                if (cb.isByValArgument(k)) { if (!I.gidx) I.gidx = new std::vector<std::pair<u32, i64>>();
                    I.gidx->push_back({(u32)(ops.size() - I.sub), (i64)E_.DL->getTypeAllocSize(cb.getParamByValType(k)).getFixedValue()}); }
                operands(cb.getArgOperand(k), ops);
            }
            setOps(I, ops);
            I.isDouble = ty->isDoubleTy(); I.isFloat32 = ty->isFloatTy();
            I.width = (u8)(ty->isSized() && !ty->isAggregateType() && !ty->isVectorTy() ? E_.bitw(ty) : 0);
            if (inv) {
                fixes.push_back({idx, 0, i.getParent(), cast<InvokeInst>(i).getNormalDest(), 0});
                fixes.push_back({idx, 1, i.getParent(), cast<InvokeInst>(i).getUnwindDest(), 0});
            }
            break; }
        default: unsup(I, i.getOpcodeName());
        }
        f->code[idx] = I;
    }
    unsigned aggOff(Type* t, ArrayRef<unsigned> ix) {
        unsigned off = 0;
        for (unsigned k : ix) {
            if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) off += slots(s->getElementType(j)); t = s->getElementType(k); }
            else { auto* a = cast<ArrayType>(t); off += k * slots(a->getElementType()); t = a->getElementType(); }
        }
        return off;
    }
    void layout(Inst& I, Type* ty) {
        std::vector<std::pair<u64, Type*>> v; E_.flattenType(ty, 0, v);
        I.gidx = new std::vector<std::pair<u32, i64>>(); I.gw = new std::vector<u8>();
        for (auto& p : v) { unsigned w = E_.bitw(p.second); if (w == 0) { unsup(I, "load/store type"); return; }
            if (w > 128) { unsup(I, "wide load/store"); return; }
            I.gidx->push_back({(w + 7) / 8, (i64)p.first}); I.gw->push_back((u8)w); }
        if (ty->isVectorTy() && E_.bitw(ty->getScalarType()) < 8) unsup(I, "sub-byte vector memory");
        I.width = v.size() == 1 ? (*I.gw)[0] : 0;
    }
};
}

void Engine::decode(FuncInfo* f) {
    if (f->decoded) return;
    f->decoded = true;
    if (f->F->isDeclaration()) { f->unsupported = "external function " + f->name; return; }
    std::string d = demangle(f->name);
    f->isMoment = d.find("Moment::") != std::string::npos;
    Dec dec(*this, f); dec.run();
}
