#pragma once
#include "state.hpp"
#include "solver.hpp"
#include <atomic>
#include <complex>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <unordered_map>
#include <set>
#include <deque>
#include <functional>

struct Operand { int reg = -1; Val k; };

enum Op : u16 {
    O_BIN, O_ICMP, O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_MOV,
    O_FBIN, O_FNEG, O_FCMP, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
    O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_BR, O_CONDBR, O_SWITCH, O_CALL, O_RET, O_UNREACHABLE, O_RESUME,
    O_LANDINGPAD, O_RMW, O_CMPXCHG, O_NOP, O_INTR, O_UNSUP
};

struct Copy { u32 dst; Operand src; };
struct Edge { u32 pc; u32 bb; u32 ncp = 0; Copy* cp = nullptr; };

struct FuncInfo; struct Engine; struct State; struct Inst;
using Native = void (*)(Engine&, State&, const Inst&, std::vector<Val>&, Val*);

struct LPClause { bool isCatch; u64 ti; std::vector<u64> filter; };

struct Inst {
    Op op; u8 width = 0; u8 width2 = 0; u16 sub = 0; bool isDouble = false; bool isFloat32 = false;
    u32 dst = 0; u32 nops = 0; u32 nret = 0;
    Operand* ops = nullptr;
    // control flow
    Edge e0, e1;
    std::vector<std::pair<u64, Edge>>* cases = nullptr;
    // gep
    i64 goff = 0; std::vector<std::pair<u32, i64>>* gidx = nullptr; // operand index, scale
    std::vector<u8>* gw = nullptr;
    // call
    FuncInfo* callee = nullptr; bool invoke = false; bool noreturn = false;
    // landingpad
    std::vector<LPClause>* clauses = nullptr; bool cleanup = false;
    u64 size = 0; // alloca size
    std::string* text = nullptr;
};

struct FuncInfo {
    llvm::Function* F = nullptr; std::string name; bool decoded = false; std::string unsupported;
    std::vector<Inst> code; u32 nregs = 0; u32 nargs = 0;
    std::vector<u32> lpAt;
    Native native = nullptr; u64 addr = 0; u64 calls = 0; u64 icount = 0; bool isMoment = false;
    std::vector<u32> argWidths;
};

struct AssertStat { u64 evals = 0, symbolic = 0, proved = 0, concrete = 0, failed = 0, unknown = 0; };

struct ErrorRec { std::string kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, i64>> inputs; std::vector<std::pair<std::string, std::string>> trace; };

struct Witness { std::vector<std::pair<std::string, i64>> inputs; std::vector<std::pair<std::string, std::string>> trace; std::string end; };

struct Engine {
    llvm::LLVMContext ctx;
    std::unique_ptr<llvm::Module> M;
    const llvm::DataLayout* DL = nullptr;
    Solver solver;
    std::unordered_map<const llvm::Function*, FuncInfo*> funcs;
    std::unordered_map<std::string, FuncInfo*> funcByName;
    std::unordered_map<u64, FuncInfo*> funcByAddr;
    std::unordered_map<const llvm::GlobalVariable*, u64> globalAddr;
    std::map<u64, std::string> globalNameByAddr;
    std::unordered_map<u64, std::string> extTI;
    std::map<std::string, Native> natives;
    std::set<std::string> interned;
    std::map<std::string, i64> params;
    std::vector<State*> work;
    std::vector<E> created;
    std::map<std::string, E> inputVar;
    // stats
    u64 paths = 0, forks = 0, enumForks = 0, killed = 0, totalSteps = 0, symBranches = 0, iteReads = 0;
    std::map<std::string, AssertStat> asserts;
    std::map<std::string, u64> reached;
    std::map<std::string, u64> enumWhere;
    std::vector<ErrorRec> errors;
    std::map<std::string, u64> errorKeys;
    std::map<std::string, u64> incomplete;
    std::vector<Witness> witnesses;
    u64 witnessSeen = 0; unsigned maxWitness = 12; u64 rng = 12345;
    u64 maxSteps = 40000000; double timeLimit = 600; unsigned maxErrors = 3;
    int shard = 0, nshards = 1; u64 frontier = 0; bool countStats = true; bool inFrontier = false;
    std::chrono::steady_clock::time_point t0;
    bool fastAbort = false;
    State* initial = nullptr;
    FuncInfo* entry = nullptr;
    bool verbose = false; bool traceForks = false;

    const std::string* intern(const std::string& s) { return &*interned.insert(s).first; }
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    // decode
    void load(const std::vector<std::string>& files);
    FuncInfo* getFunc(llvm::Function* F);
    void decode(FuncInfo* f);
    u64 constInt(const llvm::Constant* c);
    Val constVal(const llvm::Constant* c, llvm::Type* leaf);
    void flattenConst(const llvm::Constant* c, std::vector<Val>& out);
    void initGlobal(State& st, u64 addr, const llvm::Constant* c);
    void flattenType(llvm::Type* t, u64 off, std::vector<std::pair<u64, llvm::Type*>>& out);
    unsigned bitw(llvm::Type* t);
    void setupGlobals();
    void registerNatives();

    // execution
    void runAll(const std::string& entryName);
    void run(State* st);
    bool step(State& st);
    void pushCall(State& st, FuncInfo* f, const Inst* call, const std::vector<Val>& args);
    void doCall(State& st, const Inst& I, FuncInfo* callee, std::vector<Val>& args);
    void doRet(State& st, const Inst& I);
    bool unwind(State& st, bool popFirst); // false: uncaught (path ended)
    bool tiMatches(State& st, u64 thrown, u64 want);
    bool tiBases(State& st, u64 ti, std::vector<std::pair<u64, i64>>& out);
    void takeEdge(State& st, Frame& fr, const Edge& e);

    E toE(const Val& v, unsigned w) { return v.s ? v.s : X.cst(v.c, w); }
    Val fromE(E e) { Val v; if (e->op == E_CONST && e->width <= 64) { v.c = (u64)e->imm; v.s = nullptr; } else v.s = e; return v; }
    Val selectVal(E c, const Val& a, const Val& b, unsigned w, bool& ok);
    bool toFX(const Val& v, E& n, int& k);
    static bool dblToFX(double d, i64& n, int& k);
    E bitsToFX(E e);
    bool fxAlign(E& n1, int k1, E& n2, int k2, int& k);
    Val mkFX(E n, int k);
    bool fbin(State& st, const Inst& I, const Val& a, const Val& b, Val& out);
    bool fcmpSym(unsigned pred, const Val& a, const Val& b, E& out);

    // symbolic helpers
    int feasible(State& st, E c, ModelP* m);          // check pc & c
    bool isTrueUnderModel(State& st, E c) { return X.eval(c, *st.model) != 0; }
    void addPC(State& st, E c) { if (c->op != E_CONST) st.pc.push_back(c); }
    int knownBool(State& st, E c);
    // decides a symbolic boolean; returns chosen truth for the current state and forks if both feasible
    bool branch(State& st, E c);
    u64 conc(State& st, Val& v, unsigned w, const char* why);
    void setReg(State& st, const Operand& o, const Val& v) { if (o.reg >= 0) st.regs[st.frames.back().base + o.reg] = v; }
    State* clone(State& st);
    void endPath(State& st, const char* why);
    void error(State& st, const std::string& kind, const std::string& msg, ModelP m = nullptr);
    void markIncomplete(State& st, const std::string& why);
    std::vector<std::string> stackOf(State& st);
    void fillInputs(State& st, const Model& m, std::vector<std::pair<std::string, i64>>& out);
    void fillTrace(State& st, const Model& m, std::vector<std::pair<std::string, std::string>>& out);

    // memory
    bool loadMem(State& st, u64 addr, unsigned bytes, Val& out, std::string& err);
    bool storeMem(State& st, u64 addr, unsigned bytes, const Val& v, std::string& err);
    bool checkRange(State& st, u64 addr, u64 n, bool write, std::string& err);
    bool candidates(E addr, std::vector<u64>& out, unsigned max);
    bool symLoad(State& st, E addr, unsigned bytes, bool isDouble, Val& out);
    bool symStore(State& st, E addr, unsigned bytes, const Val& v);
    bool copyMem(State& st, u64 dst, u64 src, u64 n, std::string& err);
    std::string readStr(State& st, u64 addr);
    E byteAt(State& st, Obj* o, u32 off);
    void clearCells(Obj* o, u32 off, u32 n);
    u64 mallocObj(State& st, u64 n, u8 kind);
    void freeObj(State& st, u64 addr, u8 kind);
    void writeResults(const std::string& file);
    u64 typeId(u64 ti);
    void throwExc(State& st);
    void pathDone(State& st);
    void intrinsic(State& st, const Inst& I);
    std::map<u64, u64> typeIds;
    std::deque<State*> frontierQ;
    std::vector<Val> argBuf;
    bool nativeJumped = false;
    u64 completed = 0;
    std::map<std::string, i64> paramsUsed;
};

struct PathEnd { };
struct Restart { };
std::string demangle(const std::string& n);
