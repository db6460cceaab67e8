#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; } else r += c; } return r; }

void Engine::writeResults(const std::string& file) {
    std::ofstream o(file);
    o << "{\"paths\":" << paths << ",\"completed\":" << completed << ",\"forks\":" << forks << ",\"enum_forks\":" << enumForks << ",\"killed\":" << killed << ",\"steps\":" << totalSteps << ",\"sym_branches\":" << symBranches << ",\"sym_reads\":" << iteReads;
    o << ",\"queries\":" << solver.st.queries << ",\"sat\":" << solver.st.sat << ",\"unsat\":" << solver.st.unsat << ",\"cached\":" << solver.st.cached << ",\"cross_checked\":" << solver.st.cross << ",\"cross_disagree\":" << solver.st.disagree << ",\"unknown\":" << solver.st.unknown << ",\"solver_time\":" << solver.st.time << ",\"max_query\":" << solver.st.maxTime << ",\"wall\":" << elapsed();
    o << ",\"asserts\":{"; bool f = true;
    for (auto& p : asserts) { o << (f ? "" : ",") << "\"" << esc(p.first) << "\":{\"evals\":" << p.second.evals << ",\"symbolic\":" << p.second.symbolic << ",\"proved\":" << p.second.proved << ",\"concrete\":" << p.second.concrete << ",\"failed\":" << p.second.failed << ",\"cached\":" << solver.st.cached << ",\"cross_checked\":" << solver.st.cross << ",\"cross_disagree\":" << solver.st.disagree << ",\"unknown\":" << p.second.unknown << "}"; f = false; }
    auto mp = [&](const char* nm, auto& m) { o << ",\"" << nm << "\":{"; bool g = true; for (auto& p : m) { o << (g ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; g = false; } o << "}"; };
    o << "}"; mp("reached", reached); mp("incomplete", incomplete); mp("enum_where", enumWhere); mp("error_counts", errorKeys); mp("params", paramsUsed);
    o << ",\"errors\":["; f = true;
    auto ins = [&](auto& v) { o << "["; bool g = true; for (auto& p : v) { o << (g ? "" : ",") << "[\"" << esc(p.first) << "\"," << p.second << "]"; g = false; } o << "]"; };
    auto trc = [&](auto& v) { o << "["; bool g = true; for (auto& p : v) { o << (g ? "" : ",") << "[\"" << esc(p.first) << "\",\"" << p.second << "\"]"; g = false; } o << "]"; };
    for (auto& e : errors) { o << (f ? "" : ",") << "{\"kind\":\"" << esc(e.kind) << "\",\"msg\":\"" << esc(e.msg) << "\",\"where\":\"" << esc(e.where) << "\",\"inputs\":"; ins(e.inputs); o << ",\"trace\":"; trc(e.trace); o << ",\"stack\":["; bool g = true; for (auto& s : e.stack) { o << (g ? "" : ",") << "\"" << esc(s) << "\""; g = false; } o << "]}"; f = false; }
    o << "],\"witnesses\":["; f = true;
    for (auto& w : witnesses) { o << (f ? "" : ",") << "{\"inputs\":"; ins(w.inputs); o << ",\"trace\":"; trc(w.trace); o << "}"; f = false; }
    o << "],\"functions\":{"; f = true;
    for (auto& p : funcs) { FuncInfo* fi = p.second; if (!fi->isMoment || fi->calls == 0) continue; o << (f ? "" : ",") << "\"" << esc(demangle(fi->name)) << "\":" << fi->icount; f = false; }
    o << "}}\n";
}

static void zeroStats(Engine& e) {
    e.paths = e.forks = e.enumForks = e.killed = e.totalSteps = e.symBranches = e.iteReads = e.completed = 0; e.asserts.clear(); e.reached.clear(); e.enumWhere.clear(); e.errors.clear(); e.errorKeys.clear(); e.incomplete.clear(); e.witnesses.clear(); e.witnessSeen = 0; e.solver.st = SolverStats{};
    for (auto& p : e.funcs) { p.second->calls = 0; p.second->icount = 0; }
}

int main(int argc, char** argv) {
    Engine e; std::vector<std::string> files; std::string entry, out = "out.json"; unsigned jobs = 1, front = 0;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (s == "--entry") entry = next(); else if (s == "--out") out = next(); else if (s == "--time") e.timeLimit = std::stod(next());
        else if (s == "--jobs") jobs = (unsigned)std::stoul(next()); else if (s == "--frontier") front = (unsigned)std::stoul(next()); else if (s == "--max-steps") e.maxSteps = std::stoull(next());
        else if (s == "--max-errors") e.maxErrors = (unsigned)std::stoul(next()); else if (s == "--witnesses") e.maxWitness = (unsigned)std::stoul(next()); else if (s == "--solver-timeout") e.solver.timeoutMs = (unsigned)std::stoul(next());
        else if (s == "--param") { std::string p = next(); size_t q = p.find('='); e.params[p.substr(0, q)] = std::stoll(p.substr(q + 1)); }
        else if (s == "-v") e.verbose = true; else if (s == "--trace-forks") e.traceForks = true; else if (s == "--seed") e.rng = std::stoull(next()) * 7919 + 12345; else files.push_back(s);
    }
    e.t0 = std::chrono::steady_clock::now(); e.solver.deadline = e.t0 + std::chrono::milliseconds((long)(e.timeLimit * 1000));
    signal(SIGALRM, [](int) { if (Solver::activeCtx()) Z3_interrupt(Solver::activeCtx()); });   // backstop: solver calls that overrun their own timeout
    auto arm = [&] { struct itimerval tv; long left = (long)(e.timeLimit - e.elapsed()) + 3; if (left < 1) left = 1; tv.it_value = {left, 0}; tv.it_interval = {1, 0}; setitimer(ITIMER_REAL, &tv, nullptr); }; arm();
    e.registerNatives(); e.load(files);
    e.initial = new State(); auto m0 = std::make_shared<Model>(); m0->stamp = ++X.stampCounter; e.initial->model = m0;
    e.setupGlobals();
    // global constructors, then the entry
    std::vector<FuncInfo*> ctors;
    if (auto* gc = e.M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) {
        std::vector<std::pair<u64, FuncInfo*>> l; auto* init = gc->getInitializer();
        for (unsigned i = 0; i < init->getNumOperands(); i++) { auto* s = cast<ConstantStruct>(init->getOperand(i)); auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()); if (fn) l.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), e.getFunc(fn)}); }
        std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : l) ctors.push_back(p.second);
    }
    auto ef = e.funcByName.find(entry);
    if (ef == e.funcByName.end() || ef->second->F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // driver: a synthetic function calling each ctor then the entry
    static FuncInfo drv; drv.decoded = true; drv.name = "<driver>"; drv.nregs = 1;
    for (auto* c : ctors) { Inst I; I.op = O_CALL; I.callee = c; drv.code.push_back(I); }
    { Inst I; I.op = O_CALL; I.callee = ef->second; drv.code.push_back(I); Inst R; R.op = O_RET; drv.code.push_back(R); }
    Frame fr; fr.f = &drv; fr.pc = 0; fr.base = 0; fr.call = nullptr; fr.allocaBase = 0;
    e.initial->frames.push_back(fr); e.initial->regs.resize(1);
    if (front == 0) front = jobs * 24;
    if (jobs <= 1) {
        e.work.push_back(e.initial);
        while (!e.work.empty() && !e.fastAbort) { State* s = e.work.back(); e.work.pop_back(); e.run(s); }
        e.writeResults(out + ".0");
        return 0;
    }
    e.inFrontier = true; e.frontierQ.push_back(e.initial);
    while (!e.frontierQ.empty() && e.frontierQ.size() < front && !e.fastAbort && e.elapsed() < e.timeLimit) {
        State* s = e.frontierQ.front(); e.frontierQ.pop_front();
        e.run(s);
        for (auto* w : e.work) e.frontierQ.push_back(w);
        e.work.clear();
    }
    e.inFrontier = false;
    e.writeResults(out + ".0");
    if (e.fastAbort || e.frontierQ.empty()) { _exit(0); }
    auto* ctr = (std::atomic<size_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (ctr) std::atomic<size_t>(0);
    auto* stop = (std::atomic<int>*)((char*)ctr + 64); new (stop) std::atomic<int>(0);
    std::vector<pid_t> kids; size_t N = e.frontierQ.size();
    // deterministic shuffle to balance
    for (size_t i = N; i-- > 1;) { e.rng = e.rng * 6364136223846793005ull + 1442695040888963407ull; std::swap(e.frontierQ[i], e.frontierQ[(e.rng >> 33) % (i + 1)]); }
    for (unsigned j = 0; j < jobs; j++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); arm(); zeroStats(e); e.rng += j * 1000003;
            for (;;) {
                size_t i = ctr->fetch_add(1); if (i >= N || e.fastAbort || stop->load()) break;
                e.work.push_back(e.frontierQ[i]);
                while (!e.work.empty() && !e.fastAbort) { State* s = e.work.back(); e.work.pop_back(); e.run(s); if (stop->load()) e.fastAbort = true; }
                if (!e.errors.empty() && e.errors.size() >= e.maxErrors) stop->store(1);
            }
            e.writeResults(out + "." + std::to_string(j + 1));
            _exit(0);
        }
        kids.push_back(p);
    }
    int bad = 0;
    for (auto p : kids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad++; }
    _exit(bad ? 4 : 0);
}
