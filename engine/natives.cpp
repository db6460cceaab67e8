// Models of external functions (allocation, libc, C++ ABI, threads, harness API).
#include "engine.hpp"
#include <cmath>
#include <cctype>
#include <algorithm>
static inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 fromD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
#define NAT(name) static void name(Engine& e, State& st, const Inst& I, std::vector<Val>& a, Val* r)
#define UNUSED (void)e; (void)st; (void)I; (void)a; (void)r
static u64 C(Engine& e, State& st, Val& v, const char* why, unsigned w = 64) { return e.conc(st, v, w, why); }

NAT(n_malloc) { UNUSED; r->c = e.mallocObj(st, C(e, st, a[0], "malloc size"), 0); }
NAT(n_calloc) { UNUSED; r->c = e.mallocObj(st, C(e, st, a[0], "malloc size") * C(e, st, a[1], "malloc size"), 0); }
NAT(n_new) { UNUSED; r->c = e.mallocObj(st, C(e, st, a[0], "new size"), 1); }
NAT(n_newa) { UNUSED; r->c = e.mallocObj(st, C(e, st, a[0], "new size"), 2); }
NAT(n_free) { UNUSED; e.freeObj(st, C(e, st, a[0], "free"), 0); }
NAT(n_del) { UNUSED; e.freeObj(st, C(e, st, a[0], "free"), 1); }
NAT(n_dela) { UNUSED; e.freeObj(st, C(e, st, a[0], "free"), 2); }
NAT(n_realloc) { UNUSED; u64 p = C(e, st, a[0], "realloc"), n = C(e, st, a[1], "realloc"); u64 q = e.mallocObj(st, n, 0);
    if (p) { Obj* o = st.mem.get(p >> OFFBITS); std::string err; if (!o) { e.error(st, "memory", "realloc of invalid pointer"); throw PathEnd{}; }
        if (!e.copyMem(st, q, p, std::min<u64>(n, o->size), err)) { e.error(st, "memory", err); throw PathEnd{}; } e.freeObj(st, p, 0); }
    r->c = q; }
NAT(n_posix_memalign) { UNUSED; u64 p = C(e, st, a[0], "m"), n = C(e, st, a[2], "m"); Val v; v.c = e.mallocObj(st, n, 0); std::string err; e.storeMem(st, p, 8, v, err); r->c = 0; }
NAT(n_aligned_alloc) { UNUSED; r->c = e.mallocObj(st, C(e, st, a[1], "malloc size"), 0); }

NAT(n_memcpy) { UNUSED; u64 n = C(e, st, a[2], "memcpy size"); r->c = a[0].c; if (!n) { if (a[0].s) r->s = a[0].s; return; } u64 d = C(e, st, a[0], "memcpy dst"), s = C(e, st, a[1], "memcpy src");
    std::string err; if (!e.copyMem(st, d, s, n, err)) { e.error(st, "memory", err); throw PathEnd{}; } r->c = d; }
NAT(n_memset) { UNUSED; u64 n = C(e, st, a[2], "memset size"), d = C(e, st, a[0], "memset dst"); u64 v = C(e, st, a[1], "memset value"); std::string err; r->c = d; if (!n) return;
    if (!e.checkRange(st, d, n, true, err)) { e.error(st, "memory", err); throw PathEnd{}; }
    Obj* o = st.mem.getW(d >> OFFBITS); e.clearCells(o, (u32)(d & OFFMASK), (u32)n); memset(o->bytes + (d & OFFMASK), (int)v, n); }
static E byteE(Engine& e, State& st, u64 a) { Val v; std::string err; if (!e.loadMem(st, a, 1, v, err)) { e.error(st, "memory", err); throw PathEnd{}; } return e.toE(v, 8); }
NAT(n_memcmp) { UNUSED; u64 n = C(e, st, a[2], "memcmp size"); if (!n) { r->c = 0; return; } u64 x = C(e, st, a[0], "memcmp"), y = C(e, st, a[1], "memcmp");
    E res = X.cst(0, 32);
    for (u64 i = n; i-- > 0;) { E p = byteE(e, st, x + i), q = byteE(e, st, y + i); E eq = X.bin(E_EQ, p, q);
        if (eq->op == E_CONST && eq->imm) continue;
        res = X.ite(eq, res, X.ite(X.bin(E_ULT, p, q), X.cst((u128)-1, 32), X.cst(1, 32))); }
    *r = e.fromE(res); }
NAT(n_strlen) { UNUSED; u64 p = C(e, st, a[0], "strlen"); r->c = e.readStr(st, p).size(); }
NAT(n_strcmp) { UNUSED; u64 p = C(e, st, a[0], "strcmp"), q = C(e, st, a[1], "strcmp"); std::string s = e.readStr(st, p), t = e.readStr(st, q); int k = s.compare(t); r->c = (u32)(k < 0 ? -1 : k > 0); }
NAT(n_strncmp) { UNUSED; u64 p = C(e, st, a[0], "strcmp"), q = C(e, st, a[1], "strcmp"), n = C(e, st, a[2], "strncmp"); std::string s = e.readStr(st, p), t = e.readStr(st, q); int k = s.compare(0, n, t, 0, n); r->c = (u32)(k < 0 ? -1 : k > 0); }
NAT(n_memchr) { UNUSED; u64 n = C(e, st, a[2], "memchr"), p = C(e, st, a[0], "memchr"); u8 c = (u8)C(e, st, a[1], "memchr"); r->c = 0;
    for (u64 i = 0; i < n; i++) { Val v = e.fromE(byteE(e, st, p + i)); u64 b = C(e, st, v, "memchr byte", 8); if ((u8)b == c) { r->c = p + i; break; } } }

// --- C++ ABI
NAT(n_alloc_exc) { UNUSED; u32 id = st.mem.alloc((u32)C(e, st, a[0], "exc"), OK_EXC); r->c = Mem::addr(id); }
NAT(n_free_exc) { UNUSED; }
NAT(n_throw) { UNUSED; st.excTI[a[0].c] = a[1].c; st.pendingExc = a[0].c; e.nativeJumped = true; e.throwExc(st); }
NAT(n_begin_catch) { UNUSED; st.caught.push_back({a[0].c, 0, 0}); r->c = a[0].c; }
NAT(n_get_exc_ptr) { UNUSED; r->c = a[0].c; }
NAT(n_end_catch) { UNUSED; if (!st.caught.empty()) st.caught.pop_back(); }
NAT(n_rethrow) { UNUSED; if (st.caught.empty()) { e.error(st, "crash", "rethrow without exception"); throw PathEnd{}; } st.pendingExc = st.caught.back().obj; e.nativeJumped = true; e.throwExc(st); }
NAT(n_terminate) { UNUSED; e.error(st, "crash", "std::terminate / abort called"); throw PathEnd{}; }
NAT(n_pure) { UNUSED; e.error(st, "crash", "pure virtual call"); throw PathEnd{}; }
NAT(n_guard_acq) { UNUSED; Val v; std::string err; e.loadMem(st, a[0].c, 1, v, err); r->c = v.c ? 0 : 1; }
NAT(n_guard_rel) { UNUSED; Val v; v.c = 1; std::string err; e.storeMem(st, a[0].c, 1, v, err); }
NAT(n_zero) { UNUSED; r->c = 0; }
NAT(n_one) { UNUSED; r->c = 1; }
NAT(n_nop) { UNUSED; }
NAT(n_assert_fail) { UNUSED; e.error(st, "crash", "assertion failed: " + e.readStr(st, a[0].c)); throw PathEnd{}; }
NAT(n_dyncast) { UNUSED; r->c = 0; u64 p = C(e, st, a[0], "dynamic_cast"); if (!p) return;
    Val vp; std::string err; if (!e.loadMem(st, p, 8, vp, err)) { e.error(st, "memory", err); throw PathEnd{}; }
    u64 vt = C(e, st, vp, "vptr"); Val off, ti; if (!e.loadMem(st, vt - 16, 8, off, err) || !e.loadMem(st, vt - 8, 8, ti, err)) { e.error(st, "memory", err); throw PathEnd{}; }
    u64 top = p + (i64)off.c; std::vector<std::pair<u64, i64>> b; e.tiBases(st, ti.c, b);
    for (auto& q : b) if (q.first == a[2].c) { r->c = top + q.second; return; } }

// --- threads (single-threaded execution model)
NAT(n_once) { UNUSED; Val v; std::string err; u64 p = C(e, st, a[0], "once"); e.loadMem(st, p, 4, v, err); r->c = 0; if (v.c) return; v.c = 2; e.storeMem(st, p, 4, v, err);
    auto it = e.funcByAddr.find(a[1].c); if (it == e.funcByAddr.end()) { e.error(st, "memory", "bad once fn"); throw PathEnd{}; }
    // push the call; its (void) return continues after this instruction with r undefined (0)
    st.regs[st.frames.back().base + I.dst] = Val{}; std::vector<Val> none; e.pushCall(st, it->second, &I, none); e.nativeJumped = true; }
NAT(n_thread_unsup) { UNUSED; e.markIncomplete(st, "thread creation"); throw PathEnd{}; }

// --- math on concretes
template<double (*F)(double)> static void m1(Engine& e, State& st, const Inst& I, std::vector<Val>& a, Val* r) { UNUSED; r->c = fromD(F(asD(C(e, st, a[0], "fp function")))); }
template<double (*F)(double, double)> static void m2(Engine& e, State& st, const Inst& I, std::vector<Val>& a, Val* r) { UNUSED; double x = asD(C(e, st, a[0], "fp function")); double y = asD(C(e, st, a[1], "fp function")); r->c = fromD(F(x, y)); }
NAT(n_ldexp) { UNUSED; double x = asD(C(e, st, a[0], "fp")); r->c = fromD(ldexp(x, (int)C(e, st, a[1], "fp"))); }
NAT(n_frexp) { UNUSED; double x = asD(C(e, st, a[0], "fp")); int k; r->c = fromD(frexp(x, &k)); Val v; v.c = (u32)k; std::string err; e.storeMem(st, a[1].c, 4, v, err); }
NAT(n_lround) { UNUSED; r->c = (u64)lround(asD(C(e, st, a[0], "fp"))); }
NAT(n_muldc3) { UNUSED; double p[4]; for (int i = 0; i < 4; i++) p[i] = asD(C(e, st, a[i], "muldc3")); r[0].c = fromD(p[0] * p[2] - p[1] * p[3]); r[1].c = fromD(p[0] * p[3] + p[1] * p[2]); }
NAT(n_divdc3) { UNUSED; double p[4]; for (int i = 0; i < 4; i++) p[i] = asD(C(e, st, a[i], "divdc3")); __complex__ double x, y; __real__ x = p[0]; __imag__ x = p[1]; __real__ y = p[2]; __imag__ y = p[3]; __complex__ double z = x / y; r[0].c = fromD(__real__ z); r[1].c = fromD(__imag__ z); }
NAT(n_csqrt) { UNUSED; double p[2]; for (int i = 0; i < 2; i++) p[i] = asD(C(e, st, a[i], "csqrt")); __complex__ double x; __real__ x = p[0]; __imag__ x = p[1]; __complex__ double z = __builtin_csqrt(x); r[0].c = fromD(__real__ z); r[1].c = fromD(__imag__ z); }
NAT(n_cabs) { UNUSED; double x = asD(C(e, st, a[0], "fp")), y = asD(C(e, st, a[1], "fp")); r->c = fromD(hypot(x, y)); }
NAT(n_cpow) { UNUSED; double p[4]; for (int i = 0; i < 4; i++) p[i] = asD(C(e, st, a[i], "cpow")); std::complex<double> z = std::pow(std::complex<double>(p[0], p[1]), std::complex<double>(p[2], p[3])); r[0].c = fromD(z.real()); r[1].c = fromD(z.imag()); }

// --- libc text
NAT(n_errno) { UNUSED;
    for (auto& p : e.globalNameByAddr) if (p.second == "sx_errno_storage") { r->c = p.first; return; } fprintf(stderr, "no storage for errno\n"); abort(); }
static void writeStr(Engine& e, State& st, u64 dst, const std::string& s) { std::string err; for (size_t i = 0; i <= s.size(); i++) { Val v; v.c = i < s.size() ? (u8)s[i] : 0; if (!e.storeMem(st, dst + i, 1, v, err)) { e.error(st, "memory", err); throw PathEnd{}; } } }
NAT(n_strtod) { UNUSED; u64 p = C(e, st, a[0], "strtod"); std::string s = e.readStr(st, p); char* end; double d = strtod(s.c_str(), &end); u64 q = C(e, st, a[1], "strtod"); if (q) { Val v; v.c = p + (end - s.c_str()); std::string err; e.storeMem(st, q, 8, v, err); } r->c = fromD(d); }
NAT(n_strtol) { UNUSED; u64 p = C(e, st, a[0], "strtol"); std::string s = e.readStr(st, p); char* end; i64 d = strtoll(s.c_str(), &end, (int)C(e, st, a[2], "strtol")); u64 q = C(e, st, a[1], "strtol"); if (q) { Val v; v.c = p + (end - s.c_str()); std::string err; e.storeMem(st, q, 8, v, err); } r->c = (u64)d; }
NAT(n_strtoul) { UNUSED; u64 p = C(e, st, a[0], "strtol"); std::string s = e.readStr(st, p); char* end; u64 d = strtoull(s.c_str(), &end, (int)C(e, st, a[2], "strtol")); u64 q = C(e, st, a[1], "strtol"); if (q) { Val v; v.c = p + (end - s.c_str()); std::string err; e.storeMem(st, q, 8, v, err); } r->c = d; }
NAT(n_fmt_double) { UNUSED; double d = asD(C(e, st, a[0], "format")); u64 prec = C(e, st, a[1], "format"); u64 dst = C(e, st, a[2], "format"); char b[64]; int n = snprintf(b, 64, "%.*g", (int)prec, d); writeStr(e, st, dst, std::string(b, n)); r->c = (u64)n; }
NAT(n_snprintf) { UNUSED; // supports a single %f-style or integer conversions on concrete values
    u64 dst = C(e, st, a[0], "snprintf"), cap = C(e, st, a[1], "snprintf"); std::string f = e.readStr(st, C(e, st, a[2], "snprintf")); std::string out; size_t k = 3;
    for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { out += f[i]; continue; }
        size_t j = i + 1; while (j < f.size() && !isalpha((unsigned char)f[j]) && f[j] != '%') j++; while (j < f.size() && (f[j] == 'l' || f[j] == 'z' || f[j] == 'h')) j++;
        std::string spec = f.substr(i, j - i + 1); char c = f[j]; char b[128]; if (c == '%') { out += '%'; i = j; continue; }
        u64 v = C(e, st, a[k++], "snprintf"); if (strchr("feEgG", c)) snprintf(b, 128, spec.c_str(), asD(v)); else if (c == 's') { out += e.readStr(st, v); i = j; continue; } else snprintf(b, 128, spec.c_str(), v);
        out += b; i = j; }
    r->c = (u32)out.size(); if (cap) writeStr(e, st, dst, out.substr(0, cap - 1)); }
template<int (*F)(int)> static void ct(Engine& e, State& st, const Inst& I, std::vector<Val>& a, Val* r) { UNUSED; r->c = (u32)F((int)(u32)C(e, st, a[0], "ctype")); }

// --- harness API
NAT(sx_range) { UNUSED;
    i64 lo = (i64)C(e, st, a[0], "range"), hi = (i64)C(e, st, a[1], "range"); std::string nm = e.readStr(st, a[2].c);
    if (hi < lo) { throw PathEnd{}; }
    u32 k = st.occ[nm]++;
    std::string un = nm + (k ? "#" + std::to_string(k) : "");
    if (lo == hi) { r->c = (u64)lo; st.inputs.push_back({X.cst((u64)lo, 64), un}); return; }
    if (const char* c = getenv("SX_CONC")) { std::string p = std::string(",") + c + ","; size_t q = p.find("," + un + "="); if (q != std::string::npos) { r->c = (u64)std::stoll(p.substr(q + un.size() + 2)); st.inputs.push_back({X.cst(r->c, 64), un}); return; } }
    std::string key = un + ":" + std::to_string(lo) + ":" + std::to_string(hi);
    u64 span = (u64)hi - (u64)lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
    E var; auto it = e.inputVar.find(key);
    if (it != e.inputVar.end()) var = it->second; else { var = X.newVar(un, w, span, true, lo); e.inputVar[key] = var; }
    E top = X.bin(E_ADD, X.zext(var, 64), X.cst((u64)lo, 64));
    if (w == 64 || span != (u64)maskw(w)) st.pc.push_back(X.mk(E_ULE, 1, 0, var, X.cst(span, w)));
    // make sure the current model satisfies the range constraint
    if (X.eval(var, *st.model) > span) { ModelP m; if (e.solver.check(st.pc, nullptr, &m) == 1) st.model = m; else { e.incomplete["range-model"]++; throw PathEnd{}; } }
    st.inputs.push_back({top, un});
    *r = e.fromE(top); }
NAT(sx_assume) { UNUSED; if (!a[0].s) { if (!(a[0].c & 1)) { e.killed++; throw PathEnd{}; } return; }
    E c = a[0].s; if (c->width != 1) c = X.bnot(X.bin(E_EQ, c, X.cst(0, c->width)));
    int k = e.knownBool(st, c); if (k == 1) return; if (k == 0) { e.killed++; throw PathEnd{}; }
    if (X.eval(c, *st.model)) { st.pc.push_back(c); return; }
    ModelP m; int q = e.solver.check(st.pc, c, &m, st.model); if (q < 0) e.incomplete["solver-unknown"]++;
    if (q != 1) { e.killed++; throw PathEnd{}; } st.pc.push_back(c); st.model = m; }
NAT(sx_assert) { UNUSED; std::string id = e.readStr(st, a[1].c); auto& s = e.asserts[id]; s.evals++;
    if (!a[0].s) { if (a[0].c & 1) { s.concrete++; return; } s.failed++; e.error(st, "assert", id); throw PathEnd{}; }
    s.symbolic++;
    E c = a[0].s; if (c->width != 1) c = X.bnot(X.bin(E_EQ, c, X.cst(0, c->width)));
    int k = e.knownBool(st, c); if (k == 1) { s.proved++; return; }
    ModelP m; E nc = X.bnot(c); int q;
    if (!X.eval(c, *st.model)) { q = 1; m = st.model; } else q = e.solver.check(st.pc, nc, &m, st.model);
    if (q == 0) { s.proved++; st.implied.push_back(c); return; }
    if (q < 0) { s.unknown++; e.incomplete["solver-unknown in assertion " + id]++; st.pc.push_back(c); return; }
    s.failed++; e.error(st, "assert", id, m);
    ModelP m2; if (e.feasible(st, c, &m2) == 1) { st.pc.push_back(c); st.model = m2; } else throw PathEnd{}; }
NAT(sx_reach) { UNUSED; st.reached.push_back(e.intern(e.readStr(st, a[0].c))); }
NAT(sx_observe) { UNUSED; st.trace.push_back({e.intern(e.readStr(st, a[0].c)), a[1], false}); }
NAT(sx_observe_f) { UNUSED; st.trace.push_back({e.intern(e.readStr(st, a[0].c)), a[1], true}); }
NAT(sx_concretize) { UNUSED; r->c = C(e, st, a[0], "sx_concretize"); }
NAT(sx_param) { UNUSED; std::string n = e.readStr(st, a[0].c); auto it = e.params.find(n); r->c = it != e.params.end() ? (u64)it->second : a[1].c; e.paramsUsed[n] = (i64)r->c; }
NAT(sx_symbolic) { UNUSED; r->c = a[0].s ? 1 : 0; }
NAT(sx_fail) { UNUSED; e.error(st, "assert", e.readStr(st, a[0].c)); throw PathEnd{}; }
NAT(sx_debug) { UNUSED; fprintf(stderr, "[debug] %s = %s\n", e.readStr(st, a[0].c).c_str(), a[1].s ? X.str(a[1].s, 8).c_str() : std::to_string((i64)a[1].c).c_str()); }

void Engine::registerNatives() {
    auto& n = natives;
    n["malloc"] = n_malloc; n["calloc"] = n_calloc; n["realloc"] = n_realloc; n["free"] = n_free;
    n["posix_memalign"] = n_posix_memalign; n["aligned_alloc"] = n_aligned_alloc;
    n["_Znwm"] = n_new; n["_ZnwmSt11align_val_t"] = n_new; n["_ZnwmRKSt9nothrow_t"] = n_new; n["_Znam"] = n_newa; n["_ZnamSt11align_val_t"] = n_newa; n["_ZnamRKSt9nothrow_t"] = n_newa;
    for (auto s : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) n[s] = n_del;
    for (auto s : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) n[s] = n_dela;
    n["memcpy"] = n_memcpy; n["memmove"] = n_memcpy; n["memset"] = n_memset; n["memcmp"] = n_memcmp; n["bcmp"] = n_memcmp;
    n["strlen"] = n_strlen; n["strcmp"] = n_strcmp; n["strncmp"] = n_strncmp; n["memchr"] = n_memchr;
    n["__cxa_allocate_exception"] = n_alloc_exc; n["__cxa_free_exception"] = n_free_exc; n["__cxa_throw"] = n_throw; n["__cxa_begin_catch"] = n_begin_catch;
    n["__cxa_end_catch"] = n_end_catch; n["__cxa_rethrow"] = n_rethrow; n["__cxa_get_exception_ptr"] = n_get_exc_ptr;
    for (auto s : {"_ZSt9terminatev", "abort", "exit", "_exit", "__stack_chk_fail"}) n[s] = n_terminate;
    n["__cxa_pure_virtual"] = n_pure; n["__cxa_deleted_virtual"] = n_pure; n["__cxa_guard_acquire"] = n_guard_acq; n["__cxa_guard_release"] = n_guard_rel; n["__cxa_guard_abort"] = n_nop;
    n["__cxa_atexit"] = n_zero; n["__cxa_thread_atexit"] = n_zero; n["atexit"] = n_zero; n["__assert_fail"] = n_assert_fail; n["__dynamic_cast"] = n_dyncast;
    for (auto s : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
        "pthread_rwlock_unlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal",
        "pthread_cond_broadcast", "pthread_self", "pthread_key_create", "clock_gettime", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "time", "clock", "fflush", "getenv"}) n[s] = n_zero;
    n["_ZNSt6thread20hardware_concurrencyEv"] = n_one; n["pthread_once"] = n_once; n["__pthread_key_create"] = n_zero;
    n["_ZNSt18condition_variableC1Ev"] = n_nop; n["_ZNSt18condition_variableD1Ev"] = n_nop; n["_ZNSt18condition_variable10notify_allEv"] = n_nop; n["_ZNSt18condition_variable10notify_oneEv"] = n_nop;
    n["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = n_thread_unsup; n["pthread_create"] = n_thread_unsup; n["_ZNSt6thread4joinEv"] = n_thread_unsup;
    n["sqrt"] = m1<sqrt>; n["sin"] = m1<sin>; n["cos"] = m1<cos>; n["tan"] = m1<tan>; n["exp"] = m1<exp>; n["log"] = m1<log>; n["log2"] = m1<log2>; n["log10"] = m1<log10>; n["cbrt"] = m1<cbrt>;
    n["floor"] = m1<floor>; n["ceil"] = m1<ceil>; n["round"] = m1<round>; n["trunc"] = m1<trunc>; n["rint"] = m1<rint>; n["fabs"] = m1<fabs>; n["asin"] = m1<asin>; n["acos"] = m1<acos>; n["atan"] = m1<atan>; n["sinh"] = m1<sinh>; n["cosh"] = m1<cosh>; n["tanh"]=m1<tanh>; n["exp2"]=m1<exp2>; n["nearbyint"]=m1<nearbyint>;
    n["pow"] = m2<pow>; n["atan2"] = m2<atan2>; n["hypot"] = m2<hypot>; n["fmod"] = m2<fmod>; n["fmax"] = m2<fmax>; n["fmin"] = m2<fmin>; n["nextafter"] = m2<nextafter>; n["copysign"] = m2<copysign>;
    n["ldexp"] = n_ldexp; n["frexp"] = n_frexp; n["lround"] = n_lround; n["llround"] = n_lround; n["__muldc3"] = n_muldc3; n["__divdc3"] = n_divdc3; n["cabs"] = n_cabs; n["csqrt"] = n_csqrt; n["cpow"] = n_cpow;
    n["__errno_location"] = n_errno; n["strtod"] = n_strtod; n["strtol"] = n_strtol; n["strtoll"] = n_strtol; n["strtoul"] = n_strtoul; n["strtoull"] = n_strtoul; n["snprintf"] = n_snprintf; n["sx_fmt_double"] = n_fmt_double;
    n["__isoc23_strtol"] = n_strtol; n["__isoc23_strtoll"] = n_strtol; n["__isoc23_strtoul"] = n_strtoul; n["__isoc23_strtoull"] = n_strtoul;
    n["isspace"] = ct<isspace>; n["isdigit"] = ct<isdigit>; n["isalpha"] = ct<isalpha>; n["isalnum"] = ct<isalnum>; n["toupper"] = ct<toupper>; n["tolower"] = ct<tolower>; n["isupper"] = ct<isupper>; n["islower"] = ct<islower>; n["ispunct"] = ct<ispunct>; n["isprint"] = ct<isprint>;
    n["sx_range"] = sx_range; n["sx_assume"] = sx_assume; n["sx_assert"] = sx_assert; n["sx_reach"] = sx_reach; n["sx_observe"] = sx_observe; n["sx_observe_f"] = sx_observe_f;
    n["sx_concretize"] = sx_concretize; n["sx_param"] = sx_param; n["sx_symbolic"] = sx_symbolic; n["sx_fail"] = sx_fail; n["sx_debug"] = sx_debug;
}
