// Symbolic execution core.
#include "engine.hpp"
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
using namespace llvm;
ExprCtx X;

static inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 fromD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float asF(u64 b) { u32 x = (u32)b; float d; memcpy(&d, &x, 4); return d; }
static inline u64 fromF(float d) { u32 b; memcpy(&b, &d, 4); return b; }

// ------------------------------------------------------------------ paths
State* Engine::clone(State& st) {
    static u64 ids = 1;
    auto* n = new State(st);
    n->id = ++ids; forks++;
    return n;
}
void Engine::endPath(State& st, const char* why) {
    (void)why; (void)st;
    throw PathEnd{};
}
std::vector<std::string> Engine::stackOf(State& st) {
    std::vector<std::string> r;
    for (size_t i = st.frames.size(); i-- > 0 && r.size() < 14;) r.push_back(demangle(st.frames[i].f->name));
    return r;
}
void Engine::fillInputs(State& st, const Model& m, std::vector<std::pair<std::string, i64>>& out) {
    for (auto& p : st.inputs) out.push_back({p.second, (i64)(u64)X.eval(p.first, m)});
}
void Engine::fillTrace(State& st, const Model& m, std::vector<std::pair<std::string, std::string>>& out) {
    for (auto& o : st.trace) {
        u64 v = o.v.s ? (u64)X.eval(o.v.s, m) : o.v.c;
        char b[64];
        if (o.isDouble) { double d = asD(v); if (d == 0) d = 0; snprintf(b, 64, "%.17g", d); } else snprintf(b, 64, "%lld", (long long)v);
        out.push_back({*o.name, b});
    }
}
void Engine::markIncomplete(State& st, const std::string& why) { (void)st; incomplete[why]++; }

void Engine::error(State& st, const std::string& kind, const std::string& msg, ModelP m) {
    if (!m) m = st.model;
    auto stk = stackOf(st);
    std::string where;
    for (auto& s : stk) if (s.find("Moment::") != std::string::npos) { where = s; break; }
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : where);
    u64 n = errorKeys[key]++;
    if (n < 1) {
        ErrorRec r; r.kind = kind; r.msg = msg; r.where = where; r.stack = stk;
        fillInputs(st, *m, r.inputs); fillTrace(st, *m, r.trace);
        errors.push_back(r);
        if (verbose) { fprintf(stderr, "ERROR %s: %s @ %s\n", kind.c_str(), msg.c_str(), where.c_str());
            for (auto& s : stk) fprintf(stderr, "    %s\n", s.substr(0, 200).c_str());
            for (auto& i : r.inputs) fprintf(stderr, "   in %s=%lld\n", i.first.c_str(), (long long)i.second); }
    }
    if (errors.size() >= maxErrors) fastAbort = true;
}

// ------------------------------------------------------------------ solving
static double g_now = 0;
int Engine::feasible(State& st, E c, ModelP* m) {
    if (c->op == E_CONST) { if (c->imm && m) *m = st.model; return c->imm ? 1 : 0; }
    if (X.eval(c, *st.model)) { if (m) *m = st.model; return 1; }
    int r = solver.check(st.pc, c, m, st.model);
    if (r < 0) incomplete["solver-unknown"]++;
    return r;
}
int Engine::knownBool(State& st, E c) {
    if (c->op == E_CONST) return c->imm ? 1 : 0;
    E n = X.bnot(c);
    for (size_t i = st.pc.size(); i-- > 0;) { if (st.pc[i] == c) return 1; if (st.pc[i] == n) return 0; }
    for (size_t i = st.implied.size(); i-- > 0;) { if (st.implied[i] == c) return 1; if (st.implied[i] == n) return 0; }
    return -1;
}
bool Engine::branch(State& st, E c) {
    int k = knownBool(st, c);
    if (k >= 0) return k;
    symBranches++;
    bool mv = X.eval(c, *st.model) != 0;
    E nc = X.bnot(c);
    E same = mv ? c : nc, other = mv ? nc : c;
    ModelP m2;
    int r = solver.check(st.pc, other, &m2, st.model);
    if (r < 0) incomplete["solver-unknown"]++;
    if (r == 1) {
        if (traceForks) enumWhere["fork:" + demangle(st.frames.back().f->name).substr(0, 160)]++;
        State* o = clone(st);
        o->pc.push_back(other); o->model = m2; o->depth++;
        created.push_back((E)nullptr); // fork marker
        work.push_back(o);
        st.pc.push_back(same); st.depth++;
    } else st.implied.push_back(same);
    return mv;
}
u64 Engine::conc(State& st, Val& v, unsigned w, const char* why) {
    if (!v.s) return v.c;
    E e = v.s; bool isfx = false; int k = 0;
    if (e->op == E_FX) { isfx = true; k = ExprCtx::fxScale(e); e = e->a; }
    (void)w;
    if (e->op == E_CONST) {
        u64 r = (u64)e->imm; if (isfx) r = fromD(ldexp((double)(i64)r, -k)); v.c = r; v.s = nullptr; return r; }
    u64 val = 0; bool found = false;
    auto scan = [&](std::vector<E>& L) {
        for (size_t i = L.size(); i-- > 0 && !found;) {
            E p = L[i];
            if (p->op == E_EQ && p->a == e && p->b->op == E_CONST) { val = (u64)p->b->imm; found = true; }
        } };
    scan(st.pc); if (!found) scan(st.implied);
    if (!found) {
        val = (u64)X.eval(e, *st.model);
        E eq = X.bin(E_EQ, e, X.cst(val, e->width));
        if (!(eq->op == E_CONST)) {
            E ne = X.bnot(eq);
            ModelP m2;
            int r = solver.check(st.pc, ne, &m2, st.model);
            if (r < 0) incomplete["solver-unknown"]++;
            if (r == 1) {
                State* o = clone(st); o->pc.push_back(ne); o->model = m2; o->depth++;
                created.push_back((E)nullptr);
                work.push_back(o); enumForks++;
                enumWhere[std::string(why) + " @ " + demangle(st.frames.back().f->name).substr(0, 160)]++;
                st.pc.push_back(eq); st.depth++;
            } else st.implied.push_back(eq);
            // eq may be canonicalised: remember explicit form too
            E raw = X.mk(E_EQ, 1, 0, e, X.cst(val, e->width));
            if (raw != eq) st.implied.push_back(raw);
        }
    }
    u64 r = val; if (isfx) r = fromD(ldexp((double)(i64)val, -k));
    v.c = r; v.s = nullptr;
    return r;
}

// ------------------------------------------------------------------ FX
static const i128 FXLIM = (i128)1 << 53;
bool Engine::dblToFX(double d, i64& n, int& k) {
    if (!std::isfinite(d)) return false;
    if (d == 0) { n = 0; k = 0; return true; }
    int e; double m = frexp(d, &e); // d = m 2^e
    i64 mi = (i64)ldexp(m, 53); int kk = 53 - e;
    while ((mi & 1) == 0) { mi >>= 1; kk--; }
    if (kk < 0) { if (-kk > 52) return false; i128 t = (i128)mi << (-kk); if (t > FXLIM || t < -FXLIM) return false; mi = (i64)t; kk = 0; }
    if (kk > 200) return false;
    n = mi; k = kk; return true;
}
bool Engine::toFX(const Val& v, E& n, int& k) {
    if (v.s) { if (v.s->op != E_FX) return false; n = v.s->a; k = ExprCtx::fxScale(v.s); return true; }
    i64 ni; if (!dblToFX(asD(v.c), ni, k)) return false;
    n = X.cst((u64)ni, 64); return true;
}
Val Engine::mkFX(E n, int k) {
    Val v;
    if (n->op == E_CONST) { v.c = fromD(ldexp((double)(i64)(u64)n->imm, -k)); return v; }
    v.s = X.fx(n, k); return v;
}
bool Engine::fxAlign(E& n1, int k1, E& n2, int k2, int& k) {
    k = k1 > k2 ? k1 : k2;
    auto up = [&](E& n, int d) {
        if (d == 0) return true;
        if (n->op == E_CONST && n->imm == 0) return true;
        if (d > 52) return false;
        i128 f = (i128)1 << d;
        if (n->slo * f < -FXLIM || n->shi * f > FXLIM) return false;
        n = X.bin(E_MUL, n, X.cst((u64)f, 64)); return true; };
    return up(n1, k - k1) && up(n2, k - k2);
}
static bool fxOK(E n) { return n->slo >= -FXLIM && n->shi <= FXLIM; }

bool Engine::fbin(State& st, const Inst& I, const Val& a, const Val& b, Val& out) {
    (void)st;
    E n1, n2; int k1, k2, k;
    if (!a.s && !b.s) return false;
    // identities with constants
    if (I.sub == Instruction::FMul) {
        if (!a.s && asD(a.c) == 0) { out.c = fromD(0.0); return true; }
        if (!b.s && asD(b.c) == 0) { out.c = fromD(0.0); return true; }
    }
    if (!toFX(a, n1, k1) || !toFX(b, n2, k2)) return false;
    switch (I.sub) {
    case Instruction::FAdd: case Instruction::FSub: {
        if (!fxAlign(n1, k1, n2, k2, k)) return false;
        E r = X.bin(I.sub == Instruction::FAdd ? E_ADD : E_SUB, n1, n2);
        if (!fxOK(r)) return false;
        out = mkFX(r, k); return true; }
    case Instruction::FMul: {
        i128 lim = (i128)1 << 62;
        (void)lim;
        E r = X.bin(E_MUL, n1, n2);
        // interval of product computed from operands
        i128 p[4] = {n1->slo * n2->slo, n1->slo * n2->shi, n1->shi * n2->slo, n1->shi * n2->shi};
        for (auto x : p) if (x > FXLIM || x < -FXLIM) return false;
        if (k1 + k2 > 400) return false;
        out = mkFX(r, k1 + k2); return true; }
    case Instruction::FDiv: {
        if (b.s || n2->op != E_CONST) return false;
        i64 d = (i64)(u64)n2->imm; if (d == 0) return false;
        bool neg = d < 0; u64 ad = neg ? (u64)-d : (u64)d;
        if (ad & (ad - 1)) return false;
        int sh = 0; while ((1ull << sh) < ad) sh++;
        // b = +-2^(sh-k2): a/b = n1 * 2^-(k1 + sh - k2)
        E r = neg ? X.bin(E_SUB, X.cst(0, 64), n1) : n1;
        int nk = k1 + sh - k2;
        if (nk < 0) { E z = X.cst(0, 64); int kk; if (!fxAlign(r, nk, z, 0, kk)) return false; nk = 0; }
        out = mkFX(r, nk); return true; }
    default: return false;
    }
}
bool Engine::fcmpSym(unsigned pred, const Val& a0, const Val& b0, E& out) {
    Val a = a0, b = b0;
    if (pred == CmpInst::FCMP_TRUE) { out = X.bTrue(); return true; }
    if (pred == CmpInst::FCMP_FALSE) { out = X.bFalse(); return true; }
    auto swp = [](unsigned p) { return (unsigned)CmpInst::getSwappedPredicate((CmpInst::Predicate)p); };
    if (!a.s) { std::swap(a, b); pred = swp(pred); }
    if (a.s->op != E_FX) return false;
    bool unord = pred >= 8;
    if (!b.s) {
        double c = asD(b.c);
        if (std::isnan(c)) { out = unord ? X.bTrue() : X.bFalse(); return true; }
        unsigned p = pred & 7;
        if (p == 7 || p == 0) { out = (pred == CmpInst::FCMP_ORD) ? X.bTrue() : X.bFalse(); return true; }
        if (std::isinf(c)) { bool r = false; bool pos = c > 0;
            switch (p) { case 1: r = false; break; case 2: case 3: r = !pos; break; case 4: case 5: r = pos; break; case 6: r = true; break; }
            out = r ? X.bTrue() : X.bFalse(); return true; }
        E n = a.s->a; int k = ExprCtx::fxScale(a.s);
        double t = ldexp(c, k);
        auto K = [&](double d) { return X.cst((u64)(i64)d, 64); };
        if (fabs(t) > 4e18) { bool pos = t > 0, r = false; switch (p) { case 1: r = false; break; case 2: case 3: r = !pos; break; case 4: case 5: r = pos; break; case 6: r = true; break; }
            out = r ? X.bTrue() : X.bFalse(); return true; }
        double fl = floor(t), ce = ceil(t);
        switch (p) {
        case 1: out = fl == t ? X.bin(E_EQ, n, K(t)) : X.bFalse(); return true;       // eq
        case 6: out = fl == t ? X.bnot(X.bin(E_EQ, n, K(t))) : X.bTrue(); return true; // ne
        case 2: out = X.bin(E_SLT, K(fl), n); return true;                              // gt: n > t <=> n > floor(t)
        case 3: out = X.bin(E_SLE, K(ce), n); return true;                              // ge: n >= ceil(t)
        case 4: out = X.bin(E_SLT, n, K(ce)); return true;                              // lt
        case 5: out = X.bin(E_SLE, n, K(fl)); return true;                              // le
        }
        return false;
    }
    if (b.s->op != E_FX) return false;
    E n1 = a.s->a, n2 = b.s->a; int k1 = ExprCtx::fxScale(a.s), k2 = ExprCtx::fxScale(b.s);
    i128 lim = (i128)1 << 62;
    auto up = [&](E& n, int d) { if (d == 0) return true; if (d > 61) return false; i128 f = (i128)1 << d;
        if (n->slo < -lim || n->shi > lim) return false;
        if (n->slo * f < -lim || n->shi * f > lim) return false; n = X.bin(E_MUL, n, X.cst((u64)f, 64)); return true; };
    if (k1 < k2) { if (!up(n1, k2 - k1)) return false; } else if (!up(n2, k1 - k2)) return false;
    switch (pred & 7) {
    case 0: case 7: out = pred == CmpInst::FCMP_ORD ? X.bTrue() : X.bFalse(); return true;
    case 1: out = X.bin(E_EQ, n1, n2); return true;
    case 6: out = X.bnot(X.bin(E_EQ, n1, n2)); return true;
    case 2: out = X.bin(E_SLT, n2, n1); return true;
    case 3: out = X.bin(E_SLE, n2, n1); return true;
    case 4: out = X.bin(E_SLT, n1, n2); return true;
    case 5: out = X.bin(E_SLE, n1, n2); return true;
    }
    return false;
}
Val Engine::selectVal(E c, const Val& a, const Val& b, unsigned w, bool& ok) {
    ok = true;
    if (!a.s && !b.s && a.c == b.c) return a;
    if (a.s && a.s == b.s) return a;
    bool fa = a.s && a.s->op == E_FX, fb = b.s && b.s->op == E_FX;
    if (fa || fb) {
        E n1, n2; int k1, k2, k;
        if (!toFX(a, n1, k1) || !toFX(b, n2, k2) || !fxAlign(n1, k1, n2, k2, k)) { ok = false; return a; }
        return mkFX(X.ite(c, n1, n2), k);
    }
    return fromE(X.ite(c, toE(a, w), toE(b, w)));
}

// ------------------------------------------------------------------ memory
static inline Cell* findCell(Obj* o, u32 off) {
    auto it = std::lower_bound(o->sym.begin(), o->sym.end(), off, [](const Cell& c, u32 x) { return c.off < x; });
    // first cell with c.off >= off
    if (it != o->sym.end() && it->off == off) return &*it;
    return nullptr;
}
struct Unsup { std::string why; };
E Engine::byteAt(State& st, Obj* o, u32 off) {
    (void)st;
    if (!o->sym.empty()) {
        auto it = std::upper_bound(o->sym.begin(), o->sym.end(), off, [](u32 x, const Cell& c) { return x < c.off; });
        if (it != o->sym.begin()) { --it;
            if (off < it->off + it->size) {
                E e = it->e; if (e->op == E_FX) throw Unsup{"partial access of symbolic double"};
                u32 k = off - it->off;
                E z = e->width < it->size * 8 ? X.zext(e, it->size * 8) : e;
                return X.extract(z, k * 8, 8); } }
    }
    return X.cst(o->bytes[off], 8);
}
void Engine::clearCells(Obj* o, u32 off, u32 n) {
    if (o->sym.empty() || n == 0) return;
    auto lo = std::lower_bound(o->sym.begin(), o->sym.end(), off, [](const Cell& c, u32 x) { return c.off < x; });
    if (lo != o->sym.begin()) { auto p = lo - 1; if (p->off + p->size > off) lo = p; }
    auto hi = lo;
    std::vector<Cell> keep;
    while (hi != o->sym.end() && hi->off < off + n) {
        Cell c = *hi;
        // partially overlapped cells: keep the bytes outside
        if (c.off < off || c.off + c.size > off + n) {
            if (c.e->op == E_FX) throw Unsup{"partial overwrite of symbolic double"};
            E z = c.e->width < c.size * 8u ? X.zext(c.e, c.size * 8) : c.e;
            if (c.off < off) { u32 m = off - c.off; keep.push_back({c.off, (u8)m, X.extract(z, 0, m * 8)}); }
            if (c.off + c.size > off + n) { u32 m = c.off + c.size - (off + n); keep.push_back({off + n, (u8)m, X.extract(z, (off + n - c.off) * 8, m * 8)}); }
        }
        ++hi;
    }
    size_t i = lo - o->sym.begin();
    o->sym.erase(lo, hi);
    for (auto& c : keep) {
        if (c.e->op == E_CONST) { u64 v = (u64)c.e->imm; memcpy(o->bytes + c.off, &v, c.size); continue; }
        o->sym.insert(o->sym.begin() + i++, c);
    }
}
static std::string addrStr(Engine& en, State& st, u64 a) {
    char b[96]; u64 id = a >> OFFBITS; Obj* o = st.mem.get(id);
    (void)en;
    if (a < 4096) snprintf(b, 96, "null+%llu", (unsigned long long)a);
    else if (!o) snprintf(b, 96, "freed or invalid object");
    else snprintf(b, 96, "offset %llu of %u-byte %s object", (unsigned long long)(a & OFFMASK), o->size, o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global");
    return b;
}
bool Engine::checkRange(State& st, u64 addr, u64 n, bool write, std::string& err) {
    if (n == 0) return true;
    Obj* o = st.mem.get(addr >> OFFBITS);
    if (!o || o->kind == OK_FUNC || (addr & OFFMASK) + n > o->size) { err = "invalid access of " + std::to_string(n) + " bytes at " + addrStr(*this, st, addr); return false; }
    if (write && o->ro) { err = "write to constant memory"; return false; }
    return true;
}
bool Engine::loadMem(State& st, u64 addr, unsigned n, Val& out, std::string& err) {
    Obj* o = st.mem.get(addr >> OFFBITS);
    u32 off = (u32)(addr & OFFMASK);
    if (!o || (u64)off + n > o->size || o->kind == OK_FUNC) { err = "invalid read of " + std::to_string(n) + " bytes at " + addrStr(*this, st, addr); return false; }
    out.s = nullptr;
    if (!o->sym.empty()) {
        Cell* c = findCell(o, off);
        if (c && c->size == n) { out.s = c->e; out.c = 0; return true; }
        // any overlap?
        auto it = std::lower_bound(o->sym.begin(), o->sym.end(), off, [](const Cell& c, u32 x) { return c.off < x; });
        bool ov = (it != o->sym.end() && it->off < off + n);
        if (!ov && it != o->sym.begin()) { --it; ov = it->off + it->size > off; }
        if (ov) {
            E e = byteAt(st, o, off);
            for (unsigned k = 1; k < n; k++) e = X.concat(byteAt(st, o, off + k), e);
            out = fromE(e); return true;
        }
    }
    if (n <= 8) { u64 v = 0; memcpy(&v, o->bytes + off, n); out.c = v; }
    else { u128 v = 0; memcpy(&v, o->bytes + off, n); out.s = X.cst(v, n * 8); }
    return true;
}
bool Engine::storeMem(State& st, u64 addr, unsigned n, const Val& v, std::string& err) {
    Obj* o = st.mem.getW(addr >> OFFBITS);
    u32 off = (u32)(addr & OFFMASK);
    if (!o || (u64)off + n > o->size || o->kind == OK_FUNC) { err = "invalid write of " + std::to_string(n) + " bytes at " + addrStr(*this, st, addr); return false; }
    if (o->ro) { err = "write to constant memory"; return false; }
    if (!v.s) { if (!o->sym.empty()) clearCells(o, off, n); u64 x = v.c; memcpy(o->bytes + off, &x, n); return true; }
    if (v.s->op == E_CONST) { if (!o->sym.empty()) clearCells(o, off, n); u128 x = v.s->imm; memcpy(o->bytes + off, &x, n); return true; }
    E e = v.s;
    if (e->op != E_FX && e->width != n * 8) e = X.zext(e, n * 8);
    Cell* c = findCell(o, off);
    if (c && c->size == n) { c->e = e; return true; }
    clearCells(o, off, n);
    auto it = std::lower_bound(o->sym.begin(), o->sym.end(), off, [](const Cell& c, u32 x) { return c.off < x; });
    o->sym.insert(it, Cell{off, (u8)n, e});
    return true;
}
bool Engine::copyMem(State& st, u64 dst, u64 src, u64 n, std::string& err) {
    if (n == 0 || dst == src) return true;
    if (!checkRange(st, src, n, false, err) || !checkRange(st, dst, n, true, err)) return false;
    Obj* d = st.mem.getW(dst >> OFFBITS); Obj* s = st.mem.get(src >> OFFBITS);
    u32 so = (u32)(src & OFFMASK), dof = (u32)(dst & OFFMASK);
    std::vector<Cell> cp;
    if (!s->sym.empty()) {
        auto it = std::lower_bound(s->sym.begin(), s->sym.end(), so, [](const Cell& c, u32 x) { return c.off < x; });
        if (it != s->sym.begin() && (it - 1)->off + (it - 1)->size > so) --it;
        for (; it != s->sym.end() && it->off < so + n; ++it) {
            if (it->off >= so && it->off + it->size <= so + n) cp.push_back({it->off - so + dof, it->size, it->e});
            else for (u32 k = 0; k < it->size; k++) { u32 p = it->off + k; if (p >= so && p < so + n) { E b = byteAt(st, s, p); if (b->op != E_CONST) cp.push_back({p - so + dof, 1, b}); else s->bytes[p] = (u8)b->imm; } }
        }
    }
    memmove(d->bytes + dof, s->bytes + so, n);
    clearCells(d, dof, (u32)n);
    if (!cp.empty()) {
        auto it = std::lower_bound(d->sym.begin(), d->sym.end(), dof, [](const Cell& c, u32 x) { return c.off < x; });
        d->sym.insert(it, cp.begin(), cp.end());
    }
    return true;
}
u64 Engine::mallocObj(State& st, u64 n, u8 kind) {
    if (n > OFFMASK) { markIncomplete(st, "huge allocation"); endPath(st, "alloc"); }
    u32 id = st.mem.alloc((u32)n, OK_HEAP);
    st.mem.getW(id)->allocKind = kind;
    return Mem::addr(id);
}
void Engine::freeObj(State& st, u64 addr, u8 kind) {
    if (addr == 0) return;
    Obj* o = st.mem.get(addr >> OFFBITS);
    if (!o || (addr & OFFMASK) || o->kind != OK_HEAP) { error(st, "memory", "invalid free: " + addrStr(*this, st, addr)); endPath(st, "free"); }
    if (o->allocKind != kind) { error(st, "memory", "mismatched deallocation"); endPath(st, "free"); }
    st.mem.release(addr >> OFFBITS);
}
std::string Engine::readStr(State& st, u64 addr) {
    std::string s, err;
    for (;;) { Val v; if (!loadMem(st, addr + s.size(), 1, v, err)) { error(st, "memory", err); endPath(st, "str"); }
        u64 c = conc(st, v, 8, "string"); if (!(c & 255)) break; s.push_back((char)c); if (s.size() > 100000) break; }
    return s;
}

// resolve a symbolic address; enumerates feasible leaves for ITE trees of constants
static void leavesOf(E e, std::vector<E>& path, std::vector<std::pair<u64, E>>& out) {
    if (e->op == E_CONST) { E c = nullptr; for (E p : path) c = c ? X.bin(E_AND, c, p) : p; out.push_back({(u64)e->imm, c ? c : X.bTrue()}); return; }
    path.push_back(e->a); leavesOf(e->b, path, out); path.pop_back();
    path.push_back(X.bnot(e->a)); leavesOf(e->c, path, out); path.pop_back();
}
// Makes the address resolvable: ends with either concrete (returns true, a set) or a symbolic offset within one object
struct SymAddr { bool concrete; u64 a; u64 base; u32 size; E off; u64 stride; u64 lo, hi; };

static bool affine(E e, u64& c0, E& x, u64& scale) { // e = c0 + x*scale
    c0 = 0; scale = 1; x = e;
    if (x->op == E_ADD && x->b->op == E_CONST) { c0 = (u64)x->b->imm; x = x->a; }
    if (x->op == E_MUL && x->b->op == E_CONST) { scale = (u64)x->b->imm; x = x->a; }
    if ((scale & (scale - 1)) == 0) { // low bits that are known give the alignment
        u128 known = e->kz | e->ko; unsigned k = 0; while (k < 12 && ((known >> k) & 1)) k++;
        if ((u64(1) << k) > scale) { scale = u64(1) << k; c0 = (u64)e->ko & (scale - 1); }
    }
    return true;
}

bool Engine::symLoad(State& st, E addr, unsigned bytes, bool, Val& out) {
    iteReads++;
    std::string err;
    if (addr->ctree) {
        std::vector<std::pair<u64, E>> lv; std::vector<E> p; leavesOf(addr, p, lv);
        std::map<u64, Val> vals;
        for (auto& l : lv) {
            if (vals.count(l.first)) continue;
            Val v;
            if (!loadMem(st, l.first, bytes, v, err)) {
                E bad = X.bin(E_EQ, addr, X.cst(l.first, 64));
                if (branch(st, bad)) { error(st, "memory", err); endPath(st, "oob"); }
                continue;
            }
            vals[l.first] = v;
        }
        std::function<bool(E, Val&, bool&)> build = [&](E e, Val& r, bool& ok) -> bool {
            if (e->op == E_CONST) { auto it = vals.find((u64)e->imm); if (it == vals.end()) return false; r = it->second; return true; }
            Val a, b; bool ha = build(e->b, a, ok), hb = build(e->c, b, ok);
            if (ha && hb) { r = selectVal(e->a, a, b, bytes * 8, ok); return true; }
            if (ha) { r = a; return true; } if (hb) { r = b; return true; }
            return false; };
        bool ok = true; Val r;
        if (build(addr, r, ok) && ok) { out = r; return true; }
        Val av; av.s = addr; u64 a = conc(st, av, 64, "address");
        if (!loadMem(st, a, bytes, out, err)) { error(st, "memory", err); endPath(st, "oob"); }
        return true;
    }
    u64 a0 = (u64)X.eval(addr, *st.model);
    Obj* o = st.mem.get(a0 >> OFFBITS);
    if (!o || (a0 & OFFMASK) + bytes > o->size) {
        // model address itself invalid: a genuine memory error on this path
        error(st, "memory", "invalid symbolic read at " + addrStr(*this, st, a0)); 
        // explore the remaining (valid) part as well
        E bad = X.bin(E_EQ, addr, X.cst(a0, 64));
        ModelP m2; if (feasible(st, X.bnot(bad), &m2) == 1 && errors.size() < maxErrors) { State* n = clone(st); n->pc.push_back(X.bnot(bad)); n->model = m2; created.push_back(nullptr); work.push_back(n); }
        endPath(st, "oob");
    }
    u64 base = (a0 >> OFFBITS) << OFFBITS;
    E off = X.bin(E_SUB, addr, X.cst(base, 64));
    E in = X.bin(E_ULE, off, X.cst(o->size - bytes, 64));
    if (in->op != E_CONST || !in->imm) branch(st, in);   // model side is in-range; the other side re-executes
    u64 c0; E x; u64 sc; affine(off, c0, x, sc);
    u64 lo = 0, hi = o->size - bytes;
    if (off->ulo > lo) lo = (u64)off->ulo;
    if (off->uhi < hi) hi = (u64)off->uhi;
    // candidate offsets: c0 + k*sc within [lo,hi]
    if (sc == 0) sc = 1;
    u64 start = c0 % sc; // offsets are congruent to c0 mod sc when arithmetic does not wrap (power-of-two strides wrap consistently)
    if ((sc & (sc - 1)) != 0) { // non power of two: only valid if no wrap
        if (!(x->uhi * sc + c0 < ((u128)1 << 63) && (i64)c0 >= 0)) { 
            if ((i64)c0 < 0) { u64 m = (u64)(-(i64)c0) % sc; start = m ? sc - m : 0; if (!(x->uhi * (u128)sc < ((u128)1 << 62))) { sc = 1; start = 0; } }
            else { sc = 1; start = 0; } } }
    u64 first = lo <= start ? start : start + ((lo - start + sc - 1) / sc) * sc;
    u64 cnt = hi >= first ? (hi - first) / sc + 1 : 0;
    if (cnt > 300) {
        Val av; av.s = addr; u64 a = conc(st, av, 64, "address");
        if (!loadMem(st, a, bytes, out, err)) { error(st, "memory", err); endPath(st, "oob"); }
        return true;
    }
    Val r; bool have = false; bool ok = true;
    for (u64 q = first + (cnt - 1) * sc, i = 0; i < cnt; i++, q -= sc) {
        Val v; if (!loadMem(st, base + q, bytes, v, err)) continue;
        if (!have) { r = v; have = true; continue; }
        r = selectVal(X.bin(E_EQ, off, X.cst(q, 64)), v, r, bytes * 8, ok);
        if (!ok) break;
    }
    if (!have || !ok) {
        Val av; av.s = addr; u64 a = conc(st, av, 64, "address");
        if (!loadMem(st, a, bytes, out, err)) { error(st, "memory", err); endPath(st, "oob"); }
        return true;
    }
    out = r; return true;
}
bool Engine::symStore(State& st, E addr, unsigned bytes, const Val& v) {
    std::string err;
    if (addr->ctree) {
        std::vector<std::pair<u64, E>> lv; std::vector<E> p; leavesOf(addr, p, lv);
        if (lv.size() <= 24) {
            std::set<u64> done;
            for (auto& l : lv) if (done.insert(l.first).second && !checkRange(st, l.first, bytes, true, err)) {
                E bad = X.bin(E_EQ, addr, X.cst(l.first, 64));
                if (branch(st, bad)) { error(st, "memory", err); endPath(st, "oob"); } }
            // one candidate at a time: candidates may overlap, so each store sees the ones before it
            // (a partly done sequence is harmless: every store is guarded by its own address)
            bool ok = true;
            for (u64 a : done) { Val old; if (!loadMem(st, a, bytes, old, err)) continue;
                Val n = selectVal(X.bin(E_EQ, addr, X.cst(a, 64)), v, old, bytes * 8, ok); if (!ok) break; storeMem(st, a, bytes, n, err); }
            if (ok) return true;
        }
    } else {
        u64 a0 = (u64)X.eval(addr, *st.model);
        Obj* o = st.mem.get(a0 >> OFFBITS);
        if (o && (a0 & OFFMASK) + bytes <= o->size && !o->ro) {
            u64 base = (a0 >> OFFBITS) << OFFBITS;
            E off = X.bin(E_SUB, addr, X.cst(base, 64));
            E in = X.bin(E_ULE, off, X.cst(o->size - bytes, 64));
            if (in->op != E_CONST || !in->imm) branch(st, in);
            u64 c0; E x; u64 sc; affine(off, c0, x, sc);
            if (sc && (sc & (sc - 1)) == 0) {
                u64 lo = (u64)off->ulo, hi = o->size - bytes; if (off->uhi < hi) hi = (u64)off->uhi;
                u64 start = c0 % sc;
                u64 first = lo <= start ? start : start + ((lo - start + sc - 1) / sc) * sc;
                u64 cnt = hi >= first ? (hi - first) / sc + 1 : 0;
                if (cnt && cnt <= 80) {
                    bool ok = true;
                    for (u64 q = first; q <= hi; q += sc) { Val old; if (!loadMem(st, base + q, bytes, old, err)) continue;
                        Val n = selectVal(X.bin(E_EQ, off, X.cst(q, 64)), v, old, bytes * 8, ok); if (!ok) break; storeMem(st, base + q, bytes, n, err); }
                    if (ok) return true;
                }
            }
        }
    }
    Val av; av.s = addr; u64 a = conc(st, av, 64, "store address");
    if (!storeMem(st, a, bytes, v, err)) { error(st, "memory", err); endPath(st, "oob"); }
    return true;
}

// ------------------------------------------------------------------ calls, exceptions
void Engine::pushCall(State& st, FuncInfo* f, const Inst* call, const std::vector<Val>& args) {
    if (!f->decoded) decode(f);
    if (!f->unsupported.empty()) { markIncomplete(st, f->unsupported); endPath(st, "unsupported"); }
    if (st.frames.size() > 3000) { error(st, "crash", "stack overflow (unbounded recursion)"); endPath(st, "so"); }
    f->calls++;
    Frame fr; fr.f = f; fr.pc = 0; fr.base = (u32)st.regs.size(); fr.call = call; fr.allocaBase = (u32)st.allocas.size();
    st.regs.resize(st.regs.size() + f->nregs);
    size_t n = std::min<size_t>(args.size(), f->nargs);
    for (size_t i = 0; i < n; i++) st.regs[fr.base + i] = args[i];
    st.frames.push_back(fr);
    if (call && call->op == O_CALL && call->gidx) {
        for (auto& bv : *call->gidx) {
            u32 id = st.mem.alloc((u32)bv.second, OK_STACK); st.allocas.push_back(id);
            std::string err; u64 src = args[bv.first].c;
            if (!copyMem(st, Mem::addr(id), src, (u64)bv.second, err)) { error(st, "memory", err); endPath(st, "byval"); }
            Val v; v.c = Mem::addr(id); st.regs[st.frames.back().base + bv.first] = v;
        }
    }
}
static void popFrame(State& st) {
    Frame& fr = st.frames.back();
    while (st.allocas.size() > fr.allocaBase) { st.mem.release(st.allocas.back()); st.allocas.pop_back(); }
    st.regs.resize(fr.base);
    st.frames.pop_back();
}
inline void Engine::takeEdge(State& st, Frame& fr, const Edge& e) {
    if (e.ncp == 1) { const Copy& c = e.cp[0]; st.regs[fr.base + c.dst] = c.src.reg >= 0 ? st.regs[fr.base + c.src.reg] : c.src.k; }
    else if (e.ncp) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp;
        if (e.ncp > 64) { big.resize(e.ncp); t = big.data(); }
        for (u32 i = 0; i < e.ncp; i++) t[i] = e.cp[i].src.reg >= 0 ? st.regs[fr.base + e.cp[i].src.reg] : e.cp[i].src.k;
        for (u32 i = 0; i < e.ncp; i++) st.regs[fr.base + e.cp[i].dst] = t[i];
    }
    fr.pc = e.pc;
}
void Engine::doRet(State& st, const Inst& I) {
    Frame& fr = st.frames.back();
    Val rv[16]; u32 n = I.nops; std::vector<Val> big; Val* r = rv;
    if (n > 16) { big.resize(n); r = big.data(); }
    for (u32 i = 0; i < n; i++) r[i] = I.ops[i].reg >= 0 ? st.regs[fr.base + I.ops[i].reg] : I.ops[i].k;
    const Inst* call = fr.call;
    popFrame(st);
    if (st.frames.empty()) return;
    Frame& c = st.frames.back();
    if (!call) return; // return into a driver frame
    for (u32 i = 0; i < n && i < call->nret; i++) st.regs[c.base + call->dst + i] = r[i];
    if (call->invoke) takeEdge(st, c, call->e0); else c.pc++;
}
// read a pointer-sized concrete value (rtti)
static u64 rd64(Engine& e, State& st, u64 a) { Val v; std::string err; if (!e.loadMem(st, a, 8, v, err)) return 0; return v.s ? 0 : v.c; }

bool Engine::tiBases(State& st, u64 ti, std::vector<std::pair<u64, i64>>& out) {
    // walks all public base classes of ti (including itself)
    std::function<void(u64, i64, int)> rec = [&](u64 t, i64 off, int d) {
        out.push_back({t, off}); if (d > 20) return;
        u64 vt = rd64(*this, st, t);
        auto it = globalNameByAddr.find(vt & ~OFFMASK);
        if (it == globalNameByAddr.end()) return;
        if (it->second.find("__si_class_type_info") != std::string::npos) rec(rd64(*this, st, t + 16), off, d + 1);
        else if (it->second.find("__vmi_class_type_info") != std::string::npos) {
            u64 w = rd64(*this, st, t + 16); u32 n = (u32)(w >> 32);
            for (u32 i = 0; i < n; i++) { u64 b = rd64(*this, st, t + 24 + 16 * i); i64 of = (i64)rd64(*this, st, t + 32 + 16 * i);
                if (of & 1) { continue; } rec(b, off + (of >> 8), d + 1); }
        }
    };
    rec(ti, 0, 0);
    return true;
}
bool Engine::tiMatches(State& st, u64 thrown, u64 want) {
    if (want == 0) return true;
    std::vector<std::pair<u64, i64>> b; tiBases(st, thrown, b);
    auto nm = [&](u64 a) { auto it = globalNameByAddr.find(a); return it == globalNameByAddr.end() ? std::string("?") : it->second; };
    for (auto& p : b) if (p.first == want || (nm(p.first) != "?" && nm(p.first) == nm(want))) return true;
    return false;
}
bool Engine::unwind(State& st, bool popFirst) {
    u64 obj = st.pendingExc; u64 ti = st.excTI[obj];
    // is there any handler at all?
    while (!st.frames.empty()) {
        if (popFirst) popFrame(st);
        popFirst = true;
        if (st.frames.empty()) break;
        Frame& fr = st.frames.back();
        // the frame below is stopped at its call instruction
        const Inst& ci = fr.f->code[fr.pc];
        if (ci.op != O_CALL || !ci.invoke) continue;
        // find landing pad instruction at unwind destination (first instruction)
        const Inst& lp = fr.f->code[ci.e1.pc];
        if (lp.op != O_LANDINGPAD) continue;
        u64 sel = 0; bool enter = lp.cleanup;
        for (auto& c : *lp.clauses) {
            if (c.isCatch) { if (tiMatches(st, ti, c.ti)) { sel = c.ti ? typeId(c.ti) : typeId(0); enter = true; break; } }
            else { bool any = false; for (u64 t : c.filter) if (tiMatches(st, ti, t)) any = true; if (!any) { sel = (u64)(u32)-1; enter = true; break; } }
        }
        if (!enter) continue;
        st.pendingSel = sel;
        takeEdge(st, fr, ci.e1);
        return true;
    }
    return false;
}
u64 Engine::typeId(u64 ti) {
    auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second;
    u64 n = typeIds.size() + 1; typeIds[ti] = n; return n;
}
void Engine::throwExc(State& st) {
    u64 obj = st.pendingExc;
    std::string tn = "?"; { auto it = globalNameByAddr.find(st.excTI[obj]); if (it != globalNameByAddr.end()) tn = demangle(it->second); }
    auto stk = stackOf(st);
    // save frames? unwinding pops them; record message first
    State* dummy = nullptr; (void)dummy;
    // Two-phase search: look for a handler without unwinding
    bool found = false;
    u64 ti = st.excTI[obj];
    for (size_t i = st.frames.size(); i-- > 0 && !found;) {
        Frame& fr = st.frames[i]; const Inst& ci = fr.f->code[fr.pc];
        if (ci.op != O_CALL || !ci.invoke) continue;
        const Inst& lp = fr.f->code[ci.e1.pc]; if (lp.op != O_LANDINGPAD) continue;
        for (auto& c : *lp.clauses) { if (c.isCatch) { if (tiMatches(st, ti, c.ti)) { found = true; break; } }
            else { bool any = false; for (u64 t : c.filter) if (tiMatches(st, ti, t)) any = true; if (!any) { found = true; break; } } }
    }
    if (!found) {
        std::string what;
        error(st, "uncaught", "uncaught exception: " + tn + what);
        endPath(st, "uncaught");
    }
    if (!unwind(st, false)) { error(st, "uncaught", "uncaught exception: " + tn); endPath(st, "uncaught"); }
}

void Engine::doCall(State& st, const Inst& I, FuncInfo* callee, std::vector<Val>& args) {
    if (callee->native) {
        callee->calls++;
        Val ret[8];
        nativeJumped = false;
        callee->native(*this, st, I, args, ret);
        if (nativeJumped) return; // control transferred (exception thrown / function pushed)
        Frame& fr = st.frames.back();
        for (u32 i = 0; i < I.nret && i < 8; i++) st.regs[fr.base + I.dst + i] = ret[i];
        if (I.invoke) takeEdge(st, fr, I.e0); else fr.pc++;
        return;
    }
    pushCall(st, callee, &I, args);
}

// ------------------------------------------------------------------ main interpreter loop
static inline i64 sext64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= (u64)maskw(w); return (i64)((v ^ m) - m); }

// debugging aid: SX_TRACE=file SX_PIN="name=value,..." logs operand values under the pinned input for the path that input takes
static const bool traceOn = getenv("SX_TRACE") != nullptr;
static void traceStep(State& st, Frame& fr, const Inst& I) {
    static FILE* f = fopen(getenv("SX_TRACE"), "w"); static std::map<std::string, u64> pin; static bool init = false; static Model m; static size_t known = (size_t)-1; static u64 n = 0;
    if (!init) { init = true; std::string p = getenv("SX_PIN") ? getenv("SX_PIN") : ""; size_t i = 0; while (i < p.size()) { size_t j = p.find(',', i); if (j == std::string::npos) j = p.size(); size_t q = p.find('=', i); pin[p.substr(i, q - i)] = std::stoull(p.substr(q + 1, j - q - 1)); i = j + 1; } }
    if (X.vars.size() != known) { known = X.vars.size(); m.v.assign(known, 0); for (size_t i = 0; i < known; i++) { auto it = pin.find(X.vars[i].name); if (it != pin.end()) m.v[i] = it->second - (u64)X.vars[i].lo; } m.stamp = ++X.stampCounter; }
    for (E c : st.pc) if (!X.eval(c, m)) return;
    fprintf(f, "%llu %s %u op%d", (unsigned long long)n++, fr.f->name.c_str(), fr.pc, I.op);
    for (u32 i = 0; i < I.nops; i++) { const Val& v = I.ops[i].reg >= 0 ? st.regs[fr.base + I.ops[i].reg] : I.ops[i].k; fprintf(f, " %llx", (unsigned long long)(v.s ? (u64)X.eval(v.s, m) : v.c)); }
    static u64 from = getenv("SX_TRACE_FROM") ? std::stoull(getenv("SX_TRACE_FROM")) : ~0ull, to = getenv("SX_TRACE_TO") ? std::stoull(getenv("SX_TRACE_TO")) : 0;
    if (n > from && n <= to) for (u32 i = 0; i < I.nops; i++) { const Val& v = I.ops[i].reg >= 0 ? st.regs[fr.base + I.ops[i].reg] : I.ops[i].k; if (v.s) fprintf(f, "\n    %u: ctree=%d %s", i, (int)v.s->ctree, X.str(v.s, 6).c_str()); }
    fprintf(f, "\n"); fflush(f);
}
#define OPV(i) (I.ops[i].reg >= 0 ? R[I.ops[i].reg] : I.ops[i].k)

void Engine::run(State* stp) {
    State& st = *stp;
    size_t forkMark = created.size();
    try {
        for (;;) {
            Frame* fr = &st.frames.back();
            const Inst& I = fr->f->code[fr->pc];
            Val* R = st.regs.data() + fr->base;
            st.steps++; fr->f->icount++;
            if ((++totalSteps & 0xFFFF) == 0) {
                if (elapsed() > timeLimit) { incomplete["time-limit"]++; fastAbort = true; }
                if (fastAbort) throw PathEnd{};
            }
            if (st.steps > maxSteps) { error(st, "hang", "step limit exceeded (possible non-termination)"); throw PathEnd{}; }
            if (inFrontier && created.size() != forkMark) { frontierQ.push_back(stp); return; }
            if (traceOn) traceStep(st, *fr, I);
            switch (I.op) {
            case O_NOP: fr->pc++; break;
            case O_BIN: {
                unsigned w = I.width, n = I.nret;
                for (unsigned i = 0; i < n; i++) {
                    Val a = OPV(i), b = OPV(n + i), r;
                    if (!a.s && !b.s && w <= 64) {
                        u64 x = a.c, y = b.c, m = w == 64 ? ~0ull : ((1ull << w) - 1);
                        switch (I.sub) {
                        case E_ADD: r.c = (x + y) & m; break; case E_SUB: r.c = (x - y) & m; break; case E_MUL: r.c = (x * y) & m; break;
                        case E_AND: r.c = x & y; break; case E_OR: r.c = x | y; break; case E_XOR: r.c = x ^ y; break;
                        case E_SHL: r.c = y >= w ? 0 : (x << y) & m; break; case E_LSHR: r.c = y >= w ? 0 : x >> y; break;
                        case E_ASHR: r.c = (u64)(sext64(x, w) >> (y >= w ? w - 1 : y)) & m; break;
                        case E_UDIV: case E_UREM: if (!y) { error(st, "crash", "division by zero"); throw PathEnd{}; } r.c = I.sub == E_UDIV ? x / y : x % y; break;
                        case E_SDIV: case E_SREM: if (!y) { error(st, "crash", "division by zero"); throw PathEnd{}; }
                            r.c = (u64)X.foldBin((EOp)I.sub, w, x, y); break;
                        }
                    } else {
                        if (a.s && a.s->op == E_FX) conc(st, a, 64, "double bits");
                        if (b.s && b.s->op == E_FX) conc(st, b, 64, "double bits");
                        if (I.sub == E_UDIV || I.sub == E_UREM || I.sub == E_SDIV || I.sub == E_SREM) {
                            E z = X.bin(E_EQ, toE(b, w), X.cst(0, w));
                            if (z->op == E_CONST ? (bool)z->imm : branch(st, z)) { error(st, "crash", "division by zero"); throw PathEnd{}; }
                        }
                        E ea = toE(a, w), eb = toE(b, w);
                        r = fromE(X.bin((EOp)I.sub, ea, eb));
                    }
                    R = st.regs.data() + st.frames.back().base;
                    R[I.dst + i] = r;
                }
                fr->pc++; break; }
            case O_ICMP: {
                unsigned n = I.nret, w = I.width;
                for (unsigned i = 0; i < n; i++) {
                    Val a = OPV(i), b = OPV(n + i), r;
                    if (!a.s && !b.s) {
                        u64 x = a.c, y = b.c;
                        switch (I.sub) {
                        case CmpInst::ICMP_EQ: r.c = x == y; break; case CmpInst::ICMP_NE: r.c = x != y; break;
                        case CmpInst::ICMP_ULT: r.c = x < y; break; case CmpInst::ICMP_ULE: r.c = x <= y; break;
                        case CmpInst::ICMP_UGT: r.c = x > y; break; case CmpInst::ICMP_UGE: r.c = x >= y; break;
                        case CmpInst::ICMP_SLT: r.c = sext64(x, w) < sext64(y, w); break; case CmpInst::ICMP_SLE: r.c = sext64(x, w) <= sext64(y, w); break;
                        case CmpInst::ICMP_SGT: r.c = sext64(x, w) > sext64(y, w); break; case CmpInst::ICMP_SGE: r.c = sext64(x, w) >= sext64(y, w); break;
                        }
                    } else {
                        if (a.s && a.s->op == E_FX) conc(st, a, 64, "double bits");
                        if (b.s && b.s->op == E_FX) conc(st, b, 64, "double bits");
                        E x = toE(a, w), y = toE(b, w), e = nullptr;
                        switch (I.sub) {
                        case CmpInst::ICMP_EQ: e = X.bin(E_EQ, x, y); break; case CmpInst::ICMP_NE: e = X.bnot(X.bin(E_EQ, x, y)); break;
                        case CmpInst::ICMP_ULT: e = X.bin(E_ULT, x, y); break; case CmpInst::ICMP_ULE: e = X.bin(E_ULE, x, y); break;
                        case CmpInst::ICMP_UGT: e = X.bin(E_ULT, y, x); break; case CmpInst::ICMP_UGE: e = X.bin(E_ULE, y, x); break;
                        case CmpInst::ICMP_SLT: e = X.bin(E_SLT, x, y); break; case CmpInst::ICMP_SLE: e = X.bin(E_SLE, x, y); break;
                        case CmpInst::ICMP_SGT: e = X.bin(E_SLT, y, x); break; case CmpInst::ICMP_SGE: e = X.bin(E_SLE, y, x); break;
                        }
                        r = fromE(e);
                    }
                    R[I.dst + i] = r;
                }
                fr->pc++; break; }
            case O_SELECT: {
                unsigned n = I.nret; unsigned nc = I.sub ? n : 1;
                for (unsigned i = 0; i < n; i++) {
                    Val c = OPV(I.sub ? i : 0), a = OPV(nc + i), b = OPV(nc + n + i), r;
                    if (!c.s) r = (c.c & 1) ? a : b;
                    else { int kb = knownBool(st, c.s); if (kb >= 0) r = kb ? a : b;
                        else { bool ok; r = selectVal(c.s, a, b, (*I.gw)[i], ok); if (!ok) { r = branch(st, c.s) ? a : b; } } }
                    R[I.dst + i] = r;
                }
                fr->pc++; break; }
            case O_ZEXT: case O_SEXT: case O_TRUNC:
                for (unsigned i = 0; i < I.nret; i++) {
                    Val a = OPV(i), r;
                    if (a.s && a.s->op == E_FX) conc(st, a, 64, "double bits");
                    if (!a.s && I.width <= 64 && I.width2 <= 64) {
                        if (I.op == O_ZEXT) r.c = a.c; else if (I.op == O_SEXT) r.c = (u64)sext64(a.c, I.width) & (u64)maskw(I.width2); else r.c = a.c & (u64)maskw(I.width2);
                    } else {
                        E e = toE(a, I.width);
                        r = fromE(I.op == O_ZEXT ? X.zext(e, I.width2) : I.op == O_SEXT ? X.sext(e, I.width2) : X.extract(e, 0, I.width2));
                    }
                    R[I.dst + i] = r;
                }
                fr->pc++; break;
            case O_MOV:
                if (I.nret == 1) R[I.dst] = OPV(0);
                else { Val t[64]; std::vector<Val> big; Val* p = t; if (I.nret > 64) { big.resize(I.nret); p = big.data(); }
                    for (unsigned i = 0; i < I.nret; i++) p[i] = OPV(i);
                    for (unsigned i = 0; i < I.nret; i++) R[I.dst + i] = p[i]; }
                fr->pc++; break;
            case O_FBIN:
                for (unsigned i = 0; i < I.nret; i++) {
                    Val a = OPV(i), b = OPV(I.nret + i), r;
                    if ((a.s || b.s) && !(I.isDouble && fbin(st, I, a, b, r))) { conc(st, a, 64, "fp arithmetic"); conc(st, b, 64, "fp arithmetic"); }
                    if (!a.s && !b.s) {
                        if (I.isFloat32) { float x = asF(a.c), y = asF(b.c), z = 0;
                            switch (I.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodf(x, y); }
                            r.c = fromF(z);
                        } else { double x = asD(a.c), y = asD(b.c), z = 0;
                            switch (I.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); }
                            r.c = fromD(z); }
                    }
                    R[I.dst + i] = r;
                }
                fr->pc++; break;
            case O_FNEG:
                for (unsigned i = 0; i < I.nret; i++) {
                    Val a = OPV(i), r; E n; int k;
                    if (a.s) { if (!I.isFloat32 && toFX(a, n, k)) r = mkFX(X.bin(E_SUB, X.cst(0, 64), n), k); else { conc(st, a, 64, "fneg"); r.c = I.isFloat32 ? fromF(-asF(a.c)) : fromD(-asD(a.c)); } }
                    else r.c = I.isFloat32 ? fromF(-asF(a.c)) : fromD(-asD(a.c));
                    R[I.dst + i] = r;
                }
                fr->pc++; break;
            case O_FCMP:
                for (unsigned i = 0; i < I.nret; i++) {
                    Val a = OPV(i), b = OPV(I.nret + i), r; E e;
                    if (a.s || b.s) {
                        if (!I.isFloat32 && fcmpSym(I.sub, a, b, e)) { R[I.dst + i] = fromE(e); continue; }
                        conc(st, a, 64, "fcmp"); conc(st, b, 64, "fcmp");
                    }
                    double x = I.isFloat32 ? asF(a.c) : asD(a.c), y = I.isFloat32 ? asF(b.c) : asD(b.c);
                    bool un = std::isnan(x) || std::isnan(y), v = false;
                    switch (I.sub & 7) { case 0: v = false; break; case 1: v = x == y; break; case 2: v = x > y; break; case 3: v = x >= y; break; case 4: v = x < y; break; case 5: v = x <= y; break; case 6: v = x != y; break; case 7: v = true; break; }
                    if (un) v = I.sub >= 8; else if (I.sub == CmpInst::FCMP_UNO) v = false;
                    r.c = v; R[I.dst + i] = r;
                }
                fr->pc++; break;
            case O_SITOFP: case O_UITOFP:
                for (unsigned i = 0; i < I.nret; i++) {
                    Val a = OPV(i), r;
                    if (a.s && I.width <= 64 && !I.isFloat32) {
                        E n = I.op == O_SITOFP ? X.sext(a.s, 64) : (I.width < 64 ? X.zext(a.s, 64) : a.s);
                        bool ok = fxOK(n) && (I.op == O_SITOFP || I.width < 64 || n->uhi <= (u128)FXLIM);
                        if (ok) { R[I.dst + i] = mkFX(n, 0); continue; }
                    }
                    conc(st, a, I.width, "int to fp");
                    if (I.isFloat32) r.c = I.op == O_SITOFP ? fromF((float)sext64(a.c, I.width)) : fromF((float)a.c);
                    else r.c = I.op == O_SITOFP ? fromD((double)sext64(a.c, I.width)) : fromD((double)a.c);
                    R[I.dst + i] = r;
                }
                fr->pc++; break;
            case O_FPTOSI: case O_FPTOUI:
                for (unsigned i = 0; i < I.nret; i++) {
                    Val a = OPV(i), r;
                    if (a.s && !I.isFloat32 && a.s->op == E_FX && ExprCtx::fxScale(a.s) < 62) {
                        E n = a.s->a; int k = ExprCtx::fxScale(a.s);
                        E q = k == 0 ? n : X.bin(E_SDIV, n, X.cst((u64)1 << k, 64));
                        R[I.dst + i] = fromE(X.extract(q, 0, I.width)); continue;
                    }
                    conc(st, a, 64, "fp to int");
                    double d = I.isFloat32 ? asF(a.c) : asD(a.c);
                    r.c = I.op == O_FPTOSI ? (u64)(i64)d : (d < 0 ? (u64)(i64)d : (u64)d); r.c &= (u64)maskw(I.width);
                    R[I.dst + i] = r;
                }
                fr->pc++; break;
            case O_FPEXT: for (unsigned i = 0; i < I.nret; i++) { Val a = OPV(i), r; conc(st, a, 32, "fpext"); r.c = fromD(asF(a.c)); R[I.dst + i] = r; } fr->pc++; break;
            case O_FPTRUNC: for (unsigned i = 0; i < I.nret; i++) { Val a = OPV(i), r; conc(st, a, 64, "fptrunc"); r.c = fromF((float)asD(a.c)); R[I.dst + i] = r; } fr->pc++; break;
            case O_LOAD: {
                Val p = OPV(0); std::string err;
                unsigned n = (unsigned)I.gidx->size();
                Val tmp[32]; std::vector<Val> big; Val* t = tmp; if (n > 32) { big.resize(n); t = big.data(); }
                for (unsigned i = 0; i < n; i++) {
                    unsigned b = (*I.gidx)[i].first; i64 off = (*I.gidx)[i].second; unsigned w = (*I.gw)[i];
                    Val v;
                    if (!p.s) { if (!loadMem(st, p.c + off, b, v, err)) { error(st, "memory", err); throw PathEnd{}; } }
                    else symLoad(st, off ? X.bin(E_ADD, p.s, X.cst((u64)off, 64)) : p.s, b, false, v);
                    if (w < b * 8) { if (v.s) { if (v.s->op == E_FX) conc(st, v, 64, "narrow"); else v = fromE(X.extract(v.s, 0, w)); } if (!v.s) v.c &= (u64)maskw(w); }
                    t[i] = v;
                }
                R = st.regs.data() + st.frames.back().base;
                for (unsigned i = 0; i < n; i++) R[I.dst + i] = t[i];
                fr->pc++; break; }
            case O_STORE: {
                Val p = OPV(0); std::string err; unsigned n = (unsigned)I.gidx->size();
                for (unsigned i = 0; i < n; i++) {
                    unsigned b = (*I.gidx)[i].first; i64 off = (*I.gidx)[i].second;
                    Val v = OPV(1 + i);
                    if (v.s && v.s->width < b * 8 && v.s->op != E_FX) v = fromE(X.zext(v.s, b * 8));
                    if (!p.s) { if (!storeMem(st, p.c + off, b, v, err)) { error(st, "memory", err); throw PathEnd{}; } }
                    else { symStore(st, off ? X.bin(E_ADD, p.s, X.cst((u64)off, 64)) : p.s, b, v); R = st.regs.data() + fr->base; }
                }
                fr->pc++; break; }
            case O_ALLOCA: {
                Val n = OPV(0); u64 k = conc(st, n, 64, "alloca");
                u64 sz = I.size * k; if (sz > OFFMASK) { incomplete["huge alloca"]++; throw PathEnd{}; }
                u32 id = st.mem.alloc((u32)sz, OK_STACK); st.allocas.push_back(id);
                Val r; r.c = Mem::addr(id); st.regs[st.frames.back().base + I.dst] = r; fr->pc++; break; }
            case O_GEP: {
                Val p = OPV(0);
                u64 c = p.s ? 0 : p.c; c += (u64)I.goff; E s = p.s;
                if (I.gidx) for (size_t k = 0; k < I.gidx->size(); k++) {
                    Val ix = OPV((*I.gidx)[k].first); i64 sc = (*I.gidx)[k].second;
                    if (!ix.s) c += (u64)(sext64(ix.c, (*I.gw)[k]) * sc);
                    else { E e = (*I.gw)[k] < 64 ? X.sext(ix.s, 64) : ix.s; if (sc != 1) e = X.bin(E_MUL, e, X.cst((u64)sc, 64)); s = s ? X.bin(E_ADD, s, e) : e; }
                }
                Val r; if (s) r = fromE(c ? X.bin(E_ADD, s, X.cst(c, 64)) : s); else r.c = c;
                R[I.dst] = r; fr->pc++; break; }
            case O_BR: takeEdge(st, *fr, I.e0); break;
            case O_CONDBR: {
                Val c = OPV(0); bool t;
                if (!c.s) t = c.c & 1; else t = branch(st, c.s);
                takeEdge(st, *fr, t ? I.e0 : I.e1); break; }
            case O_SWITCH: {
                Val c = OPV(0);
                if (!c.s) { const Edge* e = &I.e0; for (auto& k : *I.cases) if (k.first == c.c) { e = &k.second; break; } takeEdge(st, *fr, *e); break; }
                const Edge* e = &I.e0;
                // group cases by destination edge identity is unnecessary: decide one by one
                for (auto& k : *I.cases) { E q = X.bin(E_EQ, c.s, X.cst(k.first, I.width)); if (q->op == E_CONST ? (bool)q->imm : branch(st, q)) { e = &k.second; break; } }
                takeEdge(st, *fr, *e); break; }
            case O_CALL: {
                std::vector<Val>& args = argBuf; args.clear();
                FuncInfo* callee = I.callee; unsigned s0 = 0;
                if (!callee) {
                    s0 = 1; Val fp = OPV(0); u64 a = conc(st, fp, 64, "function pointer");
                    auto it = funcByAddr.find(a);
                    if (it == funcByAddr.end()) { error(st, "memory", "call through invalid function pointer"); throw PathEnd{}; }
                    callee = it->second;
                }
                for (unsigned i = s0; i < I.nops; i++) args.push_back(OPV(i));
                doCall(st, I, callee, args);
                break; }
            case O_RET:
                doRet(st, I);
                if (st.frames.empty()) { pathDone(st); throw PathEnd{}; }
                break;
            case O_UNREACHABLE: error(st, "crash", "unreachable code reached"); throw PathEnd{};
            case O_RESUME: { Val o = OPV(0); st.pendingExc = o.c; if (!unwind(st, true)) { error(st, "uncaught", "exception escaped"); throw PathEnd{}; } break; }
            case O_LANDINGPAD: {
                Val a, b; a.c = st.pendingExc; b.c = st.pendingSel;
                R[I.dst] = a; if (I.nret > 1) R[I.dst + 1] = b; fr->pc++; break; }
            case O_RMW: {
                Val p = OPV(0), v = OPV(1), old; std::string err; u64 a = conc(st, p, 64, "atomic"); unsigned w = I.width;
                if (!loadMem(st, a, w / 8, old, err)) { error(st, "memory", err); throw PathEnd{}; }
                E x = toE(old, w), y = toE(v, w), r = nullptr;
                switch (I.sub) {
                case AtomicRMWInst::Add: r = X.bin(E_ADD, x, y); break; case AtomicRMWInst::Sub: r = X.bin(E_SUB, x, y); break;
                case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Or: r = X.bin(E_OR, x, y); break; case AtomicRMWInst::And: r = X.bin(E_AND, x, y); break;
                case AtomicRMWInst::Xor: r = X.bin(E_XOR, x, y); break;
                default: incomplete["atomic op"]++; throw PathEnd{};
                }
                storeMem(st, a, w / 8, fromE(r), err); st.regs[fr->base + I.dst] = old; fr->pc++; break; }
            case O_CMPXCHG: {
                Val p = OPV(0), c = OPV(1), n = OPV(2), old; std::string err; u64 a = conc(st, p, 64, "atomic"); unsigned w = I.width;
                if (!loadMem(st, a, w / 8, old, err)) { error(st, "memory", err); throw PathEnd{}; }
                E eq = X.bin(E_EQ, toE(old, w), toE(c, w));
                bool t = eq->op == E_CONST ? (bool)eq->imm : branch(st, eq);
                if (t) storeMem(st, a, w / 8, n, err);
                Val f; f.c = t; st.regs[fr->base + I.dst] = old; st.regs[fr->base + I.dst + 1] = f; fr->pc++; break; }
            case O_INTR: intrinsic(st, I); break;
            case O_UNSUP: incomplete["unsupported instruction: " + *I.text + " in " + demangle(fr->f->name).substr(0, 120)]++; throw PathEnd{};
            default: abort();
            }
        }
    } catch (PathEnd&) {
    } catch (Unsup& u) { incomplete[u.why + " in " + demangle(st.frames.back().f->name).substr(0, 120)]++; }
    paths++;
    delete stp;
}

void Engine::pathDone(State& st) {
    completed++;
    for (auto* r : st.reached) reached[*r]++;
    witnessSeen++;
    auto add = [&](size_t slot) {
        Witness w; fillInputs(st, *st.model, w.inputs); fillTrace(st, *st.model, w.trace); w.end = "ok";
        if (slot < witnesses.size()) witnesses[slot] = w; else witnesses.push_back(w); };
    if (witnesses.size() < maxWitness) add(witnesses.size());
    else { rng = rng * 6364136223846793005ull + 1442695040888963407ull; u64 k = (rng >> 33) % witnessSeen; if (k < maxWitness) add((size_t)k); }
}

void Engine::intrinsic(State& st, const Inst& I) {
    Frame* fr = &st.frames.back(); Val* R = st.regs.data() + fr->base;
    std::string err;
    auto done1 = [&](Val v) { st.regs[st.frames.back().base + I.dst] = v; st.frames.back().pc++; };
    if (I.sub == 0xFFFF) { // vector reshape bitcast
        E e = nullptr;
        for (unsigned i = 0; i < I.nops; i++) { Val v = OPV(i); if (v.s && v.s->op == E_FX) { conc(st, v, 64, "bitcast"); } E x = toE(v, I.width); e = e ? X.concat(x, e) : x; }
        for (unsigned i = 0; i < I.nret; i++) R[I.dst + i] = fromE(X.extract(e, i * I.width2, I.width2));
        fr->pc++; return;
    }
    unsigned w = I.width;
    switch (I.sub) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        Val d = OPV(0), s = OPV(1), n = OPV(2); u64 nn = conc(st, n, 64, "memcpy size");
        if (nn == 0) { fr->pc++; return; }
        u64 da = conc(st, d, 64, "memcpy dst"), sa = conc(st, s, 64, "memcpy src");
        if (!copyMem(st, da, sa, nn, err)) { error(st, "memory", err); throw PathEnd{}; }
        fr->pc++; return; }
    case Intrinsic::memset: {
        Val d = OPV(0), v = OPV(1), n = OPV(2); u64 nn = conc(st, n, 64, "memset size"); if (nn == 0) { fr->pc++; return; }
        u64 da = conc(st, d, 64, "memset dst");
        if (!checkRange(st, da, nn, true, err)) { error(st, "memory", err); throw PathEnd{}; }
        if (v.s) { for (u64 i = 0; i < nn; i++) storeMem(st, da + i, 1, v, err); }
        else { Obj* o = st.mem.getW(da >> OFFBITS); clearCells(o, (u32)(da & OFFMASK), (u32)nn); memset(o->bytes + (da & OFFMASK), (int)v.c, nn); }
        fr->pc++; return; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        for (unsigned i = 0; i < I.nret; i++) {
            Val a = OPV(i), b = OPV(I.nret + i); E x = toE(a, w), y = toE(b, w); E c;
            switch (I.sub) { case Intrinsic::umax: c = X.bin(E_ULT, x, y); break; case Intrinsic::umin: c = X.bin(E_ULT, y, x); break;
                case Intrinsic::smax: c = X.bin(E_SLT, x, y); break; default: c = X.bin(E_SLT, y, x); }
            R[I.dst + i] = fromE(X.ite(c, y, x));
        }
        fr->pc++; return;
    case Intrinsic::abs: for (unsigned i = 0; i < I.nret; i++) { E x = toE(OPV(i), w); R[I.dst + i] = fromE(X.ite(X.bin(E_SLT, x, X.cst(0, w)), X.bin(E_SUB, X.cst(0, w), x), x)); } fr->pc++; return;
    case Intrinsic::ctpop: for (unsigned i = 0; i < I.nret; i++) { E x = toE(OPV(i), w); E s = X.cst(0, w); for (unsigned k = 0; k < w; k++) s = X.bin(E_ADD, s, X.zext(X.extract(x, k, 1), w)); R[I.dst + i] = fromE(s); } fr->pc++; return;
    case Intrinsic::ctlz: case Intrinsic::cttz: for (unsigned i = 0; i < I.nret; i++) {
            E x = toE(OPV(i), w); E r = X.cst(w, w);
            for (unsigned k = 0; k < w; k++) { unsigned bit = I.sub == Intrinsic::ctlz ? k : w - 1 - k; unsigned val = I.sub == Intrinsic::ctlz ? w - 1 - k : w - 1 - k;
                r = X.ite(X.extract(x, bit, 1), X.cst(I.sub == Intrinsic::ctlz ? val : bit, w), r); }
            R[I.dst + i] = fromE(r); } fr->pc++; return;
    case Intrinsic::bswap: { E x = toE(OPV(0), w); E r = nullptr; for (unsigned k = 0; k < w; k += 8) { E b = X.extract(x, k, 8); r = r ? X.concat(r, b) : b; } done1(fromE(r)); return; }
    case Intrinsic::bitreverse: { E x = toE(OPV(0), w); E r = nullptr; for (unsigned k = 0; k < w; k++) { E b = X.extract(x, k, 1); r = r ? X.concat(r, b) : b; } done1(fromE(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: for (unsigned i = 0; i < I.nret; i++) {
            E a = toE(OPV(i), w), b = toE(OPV(I.nret + i), w); E s = X.bin(E_UREM, toE(OPV(2 * I.nret + i), w), X.cst(w, w));
            E r; E inv = X.bin(E_SUB, X.cst(w, w), s); E z = X.bin(E_EQ, s, X.cst(0, w));
            if (I.sub == Intrinsic::fshl) r = X.ite(z, a, X.bin(E_OR, X.bin(E_SHL, a, s), X.bin(E_LSHR, b, inv)));
            else r = X.ite(z, b, X.bin(E_OR, X.bin(E_LSHR, b, s), X.bin(E_SHL, a, inv)));
            R[I.dst + i] = fromE(r); } fr->pc++; return;
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat: { E a = toE(OPV(0), w), b = toE(OPV(1), w);
        if (I.sub == Intrinsic::usub_sat) done1(fromE(X.ite(X.bin(E_ULT, a, b), X.cst(0, w), X.bin(E_SUB, a, b))));
        else { E s = X.bin(E_ADD, a, b); done1(fromE(X.ite(X.bin(E_ULT, s, a), X.cst(maskw(w), w), s))); } return; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned ww = I.width2; E a = toE(OPV(0), ww), b = toE(OPV(1), ww);
        bool sg = I.sub == Intrinsic::smul_with_overflow || I.sub == Intrinsic::sadd_with_overflow || I.sub == Intrinsic::ssub_with_overflow;
        EOp op = (I.sub == Intrinsic::umul_with_overflow || I.sub == Intrinsic::smul_with_overflow) ? E_MUL : (I.sub == Intrinsic::uadd_with_overflow || I.sub == Intrinsic::sadd_with_overflow) ? E_ADD : E_SUB;
        unsigned W2 = ww * 2 > 128 ? 128 : ww * 2;
        if (ww > 64) { incomplete["wide overflow op"]++; throw PathEnd{}; }
        E A = sg ? X.sext(a, W2) : X.zext(a, W2), B = sg ? X.sext(b, W2) : X.zext(b, W2);
        E r = X.bin(op, a, b);
        E ov;
        // interval shortcut
        bool safe = false;
        if (!sg) { if (op == E_MUL) safe = a->uhi < ((u128)1 << 63) && b->uhi < ((u128)1 << 63) && a->uhi * b->uhi <= maskw(ww); else if (op == E_ADD) safe = a->uhi + b->uhi <= maskw(ww); else safe = a->ulo >= b->uhi; }
        if (safe) ov = X.bFalse(); else if (op == E_SUB && !sg) ov = X.bin(E_ULT, a, b); else if (op == E_ADD && !sg) ov = X.bin(E_ULT, r, a);
        else { E full = X.bin(op, A, B); ov = X.bnot(X.bin(E_EQ, full, sg ? X.sext(r, W2) : X.zext(r, W2))); }
        R[I.dst] = fromE(r); R[I.dst + 1] = fromE(ov); fr->pc++; return; }
    case Intrinsic::eh_typeid_for: { Val a = OPV(0); Val r; r.c = typeId(a.c); done1(r); return; }
    case Intrinsic::threadlocal_address: done1(OPV(0)); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: done1(OPV(0)); return;
    case Intrinsic::is_constant: { Val r; r.c = 0; done1(r); return; }
    case Intrinsic::objectsize: { Val r; r.c = ~0ull; done1(r); return; }
    case Intrinsic::stacksave: { Val r; r.c = 0; done1(r); return; }
    case Intrinsic::trap: error(st, "crash", "trap"); throw PathEnd{};
    case Intrinsic::fabs: for (unsigned i = 0; i < I.nret; i++) { Val a = OPV(i), r; E n; int k;
            if (a.s && !I.isFloat32 && toFX(a, n, k)) r = mkFX(X.ite(X.bin(E_SLT, n, X.cst(0, 64)), X.bin(E_SUB, X.cst(0, 64), n), n), k);
            else { conc(st, a, 64, "fabs"); r.c = I.isFloat32 ? fromF(fabsf(asF(a.c))) : fromD(fabs(asD(a.c))); }
            st.regs[fr->base + I.dst + i] = r; } fr->pc++; return;
    case Intrinsic::fmuladd: case Intrinsic::fma: for (unsigned i = 0; i < I.nret; i++) { Val a = OPV(i), b = OPV(I.nret + i), c = OPV(2 * I.nret + i), r, t; Inst J = I; J.isDouble = true;
            if (a.s || b.s || c.s) {
                bool ok = !I.isFloat32;
                if (ok) { J.sub = Instruction::FMul; if (!a.s && !b.s) t.c = fromD(asD(a.c) * asD(b.c)); else ok = fbin(st, J, a, b, t); }
                if (ok) { J.sub = Instruction::FAdd; if (!t.s && !c.s) r.c = fromD(asD(t.c) + asD(c.c)); else ok = fbin(st, J, t, c, r); }
                if (ok) { st.regs[fr->base + I.dst + i] = r; continue; }
                conc(st, a, 64, "fma"); conc(st, b, 64, "fma"); conc(st, c, 64, "fma");
            }
            r.c = fromD(asD(a.c) * asD(b.c) + asD(c.c)); // x86-64 baseline: not fused
            st.regs[fr->base + I.dst + i] = r; } fr->pc++; return;
    case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round:
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp2: case Intrinsic::log10: {
        for (unsigned i = 0; i < I.nret; i++) { Val a = OPV(i), r; conc(st, a, 64, "fp function"); double x = I.isFloat32 ? asF(a.c) : asD(a.c), y = 0;
            switch (I.sub) { case Intrinsic::sqrt: y = sqrt(x); break; case Intrinsic::floor: y = floor(x); break; case Intrinsic::ceil: y = ceil(x); break; case Intrinsic::trunc: y = trunc(x); break;
                case Intrinsic::rint: case Intrinsic::nearbyint: y = rint(x); break; case Intrinsic::round: y = round(x); break; case Intrinsic::sin: y = sin(x); break; case Intrinsic::cos: y = cos(x); break;
                case Intrinsic::exp: y = exp(x); break; case Intrinsic::log: y = log(x); break; case Intrinsic::log2: y = log2(x); break; case Intrinsic::exp2: y = exp2(x); break; default: y = log10(x); }
            r.c = I.isFloat32 ? fromF((float)y) : fromD(y); st.regs[fr->base + I.dst + i] = r; }
        fr->pc++; return; }
    case Intrinsic::pow: case Intrinsic::copysign: case Intrinsic::maxnum: case Intrinsic::minnum: {
        Val a = OPV(0), b = OPV(1), r; conc(st, a, 64, "fp function"); conc(st, b, 64, "fp function"); double x = asD(a.c), y = asD(b.c), z;
        z = I.sub == Intrinsic::pow ? pow(x, y) : I.sub == Intrinsic::copysign ? copysign(x, y) : I.sub == Intrinsic::maxnum ? fmax(x, y) : fmin(x, y); r.c = fromD(z); done1(r); return; }
    case Intrinsic::powi: { Val a = OPV(0), b = OPV(1), r; conc(st, a, 64, "fp function"); conc(st, b, 32, "fp function"); r.c = fromD(pow(asD(a.c), (int)b.c)); done1(r); return; }
    case Intrinsic::ldexp: { Val a = OPV(0), b = OPV(1), r; conc(st, a, 64, "fp function"); conc(st, b, 32, "fp function"); r.c = fromD(ldexp(asD(a.c), (int)b.c)); done1(r); return; }
    case Intrinsic::is_fpclass: { Val a = OPV(0), m = OPV(1), r; if (a.s && a.s->op == E_FX) { // finite
            if ((m.c & ~0x207ull) == 0) { r.c = 0; done1(r); return; } }
        conc(st, a, 64, "fpclass"); double d = asD(a.c); u64 k = m.c; bool v = false;
        if (std::isnan(d)) v = k & 3; else if (std::isinf(d)) v = d < 0 ? (k & 4) : (k & 0x200); else if (d == 0) v = std::signbit(d) ? (k & 0x20) : (k & 0x40);
        else if (std::fpclassify(d) == FP_SUBNORMAL) v = d < 0 ? (k & 0x10) : (k & 0x80); else v = d < 0 ? (k & 8) : (k & 0x100);
        r.c = v; done1(r); return; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
        EOp op = I.sub == Intrinsic::vector_reduce_add ? E_ADD : I.sub == Intrinsic::vector_reduce_or ? E_OR : I.sub == Intrinsic::vector_reduce_and ? E_AND : I.sub == Intrinsic::vector_reduce_mul ? E_MUL : E_XOR;
        E e = toE(OPV(0), w); for (unsigned i = 1; i < I.nops; i++) e = X.bin(op, e, toE(OPV(i), w)); done1(fromE(e)); return; }
    default: incomplete["intrinsic " + Intrinsic::getBaseName(I.sub).str() + " in " + demangle(fr->f->name).substr(0, 100)]++; throw PathEnd{};
    }
}
