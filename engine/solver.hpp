#pragma once
#include "expr.hpp"
#include "blast.hpp"
#include <z3++.h>
#include <chrono>
#include <map>

struct SolverStats { u64 cached = 0, cross = 0, disagree = 0, queries = 0, sat = 0, unsat = 0, unknown = 0; double time = 0; double maxTime = 0; };

class Solver {
    z3::context c;
    z3::solver s;
    std::vector<E> stack;              // asserted path constraints
    std::vector<E> varRangeDone;
    size_t varsSeen = 0;
public:
    SolverStats st;
    unsigned timeoutMs = 60000, lastTimeout = 0;
    std::chrono::steady_clock::time_point deadline = std::chrono::steady_clock::now() + std::chrono::hours(1000);
    static Z3_context& activeCtx() { static Z3_context x = nullptr; return x; }
    std::string dumpDir;
    Solver() : s(c, "QF_BV") { }

    z3::expr toBool(E e) { z3::expr x = tr(e); return x; }

    z3::expr wrap(E e) { return z3::expr(c, (Z3_ast)e->z3ast); }
    z3::expr asBV(E e) { // width-1 exprs are Bool in z3
        z3::expr x = tr(e);
        if (e->width == 1) return z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1));
        return x;
    }
    z3::expr bvc(u128 v, unsigned w) {
        if (w <= 64) return c.bv_val((uint64_t)v, w);
        return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
    }
    z3::expr tr(E e) {
        if (e->z3ast) return wrap(e);
        z3::expr r(c);
        switch (e->op) {
        case E_CONST: r = e->width == 1 ? c.bool_val(e->imm != 0) : bvc(e->imm, e->width); break;
        case E_VAR: { auto& v = X.vars[(size_t)e->imm]; std::string nm = v.name + "!" + std::to_string((size_t)e->imm);
            r = e->width == 1 ? c.bool_const(nm.c_str()) : c.bv_const(nm.c_str(), e->width); break; }
        case E_ADD: r = tr(e->a) + tr(e->b); break;
        case E_SUB: r = tr(e->a) - tr(e->b); break;
        case E_MUL: r = tr(e->a) * tr(e->b); break;
        case E_UDIV: r = z3::udiv(tr(e->a), tr(e->b)); break;
        case E_SDIV: r = tr(e->a) / tr(e->b); break;
        case E_UREM: r = z3::urem(tr(e->a), tr(e->b)); break;
        case E_SREM: r = z3::srem(tr(e->a), tr(e->b)); break;
        case E_AND: r = e->width == 1 ? (tr(e->a) && tr(e->b)) : (tr(e->a) & tr(e->b)); break;
        case E_OR: r = e->width == 1 ? (tr(e->a) || tr(e->b)) : (tr(e->a) | tr(e->b)); break;
        case E_XOR: r = e->width == 1 ? (tr(e->a) != tr(e->b)) : (tr(e->a) ^ tr(e->b)); break;
        case E_SHL: r = z3::shl(tr(e->a), tr(e->b)); break;
        case E_LSHR: r = z3::lshr(tr(e->a), tr(e->b)); break;
        case E_ASHR: r = z3::ashr(tr(e->a), tr(e->b)); break;
        case E_EQ: r = tr(e->a) == tr(e->b); break;
        case E_ULT: r = e->a->width == 1 ? (!tr(e->a) && tr(e->b)) : z3::ult(tr(e->a), tr(e->b)); break;
        case E_ULE: r = e->a->width == 1 ? (!tr(e->a) || tr(e->b)) : z3::ule(tr(e->a), tr(e->b)); break;
        case E_SLT: r = e->a->width == 1 ? (tr(e->a) && !tr(e->b)) : (tr(e->a) < tr(e->b)); break;
        case E_SLE: r = e->a->width == 1 ? (tr(e->a) || !tr(e->b)) : (tr(e->a) <= tr(e->b)); break;
        case E_ITE: r = z3::ite(tr(e->a), tr(e->b), tr(e->c)); break;
        case E_ZEXT: r = e->a->width == 1 ? z3::ite(tr(e->a), bvc(1, e->width), bvc(0, e->width)) : z3::zext(tr(e->a), e->width - e->a->width); break;
        case E_SEXT: r = e->a->width == 1 ? z3::ite(tr(e->a), bvc(maskw(e->width), e->width), bvc(0, e->width)) : z3::sext(tr(e->a), e->width - e->a->width); break;
        case E_EXTRACT: { z3::expr x = asBV(e->a).extract((unsigned)e->imm + e->width - 1, (unsigned)e->imm);
            r = e->width == 1 ? (x == c.bv_val(1, 1)) : x; break; }
        case E_CONCAT: r = z3::concat(asBV(e->a), asBV(e->b)); break;
        case E_NOT: r = e->width == 1 ? !tr(e->a) : ~tr(e->a); break;
        default: fprintf(stderr, "tr op %d\n", e->op); abort();
        }
        Z3_inc_ref(c, r);
        e->z3ast = (Z3_ast)r;
        return r;
    }
    void sync(const std::vector<E>& pc) {
        size_t k = 0;
        while (k < pc.size() && k < stack.size() && pc[k] == stack[k]) k++;
        if (stack.size() > k) { s.pop((unsigned)(stack.size() - k)); stack.resize(k); }
        while (stack.size() < pc.size()) { s.push(); s.add(tr(pc[stack.size()])); stack.push_back(pc[stack.size()]); }
    }
    struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return (size_t)h; } };
    struct Cached { int res; std::vector<std::pair<u32, u128>> vals; };
    std::unordered_map<std::vector<u32>, Cached, VH> cache;
    // decides pc /\ extra, where base is a model of pc: only constraints connected to extra through shared variables matter.
    int check(const std::vector<E>& pc, E extra, ModelP* out, const ModelP& base) {
        if (!extra || !base) return check(pc, extra, out);
        std::vector<u64> S = X.sup(extra); std::vector<char> in(pc.size(), 0); bool ch = true; size_t nsel = 0;
        while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { auto& t = X.sup(pc[i]); bool hit = false; for (size_t k = 0; k < t.size() && k < S.size(); k++) if (t[k] & S[k]) { hit = true; break; }
            if (hit) { in[i] = 1; nsel++; if (t.size() > S.size()) S.resize(t.size()); for (size_t k = 0; k < t.size(); k++) if (t[k] & ~S[k]) { S[k] |= t[k]; ch = true; } } } }
        std::vector<E> slice; slice.reserve(nsel); std::vector<u32> key; key.reserve(nsel + 1);
        for (size_t i = 0; i < pc.size(); i++) if (in[i]) { slice.push_back(pc[i]); key.push_back(pc[i]->id); }
        std::sort(key.begin(), key.end()); key.push_back(extra->id);
        auto it = cache.find(key);
        if (it == cache.end()) {
            ModelP m; int r = check(slice, extra, &m); Cached cd; cd.res = r;
            if (r == 1) for (size_t k = 0; k < S.size(); k++) for (unsigned b = 0; b < 64; b++) if ((S[k] >> b) & 1) { u32 v = (u32)(k * 64 + b); cd.vals.push_back({v, v < m->v.size() ? m->v[v] : 0}); }
            if (r < 0) { if (out) *out = nullptr; return r; }
            if (cache.size() > 400000) cache.clear();
            it = cache.emplace(std::move(key), std::move(cd)).first;
        } else st.cached++;
        if (it->second.res == 1 && out) { auto mm = std::make_shared<Model>(); mm->stamp = ++X.stampCounter; mm->v = base->v; if (mm->v.size() < X.vars.size()) mm->v.resize(X.vars.size(), 0); for (auto& p : it->second.vals) mm->v[p.first] = p.second; *out = mm; }
        return it->second.res;
    }
    Blaster blaster; bool useZ3 = getenv("SX_Z3") != nullptr; u64 crossEvery = getenv("SX_CROSS") ? std::stoull(getenv("SX_CROSS")) : 997;
    // 1 sat, 0 unsat, -1 unknown: own bit-blaster; sat answers are checked by evaluation, a sample of all answers by z3
    int check(const std::vector<E>& pc, E extra, ModelP* out) {
        if (useZ3) return checkZ3(pc, extra, out);
        auto t0 = std::chrono::steady_clock::now(); auto lim = std::min(deadline, t0 + std::chrono::milliseconds(timeoutMs));
        std::vector<E> cs = pc; if (extra) cs.push_back(extra); std::vector<std::pair<u32, u128>> vals;
        int res = blaster.solve(cs, &vals, [&] { return std::chrono::steady_clock::now() > lim; });
        st.queries++; if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
        if (res == 1) { auto mm = std::make_shared<Model>(); mm->stamp = ++X.stampCounter; mm->v.resize(X.vars.size(), 0); for (auto& p : vals) mm->v[p.first] = p.second;
            for (E e : cs) if (!X.eval(e, *mm)) { fprintf(stderr, "solver model fails its own query\n"); abort(); }
            if (out) *out = mm; }
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
        if (res >= 0 && crossEvery && st.queries % crossEvery == 1 && st.cross < 60) { SolverStats keep = st; unsigned tk = timeoutMs; timeoutMs = 2000; int r2 = checkZ3(pc, extra, nullptr); timeoutMs = tk; st = keep; if (r2 >= 0) { st.cross++; if (r2 != res) { st.disagree++; fprintf(stderr, "solver disagreement %d %d\n", res, r2); } } }
        return res;
    }
    int checkZ3(const std::vector<E>& pc, E extra, ModelP* out) {
        auto t0 = std::chrono::steady_clock::now();
        sync(pc);
        s.push();
        if (extra) s.add(tr(extra));
        double left = std::chrono::duration<double>(deadline - t0).count(); unsigned tm = timeoutMs; if (left * 1000 < tm) tm = left > 0.1 ? (unsigned)(left * 1000) : 100;
        if (tm != lastTimeout) { z3::params p(c); p.set("timeout", tm); s.set(p); lastTimeout = tm; }
        activeCtx() = (Z3_context)c;
        z3::check_result r; try { r = s.check(); } catch (z3::exception&) { r = z3::unknown; }
        activeCtx() = nullptr;
        st.queries++;
        int res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
        if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
        if (res == 1 && out) {
            z3::model m = s.get_model();
            auto mm = std::make_shared<Model>();
            mm->stamp = ++X.stampCounter;
            mm->v.resize(X.vars.size(), 0);
            for (unsigned i = 0; i < m.num_consts(); i++) {
                z3::func_decl d = m.get_const_decl(i);
                std::string nm = d.name().str();
                size_t p = nm.rfind('!');
                if (p == std::string::npos) continue;
                size_t idx = std::stoul(nm.substr(p + 1));
                z3::expr v = m.get_const_interp(d);
                if (v.is_bool()) mm->v[idx] = v.is_true() ? 1 : 0;
                else { uint64_t u = 0; if (v.is_numeral_u64(u)) mm->v[idx] = u; }
            }
            *out = mm;
        }
        s.pop();
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
        return res;
    }
};
