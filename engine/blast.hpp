// Bit-blasting decision procedure for the bit-vector terms of expr.hpp on top of an incremental SAT solver.
#pragma once
#include "expr.hpp"
#include <unordered_map>
#include <algorithm>
extern "C" { void* sat_new(); void sat_del(void*); int sat_var(void*, int); void sat_clause3(void*, int, int, int); void sat_decision(void*, int, int); int sat_solve(void*, const int*, int, long); int sat_value(void*, int); }
class Blaster {
    using L = int; using BV = std::vector<L>;
    struct Node { BV bits; std::vector<int> own; u32 mark = 0; };
    void* s = nullptr; L T = 0; size_t nv = 0, ncl = 0; u32 markc = 0;
    std::unordered_map<u64, L> ands, xors; std::unordered_map<u32, Node> nodes; std::vector<int>* own = nullptr;
    struct MK { L a, b, c; bool operator==(const MK& o) const { return a == o.a && b == o.b && c == o.c; } }; struct MH { size_t operator()(const MK& k) const { u64 h = (u64)(u32)k.a * 0x9E3779B97F4A7C15ull ^ (u64)(u32)k.b * 0xff51afd7ed558ccdull ^ (u64)(u32)k.c * 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 31); } };
    std::unordered_map<MK, L, MH> muxes, majs;
    L F() const { return T ^ 1; }
    L fresh() { int v = sat_var(s, 0); nv++; if (own) own->push_back(v); return 2 * v; }
    void cl(L a, L b = -1, L c = -1) { sat_clause3(s, a, b, c); ncl++; }
    L And(L a, L b) { if (a == F() || b == F() || a == (b ^ 1)) return F(); if (a == T || a == b) return b; if (b == T) return a; if (a > b) std::swap(a, b);
        u64 k = ((u64)(u32)a << 32) | (u32)b; auto it = ands.find(k); if (it != ands.end()) return it->second; L g = fresh(); cl(g ^ 1, a); cl(g ^ 1, b); cl(g, a ^ 1, b ^ 1); return ands[k] = g; }
    L Or(L a, L b) { return And(a ^ 1, b ^ 1) ^ 1; }
    L Xor(L a, L b) { if (a == T) return b ^ 1; if (a == F()) return b; if (b == T) return a ^ 1; if (b == F()) return a; if (a == b) return F(); if (a == (b ^ 1)) return T; int n = (a & 1) ^ (b & 1); a &= ~1; b &= ~1; if (a > b) std::swap(a, b);
        u64 k = ((u64)(u32)a << 32) | (u32)b; auto it = xors.find(k); if (it != xors.end()) return it->second ^ n; L g = fresh(); cl(g ^ 1, a, b); cl(g ^ 1, a ^ 1, b ^ 1); cl(g, a ^ 1, b); cl(g, a, b ^ 1); xors[k] = g; return g ^ n; }
    L Mux(L c, L t, L f) { if (c == T) return t; if (c == F()) return f; if (t == f) return t; if (c & 1) { c ^= 1; std::swap(t, f); } if (t == T) return Or(c, f); if (t == F()) return And(c ^ 1, f); if (f == T) return Or(c ^ 1, t); if (f == F()) return And(c, t); if (t == (f ^ 1)) return Xor(c, f); if (t == c) return Or(c, f); if (f == c) return And(c, t); if (t == (c ^ 1)) return And(c ^ 1, f); if (f == (c ^ 1)) return Or(c ^ 1, t);
        int n = t & 1; t ^= n; f ^= n; MK k{c, t, f}; auto it = muxes.find(k); if (it != muxes.end()) return it->second ^ n; L g = fresh(); cl(c ^ 1, t ^ 1, g); cl(c ^ 1, t, g ^ 1); cl(c, f ^ 1, g); cl(c, f, g ^ 1); cl(t ^ 1, f ^ 1, g); cl(t, f, g ^ 1); muxes[k] = g; return g ^ n; }
    L Maj(L a, L b, L c) { L x[3] = {a, b, c}; std::sort(x, x + 3); a = x[0]; b = x[1]; c = x[2]; if (a == b) return a; if (b == c) return b; if (a == (b ^ 1)) return c; if (b == (c ^ 1)) return a; if (a == T) return Or(b, c); if (a == F()) return And(b, c); 
        MK k{a, b, c}; auto it = majs.find(k); if (it != majs.end()) return it->second; L g = fresh(); cl(a ^ 1, b ^ 1, g); cl(a ^ 1, c ^ 1, g); cl(b ^ 1, c ^ 1, g); cl(a, b, g ^ 1); cl(a, c, g ^ 1); cl(b, c, g ^ 1); return majs[k] = g; }
    BV add(const BV& a, const BV& b, L cin, L* cout = nullptr) { BV r(a.size()); L c = cin; for (size_t i = 0; i < a.size(); i++) { r[i] = Xor(Xor(a[i], b[i]), c); if (i + 1 < a.size() || cout) c = Maj(a[i], b[i], c); } if (cout) *cout = c; return r; }
    BV inv(BV a) { for (auto& x : a) x ^= 1; return a; }
    BV neg(const BV& a) { return add(inv(a), BV(a.size(), F()), T); }
    BV mux(L c, const BV& t, const BV& f) { BV r(t.size()); for (size_t i = 0; i < t.size(); i++) r[i] = Mux(c, t[i], f[i]); return r; }
    BV mul(const BV& a, const BV& b) { size_t w = a.size(); auto sc = [&](const BV& x) { size_t n = 0; for (L l : x) n += l != F() ; return n; }; const BV *p = &a, *q = &b; if (sc(a) < sc(b)) std::swap(p, q); // q sparser: rows
        bool neg1 = false; BV acc(w, F()); for (size_t i = 0; i < w; i++) { L r = (*q)[i]; if (r == F()) continue; BV row(w, F()); for (size_t j = 0; i + j < w; j++) row[i + j] = And((*p)[j], r); acc = add(acc, row, F()); } (void)neg1; return acc; }
    L ult(const BV& a, const BV& b) { L r = F(); for (size_t i = 0; i < a.size(); i++) r = Mux(Xor(a[i], b[i]), b[i], r); return r; }
    L eq(const BV& a, const BV& b) { L r = T; for (size_t i = 0; i < a.size(); i++) r = And(r, Xor(a[i], b[i]) ^ 1); return r; }
    void divrem(const BV& a, const BV& b, BV& q, BV& r) { size_t w = a.size(); r.assign(w, F()); q.assign(w, F()); for (size_t i = w; i-- > 0;) { BV t(w + 1); t[0] = a[i]; for (size_t j = 0; j < w; j++) t[j + 1] = r[j]; BV bb = b; bb.push_back(F()); L c; BV d = add(t, inv(bb), T, &c); q[i] = c; for (size_t j = 0; j < w; j++) r[j] = Mux(c, d[j], t[j]); } }
    static unsigned ubits(u128 v) { unsigned k = 0; while (v) { k++; v >>= 1; } return k; }
    static unsigned sbits(i128 lo, i128 hi) { unsigned k = 1; while (k < 127 && (lo < -((i128)1 << (k - 1)) || hi > ((i128)1 << (k - 1)) - 1)) k++; return k; }
    BV low(const BV& a, size_t k) { return BV(a.begin(), a.begin() + k); }
    BV sxt(BV a, size_t w) { L m = a.back(); a.resize(w, m); return a; }
    BV zxt(BV a, size_t w) { a.resize(w, F()); return a; }
    void reset() { if (s) sat_del(s); s = sat_new(); nv = ncl = 0; ands.clear(); xors.clear(); muxes.clear(); majs.clear(); nodes.clear(); own = nullptr; T = 2 * sat_var(s, 1); cl(T); nv = 1; }
    const BV& bits(E e) {
        auto it = nodes.find(e->id); if (it != nodes.end()) return it->second.bits;
        if (e->a) bits(e->a); if (e->b) bits(e->b); if (e->c) bits(e->c);
        std::vector<int> mine; auto* sv = own; own = &mine; unsigned w = e->width; BV r; static const BV none; const BV &A = e->a ? nodes[e->a->id].bits : none, &Bb = e->b ? nodes[e->b->id].bits : none, &C = e->c ? nodes[e->c->id].bits : none;
        auto narrow = [&]() -> unsigned { unsigned k = std::min(sbits(e->slo, e->shi), ubits(e->uhi) + 1); return std::max(1u, std::min(k, w)); };
        auto fin = [&](BV x) { bool isS = sbits(e->slo, e->shi) <= x.size(); return x.size() == w ? x : isS ? sxt(x, w) : zxt(x, w); };
        switch (e->op) {
        case E_CONST: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = ((e->imm >> i) & 1) ? T : F(); break;
        case E_VAR: { u128 hi = X.vars[(size_t)e->imm].hi; unsigned k = std::min(w, ubits(hi)); r.assign(w, F()); for (unsigned i = 0; i < k; i++) r[i] = fresh(); if (k < 128 && hi != maskw(k)) { BV h(k); for (unsigned i = 0; i < k; i++) h[i] = ((hi >> i) & 1) ? T : F(); L g = ult(h, low(r, k)); cl(g ^ 1); } break; }
        case E_ADD: { unsigned k = narrow(); r = fin(add(low(A, k), low(Bb, k), F())); break; }
        case E_SUB: { unsigned k = narrow(); r = fin(add(low(A, k), inv(low(Bb, k)), T)); break; }
        case E_MUL: { unsigned k = narrow(); // sign-narrow operands: the product of small signed values needs few rows
            unsigned ka = std::min(k, std::min(sbits(e->a->slo, e->a->shi), ubits(e->a->uhi) + 1)), kb = std::min(k, std::min(sbits(e->b->slo, e->b->shi), ubits(e->b->uhi) + 1));
            if (ka < k && kb < k && e->a->op != E_CONST && e->b->op != E_CONST && sbits(e->a->slo, e->a->shi) <= ka && sbits(e->b->slo, e->b->shi) <= kb && e->a->slo < 0 && e->b->slo < 0) { // |a|*|b| with sign
                L sa = A[ka - 1], sb = Bb[kb - 1]; BV ma = mux(sa, neg(low(A, ka)), low(A, ka)), mb = mux(sb, neg(low(Bb, kb)), low(Bb, kb)); BV p = mul(zxt(ma, k), zxt(mb, k)); r = fin(mux(Xor(sa, sb), neg(p), p)); break; }
            r = fin(mul(low(A, k), low(Bb, k))); break; }
        case E_UDIV: case E_UREM: { unsigned k = w; if (e->b->ulo > 0) k = std::max(1u, std::min(w, std::max(ubits(e->a->uhi), ubits(e->b->uhi)))); BV q, m; divrem(low(A, k), low(Bb, k), q, m); r = zxt(e->op == E_UDIV ? q : m, w); break; }
        case E_SDIV: case E_SREM: { L sa = A[w - 1], sb = Bb[w - 1]; BV q, m; BV xa = mux(sa, neg(A), A), xb = mux(sb, neg(Bb), Bb); divrem(xa, xb, q, m); if (e->op == E_SDIV) r = mux(Xor(sa, sb), neg(q), q); else r = mux(sa, neg(m), m); break; }
        case E_AND: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = And(A[i], Bb[i]); break;
        case E_OR: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = Or(A[i], Bb[i]); break;
        case E_XOR: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = Xor(A[i], Bb[i]); break;
        case E_SHL: case E_LSHR: case E_ASHR: { L fill = e->op == E_ASHR ? A[w - 1] : F(); r = A; unsigned st = 0; for (; (1u << st) < w && st < w; st++) { unsigned d = 1u << st; BV t(w); for (unsigned i = 0; i < w; i++) { L mv = e->op == E_SHL ? (i >= d ? r[i - d] : F()) : (i + d < w ? r[i + d] : fill); t[i] = Mux(Bb[st], mv, r[i]); } r = t; } L ov = F(); for (unsigned i = st; i < w; i++) ov = Or(ov, Bb[i]); for (unsigned i = 0; i < w; i++) r[i] = Mux(ov, fill, r[i]); break; }
        case E_EQ: { r = {eq(A, Bb)}; break; }
        case E_ULT: r = {ult(A, Bb)}; break;
        case E_ULE: r = {ult(Bb, A) ^ 1}; break;
        case E_SLT: case E_SLE: { unsigned ww = (unsigned)A.size(); unsigned k = std::min(ww, std::max(sbits(e->a->slo, e->a->shi), sbits(e->b->slo, e->b->shi))); BV x = low(A, k), y = low(Bb, k); x[k - 1] ^= 1; y[k - 1] ^= 1; r = {e->op == E_SLT ? ult(x, y) : ult(y, x) ^ 1}; break; }
        case E_ITE: r = mux(A[0], Bb, C); break;
        case E_ZEXT: r = zxt(A, w); break;
        case E_SEXT: r = sxt(A, w); break;
        case E_EXTRACT: r = BV(A.begin() + (size_t)e->imm, A.begin() + (size_t)e->imm + w); break;
        case E_CONCAT: r = Bb; r.insert(r.end(), A.begin(), A.end()); break;
        case E_NOT: r = inv(A); break;
        default: fprintf(stderr, "blast op %d\n", e->op); abort();
        }
        if (e->op != E_CONST && e->op != E_VAR && w > 1) for (unsigned i = 0; i < w; i++) { if ((e->kz >> i) & 1) r[i] = F(); else if ((e->ko >> i) & 1) r[i] = T; }
        own = sv; Node& n = nodes[e->id]; n.bits = std::move(r); n.own = std::move(mine); return n.bits;
    }
    void cone(E e, std::vector<int>& dv) { Node& n = nodes[e->id]; if (n.mark == markc) return; n.mark = markc; dv.insert(dv.end(), n.own.begin(), n.own.end()); if (e->a) cone(e->a, dv); if (e->b) cone(e->b, dv); if (e->c) cone(e->c, dv); }
    void inputs(E e, std::vector<E>& vs) { Node& n = nodes[e->id]; if (n.mark == markc) return; n.mark = markc; if (e->op == E_VAR) vs.push_back(e); if (e->a) inputs(e->a, vs); if (e->b) inputs(e->b, vs); if (e->c) inputs(e->c, vs); }
public:
    size_t resets = 0;
    // 1 sat, 0 unsat, -1 out of budget; stop() is polled between conflict slices
    template<class Stop> int solve(const std::vector<E>& cs, std::vector<std::pair<u32, u128>>* vals, Stop stop) {
        if (!s || nv > 40000) { reset(); resets++; }
        std::vector<int> as, dv; for (E e : cs) { L l = bits(e)[0]; if (l == F()) return 0; if (l != T) as.push_back(l); }
        ++markc; for (E e : cs) cone(e, dv);
        std::sort(as.begin(), as.end()); as.erase(std::unique(as.begin(), as.end()), as.end());
        for (int v : dv) sat_decision(s, v, 1);
        int r; long b = 2000; do { r = sat_solve(s, as.data(), (int)as.size(), b); b = std::min(b * 2, 50000L); } while (r < 0 && !stop());
        if (r == 1 && vals) { ++markc; std::vector<E> vs; for (E e : cs) inputs(e, vs); for (E v : vs) { const BV& x = nodes[v->id].bits; u128 n = 0; for (size_t i = 0; i < x.size(); i++) { bool bit = x[i] == T || (x[i] != F() && (sat_value(s, x[i] >> 1) != (x[i] & 1))); if (bit) n |= (u128)1 << i; } vals->push_back({(u32)v->imm, n}); } }
        for (int v : dv) sat_decision(s, v, 0);
        return r;
    }
};
