// Symbolic expression layer: hash-consed bit-vector terms with constant folding, interval
// information, and an "FX" wrapper giving exact dyadic arithmetic for IEEE doubles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
#include <vector>
#include <memory>

using u128 = unsigned __int128;
using i128 = __int128;
using u64 = uint64_t;
using i64 = int64_t;
using u32 = uint32_t;
using u8 = uint8_t;
using u16 = uint16_t;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
    E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
    E_NOT, E_FX };

struct Expr {
    EOp op; u8 width; bool ctree; // ctree: an ITE tree whose leaves are all constants
    u8 leaves;
    u32 id; u32 nvars_hint;
    u128 imm;           // const value / var index / extract low bit / FX scale (as i64)
    const Expr *a = nullptr, *b = nullptr, *c = nullptr;
    u128 ulo, uhi;      // unsigned interval
    i128 slo, shi;      // signed interval
    u128 kz = 0, ko = 0; // bits known zero / known one
    mutable u64 evalStamp = 0;
    mutable u128 evalVal = 0;
    mutable void* z3ast = nullptr; mutable const std::vector<u64>* sup = nullptr; mutable void* z3lit = nullptr;
    mutable u32 depth = 0;
};
using E = const Expr*;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) {
    v &= maskw(w);
    if (w < 128 && ((v >> (w - 1)) & 1)) v |= ~maskw(w);
    return (i128)v;
}
static inline i128 smaxw(unsigned w) { return (i128)(maskw(w) >> 1); }
static inline i128 sminw(unsigned w) { return -smaxw(w) - 1; }

struct VarInfo { std::string name; unsigned width; u128 hi; i64 lo; bool user; E top; };

struct Model { u64 stamp; std::vector<u128> v; };
using ModelP = std::shared_ptr<Model>;

struct ExprCtx {
    struct H { size_t operator()(E e) const {
        u64 h = e->op * 0x9E3779B97F4A7C15ull ^ e->width;
        auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix((u64)e->imm); mix((u64)(e->imm >> 64));
        mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0);
        return h; } };
    struct Q { bool operator()(E x, E y) const {
        return x->op == y->op && x->width == y->width && x->imm == y->imm && x->a == y->a && x->b == y->b && x->c == y->c; } };
    std::unordered_set<E, H, Q> table;
    std::vector<VarInfo> vars;
    u64 stampCounter = 1;
    u32 nextId = 1;

    void calcInterval(Expr* e) {
        unsigned w = e->width;
        u128 m = maskw(w);
        e->ulo = 0; e->uhi = m; e->slo = sminw(w); e->shi = smaxw(w);
        auto setU = [&](u128 lo, u128 hi) { e->ulo = lo; e->uhi = hi; };
        bool uset = false, sset = false;
        auto setS = [&](i128 lo, i128 hi) { e->slo = lo; e->shi = hi; sset = true; };
        switch (e->op) {
        case E_CONST: setU(e->imm, e->imm); setS(sx(e->imm, w), sx(e->imm, w)); uset = true; break;
        case E_VAR: setU(0, vars[(size_t)e->imm].hi); uset = true; break;
        case E_ADD: if (w <= 64) {
            if (e->a->uhi + e->b->uhi <= m) { setU(e->a->ulo + e->b->ulo, e->a->uhi + e->b->uhi); uset = true; }
            i128 lo = e->a->slo + e->b->slo, hi = e->a->shi + e->b->shi;
            if (lo >= sminw(w) && hi <= smaxw(w)) setS(lo, hi); } break;
        case E_SUB: if (w <= 64) {
            if (e->a->ulo >= e->b->uhi) { setU(e->a->ulo - e->b->uhi, e->a->uhi - e->b->ulo); uset = true; }
            i128 lo = e->a->slo - e->b->shi, hi = e->a->shi - e->b->slo;
            if (lo >= sminw(w) && hi <= smaxw(w)) setS(lo, hi); } break;
        case E_MUL: if (w <= 64) {
            if (e->a->uhi < ((u128)1 << 63) && e->b->uhi < ((u128)1 << 63) && e->a->uhi * e->b->uhi <= m) {
                setU(e->a->ulo * e->b->ulo, e->a->uhi * e->b->uhi); uset = true; }
            i128 lim = (i128)1 << 62;
            if (e->a->slo > -lim && e->a->shi < lim && e->b->slo > -lim && e->b->shi < lim) {
                i128 p[4] = { e->a->slo * e->b->slo, e->a->slo * e->b->shi, e->a->shi * e->b->slo, e->a->shi * e->b->shi };
                i128 lo = p[0], hi = p[0];
                for (int i = 1; i < 4; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
                if (lo >= sminw(w) && hi <= smaxw(w)) setS(lo, hi); } } break;
        case E_UDIV: if (e->b->ulo > 0) { setU(e->a->ulo / e->b->uhi, e->a->uhi / e->b->ulo); uset = true; } break;
        case E_UREM: if (e->b->ulo > 0) {
            if (e->a->uhi < e->b->ulo) { setU(e->a->ulo, e->a->uhi); }
            else { u128 h = e->b->uhi - 1; if (e->a->uhi < h) h = e->a->uhi; setU(0, h); } uset = true; } break;
        case E_AND: { u128 h = e->a->uhi < e->b->uhi ? e->a->uhi : e->b->uhi; setU(0, h); uset = true; } break;
        case E_OR: case E_XOR: { u128 h = e->a->uhi | e->b->uhi; u128 f = h; for (int s = 1; s < 128; s <<= 1) f |= f >> s;
            u128 lo = 0; if (e->op == E_OR) lo = e->a->ulo > e->b->ulo ? e->a->ulo : e->b->ulo;
            setU(lo, f); uset = true; } break;
        case E_SHL: if (e->b->op == E_CONST && e->b->imm < w && w <= 64) {
            unsigned s = (unsigned)e->b->imm;
            if ((e->a->uhi << s) <= m && (e->a->uhi >> (127 - s)) == 0) { setU(e->a->ulo << s, e->a->uhi << s); uset = true; }
            i128 lo = e->a->slo * ((i128)1 << s), hi = e->a->shi * ((i128)1 << s);
            if (s < 63 && lo >= sminw(w) && hi <= smaxw(w)) setS(lo, hi); } break;
        case E_LSHR: if (e->b->op == E_CONST && e->b->imm < w) { setU(e->a->ulo >> (unsigned)e->b->imm, e->a->uhi >> (unsigned)e->b->imm); uset = true; }
            else { setU(0, e->a->uhi); uset = true; } break;
        case E_ASHR: if (e->b->op == E_CONST && e->b->imm < w) setS(e->a->slo >> (unsigned)e->b->imm, e->a->shi >> (unsigned)e->b->imm);
            break;
        case E_ITE: setU(e->b->ulo < e->c->ulo ? e->b->ulo : e->c->ulo, e->b->uhi > e->c->uhi ? e->b->uhi : e->c->uhi); uset = true;
            setS(e->b->slo < e->c->slo ? e->b->slo : e->c->slo, e->b->shi > e->c->shi ? e->b->shi : e->c->shi); break;
        case E_ZEXT: setU(e->a->ulo, e->a->uhi); uset = true; break;
        case E_SEXT: setS(e->a->slo, e->a->shi); break;
        case E_EXTRACT: if (e->imm == 0) {
            if (e->a->uhi <= m) { setU(e->a->ulo, e->a->uhi); uset = true; }
            if (e->a->slo >= sminw(w) && e->a->shi <= smaxw(w)) setS(e->a->slo, e->a->shi); }
            else { u128 h = e->a->uhi >> (unsigned)e->imm; if (h <= m) { setU(e->a->ulo >> (unsigned)e->imm, h); uset = true; } } break;
        case E_CONCAT: setU((e->a->ulo << e->b->width) | e->b->ulo, (e->a->uhi << e->b->width) | e->b->uhi); uset = true; break;
        default: break;
        }
        // cross-derive
        if (w <= 127) {
            u128 half = m >> 1;
            if (e->uhi <= half) {
                i128 lo = (i128)e->ulo, hi = (i128)e->uhi;
                if (lo > e->slo) e->slo = lo;
                if (hi < e->shi) e->shi = hi;
            } else if (e->ulo > half) {
                i128 lo = sx(e->ulo, w), hi = sx(e->uhi, w);
                if (lo > e->slo) e->slo = lo;
                if (hi < e->shi) e->shi = hi;
            }
            if (e->slo >= 0) {
                if ((u128)e->slo > e->ulo) e->ulo = (u128)e->slo;
                if ((u128)e->shi < e->uhi) e->uhi = (u128)e->shi;
            } else if (e->shi < 0) {
                u128 lo = (u128)e->slo & m, hi = (u128)e->shi & m;
                if (lo > e->ulo) e->ulo = lo;
                if (hi < e->uhi) e->uhi = hi;
            }
        }
        (void)uset; (void)sset;
    }

    void calcBits(Expr* e) {
        unsigned w = e->width; u128 m = maskw(w); u128 z = 0, o = 0; E a = e->a, b = e->b;
        switch (e->op) {
        case E_CONST: o = e->imm; z = ~e->imm & m; break;
        case E_AND: z = a->kz | b->kz; o = a->ko & b->ko; break;
        case E_OR: z = a->kz & b->kz; o = a->ko | b->ko; break;
        case E_XOR: z = (a->kz & b->kz) | (a->ko & b->ko); o = (a->kz & b->ko) | (a->ko & b->kz); break;
        case E_NOT: z = a->ko; o = a->kz; break;
        case E_ITE: z = e->b->kz & e->c->kz; o = e->b->ko & e->c->ko; break;
        case E_ZEXT: z = a->kz | (m & ~maskw(a->width)); o = a->ko; break;
        case E_SEXT: { u128 sb = (u128)1 << (a->width - 1); z = a->kz; o = a->ko; if (z & sb) z |= m & ~maskw(a->width); if (o & sb) o |= m & ~maskw(a->width); break; }
        case E_EXTRACT: z = (a->kz >> (unsigned)e->imm) & m; o = (a->ko >> (unsigned)e->imm) & m; break;
        case E_CONCAT: z = (a->kz << b->width) | b->kz; o = (a->ko << b->width) | b->ko; break;
        case E_MUL: if (b->op == E_CONST && b->imm && !(b->imm & (b->imm - 1))) { unsigned k = 0; while (((u128)1 << k) != b->imm) k++; z = ((a->kz << k) | (((u128)1 << k) - 1)) & m; o = (a->ko << k) & m; } break;
        case E_ADD: { u128 k = (a->kz | a->ko) & (b->kz | b->ko); unsigned t = 0; while (t < w && ((k >> t) & 1)) t++; if (t) { u128 v = (a->ko + b->ko) & maskw(t); o = v; z = ~v & maskw(t); } break; }
        case E_SUB: { u128 k = (a->kz | a->ko) & (b->kz | b->ko); unsigned t = 0; while (t < w && ((k >> t) & 1)) t++; if (t) { u128 v = (a->ko - b->ko) & maskw(t); o = v; z = ~v & maskw(t); } break; }
        default: break;
        }
        if (w <= 64 || e->uhi <= m) { u128 f = e->uhi; for (int s = 1; s < 128; s <<= 1) f |= f >> s; z |= m & ~f & ~o; }
        e->kz = z & m; e->ko = o & m;
        if (e->ko > e->ulo) e->ulo = e->ko; u128 mx = m & ~e->kz; if (mx < e->uhi) e->uhi = mx;
    }
    // x with only the bits in mask mattering
    E dem(E x, u128 mask, int depth = 0) {
        if ((mask & ~(x->kz | x->ko)) == 0 && x->width > 1) return cst(x->ko & mask, x->width);
        if (depth > 400) return x;
        if (x->op == E_AND) { if ((mask & ~x->b->ko) == 0) return dem(x->a, mask, depth + 1); if ((mask & ~x->a->ko) == 0) return dem(x->b, mask, depth + 1); }
        if (x->op == E_OR) { if ((mask & ~x->b->kz) == 0) return dem(x->a, mask, depth + 1); if ((mask & ~x->a->kz) == 0) return dem(x->b, mask, depth + 1); }
        if (x->op == E_XOR) { if ((mask & ~x->b->kz) == 0) return dem(x->a, mask, depth + 1); if ((mask & ~x->a->kz) == 0) return dem(x->b, mask, depth + 1); }
        return x;
    }
    E mk(EOp op, unsigned w, u128 imm, E a = nullptr, E b = nullptr, E c = nullptr) {
        Expr t{}; t.op = op; t.width = (u8)w; t.imm = imm; t.a = a; t.b = b; t.c = c;
        auto it = table.find(&t);
        if (it != table.end()) return *it;
        Expr* e = new Expr(t);
        e->id = nextId++;
        e->leaves = 1; e->ctree = (op == E_CONST);
        if (op == E_ITE && b->ctree && c->ctree) {
            unsigned l = (unsigned)b->leaves + c->leaves;
            if (l <= 96) { e->ctree = true; e->leaves = (u8)l; }
        }
        if (op != E_FX) { calcInterval(e); calcBits(e); }
        table.insert(e);
        if (op != E_CONST && op != E_VAR && op != E_FX && (e->kz | e->ko) == maskw(w)) return cst(e->ko, w);
        return e;
    }
    E cst(u128 v, unsigned w) { return mk(E_CONST, w, v & maskw(w)); }
    E bTrue() { return cst(1, 1); }
    E bFalse() { return cst(0, 1); }
    static bool isC(E e) { return e->op == E_CONST; }
    static bool isC(E e, u128 v) { return e->op == E_CONST && e->imm == v; }

    static u128 foldBin(EOp op, unsigned w, u128 x, u128 y) {
        u128 m = maskw(w);
        switch (op) {
        case E_ADD: return (x + y) & m; case E_SUB: return (x - y) & m; case E_MUL: return (x * y) & m;
        case E_UDIV: return y == 0 ? m : x / y; case E_UREM: return y == 0 ? x : x % y;
        case E_SDIV: { i128 a = sx(x, w), b = sx(y, w); if (b == 0) return a < 0 ? 1 : m; if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
        case E_SREM: { i128 a = sx(x, w), b = sx(y, w); if (b == 0) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
        case E_AND: return x & y; case E_OR: return x | y; case E_XOR: return x ^ y;
        case E_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
        case E_LSHR: return y >= w ? 0 : x >> (unsigned)y;
        case E_ASHR: { unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(sx(x, w) >> s) & m; }
        case E_EQ: return x == y; case E_ULT: return x < y; case E_ULE: return x <= y;
        case E_SLT: return sx(x, w) < sx(y, w); case E_SLE: return sx(x, w) <= sx(y, w);
        default: abort();
        }
    }
    E pushUn(EOp op, unsigned w, u128 imm, E a) { // a is an ITE ctree
        if (a->op == E_CONST) return un(op, w, imm, a);
        return ite(a->a, pushUn(op, w, imm, a->b), pushUn(op, w, imm, a->c));
    }
    E pushBinL(EOp op, E a, E k) { if (a->op == E_CONST) return bin(op, a, k); return ite(a->a, pushBinL(op, a->b, k), pushBinL(op, a->c, k)); }
    E pushBinR(EOp op, E k, E b) { if (b->op == E_CONST) return bin(op, k, b); return ite(b->a, pushBinR(op, k, b->b), pushBinR(op, k, b->c)); }

    // unary-like: ZEXT, SEXT, EXTRACT, NOT
    E un(EOp op, unsigned w, u128 imm, E a) {
        if (isC(a)) {
            switch (op) {
            case E_ZEXT: return cst(a->imm, w);
            case E_SEXT: return cst((u128)sx(a->imm, a->width), w);
            case E_EXTRACT: return cst(a->imm >> (unsigned)imm, w);
            case E_NOT: return cst(~a->imm, w);
            default: abort();
            }
        }
        if ((op == E_ZEXT || op == E_SEXT || op == E_EXTRACT) && w == a->width && (op != E_EXTRACT || imm == 0)) return a;
        if (a->op == E_ITE && a->ctree && a->width > 1) return pushUn(op, w, imm, a);
        switch (op) {
        case E_NOT:
            if (a->op == E_NOT) return a->a;
            if (w == 1) {
                if (a->op == E_ULT) return mk(E_ULE, 1, 0, a->b, a->a);
                if (a->op == E_ULE) return mk(E_ULT, 1, 0, a->b, a->a);
                if (a->op == E_SLT) return mk(E_SLE, 1, 0, a->b, a->a);
                if (a->op == E_SLE) return mk(E_SLT, 1, 0, a->b, a->a);
            }
            break;
        case E_ZEXT: if (a->op == E_ZEXT) return un(E_ZEXT, w, 0, a->a); break;
        case E_SEXT: if (a->op == E_SEXT) return un(E_SEXT, w, 0, a->a);
            if (a->op == E_ZEXT) return un(E_ZEXT, w, 0, a->a);
            if (a->width > 1 && a->slo >= 0) return un(E_ZEXT, w, 0, a); break;
        case E_EXTRACT: {
            unsigned lo = (unsigned)imm;
            if (a->op == E_AND || a->op == E_OR || a->op == E_XOR) { E d = dem(a, maskw(w) << lo); if (d != a) return un(op, w, imm, d); }
            if (((a->kz | a->ko) >> lo & maskw(w)) == maskw(w)) return cst(a->ko >> lo, w);
            if (a->op == E_MUL && isC(a->b) && !(a->b->imm & (a->b->imm - 1)) && a->b->imm > 1) { unsigned k = 0; while (((u128)1 << k) != a->b->imm) k++;
                if (lo >= k) return un(E_EXTRACT, w, lo - k, a->a); if (lo + w <= k) return cst(0, w); }
            if (a->op == E_EXTRACT) return un(E_EXTRACT, w, imm + a->imm, a->a);
            if (a->op == E_ZEXT) {
                unsigned iw = a->a->width;
                if (lo >= iw) return cst(0, w);
                if (lo + w <= iw) return un(E_EXTRACT, w, imm, a->a);
                if (lo == 0) return un(E_ZEXT, w, 0, a->a);
            }
            if (a->op == E_SEXT) { unsigned iw = a->a->width; if (lo + w <= iw) return un(E_EXTRACT, w, imm, a->a);
                if (lo == 0) return un(E_SEXT, w, 0, a->a); }
            if (a->op == E_CONCAT) {
                unsigned lw = a->b->width;
                if (lo + w <= lw) return un(E_EXTRACT, w, imm, a->b);
                if (lo >= lw) return un(E_EXTRACT, w, imm - lw, a->a);
                return concat(un(E_EXTRACT, lo + w - lw, 0, a->a), un(E_EXTRACT, lw - lo, imm, a->b));
            }
            if (lo == 0) switch (a->op) {
                case E_ADD: case E_SUB: case E_MUL: case E_AND: case E_OR: case E_XOR:
                    if (a->a->op == E_ZEXT || a->a->op == E_SEXT || isC(a->b) || a->op == E_AND || a->op==E_OR)
                        return bin(a->op, un(E_EXTRACT, w, 0, a->a), un(E_EXTRACT, w, 0, a->b));
                    break;
                case E_ITE: if (a->b->op == E_ZEXT || a->c->op == E_ZEXT || isC(a->b) || isC(a->c))
                        return ite(a->a, un(E_EXTRACT, w, 0, a->b), un(E_EXTRACT, w, 0, a->c)); break;
                default: break;
            }
            else if (a->op == E_AND || a->op == E_OR || a->op == E_XOR) {
                if (isC(a->b)) return bin(a->op, un(E_EXTRACT, w, imm, a->a), un(E_EXTRACT, w, imm, a->b));
            }
            if (lo > 0 && a->uhi < ((u128)1 << lo)) return cst(0, w);
            break; }
        default: break;
        }
        return mk(op, w, imm, a);
    }
    E bnot(E a) { return un(E_NOT, 1, 0, a); }
    E zext(E a, unsigned w) { return un(E_ZEXT, w, 0, a); }
    E sext(E a, unsigned w) { return un(E_SEXT, w, 0, a); }
    E extract(E a, unsigned lo, unsigned w) { return un(E_EXTRACT, w, lo, a); }
    E concat(E hi, E lo) {
        if (isC(hi) && isC(lo)) return cst((hi->imm << lo->width) | lo->imm, hi->width + lo->width);
        if (isC(hi, 0)) return zext(lo, hi->width + lo->width);
        if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->imm == lo->imm + lo->width)
            return extract(hi->a, (unsigned)lo->imm, hi->width + lo->width);
        return mk(E_CONCAT, hi->width + lo->width, 0, hi, lo);
    }
    E ite(E c, E t, E f) {
        if (isC(c)) return c->imm ? t : f;
        if (t == f) return t;
        if (c->op == E_NOT) return ite(c->a, f, t);
        if (t->width == 1) {
            if (isC(t, 1)) return bin(E_OR, c, f);
            if (isC(t, 0)) return bin(E_AND, bnot(c), f);
            if (isC(f, 1)) return bin(E_OR, bnot(c), t);
            if (isC(f, 0)) return bin(E_AND, c, t);
        }
        if (t->op == E_FX || f->op == E_FX) { fprintf(stderr, "ite FX\n"); abort(); }
        if (f->op == E_ITE && f->a == c) return ite(c, t, f->c);
        if (t->op == E_ITE && t->a == c) return ite(c, t->b, f);
        if (f->op == E_ITE && f->b == t) return ite(bin(E_OR, c, f->a), t, f->c);
        return mk(E_ITE, t->width, 0, c, t, f);
    }
    static bool comm(EOp op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ; }
    static bool isCmp(EOp op) { return op >= E_EQ && op <= E_SLE; }
    E bin(EOp op, E a, E b) {
        unsigned w = a->width;
        unsigned rw = isCmp(op) ? 1 : w;
        if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %d vs %d\n", op, a->width, b->width); abort(); }
        if (isC(a) && isC(b)) return cst(foldBin(op, w, a->imm, b->imm), rw);
        if (comm(op) && isC(a)) std::swap(a, b);
        if (comm(op) && !isC(b) && a->id > b->id) std::swap(a, b);
        // interval-based folding
        if (isCmp(op)) {
            if (a == b) return cst(op == E_EQ || op == E_ULE || op == E_SLE, 1);
            switch (op) {
            case E_EQ: if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return bFalse();
                if (a->ulo == a->uhi && b->ulo == b->uhi && a->ulo == b->ulo) return bTrue(); break;
            case E_ULT: if (a->uhi < b->ulo) return bTrue(); if (a->ulo >= b->uhi) return bFalse(); break;
            case E_ULE: if (a->uhi <= b->ulo) return bTrue(); if (a->ulo > b->uhi) return bFalse(); break;
            case E_SLT: if (a->shi < b->slo) return bTrue(); if (a->slo >= b->shi) return bFalse(); break;
            case E_SLE: if (a->shi <= b->slo) return bTrue(); if (a->slo > b->shi) return bFalse(); break;
            default: break;
            }
        }
        if (w > 1 && isC(b) && a->op == E_ITE && a->ctree) return pushBinL(op, a, b);
        if (w > 1 && isC(a) && b->op == E_ITE && b->ctree) return pushBinR(op, a, b);
        switch (op) {
        case E_ADD:
            if (isC(b, 0)) return a;
            if (isC(b) && a->op == E_ADD && isC(a->b)) return bin(E_ADD, a->a, cst(a->b->imm + b->imm, w));
            if (isC(b) && a->op == E_SUB && isC(a->a)) return bin(E_SUB, cst(a->a->imm + b->imm, w), a->b);
            if (!isC(b) && a->op == E_ADD && isC(a->b)) return bin(E_ADD, bin(E_ADD, a->a, b), a->b);
            if (!isC(b) && b->op == E_ADD && isC(b->b)) return bin(E_ADD, bin(E_ADD, a, b->a), b->b);
            if (b->op == E_SUB && b->b == a) return b->a;
            if (a->op == E_SUB && a->b == b) return a->a;
            if (w == 1) return bin(E_XOR, a, b);
            break;
        case E_SUB:
            if (a == b) return cst(0, w);
            if (isC(b)) return bin(E_ADD, a, cst((u128)0 - b->imm, w));
            if (a->op == E_ADD && a->b == b) return a->a;
            if (a->op == E_ADD && a->a == b) return a->b;
            if (a->op == E_ADD && isC(a->b)) return bin(E_ADD, bin(E_SUB, a->a, b), a->b);
            if (b->op == E_ADD && isC(b->b)) return bin(E_ADD, bin(E_SUB, a, b->a), cst((u128)0 - b->b->imm, w));
            if (w == 1) return bin(E_XOR, a, b);
            break;
        case E_MUL:
            if (isC(b, 0)) return b; if (isC(b, 1)) return a;
            if (isC(b) && a->op == E_MUL && isC(a->b)) return bin(E_MUL, a->a, cst(a->b->imm * b->imm, w));
            if (w == 1) return bin(E_AND, a, b);
            break;
        case E_UDIV: if (isC(b, 1)) return a;
            if (isC(b) && (b->imm & (b->imm - 1)) == 0 && b->imm) { unsigned s = 0; while (((u128)1 << s) != b->imm) s++; return bin(E_LSHR, a, cst(s, w)); }
            if (isC(b) && b->imm > 0 && a->op == E_MUL && isC(a->b) && a->b->imm == b->imm && a->a->uhi * a->b->imm <= maskw(w) && a->a->uhi < ((u128)1<<60)) return a->a;
            break;
        case E_UREM: if (isC(b, 1)) return cst(0, w);
            if (isC(b) && b->imm && (b->imm & (b->imm - 1)) == 0) return bin(E_AND, a, cst(b->imm - 1, w));
            if (b->ulo > 0 && a->uhi < b->ulo) return a;
            break;
        case E_SDIV: if (isC(b, 1)) return a;
            if (a->slo >= 0 && b->slo > 0) return bin(E_UDIV, a, b); break;
        case E_SREM: if (a->slo >= 0 && b->slo > 0) return bin(E_UREM, a, b); break;
        case E_AND:
            if (a == b) return a; if (isC(b, 0)) return b; if (isC(b, maskw(w))) return a;
            if (isC(b) && a->op == E_AND && isC(a->b)) return bin(E_AND, a->a, cst(a->b->imm & b->imm, w));
            if (w == 1 && (a->op == E_NOT ? a->a == b : (b->op == E_NOT && b->a == a))) return bFalse();
            if (isC(b)) { E d = dem(a, b->imm); if (d != a) return bin(E_AND, d, b); if ((maskw(w) & ~(b->imm | a->kz)) == 0) return a; }
            if (isC(b) && ((b->imm + 1) & b->imm) == 0) { if (a->uhi <= b->imm) return a;
                unsigned k = 0; while (((u128)1 << k) <= b->imm) k++; if (k < w) return zext(extract(a, 0, k), w); }
            if (a->op == E_ZEXT && isC(b)) return zext(bin(E_AND, a->a, cst(b->imm, a->a->width)), w);
            break;
        case E_OR:
            if (a == b) return a; if (isC(b, 0)) return a; if (isC(b, maskw(w))) return b;
            if (isC(b) && a->op == E_OR && isC(a->b)) return bin(E_OR, a->a, cst(a->b->imm | b->imm, w));
            if (w == 1 && (a->op == E_NOT ? a->a == b : (b->op == E_NOT && b->a == a))) return bTrue();
            if (isC(b)) { E d = dem(a, ~b->imm & maskw(w)); if (d != a) return bin(E_OR, d, b); }
            // disjoint bits: or == concat of shifted pieces: leave to solver
            break;
        case E_XOR:
            if (a == b) return cst(0, w); if (isC(b, 0)) return a;
            if (w == 1 && isC(b, 1)) return bnot(a);
            if (isC(b) && a->op == E_XOR && isC(a->b)) return bin(E_XOR, a->a, cst(a->b->imm ^ b->imm, w));
            break;
        case E_SHL: if (isC(b, 0)) return a; if (isC(b) && b->imm >= w) return cst(0, w);
            if (isC(b)) return bin(E_MUL, a, cst((u128)1 << (unsigned)b->imm, w)); break;
        case E_LSHR: if (isC(b, 0)) return a; if (isC(b) && b->imm >= w) return cst(0, w);
            if (isC(b)) { unsigned s = (unsigned)b->imm; if (a->uhi < ((u128)1 << s)) return cst(0, w); return zext(extract(a, s, w - s), w); } break;
        case E_ASHR: if (isC(b, 0)) return a;
            if (isC(b) && a->slo >= 0) return bin(E_LSHR, a, b);
            if (isC(b) && b->imm < w) { unsigned s = (unsigned)b->imm; return sext(extract(a, s, w - s), w); } break;
        case E_EQ:
            if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return bnot(a); }
            if (isC(b)) {
                if (a->op == E_ZEXT) { if (b->imm > maskw(a->a->width)) return bFalse(); return bin(E_EQ, a->a, cst(b->imm, a->a->width)); }
                if (a->op == E_SEXT) { u128 t = b->imm & maskw(a->a->width); if (((u128)sx(t, a->a->width) & maskw(w)) != b->imm) return bFalse(); return bin(E_EQ, a->a, cst(t, a->a->width)); }
                if ((b->imm & a->kz) || (~b->imm & a->ko & maskw(w))) return bFalse();
                { u128 fr = maskw(w) & ~(a->kz | a->ko); if (w > 1 && fr && !(fr & (fr - 1))) { unsigned k = 0; while (((u128)1 << k) != fr) k++; E bit = un(E_EXTRACT, 1, k, a); return ((b->imm >> k) & 1) ? bit : bnot(bit); } }
                if (a->op == E_ADD && isC(a->b)) return bin(E_EQ, a->a, cst(b->imm - a->b->imm, w));
                if (a->op == E_SUB && isC(a->a)) return bin(E_EQ, a->b, cst(a->a->imm - b->imm, w));
                if (a->op == E_SUB && b->imm == 0) return bin(E_EQ, a->a, a->b);
                if (a->op == E_XOR && isC(a->b)) return bin(E_EQ, a->a, cst(a->b->imm ^ b->imm, w));
                if (a->op == E_NOT) return bin(E_EQ, a->a, cst(~b->imm, w));
                if (a->op == E_MUL && isC(a->b) && a->b->imm && a->a->uhi < ((u128)1 << 63) && a->b->imm < ((u128)1 << 63) && a->a->uhi * a->b->imm <= maskw(w)) {
                    if (b->imm % a->b->imm) return bFalse(); return bin(E_EQ, a->a, cst(b->imm / a->b->imm, w)); }
                if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, bin(E_EQ, a->b, b), bin(E_EQ, a->c, b));
                if (a->op == E_CONCAT) return bin(E_AND, bin(E_EQ, a->a, cst(b->imm >> a->b->width, a->a->width)), bin(E_EQ, a->b, cst(b->imm, a->b->width)));
            } else {
                if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->width == b->a->width) return bin(E_EQ, a->a, b->a);
                if (a->op == E_SEXT && b->op == E_SEXT && a->a->width == b->a->width) return bin(E_EQ, a->a, b->a);
                if (a->op == E_ADD && b->op == E_ADD && isC(a->b) && isC(b->b)) return bin(E_EQ, a->a, bin(E_ADD, b->a, cst(b->b->imm - a->b->imm, w)));
            }
            break;
        case E_ULT: case E_ULE: case E_SLT: case E_SLE: {
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->width == b->a->width) return bin(op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op, a->a, b->a);
            if (isC(b) && a->op == E_ZEXT) {
                if ((op == E_SLT || op == E_SLE) && sx(b->imm, w) < 0) return bFalse();
                u128 mx = maskw(a->a->width);
                if (b->imm > mx) return bTrue();
                return bin(op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op, a->a, cst(b->imm, a->a->width)); }
            if (isC(a) && b->op == E_ZEXT) {
                if ((op == E_SLT || op == E_SLE) && sx(a->imm, w) < 0) return bTrue();
                u128 mx = maskw(b->a->width);
                if (a->imm > mx) return bFalse();
                return bin(op == E_SLT ? E_ULT : op == E_SLE ? E_ULE : op, cst(a->imm, b->a->width), b->a); }
            if ((op == E_SLT || op == E_SLE)) {
                // (x + c) < k without overflow
                if (isC(b) && a->op == E_ADD && isC(a->b) && a->a->op == E_ZEXT) {
                    i128 k = sx(b->imm, w) - sx(a->b->imm, w);
                    if (k > sminw(w) && k < smaxw(w) && a->a->uhi < ((u128)1 << (w - 2)) && a->slo == a->a->slo + sx(a->b->imm, w))
                        return bin(op, a->a, cst((u128)k, w)); }
                if (isC(a) && b->op == E_ADD && isC(b->b) && b->a->op == E_ZEXT) {
                    i128 k = sx(a->imm, w) - sx(b->b->imm, w);
                    if (k > sminw(w) && k < smaxw(w) && b->a->uhi < ((u128)1 << (w - 2)) && b->slo == b->a->slo + sx(b->b->imm, w))
                        return bin(op, cst((u128)k, w), b->a); }
            }
            if (isC(b) && a->op == E_ITE && (isC(a->b) || isC(a->c))) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
            if (isC(a) && b->op == E_ITE && (isC(b->b) || isC(b->c))) return ite(b->a, bin(op, a, b->b), bin(op, a, b->c));
            break; }
        default: break;
        }
        return mk(op, rw, 0, a, b);
    }
    // ---- FX: exact dyadic value n * 2^-scale, n signed 64-bit, |n| <= 2^53 by interval
    E fx(E n, int scale) { // canonical: n is 64-bit expr
        return mk(E_FX, 64, (u128)(i64)scale, n);
    }
    static int fxScale(E f) { return (int)(i64)(u64)f->imm; }

    E newVar(const std::string& name, unsigned width, u128 hi, bool user, i64 lo) {
        vars.push_back({name, width, hi, lo, user, nullptr});
        return mk(E_VAR, width, vars.size() - 1);
    }
    u128 eval(E e, const Model& m) {
        if (e->op == E_CONST) return e->imm;
        if (e->evalStamp == m.stamp) return e->evalVal;
        u128 r;
        switch (e->op) {
        case E_VAR: r = (size_t)e->imm < m.v.size() ? m.v[(size_t)e->imm] : 0; break;
        case E_ITE: r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m); break;
        case E_ZEXT: r = eval(e->a, m); break;
        case E_SEXT: r = (u128)sx(eval(e->a, m), e->a->width) & maskw(e->width); break;
        case E_EXTRACT: r = (eval(e->a, m) >> (unsigned)e->imm) & maskw(e->width); break;
        case E_CONCAT: r = (eval(e->a, m) << e->b->width) | eval(e->b, m); break;
        case E_NOT: r = ~eval(e->a, m) & maskw(e->width); break;
        case E_FX: { double d = __builtin_ldexp((double)(i64)(u64)eval(e->a, m), -fxScale(e)); u64 bits; memcpy(&bits, &d, 8); r = bits; break; }
        default: r = foldBin(e->op, e->a->width, eval(e->a, m), eval(e->b, m));
        }
        e->evalStamp = m.stamp; e->evalVal = r;
        return r;
    }
    // set of variables occurring in e, as a bitset (shared between expressions with the same set)
    const std::vector<u64>& sup(E e) {
        static const std::vector<u64> none;
        if (e->sup) return *e->sup;
        if (e->op == E_CONST) { e->sup = &none; return none; }
        if (e->op == E_VAR) { auto* v = new std::vector<u64>((size_t)(e->imm / 64) + 1); (*v)[(size_t)(e->imm / 64)] = 1ull << (unsigned)(e->imm % 64); e->sup = v; return *v; }
        const std::vector<u64>* best = &none; std::vector<u64> m; bool merged = false;
        for (E k : {e->a, e->b, e->c}) if (k) { auto& t = sup(k);
            const std::vector<u64>& cur = merged ? m : *best; bool sub1 = true, sub2 = true;
            for (size_t i = 0; i < std::max(t.size(), cur.size()); i++) { u64 x = i < t.size() ? t[i] : 0, y = i < cur.size() ? cur[i] : 0; if (x & ~y) sub1 = false; if (y & ~x) sub2 = false; }
            if (sub1) continue;
            if (sub2) { best = &t; merged = false; continue; }
            std::vector<u64> n(std::max(t.size(), cur.size())); for (size_t i = 0; i < n.size(); i++) n[i] = (i < t.size() ? t[i] : 0) | (i < cur.size() ? cur[i] : 0); m = std::move(n); merged = true; }
        e->sup = merged ? new std::vector<u64>(std::move(m)) : best; return *e->sup;
    }
    void support(E e, std::unordered_set<E>& seen, std::unordered_set<u32>& vs) {
        if (!seen.insert(e).second) return;
        if (e->op == E_VAR) vs.insert((u32)e->imm);
        if (e->a) support(e->a, seen, vs);
        if (e->b) support(e->b, seen, vs);
        if (e->c) support(e->c, seen, vs);
    }
    std::string str(E e, int depth = 6) {
        static const char* nm[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","zext","sext","extract","concat","~","fx"};
        if (e->op == E_CONST) { char b[64]; snprintf(b, 64, "%lld", (long long)(u64)e->imm); return b; }
        if (e->op == E_VAR) return vars[(size_t)e->imm].name;
        if (depth == 0) return "...";
        std::string s = "("; s += nm[e->op];
        if (e->op == E_EXTRACT || e->op == E_FX) s += std::to_string((u64)e->imm);
        if (e->a) s += " " + str(e->a, depth - 1);
        if (e->b) s += " " + str(e->b, depth - 1);
        if (e->c) s += " " + str(e->c, depth - 1);
        return s + ")";
    }
};
extern ExprCtx X;
