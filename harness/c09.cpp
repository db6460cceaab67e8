// C09: rewriting by algebraic rules is sound, terminates and, once complete, yields the least word of every class
#include "hx.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "dictionary/operator_sequence.h"
#include <stdexcept>
using namespace Moment; using namespace Moment::Algebraic;
namespace { using S = sequence_storage_t; using W = unsigned long;
// oracle: words packed two bits a letter behind a leading one (numeric order is short-lex order); signs are powers of i
int len(W w) { int n = 0; while (w > 1) { w >>= 2; ++n; } return n; }
W cat(W a, W b, int nb) { return (a << (2 * nb)) | (b & ((1ul << (2 * nb)) - 1)); }
W tail(W w, int n) { return (1ul << (2 * n)) | (w & ((1ul << (2 * n)) - 1)); }
struct T { bool zero; int sg; W w; };
struct R { W l; int nl; bool zero; int sg; W r; int nr; };
R rule(W l, bool zero, int sg, W r) { return R{l, len(l), zero, zero ? 0 : sg & 3, zero ? 1 : r, zero ? 0 : len(r)}; }
struct Th { std::vector<R> rs; bool collapsed = false, done = false;
    bool step(T& t, int n) const { for (auto& k : rs) for (int p = 0; p + k.nl <= n; ++p) if (tail(t.w >> (2 * p), k.nl) == k.l) { if (k.zero) { t = T{true, 0, 1}; return true; } t.w = cat(cat(t.w >> (2 * (p + k.nl)), k.r, k.nr), t.w, p); t.sg = (t.sg + k.sg) & 3; return true; } return false; }
    T nf(T t) const { while (!t.zero && step(t, len(t.w))) {} if (t.zero) { t.sg = 0; t.w = 1; } return t; }
    void add(T a, T b) { a = nf(a); b = nf(b); if (a.zero && b.zero) return; if (a.zero || (!b.zero && b.w > a.w)) { T c = a; a = b; b = c; } if (!b.zero && a.w == b.w) { if (a.sg == b.sg) return; b.zero = true; } if (a.w == 1) collapsed = true; rs.push_back(rule(a.w, b.zero, b.sg - a.sg, b.w)); }
    void pair(const R& x, const R& y, int o) { // a suffix of x's left hand side, o long, begins y's
        W w = cat(x.l, y.l, y.nl - o); T a{x.zero, x.sg, x.zero ? 1 : cat(x.r, y.l, y.nl - o)}, b{y.zero, y.sg, y.zero ? 1 : cat(x.l >> (2 * o), y.r, y.nr)}; (void) w; add(a, b); }
    void complete(size_t maxRules, int maxLen) { for (size_t i = 0; i < rs.size() && !collapsed; ++i) for (size_t j = 0; j <= i && !collapsed; ++j) { for (int s = 0; s < (i == j ? 1 : 2); ++s) { R x = s ? rs[j] : rs[i], y = s ? rs[i] : rs[j]; if (x.nl + y.nl > maxLen) return;
            for (int o = 1; o < x.nl && o < y.nl; ++o) if (tail(x.l, o) == (y.l >> (2 * (y.nl - o)))) pair(x, y, o);
            if (i != j) for (int p = 0; p + y.nl <= x.nl; ++p) if (tail(x.l >> (2 * p), y.nl) == y.l) add(T{x.zero, x.sg, x.r}, y.zero ? T{true, 0, 1} : T{false, y.sg, cat(cat(x.l >> (2 * (p + y.nl)), y.r, y.nr), x.l, p)}); } if (rs.size() > maxRules) return; } done = true; }
};
bool eqT(T a, T b) { return (a.zero & b.zero) | (!a.zero & !b.zero & (a.w == b.w) & (((a.sg - b.sg) & 3) == 0)); }
int power(SequenceSignType s) { switch (s) { case SequenceSignType::Positive: return 0; case SequenceSignType::Imaginary: return 1; case SequenceSignType::Negative: return 2; default: return 3; } }
SequenceSignType sign(int p) { static const SequenceSignType t[4] = {SequenceSignType::Positive, SequenceSignType::Imaginary, SequenceSignType::Negative, SequenceSignType::NegativeImaginary}; return t[p & 3]; }
S unpack(W w) { S s; int n = len(w); for (int i = n - 1; i >= 0; --i) s.push_back((oper_name_t) ((w >> (2 * i)) & 3)); return s; }
W pack(const S& s) { W w = 1; for (auto x : s) w = (w << 2) | (W) x; return w; }
T term(const HashedSequence& h) { return T{h.zero(), power(h.get_sign()), h.zero() ? 1 : pack(h.raw())}; }
struct Mode { AlgebraicPrecontext apc; int n; int kind, raw; };
Mode mode(int m) { using C = AlgebraicPrecontext::ConjugateMode; switch (m) { case 0: return {AlgebraicPrecontext{2}, 2, 0, 2}; case 1: return {AlgebraicPrecontext{1, C::Interleaved}, 2, 1, 1}; case 2: return {AlgebraicPrecontext{2, C::Bunched}, 4, 2, 2}; default: return {AlgebraicPrecontext{3}, 3, 0, 3}; } }
W conj(const Mode& m, W w) { W r = 1; for (; w > 1; w >>= 2) { int x = w & 3; r = (r << 2) | (W) (m.kind == 0 ? x : m.kind == 1 ? (x ^ 1) : (x + m.raw) % (2 * m.raw)); } return r; }
W cword(int lo, int hi, int n, const char* nm) { int k = sx_choose(lo, hi, nm); W w = 1; for (int i = 0; i < k; ++i) w = (w << 2) | (W) sx_choose(0, n - 1, "letter"); return w; }
OperatorRule make(const Mode& m, const R& r, int ls) { return OperatorRule{HashedSequence{unpack(r.l), m.apc.hasher, sign(ls)}, r.zero ? HashedSequence{true} : HashedSequence{unpack(r.r), m.apc.hasher, sign(r.sg + ls)}}; }
// the rules given to the library, with their meaning
struct Given { std::vector<R> raw; std::vector<OperatorRule> rules; };
Given given(const Mode& m, int nr, int maxL, bool signs) { Given g; for (int i = 0; i < nr; ++i) { W l = cword(1, maxL, m.n, "left"); bool zero = sx_choose(0, 1, "zero"); int sg = zero ? 0 : sx_choose(0, 3, "sign"); if (!signs && (sg & 1)) sx_assume(false); W r = zero ? 1 : cword(0, len(l), m.n, "right"); sx_assume(r <= l); int ls = signs ? (int) sx_choose(0, 1, "lsign") * 3 : 0; g.raw.push_back(rule(l, zero, sg, r)); g.rules.push_back(make(m, g.raw.back(), ls)); } return g; }
Th theory(const Mode& m, const Given& g, bool withConj) { Th t; for (auto& r : g.raw) { t.add(T{false, 0, r.l}, T{r.zero, r.sg, r.r}); if (withConj) t.add(T{false, 0, conj(m, r.l)}, T{r.zero, -r.sg & 3, conj(m, r.r)}); } t.complete(24, 14); return t; }
Th theory(const OperatorRulebook& b) { Th t; for (auto& [h, r] : b.rules()) t.add(T{false, 0, pack(r.LHS().raw())}, T{r.RHS().zero(), power(r.RHS().get_sign()), pack(r.RHS().raw())}); t.complete(24, 14); return t; }
bool valid(const Th& t, const OperatorRulebook& b) { bool ok = true; for (auto& [h, r] : b.rules()) { T l = t.nf(T{false, 0, pack(r.LHS().raw())}), x = t.nf(r.RHS().zero() ? T{true, 0, 1} : term(r.RHS())); ok = ok && eqT(l, x) && h == r.LHS().hash() && r.LHS().get_sign() == SequenceSignType::Positive && r.RHS().hash() < h; } return ok; }
bool wellformed(const OperatorRulebook& b) { bool ok = true; for (auto& [h, r] : b.rules()) ok = ok && !r.trivial() && h == r.LHS().hash() && r.LHS().get_sign() == SequenceSignType::Positive && r.RHS().hash() < h && r.implies_zero() == r.RHS().zero() && !(r.RHS().zero() && r.rule_sign() != SequenceSignType::Positive); return ok; }
bool reducible(const OperatorRulebook& b, const S& w) { W v = pack(w); int n = (int) w.size(); bool r = false; for (auto& [h, k] : b.rules()) { int nl = (int) k.LHS().size(); W l = pack(k.LHS().raw()); for (int p = 0; p + nl <= n; ++p) r = r | (tail(v >> (2 * p), nl) == l); } return r; }
S sym(int lo, int hi, int n) { S s; int k = sx_choose(lo, hi, "length"); for (int i = 0; i < k; ++i) s.push_back((oper_name_t) sx_range(0, n - 1, "letter")); return s; }
}
// adding rules: the book means what was given; reduction by every route is sound, exact in sign and irreducible
extern "C" void h_reduce() { Mode m = mode(sx_choose(sx_param("first", 0), sx_param("last", 1), "mode")); Given g = given(m, sx_choose(0, sx_param("rules", 2), "rules"), sx_param("left", 2), sx_param("signs", 1)); Th t = theory(m, g, false); if (!t.done || t.collapsed) { sx_reach("skipped"); return; }
    OperatorRulebook b{m.apc, g.rules}; sx_assert(wellformed(b), "rules are oriented"); sx_assert(valid(t, b), "rules kept follow from those given"); { Th u = theory(b); bool ok = u.done; for (auto& r : g.raw) ok = ok && eqT(u.nf(T{false, 0, r.l}), u.nf(T{r.zero, r.sg, r.r})); if (u.done) sx_assert(ok, "rules given follow from those kept"); }
    S w = sym(0, sx_param("len", 3), m.n); int sg = sx_choose(0, 3, "phase"); HashedSequence in{w, m.apc.hasher, sign(sg)}; T want = t.nf(T{false, sg, pack(w)}); sx_assert(b.can_reduce(w) == reducible(b, w), "can reduce"); auto check = [&](const HashedSequence& o) { T a = term(o); bool zero = o.zero(); bool ok = eqT(t.nf(a), want); sx_assert(ok, "same element"); sx_assert(!reducible(b, o.raw()), "irreducible"); sx_assert(zero ? o.raw().empty() : o.hash() == m.apc.hasher(o.raw()), "code of the result"); sx_assert(!zero || o.get_sign() == SequenceSignType::Positive, "zero has no phase"); };
    HashedSequence o = b.reduce(in); check(o); HashedSequence o2 = b.reduce(o); sx_assert(o2.zero() == o.zero() && o2.hash() == o.hash() && o2.get_sign() == o.get_sign(), "idempotent"); check(b.reduce_via_iteration(in)); check(b.reduce_via_search(in)); { HashedSequence c{in}; b.reduce_in_place(c); check(c); }
    AlgebraicContext ctx{m.apc, false, false, g.rules}; OperatorSequence q{w, ctx, sign(sg)}; check(HashedSequence{q}); sx_assert(ctx.get_if_canonical(w).has_value() == !reducible(b, w), "canonical");
    sx_observe("hash", o.hash()); sx_observe("sign", power(o.get_sign())); sx_reach("end"); }
// completion: only consequences of the rules and their conjugates; declared complete means least representatives
extern "C" void h_complete() { Mode m = mode(sx_choose(sx_param("first", 0), sx_param("last", 1), "mode")); Given g = given(m, sx_choose(1, sx_param("rules", 1), "rules"), sx_param("left", 3), sx_param("signs", 1)); Th t = theory(m, g, true); if (!t.done || t.collapsed) { sx_reach("skipped"); return; }
    OperatorRulebook b{m.apc, g.rules}; int how = sx_choose(0, 2, "how"); bool done; if (how == 0) done = b.is_complete(true); else if (how == 1) done = b.complete(0); else done = b.complete(sx_param("attempts", 12)); sx_assert(wellformed(b), "rules are oriented"); sx_assert(valid(t, b), "completion adds only consequences"); sx_observe("complete", done); sx_observe("size", b.size());
    if (done) { sx_assert(how != 2 || b.is_complete(true), "stays complete"); S w = sym(0, sx_param("len", 4), m.n); HashedSequence o = b.reduce(HashedSequence{w, m.apc.hasher, SequenceSignType::Positive}); T want = t.nf(T{false, 0, pack(w)}); sx_assert(eqT(term(o), want), "least word of the class"); sx_observe("hash", o.hash()); sx_reach("complete"); } sx_reach("end"); }
// contexts: commuting and normal operators, completed or not
extern "C" void h_ctx() { Mode m = mode(sx_choose(sx_param("first", 0), sx_param("last", 1), "mode")); bool commute = sx_choose(0, 1, "commute"), normal = sx_choose(0, 1, "normal"); Given g = given(m, sx_choose(0, sx_param("rules", 1), "rules"), sx_param("left", 2), sx_param("signs", 0)); Given all = g; if (commute) for (int a = 0; a < m.n; ++a) for (int b = 0; b < a; ++b) all.raw.push_back(rule((1 << 4) | (a << 2) | b, false, 0, (1 << 4) | (b << 2) | a)); if (normal && m.kind) for (int a = 0; a < m.raw; ++a) { int x = m.kind == 1 ? 2 * a : a, y = m.kind == 1 ? 2 * a + 1 : a + m.raw; all.raw.push_back(rule((1 << 4) | (y << 2) | x, false, 0, (1 << 4) | (x << 2) | y)); }
    Th t = theory(m, all, true); if (!t.done || t.collapsed) return; AlgebraicContext ctx{m.apc, commute, normal, g.rules}; bool tried = sx_choose(0, 1, "completed"); bool done = tried ? ctx.attempt_completion(20) : ctx.is_complete(); sx_assert(static_cast<const AlgebraicContext&>(ctx).is_complete() == done, "remembers completeness"); sx_assert(wellformed(ctx.rulebook()), "rules are oriented"); sx_assert(valid(t, ctx.rulebook()), "only consequences");
    S w = sym(0, sx_param("len", 3), m.n); int sg = sx_choose(0, 3, "phase"); OperatorSequence q{w, ctx, sign(sg)}; T want = t.nf(T{false, sg, pack(w)}), got = term(q); sx_assert(eqT(t.nf(got), want), "same element"); sx_assert(q.zero() ? q.raw().empty() : q.hash() == m.apc.hasher(q.raw()), "code of the result"); sx_assert(!reducible(ctx.rulebook(), q.raw()), "irreducible"); if (done) { sx_assert(eqT(got, want), "least word of the class"); OperatorSequence c = q.conjugate(); T cw = t.nf(T{want.zero, want.zero ? 0 : (-want.sg & 3), want.zero ? 1 : conj(m, want.w)}); sx_assert(eqT(term(c), cw), "conjugate"); sx_reach("complete"); } sx_observe("hash", q.hash()); sx_reach("end"); }
