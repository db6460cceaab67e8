// C05: operator words of (generic and locality) scenarios: canonical forms decide equality of the operators they denote
#include "loc.hpp"
#include "scenarios/context.h"
using namespace lc; using G = SequenceSignType;
static G sgn(const char* n) { return (G) sx_range(0, 3, n); }
static G mul(G a, G b) { return (G) (((int) a + (int) b) & 3); } static G cj(G a) { return (G) ((4 - (int) a) & 3); }
static bool eqv(const OperatorSequence& a, const OperatorSequence& b) { return a.zero() == b.zero() && a.hash() == b.hash() && a.get_sign() == b.get_sign() && same_seq(a.raw(), b.raw()); }
static void wf(const Context& c, const OperatorSequence& q, const char* id) { if (q.zero()) sx_assert(q.hash() == 0 && q.empty() && q.get_sign() == G::Positive, id); else sx_assert(q.hash() == c.the_hasher().hash(q.raw()), id); }
extern "C" void h_loc() {
    Layout l = layout(sx_choose(sx_param("l0", 0), sx_param("lay", 5), "layout")); LocalityContext ctx(Party::MakeList(l.mmts, l.outs)); Ops o = ops(l); size_t np = l.mmts.size(); int L = sx_param("len", 3), T = sx_param("total", 4);
    S a = sym_word<S>(sx_choose(0, L, "na"), o.n, "a");
    S b = sym_word<S>(sx_choose(0, std::min<long>(sx_param("len2", 2), T - (long) a.size()), "nb"), o.n, "b");
    G sa = sgn("sa"), sb = sgn("sb");
    OperatorSequence A(a, ctx, sa), B(b, ctx, sb); El ea = reduce(o, np, a), eb = reduce(o, np, b);
    wf(ctx, A, "canonical sequence carries its own code"); wf(ctx, B, "canonical sequence carries its own code");
    sx_assert(A.zero() == ea.zero && same(elem(o, np, A), ea), "simplification preserves the operator"); sx_assert(ea.zero || A.get_sign() == sa, "sign kept");
    size_t len = 0; if (!ea.zero) for (auto& w : ea.w) len += w.size(); sx_assert(A.size() == len, "canonical form is reduced");
    sx_assert((A == B) == (same(ea, eb) && (ea.zero || sa == sb)), "equal exactly when equal operators");
    OperatorSequence A2(A.raw(), ctx, A.get_sign()); sx_assert(A.zero() || eqv(A2, A), "canonical form is a fixed point");
    S ab; for (auto x : a) ab.push_back(x); for (auto x : b) ab.push_back(x); El eab = reduce(o, np, ab); OperatorSequence P = A * B; wf(ctx, P, "product carries its own code");
    sx_assert(same(elem(o, np, P), eab) && (eab.zero || P.get_sign() == mul(sa, sb)), "product denotes concatenation"); OperatorSequence AB(ab, ctx, mul(sa, sb)); sx_assert(eqv(P, AB), "product is canonical");
    OperatorSequence Q = A; Q *= B; sx_assert(eqv(Q, P), "in-place product"); OperatorSequence R = A; if (!A.zero()) { R.append(b.begin(), b.end()); sx_assert(R.zero() == eab.zero && same(elem(o, np, R), eab), "append denotes concatenation"); }
    S ra; for (size_t i = a.size(); i-- > 0;) ra.push_back(a[i]); El er = reduce(o, np, ra); OperatorSequence C = A.conjugate(); wf(ctx, C, "conjugate carries its own code"); sx_assert(same(elem(o, np, C), er) && (er.zero || C.get_sign() == cj(sa)), "conjugate denotes reversal"); sx_assert(eqv(C.conjugate(), A), "conjugation is an involution");
    sx_assert(eqv(P.conjugate(), B.conjugate() * A.conjugate()), "conjugation reverses products");
    HermitianType ht = A.hermitian_type(); bool he = !ea.zero && same(ea, er); bool im = ((int) sa & 1);
    sx_assert(ea.zero ? ht == HermitianType::Zero : !he ? ht == HermitianType::NotHermitian : ht == (im ? HermitianType::AntiHermitian : HermitianType::Hermitian), "hermiticity classified");
    OperatorSequence N = -A; sx_assert(A.zero() ? N.zero() : (N.get_sign() == mul(sa, G::Negative) && N.hash() == A.hash() && same_seq(N.raw(), A.raw())), "negation"); OperatorSequence Mv = A; OperatorSequence N2 = -std::move(Mv); sx_assert(eqv(N2, N), "negation of temporary");
    auto can = ctx.get_if_canonical(a); sx_assert(can.has_value() == (!A.zero() && A.size() == a.size() && A.hash() == ctx.the_hasher().hash(a)), "canonicality test"); if (can) sx_assert(eqv(*can, OperatorSequence(a, ctx)), "canonical value");
    auto Z = ctx.zero(), I = ctx.identity(); sx_assert(Z.zero() && (A * Z).zero() && (Z * A).zero() && !I.zero() && I.empty(), "zero annihilates"); sx_assert(eqv(A * I, A) && eqv(I * A, A), "identity is neutral"); auto Is = ctx.identity(sb); sx_assert(Is.get_sign() == sb && Is.hash() == 1 && (A.zero() || (Is * A).get_sign() == mul(sa, sb)), "signed identity");
    auto Zc = OperatorSequence::Zero(ctx).conjugate(); sx_assert(Zc.zero() && (-Z).zero(), "zero is self-conjugate");
    sx_observe("h", A.hash()); sx_observe("hp", P.hash()); sx_reach("end");
}
extern "C" void h_assoc() { Layout l = layout(sx_choose(1, 4, "layout")); LocalityContext ctx(Party::MakeList(l.mmts, l.outs)); Ops o = ops(l); int L = sx_param("len", 2); S w[3]; for (int k = 0; k < 3; ++k) { w[k] = sym_word<S>(sx_choose(1, k == 1 ? sx_param("mid", 1) : L, "n"), o.n, "x"); }
    G s[3] = {sgn("s0"), sgn("s1"), sgn("s2")}; OperatorSequence A(w[0], ctx, s[0]), B(w[1], ctx, s[1]), C(w[2], ctx, s[2]); auto L1 = (A * B) * C, R1 = A * (B * C); sx_assert(eqv(L1, R1), "multiplication is associative"); sx_observe("h", L1.hash()); sx_reach("end"); }
extern "C" void h_layout() { Layout l = layout(sx_choose(0, 7, "layout")); LocalityContext ctx(Party::MakeList(l.mmts, l.outs)); Ops o = ops(l); size_t np = l.mmts.size();
    sx_assert((int) ctx.size() == o.n && ctx.Parties.size() == np && ctx.measurement_count() == o.mparty.size(), "sizes"); auto opm = ctx.outcomes_per_measurement(); sx_assert(same_seq(opm, l.outs), "outcomes per measurement"); sx_assert(same_seq(ctx.measurements_per_party(), l.mmts), "measurements per party");
    auto opp = ctx.outcomes_per_party(); auto& npp = ctx.operators_per_party(); for (size_t p = 0; p < np; ++p) { size_t t = 0, u = 0; for (size_t m = 0; m < o.mparty.size(); ++m) if (o.mparty[m] == (int) p) { t += o.mout[m]; u += o.mout[m] - 1; } sx_assert(opp[p] == t && npp[p] == u && ctx.Parties[p].size() == u && ctx.Parties[p].operators().size() == u, "outcomes per party"); }
    oper_name_t x = sx_choose(0, o.n - 1, "x"), y = sx_choose(0, o.n - 1, "y"); const Party& P = ctx.associated_party(x); sx_assert(P.id() == o.party[x], "owner of operator"); const auto& M = P.measurement_of(x); size_t first = 0; while (o.mparty[first] != o.party[x]) ++first;
    sx_assert(M.Index().global_mmt == o.mmt[x] && M.Index().party == o.party[x] && M.Index().mmt == o.mmt[x] - (int) first && M.num_outcomes == o.mout[o.mmt[x]], "measurement of operator"); sx_assert(P.measurement_outcome(o.mmt[x] - first, o.out[x]) == x, "outcome lookup"); sx_assert(P[x - P.global_offset()] == x, "operator list");
    if (o.party[y] == o.party[x]) sx_assert(P.mutually_exclusive(x, y) == (x != y && o.mmt[x] == o.mmt[y]), "mutual exclusivity");
    size_t g = sx_choose(0, o.mparty.size() - 1, "g"); auto pm = ctx.global_index_to_PM(g); sx_assert(pm.party == o.mparty[g] && pm.global_mmt == (int) g, "global index"); sx_assert(ctx.get_global_mmt_index(pm.party, pm.mmt) == g, "inverse of global index"); std::vector<PMIndex> v{pm}; v[0].global_mmt = -1; ctx.populate_global_mmt_index(v); sx_assert(v[0].global_mmt == (int) g, "populate"); auto gi = ctx.PM_to_global_index(v); sx_assert(gi.size() == 1 && gi[0] == g, "party-measurement to global"); auto oc = ctx.outcomes_per_measurement(v); sx_assert(oc.size() == 1 && oc[0] == l.outs[g], "outcomes of chosen measurement");
    bool threw = false; S bad; bad.push_back(o.n + sx_choose(0, 1, "d")); try { G s = G::Positive; ctx.additional_simplification(bad, s); } catch (const std::range_error&) { threw = true; } sx_assert(threw, "unknown operator rejected"); sx_observe("g", g); sx_reach("end"); }
extern "C" void h_generic() { int n = sx_choose(1, sx_param("ops", 3), "ops"); Context ctx(n); int L = sx_param("len", 4); S a = sym_word<S>(sx_choose(0, L, "na"), n, "a"), b = sym_word<S>(sx_choose(0, 3, "nb"), n, "b"); G sa = sgn("sa"), sb = sgn("sb"); OperatorSequence A(a, ctx, sa), B(b, ctx, sb);
    sx_assert(same_seq(A.raw(), a) && A.get_sign() == sa, "free words are kept"); wf(ctx, A, "code"); auto P = A * B; S ab = a; for (auto x : b) ab.push_back(x); sx_assert(same_seq(P.raw(), ab) && P.get_sign() == mul(sa, sb), "free product"); wf(ctx, P, "product code");
    auto C = A.conjugate(); S r; for (size_t i = a.size(); i-- > 0;) r.push_back(a[i]); sx_assert(same_seq(C.raw(), r) && C.get_sign() == cj(sa), "free conjugate"); wf(ctx, C, "conjugate code"); bool pal = same_seq(a, r); auto ht = A.hermitian_type(); bool im = (int) sa & 1; sx_assert(ht == (pal ? (im ? HermitianType::AntiHermitian : HermitianType::Hermitian) : HermitianType::NotHermitian), "free hermiticity");
    OperatorSequence T(OperatorSequence::ConstructPresortedFlag{}, a, ctx, sa); sx_assert(eqv(T, A), "presorted construction"); sx_observe("h", P.hash()); sx_reach("end"); }
extern "C" void h_longw() { int n = sx_choose(2, 3, "ops"); Context ctx(n); int la = sx_choose(14, sx_param("len", 19), "la"), lb = sx_choose(0, 3, "lb"); S a, b; for (int i = 0; i < la; ++i) a.push_back(i % 5 == 2 ? sx_range(0, n - 1, "a") : i % n); for (int i = 0; i < lb; ++i) b.push_back(sx_range(0, n - 1, "b")); 
    OperatorSequence A(a, ctx), B(b, ctx); wf(ctx, A, "code of long word"); OperatorSequence T(OperatorSequence::ConstructPresortedFlag{}, a, ctx, G::Negative); wf(ctx, T, "code of long presorted word"); sx_assert(same_seq(T.raw(), a) && T.hash() == A.hash(), "long presorted word"); auto P = A * B; wf(ctx, P, "code of long product"); S ab = a; for (auto x : b) ab.push_back(x); sx_assert(same_seq(P.raw(), ab), "long product"); auto C = P.conjugate(); wf(ctx, C, "code of long conjugate"); bool ok = C.size() == ab.size(); for (size_t i = 0; ok && i < ab.size(); ++i) ok = C[i] == ab[ab.size() - 1 - i]; sx_assert(ok, "long conjugate"); auto D = C; D = P; sx_assert(eqv(D, P), "assignment"); sx_observe("h", P.hash()); sx_reach("end"); }
