// C13: a moment rule eliminates its leading symbol equivalently; rulebooks reduce canonically
#include "rules.hpp"
extern "C" void h_rule() { Context ctx{2}; SymbolTable tab{ctx}; set_kinds(tab, sx_choose(0, sx_param("layouts", 4) - 1, "layout")); auto go = [&](auto& f) {
    Polynomial p = f(sx_param("oblique", 0) ? oblique(sx_param("lim", 1), true) : sym_poly(sx_param("n", 3), sx_param("lim", 1), "term")); DD P = dd(p); auto L = p.last_id(); bool contra = !p.empty() && L == 1; cd a{0, 0}, b{0, 0}; DD Q = P;
    if (L > 1) { double x[2][2]; for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { x[j][i] = (double) cz(P.c[L][j][i]) / 4.0; Q.c[L][j][i] = 0; P.c[L][j][i] = x[j][i]; } a = {x[0][0], x[0][1]}; b = {x[1][0], x[1][1]}; }
    bool threw = false; std::optional<MomentRule> ro; try { ro.emplace(f, Polynomial{p}); } catch (const errors::invalid_moment_rule&) { threw = true; } sx_assert(threw == contra, "contradiction raised exactly for a non-zero constant"); if (threw) { sx_reach("contradiction"); return; }
    MomentRule& r = *ro; auto split = r.split(); sx_assert(!r.split().has_value(), "split is handed out once"); if (p.empty()) { sx_assert(r.is_trivial() && !split && r.as_polynomial(f).empty(), "trivial rule"); return; }
    sx_assert(r.LHS() == L && !r.is_trivial(), "rule replaces the leading symbol"); sx_assert(canon(f, r.RHS()), "replacement is canonical"); DD R = dd(r.RHS()); double n = std::norm(a), D = n - std::norm(b);
    DD X; X.add(L, false, 1, 0); sx_assert(dd(r.as_polynomial(f)).is(R.plus(X, -1, 0)) && canon(f, r.as_polynomial(f)), "rule as polynomial");
    if (kinds[L]) { double sg = kinds[L] == 1 ? 1 : -1; DD aQ = Q.times(a.real(), -a.imag()), T = aQ.plus(aQ.conj(), -sg, 0); sx_assert(R.times(2 * n, 0).is(aQ.plus(aQ.conj(), sg, 0).times(-1, 0)), "replacement solves the equation for a symbol with one part"); sx_assert(!r.is_partial(), "rule for symbol with one part is full");
        bool z = T.zero(); sx_assert(split.has_value() == !z, "remainder present exactly when needed"); if (split) { DD S = dd(*split).times(2 * n, 0); bool ok = S.is(T) | S.is(T.times(-1, 0)) | S.is(T.times(0, 1)) | S.is(T.times(0, -1)); sx_assert(ok, "remainder is the part of the equation not involving the symbol"); sx_assert(canon(f, *split), "remainder is canonical"); sx_reach("split"); } }
    else if (D > 1e-9 || D < -1e-9) { DD aQ = Q.times(a.real(), -a.imag()), bQ = Q.conj().times(b.real(), b.imag()); sx_assert(R.times(D, 0).is(bQ.plus(aQ, -1, 0)), "replacement solves the equation"); sx_assert(!r.is_partial() && !split, "solvable equation gives a full rule"); sx_reach("solved"); }
    else { DD res = X.plus(R, -1, 0), T = P.plus(res, -2 * a.real(), -2 * a.imag()); sx_assert(r.is_partial(), "unsolvable equation gives a partial rule"); sx_assert(res.conj().times(a.real(), -a.imag()).is(res.times(b.real(), -b.imag())), "partial rule constrains a single direction"); sx_assert(T.times(a.real(), -a.imag()).is(T.conj().times(-b.real(), -b.imag())), "rest of the equation is in the orthogonal direction");
        bool z = T.zero(); sx_assert(split.has_value() == !z, "orthogonal part present exactly when needed"); sx_assert(near0(T.c[L][0][0]) && near0(T.c[L][1][0]) && near0(T.c[L][0][1]) && near0(T.c[L][1][1]), "orthogonal part does not involve the symbol"); if (split) { DD S = dd(*split); sx_assert(S.is(S.conj()), "orthogonal part is real"); // T = k S for some number k: cross products vanish
            bool ok = true; for (int k = 1; k < nk; ++k) for (int j = 0; j < 2; ++j) ok = ok & ((near0(S.c[k][j][0]) & near0(S.c[k][j][1])) == (near0(T.c[k][j][0]) & near0(T.c[k][j][1]))); double sn = 0, tn = 0; for (int k = 1; k < nk; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { sn += S.c[k][j][i] * S.c[k][j][i]; tn += T.c[k][j][i] * T.c[k][j][i]; } // S = Im(-conj(e)/(2a) P_rest): norm relation |T| = 2|a||S|
            double q = tn - 4 * n * sn; sx_assert(ok && near0(q), "orthogonal part keeps the constraint"); sx_reach("partial-split"); } sx_reach("partial"); }
    sx_observe("lhs", L); sx_observe("n", r.RHS().size()); sx_reach("end"); };
    if (sx_choose(0, 1, "order")) { ByHashPolynomialFactory f{tab}; go(f); } else { ByIDPolynomialFactory f{tab}; go(f); } }
extern "C" void h_reduce() { Context ctx{2}; SymbolTable tab{ctx}; set_kinds(tab, sx_choose(0, sx_param("layouts", 4) - 1, "layout")); ByIDPolynomialFactory f{tab}; int L = sx_choose(2, 4, "lhs"); Polynomial rhs = f(sym_poly(2, 1, "rhs", L)); DD R = dd(rhs); MomentRule r{(symbol_name_t) L, Polynomial{rhs}}; long lim = sx_param("lim", 1);
    Polynomial q = f(sym_poly(sx_param("n", 3), lim, "target")); DD Q = dd(q), E = Q; for (int j = 0; j < 2; ++j) { DD S = j ? R.conj() : R; double re = Q.c[L][j][0], im = Q.c[L][j][1]; E = E.plus(S, re, im); E.c[L][j][0] = 0; E.c[L][j][1] = 0; }
    Polynomial o = r.reduce(f, q); sx_assert(canon(f, o), "reduced polynomial is canonical"); sx_assert(dd(o).is(E), "every occurrence is replaced, conjugated occurrences by the conjugate"); bool has = false; for (auto& m : q) has = has | (m.id == (symbol_name_t) L); sx_assert(r.matches(q) == has, "match test"); auto mi = r.match_info(q); size_t cnt = 0; for (auto& m : q) cnt += m.id == (symbol_name_t) L; sx_assert(mi.first == cnt && (cnt == 0 || mi.second->id == (symbol_name_t) L), "match count");
    if (q.size() == 1) { Polynomial om = r.reduce(f, q[0]); sx_assert(dd(om).is(E), "single term reduces like a polynomial"); if (rhs.is_monomial()) { Monomial m = r.reduce_monomial(tab, q[0]); DD M; if (m.id != 0) M.add(m.id, m.conjugated, m.factor.real(), m.factor.imag()); sx_assert(M.is(E), "single term reduces to a single term"); sx_assert(m.id == 0 || !(m.conjugated && kinds[m.id] != 0), "reduced term is in canonical form"); } }
    sx_observe("n", o.size()); sx_reach("end"); }
extern "C" void h_book() { MatrixSystem ms{std::make_unique<Context>(2), (double) sx_param("tolerance", 1024)}; auto& tab = ms.Symbols(); set_kinds(tab, sx_choose(0, sx_param("layouts", 4) - 1, "layout")); auto& f = ms.polynomial_factory(); int N = sx_param("rules", 2), M = sx_param("n", 2), lim = sx_param("lim", 1); std::vector<Polynomial> raw; std::vector<DD> P; for (int i = 0; i < N; ++i) { raw.push_back(raw_rule(f, M, lim)); P.push_back(dd(raw.back())); }
    Val v = sym_val(2); bool sat = true; for (auto& d : P) sat = sat & vanishes(d, v); MomentRulebook rb{ms}; { auto c = raw; rb.add_raw_rules(std::move(c)); } bool threw = false; try { rb.complete(); } catch (const errors::invalid_moment_rule&) { threw = true; } if (threw) { sx_assert(!sat, "contradiction reported only for unsatisfiable rules"); sx_reach("contradiction"); return; }
    sx_assert(!rb.pending_rules(), "no rule is left pending"); bool ok = holds(rb, v); sx_assert(!sat || ok, "rules are consequences of the equations"); sx_assert(!ok || sat, "equations are consequences of the rules"); bool mono = true, herm = true; for (auto& [id, r] : rb) { sx_assert(id == r.LHS() && canon(f, r.RHS()), "rule is canonical and filed under its symbol"); mono = mono & r.RHS().is_monomial(); if (kinds[id] == 1) { DD R = dd(r.RHS()); herm = herm & R.is(R.conj()); } for (auto& m : r.RHS()) { auto it = rb.find(m.id); bool isfull = false; for (auto& [k, r2] : rb) if (k == m.id && !r2.is_partial()) isfull = true; sx_assert(!isfull, "replacement contains no eliminated symbol"); } } sx_assert(rb.is_monomial() == mono && rb.is_hermitian() == herm, "flags of the rulebook"); sx_assert(rb.is_hermitian(), "rules for Hermitian symbols have Hermitian replacements");
    for (auto& p : raw) sx_assert(rb.reduce(p).empty(), "every given equation reduces to zero"); Polynomial q = target(f); Polynomial o = rb.reduce(q); sx_assert(canon(f, o), "reduced polynomial is canonical"); long r0, i0, r1, i1; ev(dd(q), v, r0, i0); ev(dd(o), v, r1, i1); sx_assert(!ok || (small(r0 - r1) & small(i0 - i1)), "reduction preserves the value"); sx_assert(same_reduced(rb.reduce(o), o), "reduction is idempotent"); for (auto& m : o) for (auto& [k, r] : rb) sx_assert(k != m.id || r.is_partial(), "no eliminated symbol survives"); if (q.size() == 1) { sx_assert(same_reduced(rb.reduce(q[0]), o), "single term reduces like a polynomial"); if (rb.is_monomial()) { Monomial m = rb.reduce_monomial(q[0]); DD dm; if (m.id) dm.add(m.id, m.conjugated, m.factor.real(), m.factor.imag()); sx_assert(dm.is(dd(o)), "single term reduces to a single term"); } }
    Polynomial o2 = q; bool ch = rb.reduce_in_place(o2); sx_assert(same_reduced(o2, o), "in-place reduction"); bool anym = false; for (auto& m : q) for (auto& [k, r] : rb) anym = anym | (k == m.id); sx_assert(ch == anym, "in-place reduction reports a match"); sx_observe("rules", rb.size()); sx_reach("end"); }
extern "C" void h_combine() { MatrixSystem ms{std::make_unique<Context>(2), (double) sx_param("tolerance", 1024)}; auto& tab = ms.Symbols(); set_kinds(tab, sx_choose(0, sx_param("layouts", 4) - 1, "layout")); auto& f = ms.polynomial_factory(); int M = sx_param("n", 2), lim = sx_param("lim", 1); auto gen = [&]() { return raw_rule(f, M, lim); };
    Polynomial p = gen(), q = gen(); Val v = sym_val(2); bool sp = vanishes(dd(p), v), sq = vanishes(dd(q), v); MomentRulebook A{ms}, B{ms}; try { A.add_raw_rule(Polynomial{p}); A.complete(); B.add_raw_rule(Polynomial{q}); B.complete(); } catch (const errors::invalid_moment_rule&) { return; }
    auto cmp = A.compare_rulebooks(B); auto res = std::get<0>(cmp); using RC = MomentRulebook::RulebookComparisonResult; bool AhasB = A.reduce(q).empty(), BhasA = B.reduce(p).empty(); RC want = AhasB && BhasA ? RC::AEqualsB : AhasB ? RC::AContainsB : BhasA ? RC::BContainsA : RC::Disjoint; sx_assert(res == want, "comparison of rulebooks"); sx_assert(!(AhasB && sp && !sq) && !(BhasA && sq && !sp), "contained equations follow");
    bool threw = false; size_t before = A.size(); Polynomial t = target(f); Polynomial o0 = A.reduce(t); try { A.combine_and_complete(std::move(B)); } catch (const errors::invalid_moment_rule&) { threw = true; }
    if (threw) { sx_assert(!(sp && sq), "merge refused only for unsatisfiable rules"); sx_assert(A.size() == before && !A.pending_rules() && same_reduced(A.reduce(t), o0), "refused merge leaves the rulebook as it was"); sx_reach("refused"); }
    else { bool ok = holds(A, v); sx_assert(ok == (sp && sq), "merged rulebook is equivalent to both"); sx_assert(A.reduce(p).empty() && A.reduce(q).empty(), "both equations reduce to zero"); Polynomial o = A.reduce(t); sx_assert(same_reduced(A.reduce(o), o), "reduction is idempotent after merge"); } sx_observe("rules", A.size()); sx_reach("end"); }
// rules given as values of symbols, and rules put in directly
extern "C" void h_map() { MatrixSystem ms{std::make_unique<Context>(2), (double) sx_param("tolerance", 1024)}; auto& tab = ms.Symbols(); set_kinds(tab, sx_choose(0, sx_param("layouts", 4) - 1, "layout")); bool cx = sx_choose(0, 1, "complex"); MomentRulebook rb{ms}; std::map<symbol_name_t, double> mr; std::map<symbol_name_t, cd> mc; Val v = sym_val(2); bool sat = true; int left = sx_param("n", 2); long lim = sx_param("lim", 1); bool given[NK] = {}; long gr[NK] = {}, gi[NK] = {};
    for (int k = 0; k < nk && left > 0; ++k) { if (!sx_choose(0, 1, "given")) continue; --left; given[k] = true; gr[k] = sx_choose(-lim, lim, "re"); gi[k] = cx ? sx_choose(-1, 1, "im") : 0; if (cx) mc[k] = cd{(double) gr[k], (double) gi[k]}; else mr[k] = (double) gr[k]; sat = sat & (v.v[k][0] == gr[k]) & (v.v[k][1] == gi[k]); }
    Polynomial extra = left > 0 && sx_choose(0, 1, "extra") ? raw_rule(ms.polynomial_factory(), 2, 1) : Polynomial{}; if (!extra.empty()) { rb.add_raw_rule(Polynomial{extra}); sat = sat & vanishes(dd(extra), v); } if (cx) rb.add_raw_rules(mc); else rb.add_raw_rules(mr); bool threw = false; try { rb.complete(); } catch (const errors::invalid_moment_rule&) { threw = true; } if (threw) { sx_assert(!sat, "contradiction reported only for unsatisfiable values"); sx_reach("contradiction"); return; } bool ok = holds(rb, v); sx_assert(ok == sat, "rulebook holds exactly for the given values");
    for (int k = 2; k < nk; ++k) if (given[k]) { auto o = rb.reduce(Monomial{(symbol_name_t) k, cd{1, 0}, false}); DD w; w.add(1, false, gr[k], gi[k]); sx_assert(dd(o).is(w), "symbol reduces to its value"); }
    Polynomial q = target(ms.polynomial_factory()); auto m = rb.match(q); const Monomial* first = nullptr; for (auto& t : q) if (!first) for (auto& [id, r] : rb) if (id == t.id) first = &t; sx_assert((m.first == rb.end()) == (first == nullptr), "match is found exactly when a rule applies"); if (first && m.first != rb.end()) sx_assert(m.first->first == first->id && &*m.second == first, "match is the first one"); sx_observe("rules", rb.size()); sx_reach("end"); }
extern "C" void h_inject() { MatrixSystem ms{std::make_unique<Context>(2), (double) sx_param("tolerance", 1024)}; auto& tab = ms.Symbols(); set_kinds(tab, sx_choose(0, sx_param("layouts", 8) - 1, "layout")); auto& f = ms.polynomial_factory(); MomentRulebook rb{ms}; int ids[2], n = sx_choose(1, 2, "rules"); DD R[2]; bool mono = true, herm = true; for (int i = 0; i < n; ++i) { ids[i] = sx_choose(2, nk - 1, "lhs"); Polynomial::storage_t s; int c = sx_choose(0, 2, "rhs"); long re = sx_choose(-1, 1, "re"), im = sx_choose(0, 1, "im"); s.push_back(Monomial{1, cd{(double) re, (double) im}, false}); if (c) s.push_back(Monomial{(symbol_name_t) (ids[i] > 2 ? 2 : 1), cd{1, 0}, c == 2}); Polynomial p = f(std::move(s)); bool fresh = i == 0 || ids[0] != ids[1]; DD d = dd(p); bool got = rb.inject((symbol_name_t) ids[i], Polynomial{p}); sx_assert(got == fresh, "a second rule for a symbol is not added"); if (fresh) { R[i] = d; mono = mono && p.size() <= 1; if (kinds[ids[i]] == 1 && !d.is(d.conj())) herm = false; } else --n; }
    sx_assert((int) rb.size() == n, "number of rules"); for (int i = 0; i < n; ++i) { auto it = rb.find(ids[i]); sx_assert(it != rb.end() && it->first == ids[i] && dd(it->second.RHS()).is(R[i]), "rule is kept as given"); auto o = rb.reduce(Monomial{(symbol_name_t) ids[i], cd{1, 0}, false}); if (n == 1) sx_assert(dd(o).is(R[i]), "rule is applied"); } sx_assert(rb.is_monomial() == mono && rb.is_hermitian() == herm, "flags of the rulebook"); sx_observe("rules", rb.size()); sx_reach("end"); }
