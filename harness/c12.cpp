// C12: polynomials are canonical and behave as complex linear combinations of symbols and their conjugates
#include "poly.hpp"
using namespace po;
static void ok(const PolynomialFactory& f, const Polynomial& p, const Den& d, const char* canon, const char* value) { sx_assert(canonical(f, p), canon); sx_assert(den(p) == d, value); }
extern "C" void h_build() { World w; WorldSeq ws; int which = sx_choose(0, 3, "order"); with_factory(which, w, ws, [&](auto& f, SymbolTable& tab) { int n = sx_choose(0, sx_param("n", 3), "n"); Den d; auto s = terms(n, 2, d); Polynomial p = f(std::move(s));
    ok(f, p, d, "built polynomial is canonical", "built polynomial keeps its value"); sx_assert((int) p.size() == d.terms() && p.empty() == d.zero(), "term count"); sx_assert(p.is_monomial() == (d.terms() <= 1), "monomial test");
    sx_observe("n", p.size()); sx_reach("end"); }); }
extern "C" void h_unary() { World w; WorldSeq ws; int which = sx_choose(0, 3, "order"); with_factory(which, w, ws, [&](auto& f, SymbolTable& tab) { int n = sx_choose(0, sx_param("n", 2), "n"); Den d; Polynomial p = f(terms(n, sx_param("lim", 1), d));
    Den dc = d.conj(); auto c = p.conjugate(tab); ok(f, c, dc, "conjugate is canonical", "conjugate has conjugate value"); ok(f, c.conjugate(tab), d, "double conjugate is canonical", "conjugation is an involution");
    bool H = d == dc, A = d == dc.times(-1, 0); sx_assert(p.is_hermitian(tab, 1.0) == H, "Hermitian exactly when equal to own conjugate"); sx_assert(p.is_antihermitian(tab, 1.0) == A, "anti-Hermitian exactly when equal to minus own conjugate"); sx_assert(f.is_hermitian(p) == H && f.is_antihermitian(p) == A, "factory tests agree");
    bool real = true; for (int k = 1; k < NS; ++k) for (int j = 0; j < 2; ++j) real = real & (d.c[k][j][1] == 0); sx_assert(p.real_factors() == real, "real factor test");
    Polynomial re = p.Real(f), im = p.Imaginary(f); sx_assert(canonical(f, re) && canonical(f, im), "real and imaginary parts are canonical"); Den dr = den(re), di = den(im); sx_assert(dr.times(2, 0) == d + dc, "real part"); sx_assert(di.times(0, 2) == d + dc.times(-1, 0), "imaginary part"); sx_assert(re.is_hermitian(tab, 1.0) && im.is_hermitian(tab, 1.0), "parts are Hermitian");
    bool same = p == p; sx_assert(same && !(p != p), "equality is reflexive"); sx_observe("h", H); sx_observe("sz", re.size() * 10 + im.size()); sx_reach("end"); }); }
extern "C" void h_scale() { World w; WorldSeq ws; with_factory(sx_choose(0, 1, "order") * 3, w, ws, [&](auto& f, SymbolTable& tab) { Den d; Polynomial p = f(terms(sx_choose(0, 2, "n"), 2, d)); long re = sx_range(-2, 2, "kr"), im = sx_range(-2, 2, "ki"); cd k{(double) re, (double) im}; Den e = d.times(re, im);
    ok(f, p * k, e, "scaled polynomial is canonical", "scaled polynomial has scaled value"); ok(f, f.scale(p, k), e, "factory scaling is canonical", "factory scaling has scaled value"); Polynomial r = p; r *= k; sx_assert(r == p * k, "in-place scaling"); sx_observe("n", r.size()); sx_reach("end"); }); }
extern "C" void h_add() { World w; WorldSeq ws; int which = sx_choose(0, 3, "order"); with_factory(which, w, ws, [&](auto& f, SymbolTable& tab) { Den a, b; int M = sx_param("n", 2); Polynomial p = f(terms(sx_choose(0, M, "na"), 1, a)), q = f(terms(sx_choose(0, sx_param("m", 2), "nb"), 1, b)); Den s = a + b;
    ok(f, f.sum(p, q), s, "sum is canonical", "sum has summed value"); Polynomial r = p; f.append(r, q); ok(f, r, s, "appended polynomial is canonical", "appended polynomial has summed value"); if (which == 0) { sx_assert(p + q == r, "operator+"); Polynomial t = p; t += q; sx_assert(t == r, "operator+="); }
    bool eq = a == b; sx_assert((p == q) == eq && (p != q) == !eq, "equal exactly when equal value"); sx_assert(p.is_conjugate(tab, q) == (a.conj() == b), "conjugate test");
    PolynomialOrdering o{f}; PolynomialOrderingWithCoefficients oc{f}; bool pq = oc(p, q), qp = oc(q, p); sx_assert(!(pq && qp) && ((!pq && !qp) == eq), "coefficient ordering separates distinct polynomials"); sx_assert(!(o(p, q) && o(q, p)) && !o(p, p) && !oc(p, p), "ordering is asymmetric");
    sx_observe("n", r.size()); sx_reach("end"); }); }
extern "C" void h_mono() { World w; WorldSeq ws; with_factory(sx_choose(0, 1, "order") * 3, w, ws, [&](auto& f, SymbolTable& tab) { Term x = term(1), y = term(1); sx_assume(!((herm(x.id) | anti(x.id)) & x.conj) & !((herm(y.id) | anti(y.id)) & y.conj)); Den a, b; a.add(x.id, x.conj, 4 * x.re, 4 * x.im); b.add(y.id, y.conj, 4 * y.re, 4 * y.im);
    ok(f, Polynomial{mono(x)}, a, "single term is canonical", "single term value"); Monomial back = (Monomial) Polynomial{mono(x)}; Den c; c.add(back.id, back.conjugated, q(back.factor.real()), q(back.factor.imag())); sx_assert(c == a, "polynomial to monomial");
    ok(f, f.sum(mono(x), mono(y)), a + b, "sum of two monomials is canonical", "sum of two monomials has summed value"); Den d; Polynomial p = f(terms(sx_choose(0, sx_param("n", 2), "n"), 1, d)); ok(f, f.sum(p, mono(y)), d + b, "sum with monomial is canonical", "sum with monomial has summed value"); sx_observe("n", p.size()); sx_reach("end"); }); }
extern "C" void h_degree() { World w; WorldSeq ws; with_factory(sx_choose(0, 3, "order"), w, ws, [&](auto& f, SymbolTable& tab) { Den d; Polynomial p = f(terms(sx_choose(0, 3, "n"), 1, d)); size_t deg = 0; for (auto& m : p) if (m.id > 1 && tab[m.id].has_sequence()) deg = std::max(deg, tab[m.id].sequence().size()); sx_assert(f.maximum_degree(p) == deg, "degree is that of the longest word"); sx_observe("d", deg); sx_reach("end"); }); }
extern "C" void h_presort() { World w; WorldSeq ws; with_factory(sx_choose(0, 3, "order"), w, ws, [&](auto& f, SymbolTable& tab) { Den d; int n = sx_choose(0, 3, "n"); auto s = terms(n, 1, d); auto t = s; auto o = f.presort_data(s); bool ok = (int) o.size() == n && s.size() == o.size(); unsigned seen = 0; for (int i = 0; ok && i < n; ++i) { ok = o[i] < (size_t) n && !((seen >> o[i]) & 1); seen |= 1u << o[i]; ok = ok && s[i].id == t[o[i]].id && s[i].conjugated == t[o[i]].conjugated && s[i].factor == t[o[i]].factor; if (ok && i) ok = !f.less(s[i], s[i - 1]); } sx_assert(ok, "presorting permutes into order"); sx_reach("end"); }); }
