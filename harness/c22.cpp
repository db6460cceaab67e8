// C22: substitution acts entry by entry; recorded structure is that of the entries; matrix bases and numeric matrices reproduce the entries
#include "poly.hpp"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"
#include "dictionary/raw_polynomial.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix/substituted_matrix.h"
#include "matrix/value_matrix.h"
#include "matrix_system/matrix_system.h"
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <set>
using namespace po;
namespace {
constexpr auto ST = Multithreading::MultiThreadPolicy::Never;
using M2 = std::vector<std::vector<Den>>;
struct Sys { MatrixSystem ms; SymbolTable& t; Sys() : ms{std::make_unique<Context>(2), 1.0}, t{ms.Symbols()} { t.create(true, true); t.create(true, false); t.create(false, true); t.create(true, true); } };
Den den1(const Monomial& m) { Den d; d.add(m.id, m.conjugated, q(m.factor.real()), q(m.factor.imag())); return d; }
Den at(const SymbolicMatrix& m, size_t i, size_t j) { if (m.is_monomial()) return den1(dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j)); return den(dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)); }
template<class F> void each(const SymbolicMatrix& m, size_t i, size_t j, F f) { if (m.is_monomial()) f(dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j)); else for (auto& x : dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)) f(x); }
bool selfadj(const M2& x) { bool r = true; for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j <= i; ++j) r = r & (x[i][j] == x[j][i].conj()); return r; }
// the recorded structure is that of the entries
void judge(const SymbolTable& t, const SymbolicMatrix& m, const M2& x, bool exact) { size_t n = x.size(); sx_assert(m.Dimension() == n, "dimension"); if (m.Dimension() != n) return; bool ok = true, cc = false; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { ok = ok & (at(m, i, j) == x[i][j]); each(m, i, j, [&](const Monomial& e) { cc = cc | ((e.id != 0) & (q(e.factor.imag()) != 0)); }); } sx_assert(ok, "every entry is as defined"); bool h = selfadj(x); if (m.Hermitian()) sx_assert(h, "a matrix declared Hermitian equals its conjugate transpose"); else if (exact) sx_assert(!h, "a Hermitian matrix is declared so");
    sx_assert(m.HasComplexCoefficients() == cc, "complex coefficients are declared exactly when present");
    bool used[NS] = {}, re[NS] = {}, im[NS] = {}; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { bool any = false; each(m, i, j, [&](const Monomial& e) { any = true; for (int k = 0; k < NS; ++k) used[k] = used[k] | (e.id == k); }); if (m.is_monomial()) each(m, i, j, [&](const Monomial& e) { for (int k = 1; k < NS; ++k) { re[k] = re[k] | ((e.id == k) & !anti(k)); im[k] = im[k] | ((e.id == k) & !herm(k)); } }); else for (int k = 1; k < NS; ++k) { auto& c = x[i][j].c[k]; bool p = (c[0][0] + c[1][0] != 0) | (c[0][1] + c[1][1] != 0), d = (c[0][0] - c[1][0] != 0) | (c[0][1] - c[1][1] != 0); re[k] = re[k] | (p & !anti(k)); im[k] = im[k] | (d & !herm(k)); } }
    bool inc = true, bas = true; size_t cu = 0, cr = 0, ci = 0; auto& S = m.IncludedSymbols(); auto& R = m.RealBasisIndices(); auto& I = m.ImaginaryBasisIndices(); for (int k = 0; k < NS; ++k) { inc = inc & (S.contains(k) == used[k]); cu += used[k]; auto [rk, ik] = t[k].basis_key(); if (k == 0) continue; if (rk >= 0) { bas = bas & (R.contains(rk) == re[k]); cr += re[k]; } if (ik >= 0) { bas = bas & (I.contains(ik) == im[k]); ci += im[k]; } } sx_assert(inc & (S.size() == cu), "included symbols are exactly those appearing"); sx_assert(bas & (R.size() == cr) & (I.size() == ci), "basis elements are exactly those appearing"); sx_assert(m.HasComplexBasis() == (ci != 0), "complex basis is declared exactly when present"); }
// entry = sum over real elements + sum over imaginary elements, so each element must hold the coefficient of its symbol's part
template<class V> void elements(const SymbolTable& t, const M2& x, const V& re, const V& im, const char* what, bool real_only) { bool ok = true; size_t n = x.size(); for (int k = 1; k < NS; ++k) { auto [rk, ik] = t[k].basis_key(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { auto& c = x[i][j].c[k]; if (rk >= 0) { cd v = re(rk, i, j); ok = ok & (q(v.real()) == c[0][0] + c[1][0]) & (q(v.imag()) == c[0][1] + c[1][1]); } if (ik >= 0) { cd v = im(ik, i, j); ok = ok & (q(v.imag()) == c[0][0] - c[1][0]) & (q(v.real()) == c[1][1] - c[0][1]); } } } sx_assert(ok, what); }
template<class B> void cell(const SymbolTable& t, const M2& x, const B& b, const char* what) { auto [re, im] = b(); sx_assert(re.size() == t.Basis.RealSymbolCount() && im.size() == t.Basis.ImaginarySymbolCount(), "one basis element per part of each symbol"); using V = std::function<cd(long, size_t, size_t)>; auto* r = &re; auto* m = &im; elements<V>(t, x, [r](long k, size_t i, size_t j) -> cd { return (*r)[k].coeff(i, j); }, [m](long k, size_t i, size_t j) -> cd { return (*m)[k].coeff(i, j); }, what, false); }
template<class B> void mono(const SymbolTable& t, const M2& x, const B& b, const char* what) { auto [re, im] = b(); size_t n = x.size(); sx_assert((size_t) re.rows() == t.Basis.RealSymbolCount() && (size_t) im.rows() == t.Basis.ImaginarySymbolCount() && (size_t) re.cols() == n * n && (size_t) im.cols() == n * n, "shape of monolithic basis"); using V = std::function<cd(long, size_t, size_t)>; auto* r = &re; auto* m = &im; elements<V>(t, x, [r, n](long k, size_t i, size_t j) -> cd { return r->coeff(k, j * n + i); }, [m, n](long k, size_t i, size_t j) -> cd { return m->coeff(k, j * n + i); }, what, false); }
template<class B> bool refused(const B& b) { try { (void) b(); return false; } catch (const errors::bad_basis_error&) { return true; } }
void bases(const SymbolTable& t, const SymbolicMatrix& m, const M2& x, int which) { auto& b = m.Basis; if (m.HasComplexCoefficients()) { bool r = which == 0 ? refused(b.Dense) : which == 1 ? refused(b.Sparse) : which == 2 ? refused(b.DenseMonolithic) : refused(b.SparseMonolithic); sx_assert(r, "a real basis of a matrix with complex coefficients is refused"); sx_reach("refused"); }
    else if (which == 0) cell(t, x, b.Dense, "dense basis reproduces the entries"); else if (which == 1) cell(t, x, b.Sparse, "sparse basis reproduces the entries"); else if (which == 2) mono(t, x, b.DenseMonolithic, "dense monolithic basis reproduces the entries"); else mono(t, x, b.SparseMonolithic, "sparse monolithic basis reproduces the entries");
    if (which == 0) cell(t, x, b.DenseComplex, "dense complex basis reproduces the entries"); else if (which == 1) cell(t, x, b.SparseComplex, "sparse complex basis reproduces the entries"); else if (which == 2) mono(t, x, b.DenseMonolithicComplex, "dense monolithic complex basis reproduces the entries"); else mono(t, x, b.SparseMonolithicComplex, "sparse monolithic complex basis reproduces the entries"); }
struct E { int id; bool cj; long re, im; };
E entry(long lim, bool sym, bool conj = true) { E e; e.id = (int) sx_choose(0, NS - 1, "id"); if (e.id == 0) return E{0, false, 0, 0}; e.cj = conj && e.id > 1 && sx_choose(0, 1, "conj"); e.re = sym ? sx_range(-lim, lim, "re") : 2; e.im = sym ? sx_range(-lim, lim, "im") : -1; return e; }
Monomial mm(const E& e) { return Monomial{(symbol_name_t) e.id, cd{(double) e.re, (double) e.im}, e.cj}; }
// 2x2 sources: 0 Hermitian monomial, 1 monomial, 2 Hermitian polynomial, 3 polynomial
std::unique_ptr<SymbolicMatrix> source(Sys& s, int kind, M2& x, long lim) { auto& f = s.ms.polynomial_factory(); x.assign(2, std::vector<Den>(2)); E a = entry(lim, true), b = entry(lim, kind < 2, false); if (kind == 0) { b.im = 0; if (anti(b.id)) { b.im = b.re; b.re = 0; } if (b.id == 2 || b.id == 5) { b.id = 3; } E c = a; c.cj = !a.cj; c.im = -a.im; std::vector<Monomial> v{mm(b), mm(c), mm(a), Monomial{3, 1.0, false}}; x[0][0] = den1(v[0]); x[1][0] = den1(v[1]); x[0][1] = den1(v[2]); x[1][1] = den1(v[3]); return std::make_unique<MonomialMatrix>(s.ms.Context(), s.t, 1.0, std::make_unique<SquareMatrix<Monomial>>(2, std::move(v)), true); }
    if (kind == 1) { std::vector<Monomial> v{mm(b), Monomial{5, cd{0.0, 1.0}, true}, mm(a), Monomial{2, 0.0, true}}; x[0][0] = den1(v[0]); x[1][0] = den1(v[1]); x[0][1] = den1(v[2]); return std::make_unique<MonomialMatrix>(s.ms.Context(), s.t, 1.0, std::make_unique<SquareMatrix<Monomial>>(2, std::move(v)), false); }
    Polynomial p = f({mm(a), mm(b)}), r = kind == 2 ? p.conjugate(s.t) : f({mm(a), Monomial{2, 1.0, false}}), d = f({Monomial{3, 2.0, false}, Monomial{4, cd{0.0, 1.0}, false}}); std::vector<Polynomial> v{d, r, p, Polynomial::Zero()}; x[0][0] = den(d); x[1][0] = den(r); x[0][1] = den(p); return std::make_unique<PolynomialMatrix>(s.ms.Context(), s.t, 1.0, std::make_unique<SquareMatrix<Polynomial>>(2, std::move(v))); }
}
extern "C" void h_basis() { Sys s; M2 x; int kind = sx_choose(sx_param("first", 0), sx_param("last", 3), "kind"); auto m = source(s, kind, x, 2); sx_observe("h", m->Hermitian()); judge(s.t, *m, x, kind >= 2); bases(s.t, *m, x, sx_choose(0, 3, "basis")); sx_reach("end"); }
// a rulebook of one or two rules, completed; every entry of the new matrix is the reduction of the old one
extern "C" void h_substitute() { Sys s; M2 x; int kind = sx_choose(sx_param("first", 0), sx_param("last", 3), "kind"); auto& f = s.ms.polynomial_factory(); auto rb = std::make_unique<MomentRulebook>(s.ms); int nr = sx_choose(0, sx_param("rules", 2), "rules"); bool value[NS] = {}; long vr[NS] = {}, vi[NS] = {}; bool plain = true; for (int i = 0; i < nr; ++i) { int id = (int) sx_choose(2, NS - 1, "lhs"); int form = (int) sx_choose(0, sx_param("forms", 3), "form"); Polynomial::storage_t p{Monomial{(symbol_name_t) id, 1.0, false}}; if (value[id]) return; value[id] = true; if (form == 0) { long re = anti(id) ? 0 : sx_concretize(sx_range(-1, 2, "vre")), im = herm(id) ? 0 : sx_concretize(sx_range(-1, 1, "vim")); vr[id] = re; vi[id] = im; if (re || im) p.push_back(Monomial{1, cd{(double) -re, (double) -im}, false}); } else { plain = false; int o = form == 1 ? 3 : form == 2 ? 2 : 4; p.push_back(Monomial{(symbol_name_t) o, form == 2 ? id == 2 ? cd{-1.0, 0.0} : cd{0.0, 1.0} : cd{-2.0, 0.0}, form == 2}); if (form == 3) p.push_back(Monomial{1, 1.0, false}); } rb->add_raw_rule(f(std::move(p))); }
    try { rb->complete(); } catch (const errors::invalid_moment_rule&) { return; } auto m = source(s, kind, x, 1); M2 y = x; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { if (m->is_monomial()) { y[i][j] = den(rb->reduce(dynamic_cast<const MonomialMatrix&>(*m).SymbolMatrix(i, j))); if (rb->is_monomial()) sx_assert(den1(rb->reduce_monomial(dynamic_cast<const MonomialMatrix&>(*m).SymbolMatrix(i, j))) == y[i][j], "both reductions agree"); } else y[i][j] = den(rb->reduce(dynamic_cast<const PolynomialMatrix&>(*m).SymbolMatrix(i, j))); if (plain) { Den z; for (int k = 1; k < NS; ++k) for (int c = 0; c < 2; ++c) { long a = x[i][j].c[k][c][0], b = x[i][j].c[k][c][1]; if (!value[k]) { z.c[k][c][0] += a; z.c[k][c][1] += b; } else { long v = vr[k], w = c ? -vi[k] : vi[k]; z.c[1][0][0] += a * v - b * w; z.c[1][0][1] += a * w + b * v; } } sx_assert(z == y[i][j], "values are put in place of the moments"); } }
    bool whole = rb->is_monomial(); auto r = rb->create_substituted_matrix(s.t, *m, ST); sx_assert(rb->in_use(), "rules are marked as used"); sx_assert(r->is_monomial() == (m->is_monomial() && whole), "monomial rules keep monomial matrices monomial"); judge(s.t, *r, y, !r->is_monomial()); if (m->Hermitian()) sx_assert(r->Hermitian(), "rewriting keeps a Hermitian matrix Hermitian"); auto* sub = dynamic_cast<SubstitutedMatrix*>(r.get()); sx_assert(sub && &sub->source_matrix == m.get() && &sub->rules == rb.get(), "source and rules are recorded"); bool same = true; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) same = same & (at(*m, i, j) == x[i][j]); sx_assert(same, "source is unchanged"); if (!sx_param("nobasis", 1)) bases(s.t, *r, y, 1); sx_observe("h", r->Hermitian()); sx_reach("end"); }
namespace { struct Num { bool sp, cx; Eigen::MatrixXd d; Eigen::MatrixXcd c; Eigen::SparseMatrix<double> sd; Eigen::SparseMatrix<cd> sc; long re[2][2], im[2][2]; };
std::unique_ptr<ValueMatrix> number(Num& N, Context& ctx, SymbolTable& t, long lim, int structure) { N.sp = sx_choose(0, 1, "sparse"); N.cx = sx_choose(0, 1, "complex"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { if (structure == 1 && i > j) { N.re[i][j] = N.re[j][i]; N.im[i][j] = -N.im[j][i]; } else if (structure == 2 && i > j) { N.re[i][j] = -N.re[j][i]; N.im[i][j] = N.im[j][i]; } else { N.re[i][j] = structure == 2 && i == j ? 0 : sx_range(-lim, lim, "re"); N.im[i][j] = N.cx && !(structure == 1 && i == j) ? sx_range(-lim, lim, "im") : 0; } }
    if (!N.cx) { if (!N.sp) { N.d.resize(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) N.d(i, j) = (double) N.re[i][j]; return std::make_unique<ValueMatrix>(ctx, t, 1.0, N.d); } N.sd.resize(2, 2); for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) if (N.re[i][j] != 0) N.sd.insert(i, j) = (double) N.re[i][j]; N.sd.makeCompressed(); return std::make_unique<ValueMatrix>(ctx, t, 1.0, N.sd); }
    if (!N.sp) { N.c.resize(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) N.c(i, j) = cd{(double) N.re[i][j], (double) N.im[i][j]}; return std::make_unique<ValueMatrix>(ctx, t, 1.0, N.c); } N.sc.resize(2, 2); for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) if ((N.re[i][j] != 0) | (N.im[i][j] != 0)) N.sc.insert(i, j) = cd{(double) N.re[i][j], (double) N.im[i][j]}; N.sc.makeCompressed(); return std::make_unique<ValueMatrix>(ctx, t, 1.0, N.sc); } }
// matrices of numbers: verbatim, and classified by their entries
extern "C" void h_value() { World w; Num N; auto m = number(N, w.ctx, w.tab, 1, (int) sx_choose(0, 2, "structure")); M2 x(2, std::vector<Den>(2)); bool ah = true; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { x[i][j].add(1, false, 4 * N.re[i][j], 4 * N.im[i][j]); ah = ah & (N.re[i][j] == -N.re[j][i]) & (N.im[i][j] == N.im[j][i]); } judge(w.tab, *m, x, true); bool zero = true; for (auto& r : x) for (auto& e : r) zero = zero & e.zero(); if (m->AntiHermitian()) sx_assert(ah, "a matrix declared anti-Hermitian is"); if (N.cx) sx_assert(m->AntiHermitian() == ah, "an anti-Hermitian complex matrix is declared so"); else sx_assert(m->AntiHermitian() == zero, "a real matrix is declared anti-Hermitian when zero"); sx_observe("h", m->Hermitian()); bases(w.tab, *m, x, sx_choose(0, 3, "basis")); sx_reach("end"); }
namespace { using S = std::vector<long>; Den word(SymbolTable& t, const OperatorSequence& s, bool& found) { Den d; auto r = t.where(s); found = r.found(); if (!r.found()) return d; d.add((long) r->Id(), r.is_conjugated, 4, 0); return d; } }
// product with a word or polynomial acts entry by entry
struct KDen { std::vector<std::array<long, 4>> c; }; // per symbol: plain and conjugate coefficient
extern "C" void h_product() { Context ctx{2}; SymbolTable t{ctx}; ByIDPolynomialFactory f{t}; Num N; if (sx_choose(0, 1, "registered")) { t.merge_in(OperatorSequence({1, 0, 1}, ctx)); t.merge_in(OperatorSequence({1, 0}, ctx)); } int form = (int) sx_choose(0, sx_param("forms", 2), "form"); auto m = number(N, ctx, t, 1, (int) sx_choose(0, form == 0 ? 2 : 1, "structure")); int len = sx_choose(0, 2, "len"); std::vector<OperatorSequence> words; std::vector<long> wr, wi; int terms = form == 0 ? 1 : form; sequence_storage_t raw[2]; int qs[2] = {0, 0}; for (int k = 0; k < terms; ++k) { int more = k && len == 0 ? (int) sx_choose(0, 1, "second") : 1; for (int i = 0; i < (k ? more : len); ++i) raw[k].push_back((oper_name_t) sx_choose(0, 1, "op")); if (len == 2 && k == 0 && sx_choose(0, 1, "long")) raw[k].push_back(raw[k][0]); qs[k] = (int) sx_choose(0, k ? 0 : form ? 1 : 3, "sign"); static const long WR[5] = {1, 0, -2, 1, 0}, WI[5] = {0, -1, 0, 1, 0}; static const int W2[3] = {1, 2, 4}; int wt = k ? 3 : form == 2 && !sx_param("sides", 0) ? W2[sx_choose(0, 2, "weight")] : (int) sx_choose(0, 4, "weight"); wr.push_back(WR[wt]); wi.push_back(WI[wt]); words.emplace_back(sequence_storage_t{raw[k]}, ctx, static_cast<SequenceSignType>(qs[k])); } bool left = sx_param("sides", 0) || !N.cx ? (bool) sx_choose(0, 1, "side") : form == 1; std::unique_ptr<SymbolicMatrix> r; if (form == 0) r = left ? m->pre_multiply(words[0], cd{(double) wr[0], (double) wi[0]}, f, t, ST) : m->post_multiply(words[0], cd{(double) wr[0], (double) wi[0]}, f, t, ST); else { RawPolynomial p; for (int k = 0; k < terms; ++k) p.emplace_back(words[k], cd{(double) wr[k], (double) wi[k]}); r = left ? m->pre_multiply(p, f, t, ST) : m->post_multiply(p, f, t, ST); }
    size_t n = t.size(); auto build = [&](auto get) { std::vector<std::array<long, 4>> c(n, {0, 0, 0, 0}); get(c); return c; }; auto put = [&](std::vector<std::array<long, 4>>& c, size_t id, bool cj, long re, long im) { if (id == 0) return; if (t[id].is_hermitian()) cj = false; c[id][cj ? 2 : 0] += re; c[id][cj ? 3 : 1] += im; };
    bool ok = true, reg = true; std::vector<std::array<long, 4>> X[2][2], Y[2][2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { Y[i][j] = build([&](auto& c) { each(*r, i, j, [&](const Monomial& e) { put(c, e.id, e.conjugated, q(e.factor.real()), q(e.factor.imag())); }); }); X[i][j] = build([&](auto& c) { for (int k = 0; k < terms; ++k) { long a = wr[k], b = wi[k]; if (a == 0 && b == 0) continue; for (int z = 0; z < qs[k]; ++z) { long u = a; a = -b; b = u; } OperatorSequence pos{sequence_storage_t{raw[k]}, ctx}; auto w = t.where(pos); if (!w.found()) { reg = false; continue; } put(c, w->Id(), w.is_conjugated, 4 * (a * N.re[i][j] - b * N.im[i][j]), 4 * (a * N.im[i][j] + b * N.re[i][j])); } }); for (size_t k = 1; k < n; ++k) for (int z = 0; z < 4; ++z) ok = ok & (X[i][j][k][z] == Y[i][j][k][z]); }
    sx_assert(reg, "every word used is registered"); sx_assert(ok, "every entry is multiplied"); bool h = true; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (size_t k = 1; k < n; ++k) { auto& a = X[i][j][k]; auto& b = X[j][i][k]; if (t[k].is_hermitian()) h = h & (a[0] == b[0]) & (a[1] == -b[1]); else h = h & (a[0] == b[2]) & (a[1] == -b[3]); } if (r->Hermitian()) sx_assert(h, "a product declared Hermitian equals its conjugate transpose"); sx_observe("h", r->Hermitian()); sx_reach("end"); }
