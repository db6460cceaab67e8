// C28: polynomials and rulebooks exported to real and imaginary coordinates denote the same values, and coordinates convert back
#include "rules.hpp"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/rules/moment_rulebook_to_basis.h"
#include <Eigen/SparseCore>
namespace {
// coordinates by definition: a_k for every symbol with a real part, b_k for every symbol with an imaginary part, in order of symbols
struct Ax { int ra[NS], ib[NS], nr = 0, ni = 0; Ax() { for (int k = 0; k < NS; ++k) ra[k] = ib[k] = -1; for (int k = 1; k < NS; ++k) { if (!anti(k)) ra[k] = nr++; if (!herm(k)) ib[k] = ni++; } } };
long q4(double x) { return q(x); }
// 4 x coefficients of a_k and b_k in the real and in the imaginary part of the value: X = a + ib
struct Co { long a[NS][2], b[NS][2]; };
Co co(const Den& d) { Co o; for (int k = 0; k < NS; ++k) { long r = d.c[k][0][0], i = d.c[k][0][1], r2 = d.c[k][1][0], i2 = d.c[k][1][1]; /* (r + i.i)(a + ib) + (r2 + i.i2)(a - ib) */ o.a[k][0] = r + r2; o.a[k][1] = i + i2; o.b[k][0] = i2 - i; o.b[k][1] = r - r2; if (anti(k)) o.a[k][0] = o.a[k][1] = 0; if (herm(k)) o.b[k][0] = o.b[k][1] = 0; } return o; }
void eq_vec(const basis_vec_t& v, int n, const Ax& A, bool im, const Co& c, int part, const char* what) { sx_assert(v.size() == n, "vector has one entry per coordinate"); if (v.size() != n) return; std::vector<long> got(n, 0); std::vector<int> cnt(n, 0); for (basis_vec_t::InnerIterator it(v); it; ++it) { sx_assert(it.index() >= 0 && it.index() < n, "entry within range"); if (it.index() < 0 || it.index() >= n) return; got[it.index()] += q4(it.value()); ++cnt[it.index()]; } for (int i = 0; i < n; ++i) sx_assert(cnt[i] <= 1, "one entry per coordinate"); for (int k = 1; k < NS; ++k) { int at = im ? A.ib[k] : A.ra[k]; if (at >= 0) sx_assert(got[at] == (im ? c.b[k][part] : c.a[k][part]), what); } }
void eq_cvec(const complex_basis_vec_t& v, int n, const Ax& A, bool im, const Co& c, const char* what) { sx_assert(v.size() == n, "vector has one entry per coordinate"); if (v.size() != n) return; std::vector<long> re(n, 0), ig(n, 0); std::vector<int> cnt(n, 0); for (complex_basis_vec_t::InnerIterator it(v); it; ++it) { sx_assert(it.index() >= 0 && it.index() < n, "entry within range"); if (it.index() < 0 || it.index() >= n) return; re[it.index()] += q4(it.value().real()); ig[it.index()] += q4(it.value().imag()); ++cnt[it.index()]; } for (int i = 0; i < n; ++i) sx_assert(cnt[i] <= 1, "one entry per coordinate"); for (int k = 1; k < NS; ++k) { int at = im ? A.ib[k] : A.ra[k]; if (at >= 0) sx_assert((re[at] == (im ? c.b[k][0] : c.a[k][0])) & (ig[at] == (im ? c.b[k][1] : c.a[k][1])), what); } }
void eq_trip(const std::vector<Eigen::Triplet<double>>& t, const Ax& A, const Co& c, long rowr, long rowi, long off, bool want_re, bool want_im) { std::vector<long> g[2]; g[0].assign(A.nr + A.ni, 0); g[1] = g[0]; for (auto& x : t) { bool r = want_re && x.row() == rowr, i = want_im && x.row() == rowi + off; sx_assert(r || i, "row of the exported polynomial"); sx_assert(x.col() >= 0 && x.col() < A.nr + A.ni, "entry within range"); if (!(r || i) || x.col() < 0 || x.col() >= A.nr + A.ni) return; g[r ? 0 : 1][x.col()] += q4(x.value()); } for (int k = 1; k < NS; ++k) for (int p = 0; p < 2; ++p) { bool w = p ? want_im : want_re; if (A.ra[k] >= 0) sx_assert(g[p][A.ra[k]] == (w ? c.a[k][p] : 0), "exported row has the coefficients of the polynomial"); if (A.ib[k] >= 0) sx_assert(g[p][A.nr + A.ib[k]] == (w ? c.b[k][p] : 0), "exported row has the coefficients of the polynomial"); } }
}
extern "C" void h_vec() { World w; WorldSeq ws; with_factory(sx_choose(0, 3, "factory"), w, ws, [&](const PolynomialFactory& f, const SymbolTable& tab) { Ax A; Den d; Polynomial p = f(terms(sx_choose(0, sx_param("n", 2), "size"), sx_param("lim", 1), d)); Co c = co(d); PolynomialToBasisVec conv{tab, 1.0}; PolynomialToComplexBasisVec cc{tab, 1.0};
    sx_assert((int) tab.Basis.RealSymbolCount() == A.nr && (int) tab.Basis.ImaginarySymbolCount() == A.ni, "number of coordinates");
    switch (sx_choose(0, 4, "what")) {
        case 0: { auto v = conv(p); eq_vec(v.real_part.real, A.nr, A, false, c, 0, "real part of the polynomial"); eq_vec(v.real_part.imaginary, A.ni, A, true, c, 0, "real part of the polynomial"); eq_vec(v.imaginary_part.real, A.nr, A, false, c, 1, "imaginary part of the polynomial"); eq_vec(v.imaginary_part.imaginary, A.ni, A, true, c, 1, "imaginary part of the polynomial"); ComplexBasisVector x{v}; eq_cvec(x.real, A.nr, A, false, c, "parts join to the complex vector"); eq_cvec(x.imaginary, A.ni, A, true, c, "parts join to the complex vector"); break; }
        case 1: { auto v = conv.Real(p); eq_vec(v.real, A.nr, A, false, c, 0, "real part of the polynomial"); eq_vec(v.imaginary, A.ni, A, true, c, 0, "real part of the polynomial"); auto u = conv.Imaginary(p); eq_vec(u.real, A.nr, A, false, c, 1, "imaginary part of the polynomial"); eq_vec(u.imaginary, A.ni, A, true, c, 1, "imaginary part of the polynomial"); break; }
        case 2: { auto v = cc(p); eq_cvec(v.real, A.nr, A, false, c, "complex vector has the coefficients of the polynomial"); eq_cvec(v.imaginary, A.ni, A, true, c, "complex vector has the coefficients of the polynomial"); break; }
        case 3: { long r = sx_choose(-1, 1, "row"), i = sx_choose(-1, 1, "imrow"); std::vector<Eigen::Triplet<double>> a, b; bool merge = sx_choose(0, 1, "merge"); if (merge) { conv.add_triplet_row(p, r, i, a); eq_trip(a, A, c, r, i, A.nr, r >= 0, i >= 0); } else { conv.add_triplet_row(p, r, i, a, b); eq_trip(a, A, c, r, -1, 0, r >= 0, false); eq_trip(b, A, c, -1, i, 0, false, i >= 0); } break; }
        default: { if (p.empty()) break; Polynomial bad{Monomial{(symbol_name_t) NS, cd{1, 0}, false}}; int n = 0; try { (void) conv(bad); } catch (const Moment::errors::unknown_symbol&) { ++n; } try { (void) conv.Real(bad); } catch (const Moment::errors::unknown_symbol&) { ++n; } try { (void) cc(bad); } catch (const Moment::errors::unknown_symbol&) { ++n; } try { std::vector<Polynomial> m{p, bad}; (void) cc(std::span<const Polynomial>(m)); } catch (const Moment::errors::unknown_symbol&) { ++n; } try { std::vector<Eigen::Triplet<double>> t; conv.add_triplet_row(bad, 0, 1, t); } catch (const Moment::errors::unknown_symbol&) { ++n; } sx_assert(n == 5, "unknown symbol is refused"); break; } }
    sx_observe("n", p.size()); sx_reach("end"); }); }
// one column per polynomial
extern "C" void h_monolith() { World w; WorldSeq ws; with_factory(sx_choose(0, 3, "factory"), w, ws, [&](const PolynomialFactory& f, const SymbolTable& tab) { Ax A; int N = sx_choose(0, sx_param("polys", 2), "polynomials"); std::vector<Polynomial> ps; std::vector<Co> cs; for (int i = 0; i < N; ++i) { Den d; ps.push_back(f(terms(i ? 1 : sx_choose(0, 2, "size"), 1, d))); cs.push_back(co(d)); } auto m = PolynomialToComplexBasisVec{tab, 1.0}(std::span<const Polynomial>(ps)); sx_assert(m.real.rows() == A.nr && m.imaginary.rows() == A.ni && m.real.cols() == N && m.imaginary.cols() == N, "one row per coordinate and one column per polynomial"); if (m.real.rows() != A.nr || m.imaginary.rows() != A.ni || m.real.cols() != N || m.imaginary.cols() != N) return;
    for (int col = 0; col < N; ++col) for (int im = 0; im < 2; ++im) { auto& mat = im ? m.imaginary : m.real; int n = im ? A.ni : A.nr; std::vector<long> re(n, 0), ig(n, 0); for (complex_matrix_t::InnerIterator it(mat, col); it; ++it) { sx_assert(it.row() >= 0 && it.row() < n, "entry within range"); if (it.row() < 0 || it.row() >= n) return; re[it.row()] += q4(it.value().real()); ig[it.row()] += q4(it.value().imag()); } for (int k = 1; k < NS; ++k) { int at = im ? A.ib[k] : A.ra[k]; if (at >= 0) sx_assert((re[at] == (im ? cs[col].b[k][0] : cs[col].a[k][0])) & (ig[at] == (im ? cs[col].b[k][1] : cs[col].a[k][1])), "column has the coefficients of its polynomial"); } }
    sx_observe("n", N); sx_reach("end"); }); }
// coordinates to polynomial: real coordinates multiply the Hermitian part (X + X*)/2, imaginary ones the anti-Hermitian part (X - X*)/2
extern "C" void h_back() { World w; WorldSeq ws; with_factory(sx_choose(0, 3, "factory"), w, ws, [&](const PolynomialFactory& f, const SymbolTable& tab) { Ax A; bool cx = sx_choose(0, 1, "complex"); int grow = sx_choose(0, 1, "toolong"); int nr = A.nr + grow, ni = A.ni + grow; long lim = sx_param("lim", 2); basis_vec_t r(nr), i(ni); complex_basis_vec_t cr(nr), ci(ni); Den want; bool bad = false; int left = sx_param("n", 2);
    for (int k = 0; k < nr + ni && left > 0; ++k) { bool im = k >= nr; int at = im ? k - nr : k; if (!sx_choose(0, 1, "entry")) continue; --left; long x = sx_range(-lim, lim, "re"), y = cx ? sx_range(-lim, lim, "im") : 0; if (cx) { (im ? ci : cr).insert(at) = cd{(double) x, (double) y}; } else (im ? i : r).insert(at) = (double) x; int s = -1; for (int t = 1; t < NS; ++t) if ((im ? A.ib[t] : A.ra[t]) == at) s = t; if (s < 0) { bad = true; continue; } if (herm(s) || anti(s)) want.add(s, false, 4 * x, 4 * y); else { want.add(s, false, 2 * x, 2 * y); want.add(s, true, im ? -2 * x : 2 * x, im ? -2 * y : 2 * y); } }
    bool threw = false; Polynomial p; try { p = cx ? ComplexBasisVecToPolynomial{f}(cr, ci) : BasisVecToPolynomial{f}(r, i); } catch (const Moment::errors::unknown_basis_elem&) { threw = true; } sx_assert(threw == bad, "coordinate outside the basis is refused"); if (threw) { sx_reach("refused"); return; } sx_assert(den(p) == want, "polynomial has the given coordinates"); sx_assert(canonical(f, p), "polynomial is canonical"); sx_observe("n", p.size()); sx_reach("end"); }); }
// rulebook as a matrix: values are unchanged by it exactly when they satisfy the rules
extern "C" void h_rules() { MatrixSystem ms{std::make_unique<Context>(2), 1024.0}; auto& tab = ms.Symbols(); set_kinds(tab, sx_choose(0, sx_param("layouts", 4) - 1, "layout")); auto& f = ms.polynomial_factory(); int N = sx_param("rules", 1), M = sx_param("n", 3); MomentRulebook rb{ms}; std::vector<Polynomial> raw; for (int i = 0; i < N; ++i) raw.push_back(i == 0 && sx_param("oblique", 0) ? f(oblique(sx_param("lim", 1), true)) : raw_rule(f, M, sx_param("lim", 1))); rb.add_raw_rules(std::move(raw)); try { rb.complete(); } catch (const errors::invalid_moment_rule&) { return; }
    std::vector<int> R, I; for (int k = 1; k < nk; ++k) { if (kinds[k] != 2) R.push_back(k); if (kinds[k] != 1) I.push_back(k); } int nr = R.size(), n = nr + I.size(); Val v = sym_val(2); auto at = [&](const Val& x, int i) { return i < nr ? x.v[R[i]][0] : x.v[I[i - nr]][1]; }; bool hom = sx_choose(0, 1, "homogeneous"); MomentRulebookToBasis conv{f, hom ? MomentRulebookToBasis::ExportMode::Homogeneous : MomentRulebookToBasis::ExportMode::Rewrite}; auto m = conv(rb); sx_assert(m.rows() == n && m.cols() == n, "one row and one column per coordinate"); if (m.rows() != n || m.cols() != n) return;
    std::vector<long> out(n, 0); for (int c = 0; c < n; ++c) for (Eigen::SparseMatrix<double>::InnerIterator it(m, c); it; ++it) out[it.row()] += fx(it.value()) * at(v, c); bool fixed = true; for (int i = 0; i < n; ++i) fixed = fixed & small(hom ? out[i] : out[i] - at(v, i) * 1048576); bool ok = holds(rb, v); sx_assert(!ok || fixed, "values satisfying the rules are unchanged"); sx_assert(!fixed || ok, "values unchanged by the matrix satisfy the rules");
    bool oblique = false; for (auto& [id, r] : rb) if (r.is_partial()) { cd d = r.partial_direction(); if (!near0(d.real()) && !near0(d.imag())) oblique = true; } if (oblique) sx_reach("oblique"); if (!hom) { for (auto& [id, r] : rb) { DD e = dd(r.RHS()); e.add(id, false, -1, 0); DD E = e; // value of the rule at the image, scaled by 2^-20 twice: tolerate rounding
            double re = 0, im = 0; for (int k = 1; k < nk; ++k) { long a = 0, b = 0; for (int i = 0; i < n; ++i) { if (i < nr && R[i] == k) a = out[i]; if (i >= nr && I[i - nr] == k) b = out[i]; } for (int j = 0; j < 2; ++j) { double x = E.c[k][j][0], y = E.c[k][j][1], A = (double) a, B = j ? -(double) b : (double) b; re += x * A - y * B; im += x * B + y * A; } } sx_assert((re < 4000) & (re > -4000) & (im < 4000) & (im > -4000), "image of any values satisfies the rules"); } }
    sx_observe("rules", rb.size()); sx_reach("end"); }
