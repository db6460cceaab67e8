// moment rules over a table of up to four symbols, with an independent denotation and an independent check that values satisfy them
#pragma once
#include "poly.hpp"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"
#include "matrix_system/matrix_system.h"
using namespace po;
namespace {
// symbols 1..NK-1; kind 0 complex, 1 Hermitian, 2 anti-Hermitian
constexpr int NK = 5; int kinds[NK] = {0, 1, 0, 0, 0}; int nk = 4;
inline bool near0(double x) { return (x < 1e-6) & (x > -1e-6); }
struct DD { double c[NK][2][2]; DD() { for (auto& a : c) for (auto& b : a) b[0] = b[1] = 0; }
    void add(int id, bool cj, double re, double im) { if (kinds[id] == 1) cj = false; if (kinds[id] == 2 && cj) { cj = false; re = -re; im = -im; } c[id][cj][0] += re; c[id][cj][1] += im; }
    DD plus(const DD& o, double re, double im) const { DD d; for (int k = 1; k < nk; ++k) for (int j = 0; j < 2; ++j) { d.c[k][j][0] = c[k][j][0] + o.c[k][j][0] * re - o.c[k][j][1] * im; d.c[k][j][1] = c[k][j][1] + o.c[k][j][0] * im + o.c[k][j][1] * re; } return d; }
    DD times(double re, double im) const { return DD{}.plus(*this, re, im); }
    DD conj() const { DD d; for (int k = 1; k < nk; ++k) for (int j = 0; j < 2; ++j) d.add(k, !j, c[k][j][0], -c[k][j][1]); return d; }
    bool zero() const { bool r = true; for (int k = 1; k < nk; ++k) for (int j = 0; j < 2; ++j) r = r & near0(c[k][j][0]) & near0(c[k][j][1]); return r; }
    bool is(const DD& o) const { return plus(o, -1, 0).zero(); } };
DD dd(const Polynomial& p) { DD d; for (auto& m : p) { if (m.id != 0) d.add((int) m.id, m.conjugated, m.factor.real(), m.factor.imag()); } return d; }
bool canon(const PolynomialFactory& f, const Polynomial& p) { bool ok = true; for (size_t i = 0; i < p.size(); ++i) { auto& m = p[i]; ok = ok & (m.id != 0) & !(m.conjugated & (kinds[m.id] != 0)) & (!near0(m.factor.real()) | !near0(m.factor.imag())); if (i) ok = ok & f.less(p[i - 1], m) & !f.less(m, p[i - 1]); } return ok; }
// every non-empty set of distinct canonical terms up to a size, complex integer coefficients
Polynomial::storage_t sym_poly(int maxn, long lim, const char* nm, int skip = 0, bool allow_zero = true) { Polynomial::storage_t s; int n = 0; for (int k = 1; k < nk; ++k) for (int j = 0; j < (kinds[k] == 0 ? 2 : 1); ++j) { if (k == skip || n >= maxn) continue; if (!sx_choose(0, 1, nm)) continue; ++n; long re = sx_range(-lim, lim, "re"), im = sx_range(-lim, lim, "im"); if (!allow_zero) sx_assume((re != 0) | (im != 0)); s.push_back(Monomial{(symbol_name_t) k, cd{(double) re, (double) im}, j == 1}); } return s; }
void set_kinds(SymbolTable& t, int layout) { static const int K[8][3] = {{0, 1, 2}, {1, 2, 0}, {0, 0, 1}, {2, 0, 1}, {0, 1, 0}, {1, 0, 0}, {2, 1, 0}, {0, 2, 0}}; nk = 5; kinds[0] = 0; kinds[1] = 1; for (int i = 0; i < 3; ++i) { kinds[i + 2] = K[layout][i]; t.create(kinds[i + 2] != 2, kinds[i + 2] != 1); } }
long cz(double x) { return sx_concretize((long) (x * 4.0)); }
}
namespace {
// up to M terms; the first has coefficient 1 (rules are invariant under scaling, h_rule covers scaling), the others are solver-chosen
Polynomial raw_rule(const PolynomialFactory& f, int M, long lim) { Polynomial::storage_t s; int n = 0; for (int k = nk - 1; k >= 1; --k) for (int j = 0; j < (kinds[k] == 0 ? 2 : 1); ++j) { if (n >= M || !sx_choose(0, 1, "term")) continue; double re = 1, im = 0; if (n++) { long a = sx_range(-lim, lim, "re"), b = sx_range(-lim, lim, "im"); sx_assume((a != 0) | (b != 0)); re = (double) sx_concretize(a); im = (double) sx_concretize(b); } s.push_back(Monomial{(symbol_name_t) k, cd{re, im}, j == 1}); } return f(std::move(s)); }
Polynomial target(const PolynomialFactory& f) { Polynomial::storage_t s; int k = sx_choose(1, nk - 1, "target"); int w = kinds[k] == 0 ? sx_choose(0, 2, "targetconj") : 0; if (w != 1) s.push_back(Monomial{(symbol_name_t) k, cd{1, 2}, false}); if (w) s.push_back(Monomial{(symbol_name_t) k, cd{0, 1}, true}); if (k > 1) s.push_back(Monomial{(symbol_name_t) (k - 1), cd{1, 0}, false}); return f(std::move(s)); }
struct Val { long v[NK][2]; }; Val sym_val(long lim) { Val v{}; v.v[1][0] = 1; for (int k = 2; k < nk; ++k) { if (kinds[k] != 2) v.v[k][0] = sx_range(-lim, lim, "vr"); if (kinds[k] != 1) v.v[k][1] = sx_range(-lim, lim, "vi"); } return v; }
// fixed point, 2^-20: coefficients may be irrational, so exact arithmetic is not available
long fx(double x) { return (long) (x * 1048576.0 + (sx_symbolic((long) (x * 1048576.0)) ? 0.0 : x < 0 ? -0.5 : 0.5)); }
void ev(const DD& d, const Val& v, long& re, long& im) { re = im = 0; for (int k = 1; k < nk; ++k) for (int j = 0; j < 2; ++j) { long a = v.v[k][0], b = j ? -v.v[k][1] : v.v[k][1], x = fx(d.c[k][j][0]), y = fx(d.c[k][j][1]); re += x * a - y * b; im += x * b + y * a; } }
bool small(long x) { return (x < 1000) & (x > -1000); }
bool vanishes(const DD& d, const Val& v) { long re, im; ev(d, v, re, im); return small(re) & small(im); }
bool holds(const MomentRulebook& rb, const Val& v) { bool ok = true; for (auto& [id, r] : rb) { DD e = dd(r.RHS()); e.add(id, false, -1, 0); ok = ok & vanishes(e, v); } return ok; }
bool same_reduced(const Polynomial& a, const Polynomial& b) { return dd(a).is(dd(b)); }
// a X + b X* + c Y + d with |a| = |b|: only one direction of X is constrained, at angles other than multiples of 45 degrees
Polynomial::storage_t oblique(long lim, bool conc) { static const int G[12][2] = {{5, 0}, {3, 4}, {4, 3}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-3, -4}, {-4, -3}, {0, -5}, {3, -4}, {4, -3}}; Polynomial::storage_t s; int L = 0; int want = sx_choose(0, 1, "leading"); for (int k = 2; k < nk; ++k) if (kinds[k] == 0 && (L == 0 || want)) L = k; if (!L) return s; int a = sx_choose(0, sx_param("first_dirs", 1), "a"), b = sx_choose(0, 11, "b"); s.push_back(Monomial{(symbol_name_t) L, cd{(double) G[a][0], (double) G[a][1]}, false}); s.push_back(Monomial{(symbol_name_t) L, cd{(double) G[b][0], (double) G[b][1]}, true}); int y = sx_choose(0, L - 1, "other"); if (y > 0) { bool cj = kinds[y] == 0 && sx_choose(0, 1, "otherconj"); long re = sx_range(-lim, lim, "re"), im = sx_range(-lim, lim, "im"); if (conc) { re = sx_concretize(re); im = sx_concretize(im); } s.push_back(Monomial{(symbol_name_t) y, cd{(double) re, (double) im}, cj}); } return s; }
}
