// polynomials over a table of five kinds of symbols, with an independent denotation: coefficient of each (symbol, conjugate) after reality normalisation
#pragma once
#include "hx.h"
#include "scenarios/context.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/polynomial_ordering.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include <complex>
namespace po {
using namespace Moment; using cd = std::complex<double>;
constexpr int NS = 6; // 0 zero, 1 one, 2 complex, 3 Hermitian, 4 antiHermitian, 5 complex
static inline bool herm(long id) { return id == 1 || id == 3; }
static inline bool anti(long id) { return id == 4; }
struct World { Context ctx; SymbolTable tab; World() : ctx{2}, tab{ctx} { tab.create(true, true); tab.create(true, false); tab.create(false, true); tab.create(true, true); } };
struct WorldSeq { Context ctx; SymbolTable tab; WorldSeq() : ctx{2}, tab{ctx} {
    S2(); } void S2() { // ids out of code order: 2 = complex word, 3 = Hermitian word, 4 = symbol without word, imaginary, 5 = complex word with smaller code
    tab.merge_in(OperatorSequence({1, 0, 0}, ctx)); tab.merge_in(OperatorSequence({0}, ctx)); tab.create(false, true); tab.merge_in(OperatorSequence({0, 1}, ctx)); } };
struct IdMoreName { constexpr static char name[] = "Sort by ID, descending"; };
using ByIDMore = PolynomialFactoryImpl<IdMoreComparator, IdMoreName>;
struct Den { long c[NS][2][2]; Den() { for (auto& a : c) for (auto& b : a) b[0] = b[1] = 0; } // 4 x coefficient
    void add(long id, bool conj, long re, long im) { long sg = 1 - 2 * (long) (anti(id) & conj); bool cj = conj & !herm(id) & !anti(id); for (int k = 1; k < NS; ++k) for (int j = 0; j < 2; ++j) { long on = (long) ((id == k) & (cj == (bool) j)); c[k][j][0] += on * sg * re; c[k][j][1] += on * sg * im; } }
    bool operator==(const Den& o) const { bool r = true; for (int k = 0; k < NS; ++k) for (int j = 0; j < 2; ++j) r = r & (c[k][j][0] == o.c[k][j][0]) & (c[k][j][1] == o.c[k][j][1]); return r; }
    bool zero() const { return *this == Den{}; }
    Den conj() const { Den d; for (int k = 1; k < NS; ++k) { if (herm(k)) { d.c[k][0][0] = c[k][0][0]; d.c[k][0][1] = -c[k][0][1]; } else if (anti(k)) { d.c[k][0][0] = -c[k][0][0]; d.c[k][0][1] = c[k][0][1]; } else for (int j = 0; j < 2; ++j) { d.c[k][1 - j][0] = c[k][j][0]; d.c[k][1 - j][1] = -c[k][j][1]; } } return d; }
    Den operator+(const Den& o) const { Den d; for (int k = 0; k < NS; ++k) for (int j = 0; j < 2; ++j) for (int x = 0; x < 2; ++x) d.c[k][j][x] = c[k][j][x] + o.c[k][j][x]; return d; }
    Den times(long re, long im) const { Den d; for (int k = 0; k < NS; ++k) for (int j = 0; j < 2; ++j) { d.c[k][j][0] = c[k][j][0] * re - c[k][j][1] * im; d.c[k][j][1] = c[k][j][0] * im + c[k][j][1] * re; } return d; }
    int terms() const { int n = 0; for (int k = 1; k < NS; ++k) for (int j = 0; j < 2; ++j) n += (int) ((c[k][j][0] != 0) | (c[k][j][1] != 0)); return n; } };
static inline long q(double x) { return (long) (x * 4.0); }
static inline Den den(const Polynomial& p) { Den d; for (auto& m : p) d.add(m.id, m.conjugated, q(m.factor.real()), q(m.factor.imag())); return d; }
static inline bool canonical(const PolynomialFactory& f, const Polynomial& p) { bool ok = true; for (size_t i = 0; i < p.size(); ++i) { auto& m = p[i]; ok = ok & (m.id != 0) & !((herm(m.id) | anti(m.id)) & m.conjugated) & ((q(m.factor.real()) != 0) | (q(m.factor.imag()) != 0)); if (i) { bool a = f.less(p[i - 1], m), b = f.less(m, p[i - 1]); ok = ok & a & !b; } } return ok; }
struct Term { long id; bool conj; long re, im; };
static inline Term term(long lim) { Term t; t.id = sx_concretize(sx_range(0, NS - 1, "id")); t.conj = sx_concretize(sx_range(0, 1, "conj")); t.re = sx_range(-lim, lim, "re"); t.im = sx_range(-lim, lim, "im"); return t; }
static inline Monomial mono(const Term& t) { return Monomial{(symbol_name_t) t.id, cd{(double) t.re, (double) t.im}, t.conj}; }
static inline Polynomial::storage_t terms(int n, long lim, Den& d) { Polynomial::storage_t s; for (int i = 0; i < n; ++i) { Term t = term(lim); d.add(t.id, t.conj, 4 * t.re, 4 * t.im); s.push_back(mono(t)); } return s; }
template<class F> static void with_factory(int which, World& w, WorldSeq& ws, F f) { if (which == 0) { ByIDPolynomialFactory fac{w.tab}; f(fac, w.tab); } else if (which == 1) { ByIDMore fac{w.tab}; f(fac, w.tab); } else if (which == 2) { ByHashPolynomialFactory fac{w.tab}; f(fac, w.tab); } else { ByHashPolynomialFactory fac{ws.tab}; f(fac, ws.tab); } }
}
