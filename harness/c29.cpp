// C29: raw polynomials in operator words: sums, products, conversion to and from symbols
#include "alg.hpp"
#include "dictionary/operator_sequence.h"
#include "dictionary/raw_polynomial.h"
#include "symbolic/symbol_table.h"
#include "symbolic/symbol_errors.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/polynomial_ordering.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include <complex>
using namespace al; using cd = std::complex<double>;
namespace { constexpr int MAXL = 5, NW = 1 << (MAXL + 1);
// words by (length, letters); value of a raw polynomial is the coefficient of every normal form
int index(const S& w) { int r = 0; for (auto x : w) r = 2 * r + (int) x; return (1 << w.size()) - 1 + r; }
struct Dn { long c[NW][2]; Dn() { for (auto& x : c) x[0] = x[1] = 0; } void add(const El& e, int ph, long re, long im) { if (e.zero) return; ph = ((e.sg < 0 ? 2 : 0) + ph) & 3; for (int k = 0; k < ph; ++k) { long t = re; re = -im; im = t; } int i = index(e.w); c[i][0] += re; c[i][1] += im; }
    bool operator==(const Dn& o) const { bool r = true; for (int i = 0; i < NW; ++i) r = r & (c[i][0] == o.c[i][0]) & (c[i][1] == o.c[i][1]); return r; } };
int power(SequenceSignType s) { return s == SequenceSignType::Positive ? 0 : s == SequenceSignType::Imaginary ? 1 : s == SequenceSignType::Negative ? 2 : 3; }
SequenceSignType sign(int p) { static const SequenceSignType t[4] = {SequenceSignType::Positive, SequenceSignType::Imaginary, SequenceSignType::Negative, SequenceSignType::NegativeImaginary}; return t[p & 3]; }
El el(const OperatorSequence& s) { El e; if (s.zero()) { e.zero = true; return e; } e.w = s.raw(); return e; }
struct Tm { El e; S w; int ph; long re, im; };
S cword(int maxlen) { S s; int n = sx_choose(0, maxlen, "length"); for (int i = 0; i < n; ++i) s.push_back((oper_name_t) sx_choose(0, 1, "letter")); return s; }
void fill(const Context& c, RawPolynomial& p, std::vector<Tm>& v, int n, int len, long lim, bool phase) { for (int k = 0; k < n; ++k) { Tm t; t.w = cword(len); t.ph = phase && k == 0 ? (int) sx_choose(0, 3, "phase") : 0; t.re = sx_range(-lim, lim, "re"); t.im = k == 0 ? sx_range(-lim, lim, "im") : 0; t.e = canon(t.w); v.push_back(t); p.emplace_back(OperatorSequence{S{t.w}, c, sign(t.ph)}, cd{(double) t.re, (double) t.im}); } }
Dn read(const RawPolynomial& p) { Dn d; for (auto& e : p) d.add(el(e.sequence), power(e.sequence.get_sign()), (long) e.weight.real(), (long) e.weight.imag()); return d; }
void tidy(const RawPolynomial& p) { for (size_t i = 0; i < p.size(); ++i) { auto& e = p[i]; sx_assert(!e.sequence.zero() && e.sequence.get_sign() == SequenceSignType::Positive && (i == 0 || p[i - 1].sequence.hash() < e.sequence.hash()), "terms are distinct, in order, without phase"); sx_assert((e.weight.real() != 0) | (e.weight.imag() != 0), "no vanishing term"); } }
}
extern "C" void h_arith() { type = sx_choose(0, 4, "algebra"); auto c = make(); int na = sx_choose(0, 2, "left"), nb = sx_choose(0, 2, "right"); if (na + nb > sx_param("total", 3)) return; RawPolynomial A, B; std::vector<Tm> a, b; long lim = sx_param("lim", 1); int len = sx_param("len", 2); fill(*c, A, a, na, len, lim, true); fill(*c, B, b, nb, len, lim, false); Dn wantA, wantB, want; for (auto& t : a) wantA.add(t.e, t.ph, t.re, t.im); for (auto& t : b) wantB.add(t.e, t.ph, t.re, t.im);
    sx_assert(read(A) == wantA && A.size() == (size_t) na && A.empty() == (na == 0), "polynomial holds the given terms"); bool sc = true; for (auto& t : a) sc = sc && (t.e.zero || t.e.w.empty()); sx_assert(A.is_scalar() == sc, "scalar exactly when every word is trivial"); int op = sx_choose(0, 3, "operation"); RawPolynomial R = op == 0 ? RawPolynomial::add(A, B) : op == 1 ? RawPolynomial::subtract(A, B) : op == 2 ? c->multiply(A, B) : RawPolynomial{A}; switch (op) {
        case 0: for (int i = 0; i < NW; ++i) for (int k = 0; k < 2; ++k) want.c[i][k] = wantA.c[i][k] + wantB.c[i][k]; break;
        case 1: for (int i = 0; i < NW; ++i) for (int k = 0; k < 2; ++k) want.c[i][k] = wantA.c[i][k] - wantB.c[i][k]; break;
        case 2: for (auto& x : a) for (auto& y : b) { if (x.e.zero || y.e.zero) continue; S w = x.e.w; for (auto l : y.e.w) w.push_back(l); El e = canon(w); e.sg *= x.e.sg * y.e.sg; want.add(e, x.ph + y.ph, x.re * y.re - x.im * y.im, x.re * y.im + x.im * y.re); } break;
        default: R.condense(); want = wantA; }
    sx_assert(read(R) == want, "value of the result"); tidy(R); sx_assert(read(A) == wantA && read(B) == wantB, "operands are unchanged"); sx_observe("terms", R.size()); sx_reach("end"); }
// to symbols and back
extern "C" void h_symbols() { type = sx_choose(0, 4, "algebra"); auto c = make(); SymbolTable t{*c}; int len = sx_param("len", 2); std::vector<El> known; if (sx_choose(0, 1, "before")) { S w = cword(len); El e = canon(w); t.merge_in(OperatorSequence{S{w}, *c}); known.push_back(e); known.push_back(conj(e)); } RawPolynomial A; std::vector<Tm> a; fill(*c, A, a, sx_choose(0, 2, "terms"), len, 1, true); Dn want; bool miss = false; for (auto& x : a) { want.add(x.e, x.ph, x.re, x.im); if (x.e.zero || x.e.w.empty()) continue; bool f = false; for (auto& k : known) f = f || (!k.zero && eqw(k.w, x.e.w)); miss = miss || !f; }
    auto val = [&](const Polynomial& p) { Dn d; for (auto& m : p) { sx_assert(m.id > 0 && m.id < (symbol_name_t) t.size() && t[m.id].has_sequence(), "terms are registered moments"); if (!(m.id > 0 && m.id < (symbol_name_t) t.size())) continue; auto& s = t[m.id].sequence(); El e = el(s); int ph = power(s.get_sign()); if (m.conjugated) { e = conj(e); ph = -ph; } d.add(e, ph & 3, (long) m.factor.real(), (long) m.factor.imag()); } return d; };
    auto go = [&](const PolynomialFactory& f) { size_t before = t.size(); bool threw = false; Polynomial P; try { P = A.to_polynomial(f); } catch (const Moment::errors::unregistered_operator_sequence&) { threw = true; } sx_assert(threw == miss, "unregistered word is refused"); sx_assert(t.size() == before, "table unchanged"); if (!threw) sx_assert(val(P) == want, "value in symbols"); else sx_reach("refused"); Polynomial Q = A.to_polynomial_register_symbols(f, t); sx_assert(val(Q) == want, "value in symbols"); sx_assert(miss || t.size() == before, "registered words are not registered again"); for (size_t i = 1; i < Q.size(); ++i) sx_assert(f.less(Q[i - 1], Q[i]) && !f.less(Q[i], Q[i - 1]), "symbolic terms are in order"); sx_assert(val(A.to_polynomial(f)) == want, "found after registration");
        RawPolynomial back{Q, t}; sx_assert(read(back) == want && back.size() == Q.size(), "converts back"); if (Q.size() == 0) return; sx_reach("back"); Polynomial bad{Monomial{(symbol_name_t) t.size(), cd{1, 0}, false}}; bool thr = false; try { RawPolynomial z{bad, t}; } catch (const Moment::errors::unknown_symbol&) { thr = true; } sx_assert(thr, "unknown symbol is refused"); auto id = t.create(true, true); Polynomial no{Monomial{id, cd{1, 0}, false}}; thr = false; try { RawPolynomial z{no, t}; } catch (const std::runtime_error&) { thr = true; } sx_assert(thr, "symbol without a word is refused"); };
    if (sx_choose(0, 1, "order")) { ByHashPolynomialFactory f{t}; go(f); } else { ByIDPolynomialFactory f{t}; go(f); } sx_observe("size", t.size()); sx_reach("end"); }
// recorded finding: two anticommuting modes, where the conjugate of a word is minus another word
extern "C" void h_signed() { using namespace Algebraic; AlgebraicPrecontext a{2, AlgebraicPrecontext::ConjugateMode::Interleaved}; std::vector<OperatorRule> r; for (oper_name_t x = 2; x < 4; ++x) for (oper_name_t y = 0; y < 2; ++y) r.emplace_back(HashedSequence{S{x, y}, a.hasher}, HashedSequence{S{y, x}, a.hasher, SequenceSignType::Negative}); AlgebraicContext c{a, false, false, r}; SymbolTable t{c}; ByIDPolynomialFactory f{t}; auto id = t.merge_in(OperatorSequence{S{0, 2}, c}); long v = sx_range(1, 3, "weight"); RawPolynomial A; A.emplace_back(OperatorSequence{S{1, 3}, c}, cd{(double) v, 0.0}); OperatorSequence conj = OperatorSequence{S{0, 2}, c}.conjugate(); sx_assert(conj.raw().size() == 2 && conj.raw()[0] == 1 && conj.raw()[1] == 3 && conj.get_sign() == SequenceSignType::Negative, "conjugate of the word is minus another word"); Polynomial P = A.to_polynomial(f); sx_assert(P.size() == 1 && P[0].id == id && P[0].conjugated, "found as the conjugate"); if (P.size() != 1) return; sx_assert((long) P[0].factor.real() == -v && P[0].factor.imag() == 0, "conjugate word keeps its sign"); sx_reach("end"); }
