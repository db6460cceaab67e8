// C17: moment and localizing matrices hold the moments they are defined by; products, scalings and sums act entry by entry
#include "alg.hpp"
#include "infl.hpp"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial_factory.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/raw_polynomial.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "matrix/operator_matrix/localizing_matrix.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix/composite_matrix.h"
#include <complex>
using namespace Moment; using namespace al; using cd = std::complex<double>;
namespace {
constexpr auto ST = Multithreading::MultiThreadPolicy::Never;
struct T { S w; long re, im; }; using Den = std::vector<T>; // complex combination of normal words, coefficients x4
void put(Den& d, const El& e, long re, long im) { if (e.zero) return; re *= e.sg; im *= e.sg; for (auto& t : d) if (eqw(t.w, e.w)) { t.re += re; t.im += im; return; } d.push_back({e.w, re, im}); }
void putq(Den& d, const El& e, int quarter, long re, long im) { for (int i = 0; i < quarter; ++i) { long t = re; re = -im; im = t; } put(d, e, re, im); }
bool eq(const Den& a, const Den& b) { bool r = true; auto half = [&](const Den& x, const Den& y) { for (auto& t : x) { bool hit = false; for (auto& u : y) if (eqw(u.w, t.w)) { hit = true; r = r & (u.re == t.re) & (u.im == t.im); } if (!hit) r = r & (t.re == 0) & (t.im == 0); } }; half(a, b); half(b, a); return r; }
Den adj(const Den& a) { Den d; for (auto& t : a) { El e; e.w = t.w; put(d, conj(e), t.re, -t.im); } return d; }
El mul(const El& a, const El& b) { El z; z.zero = true; if (a.zero || b.zero) return z; S s = a.w; for (auto x : b.w) s.push_back(x); El e = canon(s); e.sg *= a.sg * b.sg; return e; }
Den mul(const Den& a, const Den& b) { Den d; for (auto& x : a) for (auto& y : b) { El e, f; e.w = x.w; f.w = y.w; put(d, mul(e, f), (x.re * y.re - x.im * y.im) / 4, (x.re * y.im + x.im * y.re) / 4); } return d; }
Den add(Den a, const Den& b) { for (auto& t : b) { El e; e.w = t.w; put(a, e, t.re, t.im); } return a; }
long q(double x) { return (long) (x * 4.0); }
El elem(const OperatorSequence& s) { El e; if (s.zero()) { e.zero = true; return e; } S w; for (auto x : s) w.push_back(x); return canon(w); }
void put(Den& d, const SymbolTable& t, const Monomial& m) { if (m.id == 0) return; El e = elem(t[m.id].sequence()); if (m.conjugated) e = conj(e); put(d, e, q(m.factor.real()), q(m.factor.imag())); }
Den den(const SymbolTable& t, const Monomial& m) { Den d; put(d, t, m); return d; }
Den den(const SymbolTable& t, const Polynomial& p) { Den d; for (auto& m : p) put(d, t, m); return d; }
Den den(const SymbolTable& t, const SymbolicMatrix& m, size_t i, size_t j) { if (m.is_monomial()) return den(t, dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j)); return den(t, dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)); }
std::vector<S> words(int L) { std::vector<S> v; for (int n = 0; n <= L; ++n) for (int c = 0; c < (1 << n); ++c) { S w; for (int i = 0; i < n; ++i) w.push_back((c >> (n - 1 - i)) & 1); El e = canon(w); if (!e.zero && eqw(e.w, w)) v.push_back(w); } return v; }
El el(const S& w) { return canon(w); }
int quarter(SequenceSignType s) { return static_cast<int>(s) & 3; }
using M2 = std::vector<std::vector<Den>>;
bool selfadj(const M2& x) { bool r = true; for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j <= i; ++j) r = r & eq(x[i][j], adj(x[j][i])); return r; }
void judge(const SymbolTable& t, const SymbolicMatrix& m, const M2& x, bool exact) { size_t n = x.size(); sx_assert(m.Dimension() == n, "dimension is the number of generating words"); if (m.Dimension() != n) return; bool ok = true; std::set<symbol_name_t> used; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ok = ok & eq(den(t, m, i, j), x[i][j]); sx_assert(ok, "every entry is the moment it is defined by"); bool h = selfadj(x); if (m.Hermitian()) sx_assert(h, "a matrix declared Hermitian equals its conjugate transpose"); else if (exact) sx_assert(!h, "a Hermitian matrix is declared so"); }
M2 mat(const std::vector<S>& g, const Den& mid) { M2 x(g.size()); for (auto& a : g) { Den l; El e = conj(el(a)); put(l, e, 4, 0); for (auto& b : g) { Den r; put(r, el(b), 4, 0); x[&a - &g[0]].push_back(mul(mul(l, mid), r)); } } return x; }
S cword(int L) { S s; for (auto x : word(L)) s.push_back((oper_name_t) sx_concretize(x)); return s; }
}
// localizing matrices (the moment matrix is the one of the identity), over a table with an arbitrary earlier registration
extern "C" void h_make() { type = sx_choose(0, sx_param("types", 5) - 1, "algebra"); auto ctx = make(); SymbolTable t{*ctx}; int L = sx_choose(0, sx_param("level", 1), "level"); S pre = cword(sx_param("pre", 2)); t.merge_in(OperatorSequence{S{pre}, *ctx, sx_choose(0, 1, "presign") ? SequenceSignType::Imaginary : SequenceSignType::Positive}); auto g = words(L);
    Den mid; std::unique_ptr<MonomialMatrix> m; if (sx_choose(0, 1, "localizing")) { S w = cword(sx_param("len", 2)); auto sg = static_cast<SequenceSignType>(sx_choose(0, 3, "sign")); putq(mid, canon(w), quarter(sg), 4, 0); m = LocalizingMatrix::create_matrix(*ctx, t, LocalizingMatrixIndex{(size_t) L, OperatorSequence{S{w}, *ctx, sg}}, ST); auto* p = LocalizingMatrix::to_operator_matrix_ptr(*m); sx_assert(p != nullptr && p->Index.Level == (size_t) L, "localizing matrix keeps its index"); } else { put(mid, El{}, 4, 0); m = MomentMatrix::create_matrix(*ctx, t, L, ST); auto* p = MomentMatrix::to_operator_matrix_ptr(*m); sx_assert(p != nullptr && p->Index == (size_t) L && m->Hermitian(), "moment matrix keeps its index and is Hermitian"); }
    M2 x = mat(g, mid); judge(t, *m, x, true); auto& om = m->unaliased_operator_matrix(); sx_assert(om.Dimension() == g.size(), "operator matrix has the same size"); bool ok = true; for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) { auto& s = om(std::array<size_t, 2>{i, j}); Den d; putq(d, elem(s), quarter(s.get_sign()), 4, 0); ok = ok & eq(d, x[i][j]); } sx_assert(ok, "operator entries"); sx_observe("symbols", t.size()); sx_reach("end"); }
namespace { struct W { std::unique_ptr<Context> ctx; SymbolTable t; ByIDPolynomialFactory f; std::unique_ptr<MonomialMatrix> m; M2 x; std::vector<S> g; W(int L) : ctx{make()}, t{*ctx}, f{t} { m = MomentMatrix::create_matrix(*ctx, t, L, ST); g = words(L); Den i; put(i, El{}, 4, 0); x = mat(g, i); } };
Monomial mono(const Context& cx, SymbolTable& t, Den& d, long lim, bool canonical = false) { S w = cword(sx_param("len", 2)); bool cj = sx_choose(0, 1, "conj"); long re = sx_range(-lim, lim, "re"), im = sx_range(-lim, lim, "im"); OperatorSequence s{S{w}, cx}; t.merge_in(OperatorSequence{s}); auto r = t.where(s); if (canonical && (t[(symbol_name_t) r->Id()].is_hermitian() || t[(symbol_name_t) r->Id()].is_antihermitian())) cj = false; Monomial m{(symbol_name_t) r->Id(), cd{(double) re, (double) im}, cj}; put(d, t, m); return m; } }
extern "C" void h_times() { type = sx_choose(0, sx_param("types", 5) - 1, "algebra"); W w{1}; bool left = sx_choose(0, 1, "side"); Den d; std::unique_ptr<SymbolicMatrix> r; Monomial m = mono(*w.ctx, w.t, d, 2); int how = sx_choose(0, 2, "form"); if (how == 0) r = left ? w.m->pre_multiply(m, w.f, w.t, ST) : w.m->post_multiply(m, w.f, w.t, ST); else if (how == 1) { S s = cword(sx_param("len", 2)); auto sg = static_cast<SequenceSignType>(sx_choose(0, 3, "sign")); OperatorSequence o{S{s}, *w.ctx, sg}; d.clear(); putq(d, canon(s), quarter(sg), q(m.factor.real()), q(m.factor.imag())); r = left ? w.m->pre_multiply(o, m.factor, w.f, w.t, ST) : w.m->post_multiply(o, m.factor, w.f, w.t, ST); }
    else { Polynomial p{m, w.f.zero_tolerance}; r = left ? w.m->pre_multiply(p, w.f, w.t, ST) : w.m->post_multiply(p, w.f, w.t, ST); } M2 x = w.x; for (auto& a : x) for (auto& b : a) b = left ? mul(d, b) : mul(b, d); judge(w.t, *r, x, false); sx_observe("h", r->Hermitian()); sx_reach("end"); }
extern "C" void h_sum() { type = sx_choose(0, sx_param("types", 5) - 1, "algebra"); W w{1}; int how = sx_choose(0, 4, "form"); const long L = 2; std::unique_ptr<SymbolicMatrix> r; M2 x = w.x; auto eachadd = [&](const Den& d) { for (auto& a : x) for (auto& b : a) b = add(b, d); };
    Den d; Monomial m = mono(*w.ctx, w.t, d, L, true);
    if (how == 0) { r = w.m->add(m, w.f, ST); eachadd(d); }
    else if (how == 1 || how == 2) { Den e; Monomial n = mono(*w.ctx, w.t, e, L, true); Polynomial p = w.f.sum(m, n); Den s = add(d, e); sx_assert(eq(den(w.t, p), s), "polynomial"); if (how == 1) { r = w.m->add(p, w.f, ST); eachadd(s); } else { bool left = sx_choose(0, 1, "side"); r = left ? w.m->pre_multiply(p, w.f, w.t, ST) : w.m->post_multiply(p, w.f, w.t, ST); for (auto& a : x) for (auto& b : a) b = left ? mul(s, b) : mul(b, s); } }
    else if (how == 3) { auto u = w.m->pre_multiply(m, w.f, w.t, ST); int k = sx_choose(0, 2, "other"); std::unique_ptr<SymbolicMatrix> v; M2 y = x, z = x; for (auto& a : y) for (auto& b : a) b = mul(d, b); if (k == 0) { r = u->add(*w.m, w.f, ST); } else if (k == 1) { v = w.m->add(m, w.f, ST); for (auto& a : z) for (auto& b : a) b = add(b, d); r = u->add(*v, w.f, ST); } else { v = w.m->add(m, w.f, ST); for (auto& a : z) for (auto& b : a) b = add(b, d); r = v->add(*w.m, w.f, ST); y = w.x; } for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) x[i][j] = add(y[i][j], z[i][j]); judge(w.t, *r, x, true); sx_reach("end"); return; }
    else { long re = sx_range(-L, L, "sre"), im = sx_range(-L, L, "sim"); cd c{(double) re, (double) im}; Den s; put(s, El{}, 4 * re, 4 * im); int k = sx_choose(0, 2, "parts"); std::unique_ptr<SymbolicMatrix> v; if (k == 0) { r = std::make_unique<CompositeMatrix>(*w.ctx, w.t, w.f, CompositeMatrix::ConstituentInfo{*w.m, c}); for (auto& a : x) for (auto& b : a) b = mul(s, b); } else { v = w.m->add(m, w.f, ST); M2 y = x; for (auto& a : y) for (auto& b : a) b = mul(s, add(b, d)); if (k == 1) { r = std::make_unique<CompositeMatrix>(*w.ctx, w.t, w.f, CompositeMatrix::ConstituentInfo{*v, c}); x = y; } else { CompositeMatrix::ConstituentInfo ci; ci.matrix_dimension = w.m->Dimension(); ci.elements.emplace_back(v.get(), c); ci.elements.emplace_back(w.m.get(), std::conj(c)); r = std::make_unique<CompositeMatrix>(*w.ctx, w.t, w.f, std::move(ci)); Den sc = adj(s); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) x[i][j] = add(y[i][j], mul(sc, x[i][j])); } } }
    judge(w.t, *r, x, !r->is_monomial()); sx_reach("end"); }
// cloning keeps the matrix
extern "C" void h_clone() { type = sx_choose(0, sx_param("types", 5) - 1, "algebra"); W w{1}; Den d; std::unique_ptr<SymbolicMatrix> c, u; M2 x = w.x; if (sx_choose(0, 1, "imported")) { auto data = std::make_unique<SquareMatrix<Monomial>>(w.x.size(), std::vector<Monomial>(w.m->SymbolMatrix().begin(), w.m->SymbolMatrix().end())); u = std::make_unique<MonomialMatrix>(*w.ctx, w.t, 1.0, std::move(data), true); } else { Monomial m = mono(*w.ctx, w.t, d, 2); u = w.m->post_multiply(m, w.f, w.t, ST); for (auto& a : x) for (auto& b : a) b = mul(b, d); } c = u->clone(ST); judge(w.t, *c, x, false); sx_assert(c->Hermitian() == u->Hermitian() && c->HasComplexCoefficients() == u->HasComplexCoefficients() && c->HasComplexBasis() == u->HasComplexBasis() && c->IncludedSymbols() == u->IncludedSymbols() && c->BasisKey() == u->BasisKey(), "properties"); sx_reach("end"); }
// matrices over a scenario with aliases: entries are registered under the representative of the moment
extern "C" void h_alias() { in::Net N = in::net(sx_choose(0, sx_param("nets", 5), "network")); in::Ops o = in::ops(N); Inflation::InflationContext c{Inflation::CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl}; SymbolTable t{c}; ByIDPolynomialFactory f{t}; if (o.n() > 12) return; bool loc = sx_choose(0, 1, "localizing"); in::V w; if (loc) w.push_back((int) sx_concretize(sx_range(0, o.n() - 1, "op"))); std::unique_ptr<MonomialMatrix> m; if (loc) m = LocalizingMatrix::create_matrix(c, t, LocalizingMatrixIndex{1, OperatorSequence{in::ss(w), c}}, ST); else m = MomentMatrix::create_matrix(c, t, 1, ST); std::unique_ptr<SymbolicMatrix> r; const SymbolicMatrix* mm = m.get(); long re = 4, im = 0; in::V v; if (sx_choose(0, 1, "times")) { v.push_back((int) sx_concretize(sx_range(0, o.n() - 1, "by"))); re = sx_range(-2, 2, "re"); im = sx_range(-2, 2, "im"); r = m->post_multiply(OperatorSequence{in::ss(v), c}, cd{(double) re, (double) im}, f, t, ST); mm = r.get(); re *= 4; im *= 4; }
    size_t n = o.n() + 1; sx_assert(mm->Dimension() == n, "dimension is the number of generating words"); if (mm->Dimension() != n) return; bool ok = true, okop = true, okal = true; auto gen = [&](size_t i) { return i ? in::V{(int) i - 1} : in::V{}; }; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { in::V s = gen(i); for (int x : w) s.push_back(x); for (int x : gen(j)) s.push_back(x); for (int x : v) s.push_back(x); in::El e = in::simp(o, s); auto& u = mm->unaliased_operator_matrix()(std::array<size_t, 2>{i, j}); okop = okop & in::is(u, e); OperatorSequence q{in::ss(e.w), c}; if (!e.zero && c.can_have_aliases()) q = c.simplify_as_moment(OperatorSequence{q}); auto& al = mm->aliased_operator_matrix()(std::array<size_t, 2>{i, j}); okal = okal & (e.zero ? al.zero() : !al.zero() && in::raw(al) == in::raw(q)); auto& sm = dynamic_cast<const MonomialMatrix&>(*mm).SymbolMatrix(i, j); if (e.zero) ok = ok & (sm.id == 0); else ok = ok & ((((long) (sm.factor.real() * 4) == re) & ((long) (sm.factor.imag() * 4) == im) & (sm.id != 0) & !sm.conjugated && in::raw(t[sm.id].sequence()) == in::raw(q)) || ((re == 0) & (im == 0) & (sm.id == 0))); } sx_assert(okop, "operator entries"); sx_assert(okal, "entries after identification of equivalent moments"); sx_assert(ok, "every entry is the moment it is defined by"); sx_reach("end"); }
