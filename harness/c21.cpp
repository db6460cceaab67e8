// C21: extended moment matrices keep the original block and hold the products of rows with the extension symbols; suggestions
#include "infl.hpp"
#include "symbolic/symbol_table.h"
#include "matrix/monomial_matrix.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/extension_suggester.h"
#include "scenarios/inflation/inflation_matrix_system.h"
using namespace in; using Ids = std::vector<symbol_name_t>;
namespace {
constexpr auto ST = Multithreading::MultiThreadPolicy::Never;
Ids join(const FactorTable& f, symbol_name_t a, symbol_name_t b) { Ids u; for (auto s : {a, b}) for (auto y : f[s].canonical.symbols) { if (y == 0) return {0}; if (y != 1) u.push_back(y); } if (u.empty()) u = {1}; std::sort(u.begin(), u.end()); return u; }
bool id(const Monomial& m, symbol_name_t& s) { s = m.id; if (m.id == 0) return true; return m.factor.real() == 1 && m.factor.imag() == 0 && !m.conjugated; }
struct W { Net N; Ops o; InflationMatrixSystem ms; W(int i) : N{net(i)}, o{ops(N)}, ms{std::make_unique<InflationContext>(CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl)} {} };
const int nets[] = {0, 4, 5, 3, 7, 1, 6, 9};
symbol_name_t row_symbol(W& w, const V& r) { OperatorSequence q{ss(r), w.ms.InflationContext()}; auto c = w.ms.InflationContext().canonical_moment(q); V m = raw(c); auto& t = w.ms.Symbols(); for (size_t i = 1; i < t.size(); ++i) if (t[i].has_sequence() && raw(t[i].sequence()) == m) return i; return -1; }
void check(W& w, size_t level, const Ids& ext, const ExtendedMatrix& em) { auto& f = w.ms.Factors(); auto& t = w.ms.Symbols(); sx_assert(f.size() == t.size(), "factors of every symbol are known"); if (f.size() != t.size()) return; auto& src = dynamic_cast<const MonomialMatrix&>(w.ms.MomentMatrix(level)); size_t D = src.Dimension(), E = ext.size(); sx_assert(em.Dimension() == D + E && em.OriginalDimension == D, "dimension grows by the number of extensions"); if (em.Dimension() != D + E) return; sx_assert(em.Hermitian(), "extended matrix is Hermitian");
    auto& sm = src.SymbolMatrix(); auto& xm = em.SymbolMatrix(); for (size_t i = 0; i < D; ++i) for (size_t j = 0; j < D; ++j) sx_assert(xm(std::array<size_t, 2>{i, j}) == sm(std::array<size_t, 2>{i, j}), "original block is unchanged"); auto* mm = MomentMatrix::to_operator_matrix_ptr(src); auto& osg = mm->generators()();
    for (size_t i = 0; i < D + E; ++i) for (size_t j = (i < D ? D : i); j < D + E; ++j) { symbol_name_t rs = i < D ? row_symbol(w, raw(osg[i])) : ext[i - D], e, e2; sx_assert(rs >= 0, "row moment is registered"); if (rs < 0) return; bool ok = id(xm(std::array<size_t, 2>{i, j}), e) & id(xm(std::array<size_t, 2>{j, i}), e2); sx_assert(ok && e == e2, "entries are plain symmetric moments"); Ids want = join(f, rs, ext[j - D]); sx_assert(e >= 0 && e < (symbol_name_t) f.size(), "entry is a registered symbol"); if (e < 0 || e >= (symbol_name_t) f.size()) return; if (want == Ids{0}) sx_assert(e == 0, "product with zero is zero"); else sx_assert(f[e].canonical.symbols == want, "entry has the factors of row and extension"); auto r = f.find_index_by_factors(want); sx_assert(r.has_value() && *r == e, "equal products share a symbol"); }
    for (size_t k = 0; k < t.size(); ++k) sx_assert(f[k].id == (symbol_name_t) k, "factor table stays aligned"); }
Ids exts(W& w, int n) { Ids v; int top = (int) w.ms.Symbols().size() - 1; for (int i = 0; i < n; ++i) v.push_back(sx_choose(0, top, "extension")); return v; }
}
extern "C" void h_extend() { W w{nets[sx_choose(sx_param("first", 0), sx_param("last", 4), "network")]}; size_t level = sx_choose(0, sx_param("level", 1), "level"); w.ms.generate_dictionary(sx_choose(1, sx_param("dict", 1), "dictionary")); (void) w.ms.MomentMatrix.create(level, ST); int K = sx_param("times", 1); 
    for (int k = 0; k < K; ++k) { Ids v = exts(w, sx_choose(0, sx_param("n", 2), "count")); auto [off, em] = w.ms.ExtendedMatrices.create(ExtendedMatrixIndex{level, std::span<const symbol_name_t>(v)}, ST); check(w, level, v, em); auto n0 = w.ms.size(); auto [off2, em2] = w.ms.ExtendedMatrices.create(ExtendedMatrixIndex{level, Ids{v}}, ST); sx_assert(off2 == off && &em2 == &em && w.ms.size() == n0, "same request gives the same matrix"); sx_observe("dim", em.Dimension()); }
    sx_reach("end"); }
extern "C" void h_refuse() { W w{0}; (void) w.ms.MomentMatrix.create(1, ST); int top = (int) w.ms.Symbols().size(); long s = sx_choose(0, 1, "side") ? -sx_choose(1, 2, "by") : top + sx_choose(0, 1, "by"); bool threw = false; size_t n0 = w.ms.Symbols().size(); try { (void) w.ms.ExtendedMatrices.create(ExtendedMatrixIndex{1, Ids{1, (symbol_name_t) s}}, ST); } catch (const std::logic_error&) { threw = true; } sx_assert(threw, "unknown extension symbol is refused"); sx_assert(w.ms.Symbols().size() == n0 && w.ms.size() == 1, "refusal changes nothing"); sx_reach("end"); }
extern "C" void h_suggest() { W w{nets[sx_choose(sx_param("first", 0), sx_param("last", 6), "network")]}; size_t level = sx_choose(0, sx_param("level", 1), "level"); int dict = sx_choose(0, sx_param("dict", 2), "dictionary"); if (dict) w.ms.generate_dictionary(dict); auto [off, m0] = w.ms.MomentMatrix.create(level, ST); auto& m = dynamic_cast<const MonomialMatrix&>(m0); auto& f = w.ms.Factors(); auto& t = w.ms.Symbols(); auto got = w.ms.suggest_extensions(m); auto& osg = MomentMatrix::to_operator_matrix_ptr(m)->generators()();
    std::set<symbol_name_t> nf, all, cov, facs; for (size_t i = 0; i < m.Dimension(); ++i) for (size_t j = 0; j < m.Dimension(); ++j) { auto s = m.SymbolMatrix()(std::array<size_t, 2>{i, j}).id; if (f[s].canonical.symbols.size() > 1) { nf.insert(s); for (auto x : f[s].canonical.symbols) facs.insert(x); } }
    auto covers = [&](symbol_name_t x) { std::set<symbol_name_t> r; for (size_t i = 0; i < osg.size(); ++i) { auto rs = row_symbol(w, raw(osg[i])); auto k = f.find_index_by_factors(join(f, rs, x)); if (k && nf.count(*k)) r.insert(*k); } return r; };
    for (auto x : facs) for (auto y : covers(x)) all.insert(y); for (auto x : got) { sx_assert(x >= 2 && x < (symbol_name_t) t.size() && facs.count(x), "suggestion is a factor of some moment in the matrix"); auto c = covers(x); sx_assert(!c.empty(), "suggestion generates some factorising moment"); for (auto y : c) cov.insert(y); } sx_assert(cov == all, "suggestions generate every factorising moment that one extension can"); std::set<symbol_name_t> left(got.begin(), got.end()); bool shrunk = true; while (shrunk) { shrunk = false; for (auto x : left) { std::set<symbol_name_t> rest; for (auto y : left) if (y != x) for (auto z : covers(y)) rest.insert(z); bool fresh = false; for (auto z : covers(x)) fresh = fresh | !rest.count(z); if (fresh) { left.erase(x); shrunk = true; break; } } } sx_assert(left.empty(), "each suggestion generates a moment that those before it do not"); sx_observe("n", got.size());
    if (!got.empty()) { Ids v(got.begin(), got.end()); auto [o2, em] = w.ms.ExtendedMatrices.create(ExtendedMatrixIndex{level, got}, ST); check(w, level, v, em); for (auto s : all) { bool in = false; for (size_t i = 0; i < m.Dimension(); ++i) for (size_t j = m.Dimension(); j < em.Dimension(); ++j) in = in | (em.SymbolMatrix()(std::array<size_t, 2>{i, j}).id == s); sx_assert(in, "suggested extension puts the moment into the new block"); } sx_reach("suggested"); } sx_reach("end"); }
