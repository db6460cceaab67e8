// C19: maps between scenarios: decomposition of the transformation, LU of its core, forward and inverse maps on symbols, derived matrices
#include <stddef.h>
#include <cassert>
#include <concepts>
#include <map>
#include <algorithm>
#include <limits>
#include <functional>
#include <numeric>
#include <complex>
#include "alg.hpp"
#include "scenarios/derived/map_core.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/derived/derived_matrix_system.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/algebraic/algebraic_matrix_system.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix_system/matrix_system.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/dictionary.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
using namespace Moment; using namespace Moment::Derived; using namespace Moment::Symmetrized;
namespace {
constexpr auto ST = Multithreading::MultiThreadPolicy::Never;
using S = sequence_storage_t; using cd = std::complex<double>; using M = std::vector<std::vector<double>>;
bool near(double a, double b) { double d = a - b; return (d < 1e-9) & (d > -1e-9); }
// linear combinations of symbols and their conjugates, in units of one
struct Den { std::map<std::pair<long, bool>, cd> c; const SymbolTable& t; explicit Den(const SymbolTable& t) : t{t} { }
    void add(long id, bool cj, cd f) { if (id == 0) return; if (t[id].is_hermitian()) cj = false; else if (t[id].is_antihermitian() && cj) { cj = false; f = -f; } c[{id, cj}] += f; }
    void add(const Polynomial& p, cd f = 1.0, bool conj = false) { for (auto& m : p) add(m.id, m.conjugated != conj, (conj ? std::conj(m.factor) : m.factor) * f); }
    bool same(const Den& o) const { bool r = true; auto half = [&](const Den& a, const Den& b) { for (auto& [k, v] : a.c) { auto f = b.c.find(k); cd w = f == b.c.end() ? cd{0.0, 0.0} : f->second; r = r & near(v.real(), w.real()) & near(v.imag(), w.imag()); } }; half(*this, o); half(o, *this); return r; }
    bool zero() const { bool r = true; for (auto& [k, v] : c) r = r & near(v.real(), 0.0) & near(v.imag(), 0.0); return r; }
    Den conj() const { Den d{t}; for (auto& [k, v] : c) d.add(k.first, !k.second, std::conj(v)); return d; } };
Den inverse(const SymbolTableMap& m, const Polynomial& p) { Den d{m.Origin()}; for (auto& x : p) d.add(m.inverse(x)); return d; }
struct Src { M a; size_t rows, cols; Eigen::MatrixXd dense() const { Eigen::MatrixXd d(rows, cols); for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) d((Eigen::Index) i, (Eigen::Index) j) = a[i][j]; return d; }
    Eigen::SparseMatrix<double> sparse(bool all) const { Eigen::SparseMatrix<double> s((int) rows, (int) cols); std::vector<Eigen::Triplet<double>> t; for (size_t j = 0; j < cols; ++j) for (size_t i = 0; i < rows; ++i) { double v = a[i][j]; if ((all && j) || v != 0) t.emplace_back((int) i, (int) j, v); } s.setFromTriplets(t.begin(), t.end()); return s; } };
std::unique_ptr<Context> context(int k) { using namespace Algebraic; using namespace Locality; al::type = k; if (k < 5) return al::make(); AlgebraicPrecontext a{2}; std::vector<OperatorRule> r; for (oper_name_t x = 0; x < 2; ++x) r.emplace_back(HashedSequence{S{x, x}, a.hasher}, HashedSequence{S{}, a.hasher}); r.emplace_back(HashedSequence{S{1, 0}, a.hasher}, HashedSequence{S{0, 1}, a.hasher, k == 5 ? SequenceSignType::Negative : SequenceSignType::Positive}); return std::make_unique<AlgebraicContext>(a, false, false, r); }
std::unique_ptr<MatrixSystem> system(int k) { return std::make_unique<MatrixSystem>(context(k), 1.0); }
int entry(const char* n, long lim) { return (int) sx_choose(-lim, lim, n); }
}
// the decomposition accounts for every row and column once, and the core and offsets are the entries of the transformation
extern "C" void h_core() { size_t n = sx_choose(1, sx_param("cols", 3), "cols"), r = sx_choose(1, sx_param("rows", 3), "rows"); int form = (int) sx_choose(0, 4, "form"); Src s; s.rows = r; s.cols = n; s.a.assign(r, std::vector<double>(n, 0.0)); s.a[0][0] = 1.0; DynamicBitset<size_t> skip(n, false); for (size_t j = 1; j < n; ++j) { if (sx_choose(0, 1, "skip")) skip.set(j); for (size_t i = 0; i < r; ++i) { s.a[i][j] = i == 0 ? (double) sx_range(-3, 3, "offset") : 0.5 * (double) sx_range(-2, 2, "core"); } } bool dense_core = form == 0 || form == 2 || form == 3; std::unique_ptr<MapCore> core; switch (form) { case 0: core = std::make_unique<DenseMapCore>(skip, s.dense()); break; case 1: core = std::make_unique<SparseMapCore>(skip, s.dense()); break; case 2: core = std::make_unique<DenseMapCore>(skip, s.sparse(false)); break; case 3: core = std::make_unique<DenseMapCore>(skip, s.sparse(true)); break; default: core = std::make_unique<SparseMapCore>(skip, s.sparse(false)); }
    auto get = [&](size_t i, size_t j) -> double { return dense_core ? dynamic_cast<DenseMapCore&>(*core).core((Eigen::Index) i, (Eigen::Index) j) : dynamic_cast<SparseMapCore&>(*core).core.coeff((Eigen::Index) i, (Eigen::Index) j); }; size_t cr = dense_core ? dynamic_cast<DenseMapCore&>(*core).core.rows() : dynamic_cast<SparseMapCore&>(*core).core.rows(), cc = dense_core ? dynamic_cast<DenseMapCore&>(*core).core.cols() : dynamic_cast<SparseMapCore&>(*core).core.cols();
    sx_assert(core->initial_size == n && core->nontrivial_cols.bit_size == n && core->nontrivial_rows.bit_size == r, "sizes are recorded"); sx_assert(!core->nontrivial_cols.test(0) && !core->nontrivial_rows.test(0) && !core->constants.contains(0), "the identity is no part of the core"); std::vector<size_t> cols, rows; for (size_t j = 1; j < n; ++j) { bool c = core->constants.contains(j), k = skip.test(j), t = core->nontrivial_cols.test(j); sx_assert((int) c + (int) k + (int) t == 1, "each column is skipped, constant, or in the core"); sx_assert(core->skipped_cols.test(j) == k, "skipped columns are recorded"); if (t) cols.push_back(j); bool any = false; for (size_t i = 1; i < r; ++i) any = any | (s.a[i][j] != 0.0); if (c) { sx_assert(!any, "constant columns have no other entry"); sx_assert(core->constants[j] == s.a[0][j], "constants are as given"); } } for (size_t i = 1; i < r; ++i) if (core->nontrivial_rows.test(i)) rows.push_back(i);
    sx_assert(cr == cols.size() && cc == rows.size() && (size_t) core->core_offset.size() == cols.size(), "the core has the right size"); if (cr != cols.size() || cc != rows.size()) return; bool ok = true; for (size_t x = 0; x < cols.size(); ++x) { ok = ok & (core->core_offset((Eigen::Index) x) == s.a[0][cols[x]]); for (size_t y = 0; y < rows.size(); ++y) ok = ok & (get(x, y) == s.a[rows[y]][cols[x]]); } sx_assert(ok, "core and offsets are the entries of the transformation"); for (size_t i = 1; i < r; ++i) if (!core->nontrivial_rows.test(i)) { bool any = false; for (size_t j : cols) any = any | (s.a[i][j] != 0.0); sx_assert(!any, "rows outside the core are empty"); } sx_reach("end"); }
// transformations that do not keep the identity are refused
extern "C" void h_identity() { size_t n = sx_choose(0, 2, "cols"), r = sx_choose(0, 2, "rows"); int form = (int) sx_choose(0, 3, "form"); Src s; s.rows = r; s.cols = n; s.a.assign(r, std::vector<double>(n, 0.0)); bool good = n > 0 && r > 0; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) { s.a[i][j] = (double) sx_choose(-1, 1, "entry"); if (j == 0) good = good && s.a[i][j] == (i == 0 ? 1.0 : 0.0); } bool thrown = false; DynamicBitset<size_t> skip(n, false); try { switch (form) { case 0: (void) DenseMapCore(skip, s.dense()); break; case 1: (void) SparseMapCore(skip, s.dense()); break; case 2: (void) DenseMapCore(skip, s.sparse(false)); break; default: (void) SparseMapCore(skip, s.sparse(false)); } } catch (const errors::bad_map&) { thrown = true; } sx_assert(thrown == !good, "only transformations that keep the identity are accepted"); sx_reach("end"); }
// LU: map times inverse map is the core, the rank is right, and neither loses rank
extern "C" void h_lu() { size_t r = sx_choose(0, sx_param("rows", 3), "rows"), n = sx_choose(0, sx_param("cols", 2), "cols"); Src s; s.rows = n + 1; s.cols = r + 1; s.a.assign(n + 1, std::vector<double>(r + 1, 0.0)); s.a[0][0] = 1; long lim = sx_param("lim", 1); for (size_t j = 1; j <= r; ++j) for (size_t i = 1; i <= n; ++i) s.a[i][j] = entry("core", lim); DenseMapCore core(DynamicBitset<size_t>(r + 1, false), s.dense()); auto sol = core.accept(LUMapCoreProcessor{}); core.check_solution(*sol); auto& c = core.core; if (c.rows() == 0 || c.cols() == 0) { sx_assert(sol->output_symbols == 0, "an empty core has no symbols"); sx_reach("empty"); return; }
    // rank by fraction-free elimination
    std::vector<std::vector<long>> e(c.rows(), std::vector<long>(c.cols())); for (Eigen::Index i = 0; i < c.rows(); ++i) for (Eigen::Index j = 0; j < c.cols(); ++j) e[i][j] = (long) c(i, j); size_t rank = 0; for (size_t j = 0; j < e[0].size() && rank < e.size(); ++j) { size_t p = rank; while (p < e.size() && e[p][j] == 0) ++p; if (p == e.size()) continue; std::swap(e[p], e[rank]); for (size_t i = rank + 1; i < e.size(); ++i) { long f = e[i][j], g = e[rank][j]; for (size_t k = 0; k < e[0].size(); ++k) e[i][k] = e[i][k] * g - e[rank][k] * f; } ++rank; }
    sx_assert(sol->output_symbols == rank && sol->dense_solution, "one new symbol per independent combination"); sx_assert((size_t) sol->dense_map.rows() == (size_t) c.rows() && (size_t) sol->dense_map.cols() == rank && (size_t) sol->dense_inv_map.rows() == rank && (size_t) sol->dense_inv_map.cols() == (size_t) c.cols(), "maps have the right shape"); bool ok = true; for (Eigen::Index i = 0; i < c.rows(); ++i) for (Eigen::Index j = 0; j < c.cols(); ++j) { double v = 0.0; for (size_t k = 0; k < rank; ++k) v += sol->dense_map(i, (Eigen::Index) k) * sol->dense_inv_map((Eigen::Index) k, j); ok = ok & near(v, c(i, j)); } sx_assert(ok, "map followed by inverse map gives the core"); sx_observe("rank", (long) rank); sx_reach("end"); }
extern "C" void h_solution() { Src s; s.rows = 3; s.cols = 4; s.a = {{1, 0, 1, 0}, {0, 1, 1, 2}, {0, 0, 1, 2}}; bool sparse = sx_choose(0, 1, "sparse"); std::unique_ptr<MapCore> core; if (sparse) core = std::make_unique<SparseMapCore>(DynamicBitset<size_t>(4, false), s.dense()); else core = std::make_unique<DenseMapCore>(DynamicBitset<size_t>(4, false), s.dense()); SolvedMapCore sol; sol.output_symbols = 2; int a = sx_choose(1, 4, "a"), b = sx_choose(1, 3, "b"), c = sx_choose(1, 3, "c"), d = sx_choose(1, 3, "d"); sol.dense_solution = sx_choose(0, 1, "dense"); sol.sparse_solution = !sol.dense_solution; if (sol.dense_solution) { sol.dense_map = Eigen::MatrixXd::Zero(a, b); sol.dense_inv_map = Eigen::MatrixXd::Zero(c, d); } else { sol.sparse_map.resize(a, b); sol.sparse_inv_map.resize(c, d); } bool thrown = false; try { core->check_solution(sol); } catch (const errors::invalid_solution&) { thrown = true; } sx_assert(thrown == !(a == 3 && b == 2 && c == 2 && d == 2), "solutions of the wrong shape are refused"); sx_reach("end"); }
namespace {
struct Built { std::unique_ptr<SymbolTable> target; std::unique_ptr<SymbolTableMap> map; };
Built build(const MatrixSystem& ms, const Context& dc, const Src& s, int form) { Built b; b.target = std::make_unique<SymbolTable>(dc); LUMapCoreProcessor p; if (form == 0) b.map = std::make_unique<SymbolTableMap>(ms.Symbols(), *b.target, p, s.dense()); else if (form == 1) b.map = std::make_unique<SymbolTableMap>(ms.Symbols(), *b.target, p, s.sparse(false)); else { DynamicBitset<size_t> cj(s.cols, false); for (size_t i = 0; i < s.cols; ++i) if (ms.Symbols().OSGIndex(i).second) cj.set(i); auto core = std::make_unique<DenseMapCore>(cj, s.dense()); auto sol = core->accept(p); b.map = std::make_unique<SymbolTableMap>(ms.Symbols(), *b.target, std::move(core), std::move(sol)); } return b; }
}
// what every symbol is sent to, expressed again through the words of the source, is what the transformation dictates
extern "C" void h_map() { int k = (int) sx_choose(sx_param("first", 0), sx_param("last", 6), "context"); size_t len = sx_param("len", 2); auto ms = system(k); ms->generate_dictionary(len + sx_param("extra", 0)); auto& osg = ms->Context().operator_sequence_generator(len); auto& t = ms->Symbols(); t.OSGIndex.update_if_necessary(len); size_t n = osg.size(); Src s; s.rows = s.cols = n; s.a.assign(n, std::vector<double>(n, 0.0)); for (size_t i = 0; i < n; ++i) s.a[i][i] = 1.0; // identity, except for some columns
    int free = (int) sx_param("free", 2); std::vector<size_t> done; for (int f = 0; f < free && (size_t) f + 1 < n; ++f) { size_t lo = f ? done.back() + 1 : 1; if (lo >= n) break; size_t c = sx_choose((long) lo, (long) n - 1, "column"); done.push_back(c); for (size_t i = 0; i < n; ++i) s.a[i][c] = 0.0; int terms = (int) sx_param("terms", 2); size_t prev = 0; s.a[0][c] = sx_param("symoffset", 1) ? (double) sx_range(-2, 2, "offset") : entry("offset", 1); for (int q = 0; q < terms; ++q) { if (prev + 1 >= n) break; size_t r = sx_choose((long) prev, (long) n - 1, "row"); if (r == 0 || r == prev) break; prev = r; s.a[r][c] = sx_choose(0, 1, "minus") ? -1.0 : 2.0; } }
    Context dc{0}; auto b = build(*ms, dc, s, (int) sx_choose(0, 2, "form")); auto& m = *b.map; std::vector<bool> mapped(t.size(), false); mapped[0] = mapped[1] = true; sx_assert(m.fwd_size() == t.size() && m.inv_size() == b.target->size(), "one image per symbol"); sx_assert(m((symbol_name_t) 0).empty() && m.inverse((symbol_name_t) 0).empty() && m((symbol_name_t) 1) == Polynomial::Scalar(1.0) && m.inverse((symbol_name_t) 1) == Polynomial::Scalar(1.0), "zero and identity are kept"); bool ok = true, all_mono = true; for (size_t j = 1; j < n; ++j) { auto [id, cj] = t.OSGIndex(j); if (cj) continue; mapped[id] = true; Den want{t}; for (size_t i = 0; i < n; ++i) { auto [x, xc] = t.OSGIndex(i); want.add(x, xc, s.a[i][j]); } Den got = inverse(m, m((symbol_name_t) id)); ok = ok & got.same(want); all_mono = all_mono && m((symbol_name_t) id).size() <= 1; int kind = (int) (j % 3); cd w = kind == 0 ? cd{2.0, 0.0} : kind == 1 ? cd{0.0, -1.0} : cd{1.0, 0.5}; Den g2 = inverse(m, m(Monomial{(symbol_name_t) id, w, false})); Den w2{t}; for (auto& [key, v] : want.c) w2.add(key.first, key.second, v * w); ok = ok & g2.same(w2); Den g3 = inverse(m, m(Monomial{(symbol_name_t) id, w, true})); Den w3{t}; Den wc = want.conj(); for (auto& [key, v] : wc.c) w3.add(key.first, key.second, v * w); ok = ok & g3.same(w3); }
    sx_assert(ok, "each symbol is sent to the dictated combination"); sx_assert(m.is_monomial_map() == all_mono, "monomial maps are recognised"); bool flags = true; for (size_t y = 2; y < m.inv_size(); ++y) { Den d{t}; d.add(m.inverse((symbol_name_t) y)); Den c = d.conj(); auto& sym = (*b.target)[y]; bool h = d.same(c); Den neg{t}; for (auto& [key, v] : c.c) neg.add(key.first, key.second, -v); bool a = d.same(neg); flags = flags & (sym.is_hermitian() == h) & (sym.is_antihermitian() == a); } sx_assert(flags, "new symbols are real or imaginary when their definitions are");
    // combinations
    symbol_name_t last = (symbol_name_t) (t.size() - 1), two = 2; if (last > 2 && mapped[last] && mapped[2]) { Polynomial p{Polynomial::storage_t{Monomial{1, 3.0}, Monomial{two, cd{0.0, 1.0}}, Monomial{last, 2.0, true}}}; Den got{*b.target}, want{*b.target}; got.add(m(p)); want.add(m((symbol_name_t) 1), 3.0); want.add(m(two), cd{0.0, 1.0}); want.add(m(Monomial{last, 1.0, true}), 2.0); sx_assert(got.same(want), "the map is linear"); SquareMatrix<Polynomial> mat{1, std::vector<Polynomial>{p}}; sx_assert((*m(mat))[0] == m(p), "matrices are mapped entry by entry"); }
    for (size_t id = 0; id < t.size(); ++id) { bool thrown = false; try { (void) m((symbol_name_t) id); } catch (const errors::bad_map&) { thrown = true; } sx_assert(thrown == !mapped[id], "exactly the symbols beyond the transformation are refused"); } for (int z = 0; z < 2; ++z) { symbol_name_t bad = z ? -1 : (symbol_name_t) t.size(); bool thrown = false; try { (void) m(bad); } catch (const errors::bad_map&) { thrown = true; } sx_assert(thrown, "unknown symbols are refused"); bad = z ? -1 : (symbol_name_t) m.inv_size(); thrown = false; try { (void) m.inverse(bad); } catch (const errors::bad_map&) { thrown = true; } sx_assert(thrown, "unknown new symbols are refused"); } sx_observe("inv", (long) m.inv_size()); sx_reach("end"); }
namespace {
// signed permutations of the letters and complements that respect the relations of the context
std::vector<M> letter_maps(int k) { M id{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, swap{{1, 0, 0}, {0, 0, 1}, {0, 1, 0}}, neg{{1, 0, 0}, {0, -1, 0}, {0, 0, -1}}, na{{1, 0, 0}, {0, -1, 0}, {0, 0, 1}}, turn{{1, 0, 0}, {0, 0, -1}, {0, 1, 0}}, comp{{1, 1, 0}, {0, -1, 0}, {0, 0, 1}}, comps{{1, 1, 1}, {0, 0, -1}, {0, -1, 0}}; (void) id; switch (k) { case 0: return {swap, neg, na, turn, comp, comps}; case 1: return {swap, neg, na, turn}; case 2: return {swap, neg}; case 3: return {swap, comp, comps}; case 4: return {swap}; default: return {swap, neg, na, turn}; } }
Eigen::SparseMatrix<double> small(const M& m) { Src s; s.a = m; s.rows = m.size(); s.cols = m[0].size(); return s.sparse(false); }
Den at(const SymbolicMatrix& m, size_t i, size_t j, const SymbolTable& t) { Den d{t}; if (m.is_monomial()) { auto& e = dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j); d.add(e.id, e.conjugated, e.factor); } else d.add(dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)); return d; }
}
namespace {
// the group generated by integer matrices, or nothing if it has more than `cap` elements
bool finite(const std::vector<M>& g, size_t cap) { std::set<M> seen(g.begin(), g.end()); std::vector<M> todo(seen.begin(), seen.end()); while (!todo.empty()) { M x = todo.back(); todo.pop_back(); for (auto& y : g) { M z(x.size(), std::remove_reference_t<decltype(x[0])>(x.size(), 0)); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) for (size_t k = 0; k < x.size(); ++k) z[i][j] += x[i][k] * y[k][j]; if (seen.insert(z).second) { if (seen.size() > cap) return false; todo.push_back(z); } } } return true; }
}
// averages over a group: the map after its inverse is the identity, and derived matrices are the images of the source matrices
extern "C" void h_group() { int k = (int) sx_choose(sx_param("first", 0), sx_param("last", 6), "context"); auto gens = letter_maps(k); bool known = sx_param("known", 0); size_t g0 = known ? 4 : sx_choose(0, (long) gens.size() - 1, "generator"); std::vector<Eigen::SparseMatrix<double>> raw{small(gens[g0])}; if (sx_param("two", 0)) { size_t g1 = sx_choose(0, (long) gens.size() - 1, "second"); if (g1 != g0) { if (!finite({gens[g0], gens[g1]}, 24)) return; raw.push_back(small(gens[g1])); } } auto elems = Group::dimino_generation(raw, 8); std::shared_ptr<MatrixSystem> base{system(k)}; size_t words = known ? 3 : sx_choose(2, sx_param("words", 2), "words"); base->generate_dictionary(!known && sx_choose(0, 1, "longer") ? words + 2 : words); int early = known ? 0 : (int) sx_choose(0, 1, "early"); if (early) base->MomentMatrix.create(1, ST); auto* bp = base.get(); auto grp = std::make_unique<Group>(base->Context(), std::make_unique<Representation>(1, std::move(elems))); SymmetrizedMatrixSystem sms{std::move(base), std::move(grp), words, std::make_unique<LUMapCoreProcessor>(), -1.0, ST}; auto& m = sms.map(); auto& t = bp->Symbols(); auto& u = sms.Symbols(); size_t n = bp->Context().operator_sequence_generator(words).size();
    bool indep = true; for (size_t y = 0; y < m.inv_size(); ++y) { Den got{u}, want{u}; for (auto& x : m.inverse((symbol_name_t) y)) got.add(m(x)); want.add((long) y, false, 1.0); bool same = got.same(want); if (!same) { Den i1{t}, i2{t}; i2.add(m.inverse((symbol_name_t) y)); for (auto& [key, v] : got.c) i1.add(m.inverse((symbol_name_t) key.first), v, key.second); sx_assert(i1.same(i2), "mapping back and forth keeps the meaning of a new symbol"); } bool plain = true; for (auto& x : m.inverse((symbol_name_t) y)) plain = plain && (t[x.id].is_hermitian() || t[x.id].is_antihermitian()); indep = indep && (same || !plain); } sx_assert(indep, "map after inverse map is the identity on independent symbols");
    // group elements act trivially on images
    bool inv = true; auto& rep = sms.group().representation(words); for (auto& e : rep) for (size_t j = 0; j < n; ++j) { auto [id, cj] = t.OSGIndex(j); Den a{t}, b{t}; a.add(Polynomial{}); for (auto& [key, v] : inverse(m, m(Monomial{id, 1.0, cj})).c) a.add(key.first, key.second, v); for (int q = 0; q < e.outerSize(); ++q) if ((size_t) q == j) for (Eigen::SparseMatrix<double>::InnerIterator it(e, q); it; ++it) { auto [x, xc] = t.OSGIndex(it.row()); for (auto& [key, v] : inverse(m, m(Monomial{x, it.value(), xc})).c) b.add(key.first, key.second, v); } inv = inv & a.same(b); } sx_assert(inv, "symmetric words have equal images");
    bool mixed = false; for (size_t y = 2; y < m.inv_size(); ++y) { auto& dy = m.inverse((symbol_name_t) y); mixed = mixed || (dy.size() > 1 && !u[(symbol_name_t) y].is_hermitian() && !u[(symbol_name_t) y].is_antihermitian()); }
    int what = known ? 1 : (int) sx_choose(0, 3, "request"); size_t lvl = what == 0 ? sx_choose(0, 2, "level") : 1; const SymbolicMatrix* d = nullptr; const SymbolicMatrix* src = nullptr; bool refused = false; try { if (what == 0) { d = &sms.MomentMatrix.create(lvl, ST).second; src = &bp->MomentMatrix(lvl); } else if (what == 1) { LocalizingMatrixIndex lmi{0, OperatorSequence{S{(oper_name_t) (known ? 1 : sx_choose(0, 1, "letter"))}, bp->Context()}}; lmi.Level = known ? 1 : sx_choose(0, 1, "lmlevel"); lvl = lmi.Level; d = &sms.LocalizingMatrix.create(lmi, ST).second; src = &bp->LocalizingMatrix(lmi); } else if (what == 2) { size_t l = sx_choose(1, 2, "level"); auto [off, sm] = bp->MomentMatrix.create(l, ST); lvl = l; d = &sms.DerivedMatrices.create(off, ST).second; src = &(*bp)[off]; if (sx_choose(0, 1, "again")) { sx_assert(&sms.DerivedMatrices.create(off, ST).second == d, "one derived matrix per source"); } } else { size_t before = sms.size(); try { (void) sms.DerivedMatrices.create((ptrdiff_t) bp->size() + 1, ST); sx_fail("a derived matrix of a missing source is refused"); } catch (const errors::bad_transformation_error&) { } sx_assert(sms.size() == before, "refusals change nothing"); sx_reach("missing"); return; } } catch (const errors::bad_transformation_error&) { refused = true; } catch (const errors::bad_map&) { refused = true; }
    size_t need = 2 * lvl + (what == 1 ? 1 : 0); if (need > words) { bool over = false; if (what == 2 && !refused) { over = true; for (size_t i = 0; i < src->Dimension(); ++i) for (size_t j = 0; j < src->Dimension(); ++j) { auto& e = dynamic_cast<const MonomialMatrix&>(*src).SymbolMatrix(i, j); bool found = e.id == 0; for (size_t w = 0; w < n; ++w) found = found || t.OSGIndex(w).first == e.id; over = over && found; } } sx_assert(refused || over, "matrices with words beyond the map are refused"); sx_reach("toolong"); return; } sx_assert(!refused && d && src, "matrices within the map are created"); if (refused) return; sx_assert(d->Dimension() == src->Dimension(), "dimension is kept"); bool entries = true, herm = true; for (size_t i = 0; i < d->Dimension(); ++i) for (size_t j = 0; j < d->Dimension(); ++j) { Den got = at(*d, i, j, u), want{u}; auto& e = dynamic_cast<const MonomialMatrix&>(*src).SymbolMatrix(i, j); want.add(m(e)); entries = entries & got.same(want); herm = herm & got.same(at(*d, j, i, u).conj()); } sx_assert(entries, "derived matrices are mapped entry by entry"); sx_assert(d->is_monomial() == m.is_monomial_map(), "monomial maps keep matrices monomial"); if (d->Hermitian()) sx_assert(herm, "a matrix declared Hermitian equals its conjugate transpose"); if (src->Hermitian() && (known || !mixed)) sx_assert(d->Hermitian(), "Hermitian matrices stay Hermitian"); sx_reach("end"); }
