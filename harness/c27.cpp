// C27: imported matrices keep their entries; declared structure removes exactly the parts of symbols that must vanish
#include "hx.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "scenarios/imported/imported_context.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial_factory.h"
#include "matrix/monomial_matrix.h"
#include "tensor/square_matrix.h"
#include <complex>
#include <set>
using namespace Moment; using cd = std::complex<double>;
namespace {
constexpr int MAXID = 5;
struct E { int id = 1; bool cj = false; long f = 1; };
struct In { int n; bool complex, herm; E e[2][2]; };
struct Parts { int size = 2; bool re[MAXID] = {false, true, true, true, true}, im[MAXID] = {false, false, true, true, true}; };
E pick(int lo, int hi, int fs) { E e; e.id = (int) sx_choose(lo, hi, "id"); e.cj = e.id > 1 && sx_choose(0, 1, "conj"); static const long F[3] = {1, -1, 2}; if (fs == 0) { e.f = sx_range(-3, 3, "factor"); sx_assume(e.f != 0); } else e.f = F[sx_choose(0, fs - 1, "factor")]; return e; }
In input(bool small, int step) { In x; x.n = 1 + (int) sx_choose(0, 1, "n"); int kind = (int) sx_choose(0, 3, "kind"); x.complex = kind & 1; x.herm = kind & 2; int hi = sx_param("hi", 3); if (x.n == 1) { x.e[0][0] = pick(0, hi, 0); return x; } x.e[0][0] = small ? E{} : pick(0, hi, 0); x.e[0][1] = pick(small ? 2 : 0, small ? 2 : hi, small ? 1 : sx_param("f", 2)); x.e[1][0] = pick(2, small ? 2 : 3, small ? 2 : 3); if (!small && sx_choose(0, 1, "match")) x.e[1][0].id = x.e[0][1].id; if (x.e[1][0].id == 0) x.e[1][0].f = x.e[0][1].f; x.e[1][1] = E{}; x.e[1][1].f = sx_range(-3, 3, "last"); sx_assume(x.e[1][1].f != 0); return x; }
// what must hold of symbol parts for the declared structure; false when impossible
bool demand(const In& x, bool real_only, Parts& p) { if (real_only && x.complex) return false; auto need = [&](int id, bool re, bool im) { if (id == 0) return; if (!re) p.re[id] = false; if (!im) p.im[id] = false; }; for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) p.size = std::max(p.size, x.e[i][j].id + 1);
    if (real_only) for (int k = 0; k < MAXID; ++k) p.im[k] = false; if (!x.complex) for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) need(x.e[i][j].id, true, false);
    if (x.herm) for (int i = 0; i < x.n; ++i) for (int j = i; j < x.n; ++j) { E a = x.e[i][j], b = x.e[j][i]; b.cj = !b.cj; if (a.id == 0 && b.id == 0) continue; if (a.id != b.id) return false; if (a.f != b.f && a.f != -b.f) return false; bool neg = a.f != b.f, cj = a.cj != b.cj; if (!cj) { if (neg) need(a.id, false, false); } else if (!neg) need(a.id, true, false); else need(a.id, false, true); }
    for (int k = 1; k < p.size; ++k) if (!p.re[k] && !p.im[k]) return false; return true; }
struct M { In x; MonomialMatrix* m; };
void check(Imported::ImportedMatrixSystem& s, const Parts& p, const std::vector<M>& ms, int which) { auto& t = s.Symbols(); sx_assert((int) t.size() == p.size, "one symbol per identifier mentioned"); if ((int) t.size() != p.size) return; bool ok = true; int re = 0, im = 0; for (int k = 1; k < p.size; ++k) { auto& y = t[k]; ok = ok && y.is_hermitian() == !p.im[k] && y.is_antihermitian() == !p.re[k]; auto [a, b] = y.basis_key(); ok = ok && a == (p.re[k] ? re : -1) && b == (p.im[k] ? im : -1); re += p.re[k]; im += p.im[k]; } sx_assert(ok, "exactly the parts that must vanish are removed"); sx_assert((int) t.Basis.RealSymbolCount() == re && (int) t.Basis.ImaginarySymbolCount() == im, "parts are counted");
    sx_assert(s.size() == ms.size(), "one matrix per import"); for (size_t z = 0; z < ms.size(); ++z) { auto& x = ms[z].x; auto& m = *ms[z].m; sx_assert(&s.get(z) == &m, "matrices keep their place"); sx_assert((int) m.Dimension() == x.n && m.Hermitian() == x.herm && !m.HasComplexCoefficients(), "declared structure"); std::set<int> used, R, I; bool v = true; for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) { auto& e = x.e[i][j]; auto& g = m.SymbolMatrix(i, j); used.insert(e.id); if (e.id) { bool cj = e.cj && p.re[e.id] && p.im[e.id]; long f = e.cj && !p.re[e.id] ? -e.f : e.f; v = v && g.id == e.id && g.conjugated == cj && g.factor == cd{(double) f, 0.0}; auto [a, b] = t[e.id].basis_key(); if (a >= 0) R.insert((int) a); if (b >= 0) I.insert((int) b); } else v = v && g.id == 0; }
        sx_assert(v, "entries are kept"); auto same = [](auto& a, auto& b) { if (a.size() != b.size()) return false; for (auto k : a) if (!b.contains((int) k)) return false; return true; }; sx_assert(same(m.IncludedSymbols(), used), "included symbols"); sx_assert(same(m.RealBasisIndices(), R) && same(m.ImaginaryBasisIndices(), I) && m.HasComplexBasis() == !I.empty(), "basis elements of the matrix");
        if (which < 2) { bool b = true; auto eval = [&](auto& re, auto& im) { b = re.size() <= t.Basis.RealSymbolCount() && im.size() <= t.Basis.ImaginarySymbolCount(); if (b) for (int k = 1; k < p.size; ++k) { auto [rk, ik] = t[k].basis_key(); for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) { auto& e = x.e[i][j]; double f = e.id == k ? (double) e.f : 0.0; if (rk >= 0) b = b && (rk < (long) re.size() ? re[rk].coeff(i, j) == f : f == 0); if (ik >= 0) b = b && (ik < (long) im.size() ? im[ik].coeff(i, j) == cd{0.0, e.cj ? -f : f} : f == 0); } } }; if (which == 0) { auto [re, im] = m.Basis.Dense(); eval(re, im); } else { auto [re, im] = m.Basis.Sparse(); eval(re, im); } sx_assert(b, "basis reproduces the entries"); } } }
}
extern "C" void h_import() { bool ro = sx_choose(0, 1, "realonly"); Imported::ImportedMatrixSystem s{ro}; Parts p; if (ro) for (auto& b : p.im) b = false; std::vector<M> ms; int ops = sx_param("ops", 1); int which = sx_param("basis", 1) ? (int) sx_choose(0, 3 - sx_param("basis", 1), "basis") : 2; for (int z = 0; z < ops; ++z) { In x = input(z + 1 < ops, z); Parts q = p; bool ok = demand(x, ro, q); std::vector<Monomial> v; for (int j = 0; j < x.n; ++j) for (int i = 0; i < x.n; ++i) v.push_back(Monomial{(symbol_name_t) x.e[i][j].id, (double) x.e[i][j].f, x.e[i][j].cj}); bool done = false; try { auto [at, m] = s.import_matrix(std::make_unique<SquareMatrix<Monomial>>(x.n, std::move(v)), x.complex, x.herm); done = true; sx_assert(at == ms.size(), "imported at the end"); ms.push_back({x, dynamic_cast<MonomialMatrix*>(&m)}); } catch (const Imported::errors::bad_import_matrix&) {} sx_assert(done == ok, "accepted exactly when consistent with the declared structure"); if (ok) p = q; else sx_reach("refused"); check(s, p, ms, which); } sx_observe("n", s.Symbols().size()); sx_reach("end"); }
extern "C" void h_refuse() { Imported::ImportedMatrixSystem s{(bool) sx_choose(0, 1, "realonly")}; int what = (int) sx_choose(0, 1, "what"); bool threw = false; try { if (what == 0) s.MomentMatrix.create(1, Multithreading::MultiThreadPolicy::Never); else s.LocalizingMatrix.create(LocalizingMatrixIndex{1, OperatorSequence({}, s.Context())}, Multithreading::MultiThreadPolicy::Never); } catch (const std::runtime_error&) { threw = true; } sx_assert(threw && s.size() == 0 && s.Symbols().size() == 2, "no operator matrices without operators"); sx_reach("end"); }
