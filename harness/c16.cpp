// C16: reduced probabilities, full probabilities and correlators describe one distribution
#include "loc.hpp"
#include "infl.hpp"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial_factory.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/locality/locality_collins_gisin.h"
#include "scenarios/locality/locality_probability_tensor.h"
#include "scenarios/locality/locality_full_correlator.h"
#include "scenarios/locality/tensor_conversion.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_probability_tensor.h"
#include "probability/virtual_polynomial_view.h"
#include <cmath>
#include <complex>
#include <stdexcept>
using namespace Moment; using cd = std::complex<double>;
namespace { using V = std::vector<int>; using X = std::vector<size_t>;
struct Axis { V ops; std::vector<V> mmt; std::vector<bool> full; }; // operators; measurements as positions (1..) among the operators; whether all outcomes are explicit
using Axes = std::vector<Axis>; using Lin = std::vector<std::pair<int, double>>; // combination of positions along one axis
Axes axes(const lc::Layout& l) { auto o = lc::ops(l); Axes a(l.mmts.size()); for (size_t m = 0; m < l.outs.size(); ++m) { auto& x = a[o.mparty[m]]; V v; for (size_t k = 0; k + 1 < l.outs[m]; ++k) { x.ops.push_back(o.mfirst[m] + k); v.push_back(x.ops.size()); } x.mmt.push_back(v); x.full.push_back(false); } return a; }
Axes axes(const in::Ops& o) { Axes a; for (int i = 0; i < o.n(); ) { Axis x; int b = o.obs[i]; V v; for (int k = 0; k < o.nops[b]; ++k) { x.ops.push_back(i + k); v.push_back(k + 1); } x.mmt.push_back(v); x.full.push_back(!o.proj[b]); i += o.nops[b]; a.push_back(x); } return a; }
std::vector<Lin> outcomes(const Axis& a) { std::vector<Lin> r{{{0, 1.0}}}; for (size_t m = 0; m < a.mmt.size(); ++m) { for (int p : a.mmt[m]) r.push_back({{p, 1.0}}); if (!a.full[m]) { Lin l{{0, 1.0}}; for (int p : a.mmt[m]) l.push_back({p, -1.0}); r.push_back(l); } } return r; }
std::vector<Lin> correlators(const Axis& a) { std::vector<Lin> r{{{0, 1.0}}}; for (auto& m : a.mmt) r.push_back({{m[0], 2.0}, {0, -1.0}}); return r; }
bool next(X& i, const X& lo, const X& hi) { for (size_t d = 0; d < i.size(); ++d) { if (++i[d] < hi[d]) return true; i[d] = lo[d]; } return false; }
size_t flat(const X& i, const X& dims) { size_t r = 0, s = 1; for (size_t d = 0; d < i.size(); ++d) { r += i[d] * s; s *= dims[d]; } return r; }
X cgdims(const Axes& a) { X d; for (auto& x : a) d.push_back(x.ops.size() + 1); return d; }
std::vector<double> expand(const Axes& a, const std::vector<std::vector<Lin>>& t, const X& i) { X d = cgdims(a); size_t n = 1; for (auto x : d) n *= x; std::vector<double> r(n, 0.0); X c(a.size(), 0), z(a.size(), 0), hi; for (size_t k = 0; k < a.size(); ++k) hi.push_back(t[k][i[k]].size()); do { X w; double f = 1; for (size_t k = 0; k < a.size(); ++k) { auto& e = t[k][i[k]][c[k]]; w.push_back(e.first); f *= e.second; } r[flat(w, d)] += f; } while (next(c, z, hi)); return r; }
sequence_storage_t word(const Axes& a, const X& i) { sequence_storage_t s; for (size_t k = 0; k < i.size(); ++k) if (i[k]) s.push_back((oper_name_t) a[k].ops[i[k] - 1]); return s; }
// entries of the reduced tensor name their operators, and know their symbols
void reduced(const CollinsGisin& cg, const Axes& a, bool deep) { X d = cgdims(a), z(d.size(), 0), i = z; sx_assert(cg.Dimensions == d, "shape of reduced tensor"); size_t off = 0; bool all = true, ok = true; std::vector<size_t> miss; do { OperatorSequence w{word(a, i), cg.context}; auto e = cg(i); auto s = cg.symbol_table.where(w); ok = ok && e->sequence == w && flat(i, d) == off && cg.index_to_offset(i) == off && cg.at(off)->sequence == w; if (s.found()) ok = ok && e->symbol_id == s->Id() && e->real_index == s->basis_key().first && e->is_alias == s.is_aliased; else { ok = ok && e->symbol_id < 0 && e->real_index < 0; all = false; miss.push_back(off); } ++off; } while (next(i, z, d)); sx_assert(ok, "reduced entry names its operators and symbol"); sx_assert(off == cg.ElementCount, "every reduced entry");
    if (deep && cg.StorageType == TensorStorageType::Explicit) { sx_assert(cg.HasAllSymbols() == all, "reduced tensor knows what is missing"); std::vector<size_t> m(cg.MissingSymbols().begin(), cg.MissingSymbols().end()); sx_assert(m == miss, "missing entries"); } }
void element(const PolynomialElement& e, const CollinsGisin& cg, const std::vector<double>& want, bool& okc, bool& oks) { std::vector<double> w = want; size_t n = 0; for (auto& m : e.cgPolynomial) { if (m.id < 1 || (size_t) m.id > w.size() || m.conjugated) { okc = false; return; } double f = m.factor.real(); okc = okc && f != 0.0 && m.factor.imag() == 0.0; w[m.id - 1] -= f; ++n; } for (size_t k = 0; k < w.size(); ++k) { okc = okc && w[k] == 0.0; n -= want[k] != 0.0; } okc = okc && n == 0;
    bool have = true; std::vector<std::pair<long, double>> s; for (size_t k = 0; k < want.size(); ++k) if (want[k] != 0.0) { long id = cg.at(k)->symbol_id; if (id < 0) { have = false; break; } bool hit = false; for (auto& x : s) if (x.first == id) { x.second += want[k]; hit = true; } if (!hit) s.push_back({id, want[k]}); } oks = oks && e.hasSymbolPoly == have; if (!have || !e.hasSymbolPoly) return; size_t terms = 0; for (auto& m : e.symbolPolynomial) { bool hit = false; for (auto& x : s) if (x.first == m.id) { x.second -= m.factor.real(); hit = true; } oks = oks && hit && !m.conjugated && m.factor.imag() == 0.0; ++terms; } size_t nz = 0; for (auto& x : s) { oks = oks && x.second == 0.0; } for (auto& x : s) nz++; oks = oks && terms <= nz; }
template<class T> void dependent(const T& t, const CollinsGisin& cg, const Axes& a, const std::vector<std::vector<Lin>>& lin, const char* shape, const char* value, const char* symbols) { X d; for (auto& l : lin) d.push_back(l.size()); sx_assert(t.Dimensions == d, shape); X z(d.size(), 0), i = z; bool okc = true, oks = true, all = true; size_t off = 0; do { auto e = t(i); element(*e.operator->(), cg, expand(a, lin, i), okc, oks); all = all && e->hasSymbolPoly; okc = okc && t.at(off)->cgPolynomial == e->cgPolynomial && t.CGPolynomial(i) == e->cgPolynomial; ++off; } while (next(i, z, d)); sx_assert(okc && off == t.ElementCount, value); sx_assert(oks, symbols); if (t.StorageType == TensorStorageType::Explicit) { sx_assert(t.HasAllPolynomials() == all, symbols); size_t k = 0; bool same = true; for (auto it = t.begin(); it != t.end(); ++it) { same = same && k < off && it.offset() == k && t.offset_to_index(k) == it.index() && it->cgPolynomial == t.at(k)->cgPolynomial; ++k; } sx_assert(same && k == off, "iteration over the tensor"); }
    else { size_t k = 0; bool same = true; for (auto it = t.begin(); it != t.end(); ++it) { same = same && k < off && it.offset() == k && t.offset_to_index(k) == it.index(); ++k; } sx_assert(same && k == off, "iteration over the tensor"); } }
template<class M> void reg(M& ms, const Axes& a, int stage, int mode, int seed) { X d = cgdims(a), z(d.size(), 0), i = z; int off = 0; while (next(i, z, d)) { ++off; int when = mode == 0 ? 9 : mode == 1 ? 0 : mode == 2 ? 1 : mode == 3 ? off & 1 : (off * 7 + seed) % 3; if (when == stage) ms.Symbols().merge_in(OperatorSequence{word(a, i), ms.Context()}); } }
template<class F> bool refused(F f) { try { f(); } catch (const std::runtime_error&) { return true; } catch (const std::logic_error&) { return true; } return false; }
template<class R, class T> void range(const R& r, const T& t, const X& lo, const X& hi) { X i = lo; bool ok = true; size_t n = 0; auto it = r.begin(); do { ok = ok && (bool) it; if (!ok) break; ok = ok && X(it.index().begin(), it.index().end()) == i && it.offset() == flat(i, t.Dimensions) && it.block_offset() == n; if (t.StorageType == TensorStorageType::Explicit) ok = ok && &*it == &t.Data()[it.offset()]; ++it; ++n; } while (next(i, lo, hi)); ok = ok && !it && r.size() == n; for (size_t d = 0; d < lo.size(); ++d) ok = ok && r.Dimensions()[d] == hi[d] - lo[d]; sx_assert(ok, "range covers the outcomes asked for"); }
lc::Layout lay(int i) { switch (i) { case 8: return {{1, 1}, {3, 3}}; case 9: return {{2, 1}, {2, 2, 2}}; case 10: return {{1, 1, 1}, {2, 2, 2}}; case 11: return {{1}, {2}}; case 12: return {{1, 1, 1, 1}, {2, 2, 2, 2}}; case 13: return {{1, 2}, {2, 1, 3}}; default: return lc::layout(i); } }
bool binary(const lc::Layout& l) { for (auto o : l.outs) if (o != 2) return false; return true; }
std::vector<std::vector<Lin>> tab(const Axes& a, bool fc) { std::vector<std::vector<Lin>> r; for (auto& x : a) r.push_back(fc ? correlators(x) : outcomes(x)); return r; }
}
extern "C" void h_locality() { static const int ls[] = {11, 1, 0, 10, 3, 9, 8, 13, 5, 4, 12, 2}; auto l = lay(ls[sx_choose(0, sx_param("layouts", 9), "layout")]); auto a = axes(l); Locality::LocalityMatrixSystem ms{std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(l.mmts, l.outs))}; int mode = sx_choose(0, 4, "mode"); int seed = mode == 4 ? sx_choose(0, 2, "seed") : 0; bool fc = binary(l);
    sx_assert(refused([&] { (void) ms.CollinsGisin(); }) && refused([&] { (void) ms.ProbabilityTensor(); }) && refused([&] { (void) ms.FullCorrelator(); }), "missing tensors are reported"); reg(ms, a, 0, mode, seed); ms.RefreshCollinsGisin(); reg(ms, a, 1, mode, seed); bool late = sx_choose(0, 1, "late"); if (late) ms.RefreshCollinsGisin(); ms.RefreshProbabilityTensor(); if (fc) ms.RefreshFullCorrelator(); else sx_assert(refused([&] { ms.RefreshFullCorrelator(); }), "no correlators without binary measurements"); reg(ms, a, 2, mode, seed);
    auto& cg = ms.LocalityCollinsGisin(); bool r = ms.RefreshCollinsGisin(); sx_assert(r == cg.HasAllSymbols(), "refresh reports completeness"); reduced(cg, a, true); r = ms.RefreshProbabilityTensor(); sx_assert(r == ms.ProbabilityTensor().HasAllPolynomials(), "refresh reports completeness"); dependent(ms.ProbabilityTensor(), cg, a, tab(a, false), "shape of probability tensor", "probability of each outcome", "probability in symbols");
    if (fc) { r = ms.RefreshFullCorrelator(); sx_assert(r == ms.FullCorrelator().HasAllPolynomials(), "refresh reports completeness"); dependent(ms.FullCorrelator(), cg, a, tab(a, true), "shape of correlator tensor", "correlator of each choice", "correlator in symbols"); } sx_reach("end"); }
extern "C" void h_virtual() { static const int ls[] = {11, 1, 0, 10, 3, 9, 8}; auto l = lay(ls[sx_choose(0, sx_param("layouts", 6), "layout")]); auto a = axes(l); Locality::LocalityMatrixSystem ms{std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(l.mmts, l.outs))}; int mode = sx_choose(0, 4, "mode"); reg(ms, a, 0, mode, 0); reg(ms, a, 1, mode, 0); ms.RefreshCollinsGisin(); auto& cg = ms.CollinsGisin(); Locality::LocalityProbabilityTensor pt{ms, TensorStorageType::Virtual}; dependent(pt, cg, a, tab(a, false), "shape of probability tensor", "probability of each outcome", "probability in symbols"); if (binary(l)) { Locality::LocalityFullCorrelator fc{ms, TensorStorageType::Virtual}; dependent(fc, cg, a, tab(a, true), "shape of correlator tensor", "correlator of each choice", "correlator in symbols"); } sx_reach("end"); }
// tensors too large to store
extern "C" void h_huge() { int o = sx_param("outs", 33); lc::Layout l{{1, 1}, {(size_t) o, (size_t) o}}; auto a = axes(l); Locality::LocalityMatrixSystem ms{std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(l.mmts, l.outs))}; ms.RefreshCollinsGisin(); auto& cg = ms.CollinsGisin(); sx_assert(cg.StorageType == TensorStorageType::Virtual, "stored on demand"); int p[] = {0, 1, o / 2, o - 1}; X i{(size_t) p[sx_choose(0, 3, "i")], (size_t) p[sx_choose(0, 3, "j")]}; if (sx_choose(0, 1, "known")) ms.Symbols().merge_in(OperatorSequence{word(a, i), ms.Context()}); OperatorSequence w{word(a, i), ms.Context()}; auto e = cg(i); auto s = ms.Symbols().where(w); sx_assert(e->sequence == w && (e->symbol_id >= 0) == s.found() && (!s.found() || (e->symbol_id == s->Id() && e->real_index == s->basis_key().first)), "reduced entry names its operators and symbol"); sx_assert(cg.at(flat(i, cg.Dimensions))->sequence == w && cg.Dimensions == cgdims(a), "reduced entry by offset"); sx_assert(cg.HasAllSymbols() && refused([&] { (void) cg.Data(); }), "no stored data");
    ms.RefreshProbabilityTensor(); auto& pt = ms.ProbabilityTensor(); bool okc = true, oks = true; auto t = tab(a, false); element(*pt(i).operator->(), cg, expand(a, t, i), okc, oks); sx_assert(okc && oks, "probability of each outcome"); sx_reach("end"); }
extern "C" void h_inflation() { static const int ns[] = {0, 3, 5, 2, 8}; auto N = in::net(ns[sx_choose(0, sx_param("nets", 2), "net")]); auto o = in::ops(N); auto a = axes(o); Inflation::InflationMatrixSystem ms{std::make_unique<Inflation::InflationContext>(Inflation::CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl)}; int mode = sx_choose(0, 3, "mode"); auto put = [&](int st) { X d = cgdims(a), z(d.size(), 0), i = z; int off = 0; while (next(i, z, d)) { ++off; int when = mode == 0 ? 9 : mode == 1 ? 0 : mode == 2 ? 1 : off & 1; if (when == st) ms.Symbols().merge_in(OperatorSequence{ms.Context().simplify_as_moment(OperatorSequence{word(a, i), ms.Context()})}); } }; put(0); ms.RefreshCollinsGisin(); put(1); ms.RefreshProbabilityTensor(); auto& cg = ms.CollinsGisin(); bool r = ms.RefreshCollinsGisin(); sx_assert(r == cg.HasAllSymbols(), "refresh reports completeness"); reduced(cg, a, true); ms.RefreshProbabilityTensor(); dependent(ms.ProbabilityTensor(), cg, a, tab(a, false), "shape of probability tensor", "probability of each outcome", "probability in symbols"); sx_assert(refused([&] { ms.RefreshFullCorrelator(); }), "no correlators"); sx_reach("end"); }
// ranges of outcomes, and requests that do not exist
extern "C" void h_range() { static const int ls[] = {11, 1, 0, 3, 9, 8, 5, 4}; auto l = lay(ls[sx_choose(0, sx_param("layouts", 6), "layout")]); auto o = lc::ops(l); auto a = axes(l); Locality::LocalityMatrixSystem ms{std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(l.mmts, l.outs))}; ms.RefreshProbabilityTensor(); auto& cg = ms.LocalityCollinsGisin(); auto& pt = ms.LocalityProbabilityTensor(); using namespace Moment::Locality;
    std::vector<PMIndex> free; std::vector<PMOIndex> fixed; std::vector<size_t> gfree, gall; std::vector<oper_name_t> gout; X clo(a.size(), 0), chi(a.size(), 1), plo = clo, phi = chi; bool bad = false, cgbad = false, twice = false; int n = sx_choose(0, (int) a.size(), "n"); int M = l.outs.size(); std::vector<int> used; for (int k = 0; k < n; ++k) { int m = sx_choose(0, M, "mmt"); bool isfree = sx_choose(0, 1, "free"); if (m == M) { bad = true; PMIndex pm{0, (mmt_name_t) l.mmts[0], (size_t) M}; if (isfree) free.push_back(pm); else fixed.push_back(PMOIndex{pm, 0}); gall.push_back(M); gout.push_back(isfree ? -1 : 0); continue; } int p = o.mparty[m], first = 0; for (int q = 0; q < m; ++q) if (o.mparty[q] == p) ++first; PMIndex pm{(party_name_t) p, (mmt_name_t) first, (size_t) m}; for (int u : used) if (u == p) twice = true; used.push_back(p); int base = a[p].mmt[first].empty() ? 0 : a[p].mmt[first][0]; int pb = 1; for (int q = 0; q < first; ++q) pb += (int) a[p].mmt[q].size() + 1; gall.push_back(m); if (isfree) { free.push_back(pm); gout.push_back(-1); clo[p] = base; chi[p] = base + l.outs[m] - 1; plo[p] = pb; phi[p] = pb + l.outs[m]; } else { int x = sx_range(0, (long) l.outs[m], "outcome"); x = sx_concretize(x); fixed.push_back(PMOIndex{pm, (uint32_t) x}); gout.push_back(x); if (x >= (int) l.outs[m]) bad = true; if (x >= (int) l.outs[m] - 1) cgbad = true; clo[p] = base + x; chi[p] = base + x + 1; plo[p] = pb + x; phi[p] = pb + x + 1; } }
    bool onlyfixed = free.empty(); bool onlyfree = fixed.empty();
    if (bad || twice) { sx_assert(refused([&] { (void) pt.measurement_to_range(free, fixed); }), "bad request for probabilities is refused"); if (onlyfree) sx_assert(refused([&] { (void) pt.measurement_to_range(free); }), "bad request for probabilities is refused"); if (onlyfixed) sx_assert(refused([&] { (void) pt.outcome_to_element(fixed); }), "bad request for one probability is refused"); } else { range(pt.measurement_to_range(free, fixed), pt, plo, phi); if (onlyfree) range(pt.measurement_to_range(free), pt, plo, phi); if (onlyfixed) { auto e = pt.outcome_to_element(fixed); sx_assert(e.operator->() == &pt.Data()[flat(plo, pt.Dimensions)], "element of one outcome"); } }
    if (bad || twice || cgbad) { sx_assert(refused([&] { (void) cg.measurement_to_range(free, fixed); }), "bad request for reduced probabilities is refused"); if (onlyfree) sx_assert(refused([&] { (void) cg.measurement_to_range(free); }), "bad request for reduced probabilities is refused"); sx_assert(refused([&] { (void) cg.CollinsGisin::measurement_to_range(gall, gout); }), "bad request by measurement number is refused"); if (onlyfree) sx_assert(refused([&] { (void) cg.CollinsGisin::measurement_to_range(gall); }), "bad request by measurement number is refused"); } else { range(cg.measurement_to_range(free, fixed), cg, clo, chi); range(cg.CollinsGisin::measurement_to_range(gall, gout), cg, clo, chi); if (onlyfree) { range(cg.measurement_to_range(free), cg, clo, chi); range(cg.CollinsGisin::measurement_to_range(gall), cg, clo, chi); } } sx_reach("end"); }
extern "C" void h_irange() { static const int ns[] = {0, 3, 5, 2}; auto N = in::net(ns[sx_choose(0, sx_param("nets", 2), "net")]); auto o = in::ops(N); auto a = axes(o); using namespace Moment::Inflation; InflationMatrixSystem ms{std::make_unique<InflationContext>(CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl)}; ms.RefreshProbabilityTensor(); auto& cg = ms.InflationCollinsGisin(); auto& pt = ms.InflationProbabilityTensor(); std::vector<OVIndex> free; std::vector<OVOIndex> fixed; X clo(a.size(), 0), chi(a.size(), 1), plo = clo, phi = chi; bool bad = false, cgbad = false, twice = false; int n = sx_choose(0, 2, "n"); std::vector<int> used; for (int k = 0; k < n; ++k) { int d = sx_choose(0, (int) a.size() - 1, "axis"); for (int u : used) if (u == d) twice = true; used.push_back(d); int b = o.obs[a[d].ops[0]], v = (a[d].ops[0] - o.first[b]) / o.nops[b]; int outs = o.proj[b] ? o.nops[b] + 1 : 1; OVIndex ov{(oper_name_t) b, (oper_name_t) v}; if (sx_choose(0, 1, "free")) { free.push_back(ov); clo[d] = 1; chi[d] = 1 + o.nops[b]; plo[d] = 1; phi[d] = 1 + outs; } else { int x = sx_choose(0, outs, "outcome"); fixed.push_back(OVOIndex{ov, (oper_name_t) x}); if (x >= outs) bad = true; if (x >= o.nops[b]) cgbad = true; clo[d] = plo[d] = 1 + x; chi[d] = phi[d] = 2 + x; } }
    if (bad || twice) { sx_assert(refused([&] { (void) pt.measurement_to_range(free, fixed); }), "bad request for probabilities is refused"); if (fixed.empty()) sx_assert(refused([&] { (void) pt.measurement_to_range(free); }), "bad request for probabilities is refused"); if (free.empty()) sx_assert(refused([&] { (void) pt.outcome_to_element(fixed); }), "bad request for one probability is refused"); } else { range(pt.measurement_to_range(free, fixed), pt, plo, phi); if (fixed.empty()) range(pt.measurement_to_range(free), pt, plo, phi); if (free.empty()) sx_assert(pt.outcome_to_element(fixed).operator->() == &pt.Data()[flat(plo, pt.Dimensions)], "element of one outcome"); }
    if (bad || twice || cgbad) { sx_assert(refused([&] { (void) cg.measurement_to_range(free, fixed); }), "bad request for reduced probabilities is refused"); if (fixed.empty()) sx_assert(refused([&] { (void) cg.measurement_to_range(free); }), "bad request for reduced probabilities is refused"); } else { range(cg.measurement_to_range(free, fixed), cg, clo, chi); if (fixed.empty()) range(cg.measurement_to_range(free), cg, clo, chi); } sx_reach("end"); }
extern "C" void h_correlator() { static const int ls[] = {11, 1, 9, 2, 10}; auto l = lay(ls[sx_choose(0, 4, "layout")]); using namespace Moment::Locality; LocalityMatrixSystem ms{std::make_unique<LocalityContext>(Party::MakeList(l.mmts, l.outs))}; ms.RefreshFullCorrelator(); auto& fc = ms.LocalityFullCorrelator(); int P = l.mmts.size(), n = sx_choose(0, 2, "n"); std::vector<PMIndex> v; X i(P, 0); bool bad = false; for (int k = 0; k < n; ++k) { int p = sx_choose(0, P, "party"); int m = sx_choose(0, p < P ? (int) l.mmts[p] : 0, "mmt"); v.push_back(PMIndex{(party_name_t) p, (mmt_name_t) m}); if (p == P || m == (int) l.mmts[p] || i[p]) bad = true; else i[p] = m + 1; } if (bad) sx_assert(refused([&] { (void) fc.mmt_to_element(v); }), "bad request for a correlator is refused"); else sx_assert(fc.mmt_to_element(v).operator->() == &fc.Data()[flat(i, fc.Dimensions)], "element of one correlator"); sx_reach("end"); }
// rules fixing values
extern "C" void h_rules() { static const int ls[] = {1, 0, 9, 3}; auto l = lay(ls[sx_choose(0, sx_param("layouts", 2), "layout")]); auto o = lc::ops(l); auto a = axes(l); using namespace Moment::Locality; LocalityMatrixSystem ms{std::make_unique<LocalityContext>(Party::MakeList(l.mmts, l.outs))}; bool known = sx_choose(0, 3, "known") != 0; if (known) { reg(ms, a, 0, 1, 0); } ms.RefreshProbabilityTensor(); auto& cg = ms.CollinsGisin(); auto& pt = ms.LocalityProbabilityTensor(); auto lin = tab(a, false); std::vector<PMIndex> free; std::vector<PMOIndex> fixed; X lo(a.size(), 0), hi(a.size(), 1), ci(a.size(), 0); for (size_t p = 0; p < a.size(); ++p) { int m = sx_choose(-1, (int) l.mmts[p] - 1, "mmt"); if (m < 0) continue; int g = 0; for (size_t q = 0; q < p; ++q) g += l.mmts[q]; g += m; int pb = 1; for (int q = 0; q < m; ++q) pb += a[p].mmt[q].size() + 1; PMIndex pm{(party_name_t) p, (mmt_name_t) m, (size_t) g}; int x = sx_choose(-1, (int) l.outs[g] - 1, "outcome"); if (x < 0) { free.push_back(pm); lo[p] = pb; hi[p] = pb + l.outs[g]; } else { fixed.push_back(PMOIndex{pm, (uint32_t) x}); lo[p] = ci[p] = pb + x; hi[p] = pb + x + 1; } }
    auto r = pt.measurement_to_range(free, fixed); size_t n = r.size(); if (n > 4) return; long v[4]; std::vector<double> vals; for (size_t k = 0; k < n; ++k) { v[k] = sx_range(-2, 4, "value"); vals.push_back((double) v[k] / 4.0); } bool cond = sx_choose(0, 1, "cond"); std::vector<Polynomial> out; bool threw = false; try { if (cond) out = pt.explicit_value_rules(r, *pt.outcome_to_element(fixed).operator->(), vals); else out = pt.explicit_value_rules(r, vals); } catch (const Moment::errors::BadPTError&) { threw = true; }
    if (!known) { bool need = !free.empty(); for (size_t p = 0; p < a.size(); ++p) if (lo[p]) need = true; sx_assert(threw == need, "values of unknown symbols are refused"); sx_reach("refused"); return; } sx_assert(!threw && out.size() == n, "one rule for each value"); auto cexp = expand(a, lin, ci); X i = lo; size_t k = 0; bool ok = true; do { auto w = expand(a, lin, i); for (size_t q = 0; q < w.size(); ++q) { long want = 4 * (long) w[q]; if (cond) want -= v[k] * (long) cexp[q]; else if (q == 0) want -= v[k]; long id = cg.at(q)->symbol_id, got = 0; for (auto& m : out[k]) got += m.id == id ? (long) (m.factor.real() * 4.0) : 0; ok = ok & (got == want); } for (auto& m : out[k]) ok = ok & !m.conjugated & (m.factor.imag() == 0.0) & (m.factor.real() != 0.0); ++k; } while (next(i, lo, hi)); sx_assert(ok, "rule says the probability has that value"); sx_reach("end"); }
// coefficients of a functional in either form
extern "C" void h_convert() { static const int ls[] = {1, 9, 2}; int which = sx_choose(0, 4, "layout"); auto l = which < 3 ? lay(ls[which]) : which == 3 ? lc::Layout{{1, 3}, {2, 2, 2, 2}} : lay(sx_choose(0, 1, "bad") ? 10 : 8); using namespace Moment::Locality; LocalityContext ctx(Party::MakeList(l.mmts, l.outs)); if (which == 4) { sx_assert(refused([&] { TensorConvertor t{ctx}; }), "only two parties with binary measurements"); sx_reach("refused"); return; } TensorConvertor t{ctx}; int A = l.mmts[0] + 1, B = l.mmts[1] + 1; bool fwd = sx_choose(0, 1, "forward"); int n = A * B; if (sx_choose(0, 3, "size") == 0) { std::vector<double> s(n + (fwd ? 1 : -1), 0.0); sx_assert(refused([&] { (void) t.collins_gisin_to_full_correlator(s); }) && refused([&] { (void) t.full_correlator_to_collins_gisin(s); }), "wrong sizes are refused"); return; } std::vector<long> c; std::vector<double> x; int s1 = sx_choose(0, n - 1, "first"), s2 = sx_choose(0, n - 1, "second"); for (int i = 0; i < n; ++i) { c.push_back(i == s1 || i == s2 ? sx_range(-sx_param("lim", 15), sx_param("lim", 15), "coefficient") : (i * i * 5 + 3 * i) % 11 - 4); x.push_back((double) c.back()); } auto y = fwd ? t.collins_gisin_to_full_correlator(x) : t.full_correlator_to_collins_gisin(x); bool ok = (int) y.size() == n; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) { long want = 0; for (int p = 0; p < A; ++p) for (int q = 0; q < B; ++q) if ((i == 0 || p == i) && (j == 0 || q == j)) { int up = (p != 0) + (q != 0), lo = (i != 0) + (j != 0); want += fwd ? c[q * A + p] * (1 << (2 - up)) : c[q * A + p] * (1 << lo) * ((up - lo) % 2 ? -4 : 4); } ok = ok & ((long) (y[j * A + i] * 4.0) == want); } sx_assert(ok, "same functional in the other form"); auto z = fwd ? t.full_correlator_to_collins_gisin(y) : t.collins_gisin_to_full_correlator(y); bool back = (int) z.size() == n; for (int i = 0; back && i < n; ++i) back = back & (z[i] == x[i]); sx_assert(back, "converting back restores it"); sx_reach("end"); }
extern "C" void h_view() { auto l = lay(1); auto a = axes(l); Locality::LocalityMatrixSystem ms{std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(l.mmts, l.outs))}; ms.RefreshProbabilityTensor(); auto& cg = ms.CollinsGisin(); auto& pt = ms.ProbabilityTensor(); size_t k = sx_choose(0, (int) pt.ElementCount - 1, "entry"); auto e = pt.at(k); VirtualPolynomialView v{cg, e->cgPolynomial}; size_t n = 0; bool ok = v.size() == e->cgPolynomial.size() && v.empty() == e->cgPolynomial.empty(); for (auto it = v.begin(); it != v.end(); ++it) { auto [s, f] = *it; auto& m = e->cgPolynomial[n]; ok = ok && s == cg.at(m.id - 1)->sequence && f == m.factor; ++n; } sx_assert(ok && n == v.size(), "terms in operators"); sx_reach("end"); }
