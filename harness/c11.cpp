// C11: symbol tables register each moment once (modulo conjugation), number bases densely, and look words up again
#include "alg.hpp"
#include "symbolic/symbol_table.h"
#include "dictionary/operator_sequence_generator.h"
#include "utilities/dynamic_bitset.h"
using namespace Moment; using namespace al;
namespace {
struct Rec { bool seq; El e; int flag; }; // flag for plain symbols: 0 complex, 1 real, 2 imaginary
void check(const SymbolTable& t, const std::vector<Rec>& m, const Context& ctx) {
    sx_assert(t.size() == m.size(), "one symbol per distinct moment modulo conjugation"); if (t.size() != m.size()) return; size_t nr = 0, ni = 0; auto& B = t.Basis;
    for (size_t i = 0; i < m.size(); ++i) { auto& s = t[i]; sx_assert(s.Id() == (symbol_name_t) i, "ids are positions"); bool H, A; if (m[i].seq) { El c = conj(m[i].e); bool z = m[i].e.zero; H = z || (same(c, m[i].e) && c.sg == m[i].e.sg); A = z || (same(c, m[i].e) && c.sg != m[i].e.sg);
            sx_assert(s.has_sequence(), "symbol keeps its word"); if (!s.has_sequence()) return; if (z) { sx_assert(s.sequence().zero(), "zero symbol"); } else { S w; for (auto x : s.sequence()) w.push_back(x); El c2 = c; bool fwd = eqw(w, m[i].e.w), bwd = eqw(w, c2.w); sx_assert(fwd || bwd, "symbol stands for the registered word"); sx_assert(s.sequence().get_sign() == SequenceSignType::Positive, "stored word is positive"); } }
        else { H = m[i].flag == 1; A = m[i].flag == 2; sx_assert(!s.has_sequence(), "plain symbol has no word"); }
        sx_assert(s.is_hermitian() == H && s.is_antihermitian() == A, "Hermitian and anti-Hermitian flags"); auto [r, im] = s.basis_key(); bool hr = !A, hi = !H; sx_assert(r == (hr ? (ptrdiff_t) nr : -1) && im == (hi ? (ptrdiff_t) ni : -1), "basis indices are dense in registration order"); auto bk = B(i); sx_assert(bk.first == r && bk.second == im, "basis key");
        if (hr) { sx_assert(nr < B.RealSymbolCount() && B.RealSymbols()[nr] == i && B.imaginary_from_real(nr) == im, "real basis refers back"); ++nr; } if (hi) { sx_assert(ni < B.ImaginarySymbolCount() && B.ImaginarySymbols()[ni] == i && B.real_from_imaginary(ni) == r, "imaginary basis refers back"); ++ni; } }
    sx_assert(B.RealSymbolCount() == nr && B.ImaginarySymbolCount() == ni, "basis sizes"); sx_assert(B.imaginary_from_real(-1) == -1 && B.real_from_imaginary(-1) == -1, "missing part maps to missing part"); }
int find(const std::vector<Rec>& m, const El& e) { El c = conj(e); for (size_t i = 0; i < m.size(); ++i) if (m[i].seq && (same(m[i].e, e) || same(m[i].e, c))) return i; return -1; }
void lookup(const SymbolTable& t, const std::vector<Rec>& m, const Context& ctx, const S& w) { El e = canon(w); OperatorSequence q{S{w}, ctx}; int at = find(m, e); auto r = t.where(q); sx_assert(r.found() == (at >= 0), "exactly the registered words are found"); sx_assert((r == nullptr) == (at < 0) && (r != nullptr) == (at >= 0) && (bool) r == (at >= 0) && !r == (at < 0), "the ways of asking agree"); auto mo = t.to_symbol(q); if (at < 0) { sx_assert(mo.id == 0, "unknown word gives zero"); sx_assert(!r.is_aliased, "a word that is its own moment is no alias"); return; } if (!r.found()) return; sx_assert(r->Id() == at && !r.is_aliased, "word finds its symbol");
    sx_assert(mo.id == at, "word converts to its symbol"); if (e.zero) return; S sw; for (auto x : t[at].sequence()) sw.push_back(x); bool cj = !eqw(sw, e.w); sx_assert(r.is_conjugated == cj && mo.conjugated == cj, "conjugation flag"); }
}
extern "C" void h_history() { type = sx_choose(0, sx_param("types", 5) - 1, "algebra"); auto ctx = make(); SymbolTable t{*ctx}; std::vector<Rec> m; { El z; z.zero = true; m.push_back({true, z, 0}); m.push_back({true, El{}, 0}); } int K = sx_param("ops", 2), L = sx_param("len", 2);
    auto reg = [&](const S& w) { El e = canon(w); e.sg = 1; int at = find(m, e); if (at < 0) { at = m.size(); m.push_back({true, e, 0}); } return at; };
    for (int k = 0; k < K; ++k) switch (sx_choose(0, 4, "operation")) {
        case 0: { S w = word(L); auto sg = static_cast<SequenceSignType>(sx_choose(0, 3, "sign")); int at = reg(w); auto id = t.merge_in(OperatorSequence{S{w}, *ctx, sg}); sx_assert(id == at, "registration returns the symbol of the word"); break; }
        case 1: { int f = sx_choose(0, 2, "parts"); auto id = t.create(f != 2, f != 1); sx_assert(id == (symbol_name_t) m.size(), "new plain symbol is appended"); m.push_back({false, {}, f}); break; }
        case 2: { int f = sx_choose(0, 2, "parts"); size_t n = sx_choose(0, 2, "count"); auto id = t.create(n, f != 2, f != 1); sx_assert(id == (symbol_name_t) m.size(), "new plain symbols are appended"); for (size_t i = 0; i < n; ++i) m.push_back({false, {}, f}); break; }
        case 3: { size_t len = sx_choose(0, L, "fill"); size_t before = t.size(); auto [tot, added] = t.fill_to_word_length(len); size_t words = 0; // symbols appear in increasing order of code; which of a pair becomes the representative is up to the table
            std::vector<El> fresh; for (size_t n = 0; n <= len; ++n) for (int c = 0; c < (1 << n); ++c) { S w; for (size_t i = 0; i < n; ++i) w.push_back((c >> (n - 1 - i)) & 1); El e = canon(w); if (e.zero || !eqw(e.w, w)) continue; ++words; if (find(m, e) < 0) { bool dup = false; for (auto& f : fresh) if (same(f, e) || same(f, conj(e))) dup = true; if (!dup) fresh.push_back(e); } }
            sx_assert(tot == words, "fill reports the number of words"); sx_assert(added == fresh.size() && t.size() == before + fresh.size(), "fill adds every missing word once"); if (t.size() != before + fresh.size()) return; for (auto& e : fresh) m.push_back({true, e, 0}); break; }
        default: { S a = word(L), b = word(1); int ia = reg(a), ib = reg(b); std::vector<Symbol> v; for (auto& w : {a, b}) { OperatorSequence q{S{w}, *ctx}; if (q.zero()) { v.emplace_back(q); continue; } auto c = q.conjugate(); v.emplace_back(std::move(q), std::move(c)); } size_t n0 = t.size(), nn = 0; auto ids = t.merge_in(std::move(v), &nn); sx_assert(ids.size() == (ia == ib ? 1u : 2u) && ids.count(ia) && ids.count(ib), "batch registration returns the symbols"); sx_assert(t.size() == n0 + nn, "batch registration counts new symbols"); break; } }
    check(t, m, *ctx); S w = word(L); lookup(t, m, *ctx, w); sx_observe("symbols", t.size()); sx_reach("end"); }
extern "C" void h_index() { type = sx_choose(0, sx_param("types", 5) - 1, "algebra"); auto ctx = make(); SymbolTable t{*ctx}; int L = sx_param("len", 3); S w; for (auto x : word(L)) w.push_back((oper_name_t) sx_concretize(x)); t.merge_in(OperatorSequence{S{w}, *ctx}); size_t a = sx_choose(0, L, "first"), b = sx_choose(0, L, "second"); t.fill_to_word_length(a); t.OSGIndex.update_if_necessary(a); t.fill_to_word_length(b); t.OSGIndex.update_if_necessary(b); size_t len = a > b ? a : b; auto& osg = ctx->operator_sequence_generator(len);
    sx_assert(t.OSGIndex.max_length() >= len || len == 0, "index covers the length"); for (size_t i = 0; i < osg.size(); ++i) { auto [id, cj] = t.OSGIndex(i); auto r = t.where(osg[i]); sx_assert(r.found() && r->Id() == id && r.is_conjugated == cj, "dictionary index agrees with lookup"); } bool threw = false; try { t.OSGIndex(osg.size()); } catch (const std::range_error&) { threw = true; } sx_assert(threw, "index past the dictionary is refused"); sx_observe("words", osg.size()); sx_reach("end"); }
extern "C" void h_bits() { Context ctx{2}; SymbolTable t{ctx}; std::vector<int> f{3, 1}; int N = sx_choose(0, 2, "existing"); for (int i = 0; i < N; ++i) { int k = sx_choose(0, 2, "parts"); t.create(k != 2, k != 1); f.push_back(k == 0 ? 3 : k); } int M = sx_param("bits", 5); if (sx_choose(0, 1, "wide")) M = sx_param("widebits", 67); DynamicBitset<uint64_t> re{(size_t) M, true}, im{(size_t) M, true}; im.unset(1); bool zero = false; std::vector<int> g((size_t) M, 3); g[1] = 1;
    int lo = M > 8 ? M - 4 : 2; for (int i = lo; i < M; ++i) { if (!sx_choose(0, 1, "r")) { re.unset(i); g[i] &= ~1; } if (!sx_choose(0, 1, "i")) { im.unset(i); g[i] &= ~2; } } bool change = false; for (int i = 1; i < M; ++i) { int old = i < (int) f.size() ? f[i] : 3, nw = old & g[i]; if (nw == 0) zero = true; if (nw != old) change = true; g[i] = nw; }
    bool threw = false, ch = false; try { ch = t.merge_in(re, im); } catch (const errors::zero_symbol& e) { threw = true; } sx_assert(threw == zero, "zero symbol reported exactly when some symbol loses both parts"); if (threw) { sx_reach("zero"); return; } sx_assert(ch == change, "change is reported"); sx_assert(t.size() == (size_t) M, "missing symbols are created"); size_t nr = 0, ni = 0;
    for (int i = 1; i < M; ++i) { auto& s = t[i]; bool hr = g[i] & 1, hi = g[i] & 2; sx_assert(s.is_hermitian() == !hi && s.is_antihermitian() == !hr, "flags are the common restriction"); auto [r, m] = s.basis_key(); sx_assert(r == (hr ? (ptrdiff_t) nr : -1) && m == (hi ? (ptrdiff_t) ni : -1), "bases are renumbered densely"); if (hr) { sx_assert(t.Basis.RealSymbols()[nr] == (size_t) i && t.Basis.imaginary_from_real(nr) == m, "real basis refers back"); ++nr; } if (hi) { sx_assert(t.Basis.ImaginarySymbols()[ni] == (size_t) i && t.Basis.real_from_imaginary(ni) == r, "imaginary basis refers back"); ++ni; } }
    sx_assert(t.Basis.RealSymbolCount() == nr && t.Basis.ImaginarySymbolCount() == ni, "basis sizes"); auto [r0, i0] = t[0].basis_key(); sx_assert(r0 == -1 && i0 == -1, "zero has no basis element"); sx_observe("re", nr); sx_reach("end"); }
#include "infl.hpp"
extern "C" void h_alias() { using namespace Moment::Inflation; using in::V; using in::Net; using in::Ops; using in::net; using in::ops; using in::raw; Net N = net(sx_choose(0, 5, "network")); Ops o = ops(N); InflationContext c{CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl}; SymbolTable t{c}; V w; int n = sx_choose(0, 2, "length"); for (int i = 0; i < n; ++i) w.push_back((int) sx_concretize(sx_range(0, o.n() - 1, "op"))); in::El e = in::simp(o, w); OperatorSequence q{in::ss(w), c}, m = c.canonical_moment(q); auto id = t.merge_in(OperatorSequence{q}); sx_assert(e.zero ? id == 0 : e.w.empty() ? id == 1 : id == 2, "moment is registered once"); auto r = t.where(q); sx_assert(r.found() && r->Id() == id && !r.is_conjugated && r.is_aliased == !(m == q), "equivalent word finds the symbol of its representative"); sx_assert(t.merge_in(OperatorSequence{m}) == id, "representative has the same symbol"); sx_assert(t[id].is_hermitian() && (e.zero || raw(t[id].sequence()) == raw(m)), "symbol stands for the representative");
    size_t L = sx_choose(0, 2, "fill"); t.fill_to_word_length(L); t.OSGIndex.update_if_necessary(L); auto& osg = c.operator_sequence_generator(L); std::vector<V> reps; for (size_t i = 0; i < osg.size(); ++i) { auto at = t.where(osg[i]); auto [k, cj] = t.OSGIndex(i); sx_assert(at.found() && k == at->Id() && !cj, "dictionary index agrees with lookup"); V u = raw(c.canonical_moment(osg[i])); bool seen = false; for (auto& x : reps) seen = seen | (x == u); if (!seen) reps.push_back(u); } bool extra = !e.zero && raw(m).size() > L; sx_assert(t.size() == reps.size() + 1 + (extra ? 1 : 0), "one symbol per representative"); sx_observe("symbols", t.size()); sx_reach("end"); }
