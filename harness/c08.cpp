// C08: lattice translations: packed words against moving qubits one at a time; one representative per orbit
#include "hx.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/indices/nearest_neighbour_index.h"
#include "scenarios/pauli/symmetry/site_hasher.h"
#include "scenarios/pauli/symmetry/moment_simplifier.h"
#include "scenarios/pauli/symmetry/lattice_duplicator.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/raw_polynomial.h"
#include "dictionary/osg_pair.h"
#include <algorithm>
#include <complex>
#include <stdexcept>
using namespace Moment; using namespace Moment::Pauli;
namespace { using S = sequence_storage_t; using u64 = unsigned long;
u64 word64() { u64 r = 0; for (int i = 0; i < 4; ++i) r = (r << 16) | (u64) sx_range(0, 65535, "word"); return r; }
u64 part(const u64& d, size_t) { return d; } template<size_t n> u64 part(const std::array<u64, n>& d, size_t i) { return d[i]; }
void set(u64& d, size_t, u64 v) { d = v; } template<size_t n> void set(std::array<u64, n>& d, size_t i, u64 v) { d[i] = v; }
template<class D> unsigned site(const D& d, size_t q) { return (part(d, q / 32) >> (2 * (q % 32))) & 3; }
// every word at once: the packed word is symbolic
template<size_t n> void packed(int H, int W) { SiteHasher<n> h{(size_t) H, (size_t) W}; typename SiteHasher<n>::Datum d{}; int Q = H * W; for (size_t i = 0; i < n; ++i) { u64 w = word64(); long used = Q - 32 * (long) i; if (used <= 0) w = 0; else if (used < 32) w &= (1ul << (2 * used)) - 1; set(d, i, w); }
    int what = sx_choose(0, 3, "what"); bool ok = true, rest = true; auto clean = [&](const typename SiteHasher<n>::Datum& e) { for (size_t i = 0; i < n; ++i) { long used = Q - 32 * (long) i; u64 m = used <= 0 ? 0 : used < 32 ? (1ul << (2 * used)) - 1 : ~0ul; rest = rest & ((part(e, i) & ~m) == 0); } };
    if (what == 0) { int o = sx_choose(0, 2 * Q > 40 ? Q : 2 * Q, "offset"); auto e = h.cyclic_shift(d, o); for (int q = 0; q < Q; ++q) ok = ok & (site(e, (q + o) % Q) == site(d, q)); clean(e); sx_assert(ok, "chain shift moves every qubit"); sx_observe("low", part(e, 0) >> 2); }
    else if (what == 1) { int ro = sx_choose(0, H, "rows"), co = sx_choose(0, W, "cols"); if (W == 1 && H > 32) return; if (Q > 40 && ro > 3 && ro < H - 2) return; auto e = h.lattice_shift(d, ro, co); for (int c = 0; c < W; ++c) for (int r = 0; r < H; ++r) ok = ok & (site(e, ((c + co) % W) * H + (r + ro) % H) == site(d, c * H + r)); clean(e); sx_assert(ok, "lattice shift moves every qubit"); sx_observe("low", part(e, 0) >> 2); }
    else if (what == 2) { if (H > 32) return; int c = sx_choose(0, W - 1, "col"); auto e = h.extract_column(d, c); for (int r = 0; r < H; ++r) ok = ok & (((e >> (2 * r)) & 3) == site(d, c * H + r)); if (H < 32) rest = (e >> (2 * H)) == 0; sx_assert(ok, "column"); }
    else { typename SiteHasher<n>::Datum f{}; for (size_t i = 0; i < n; ++i) set(f, i, word64()); bool lt = false; for (size_t i = 0; i < n; ++i) { u64 a = part(d, i), b = part(f, i); lt = (a < b) | ((a == b) & lt); } sx_assert(SiteHasher<n>::less(d, f) == lt, "comparison"); }
    sx_assert(rest, "nothing outside the lattice"); sx_reach("end"); }
struct L { int H, W, wrap; bool lattice; }; int Q(const L& l) { return l.H * l.W; }
std::unique_ptr<PauliContext> make(const L& l, bool sym = true) { auto s = sym ? SymmetryType::Translational : SymmetryType::None; auto w = l.wrap ? WrapType::Wrap : WrapType::None; return l.lattice ? std::make_unique<PauliContext>((size_t) l.H, (size_t) l.W, w, s) : std::make_unique<PauliContext>((size_t) l.H, w, s); }
using V = std::vector<int>; // pauli (0 none) per site
V vec(const L& l, const S& w) { V v(Q(l)); for (auto x : w) v[x / 3] = x % 3 + 1; return v; }
S str(const V& v) { S s; for (size_t q = 0; q < v.size(); ++q) if (v[q]) s.push_back((oper_name_t) (3 * q + v[q] - 1)); return s; }
bool shift(const L& l, const V& v, int ro, int co, V& out) { out.assign(v.size(), 0); for (int c = 0; c < l.W; ++c) for (int r = 0; r < l.H; ++r) if (v[c * l.H + r]) { int R = r + ro, C = c + co; if (l.wrap) { R = ((R % l.H) + l.H) % l.H; C = ((C % l.W) + l.W) % l.W; } else if (R < 0 || C < 0 || R >= l.H || C >= l.W) return false; out[C * l.H + R] = v[c * l.H + r]; } return true; }
bool eqw(const S& a, const S& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
bool orbit(const L& l, const S& a, const S& b) { V v = vec(l, a), w = vec(l, b), o; int lo = l.wrap ? 0 : 1; for (int r = -lo * (l.H - 1); r < l.H; ++r) for (int c = -lo * (l.W - 1); c < l.W; ++c) if (shift(l, v, r, c, o) && o == w) return true; return false; }
int power(SequenceSignType s) { return s == SequenceSignType::Positive ? 0 : s == SequenceSignType::Imaginary ? 1 : s == SequenceSignType::Negative ? 2 : 3; }
SequenceSignType sign(int p) { static const SequenceSignType t[4] = {SequenceSignType::Positive, SequenceSignType::Imaginary, SequenceSignType::Negative, SequenceSignType::NegativeImaginary}; return t[p & 3]; }
void canonical(const L& l, const V& v, int phases) { auto c = make(l); S w = str(v); int ph = phases > 1 ? (int) sx_choose(0, phases - 1, "phase") : 0; OperatorSequence o{w, *c, sign(ph)}; OperatorSequence m = c->simplify_as_moment(o); sx_assert(m.get_sign() == sign(ph) && !m.zero(), "phase is kept"); sx_assert(orbit(l, w, m.raw()), "representative is a translate"); sx_assert(m.hash() == c->hash(m.raw()), "code of the representative"); sx_assert(c->can_be_simplified_as_moment(o) == !eqw(m.raw(), w), "can be simplified"); sx_assert(!c->can_be_simplified_as_moment(m) && eqw(c->simplify_as_moment(m).raw(), m.raw()), "representative is canonical");
    int ro = sx_choose(l.wrap ? 0 : 1 - l.H, l.H - 1, "rows"), co = sx_choose(l.wrap ? 0 : 1 - l.W, l.W - 1, "cols"); V t; if (shift(l, v, ro, co, t)) { OperatorSequence p{str(t), *c, sign(ph)}; sx_assert(eqw(c->simplify_as_moment(p).raw(), m.raw()), "translates share the representative"); auto& ms = c->moment_simplifier(); sx_assert(eqw(ms.lattice_offset(w, ro, co), str(t)), "lattice offset"); int lin = co * l.H + ro; V u; if (l.wrap && l.W == 1 && ro) { sx_assert(eqw(ms.chain_offset(w, ro), str(t)) && eqw(ms.chain_offset(w, ro - l.H), str(t)) && eqw(ms.chain_offset(w, ro + l.H), str(t)), "chain offset"); } if (!l.wrap) { sx_assert(eqw(ms.chain_offset(w, lin), str(t)), "chain offset"); } else sx_assert(eqw(ms.lattice_offset(w, ro - l.H, co - l.W), str(t)) && eqw(ms.lattice_offset(w, ro + l.H, co), str(t)), "offsets wrap around"); } sx_observe("hash", m.hash()); sx_reach("end"); }
}
extern "C" void h_packed1() { int H = sx_choose(1, 32, "height"), W = sx_choose(1, 32, "width"); if (H * W > 32) return; packed<1>(H, W); }
extern "C" void h_packed2() { int H = sx_choose(1, 64, "height"), W = sx_choose(1, 64, "width"); int q = H * W; if (q <= 32 || q > 64 || (H > 32 && W > 1)) return; if (sx_param("all", 0) == 0 && H > 8 && W > 3) return; packed<2>(H, W); }
extern "C" void h_packed3() { int k = sx_choose(sx_param("first", 0), sx_param("last", 7), "shape"); static const int sh[][2] = {{96, 1}, {7, 11}, {11, 7}, {25, 3}, {5, 15}, {32, 3}, {16, 6}, {70, 1}, {1, 67}, {2, 41}, {24, 4}, {31, 3}, {3, 31}, {23, 4}}; packed<3>(sh[k][0], sh[k][1]); }
extern "C" void h_packed4() { int k = sx_choose(0, 3, "shape"); static const int sh[][2] = {{9, 13}, {31, 4}, {5, 23}, {128, 1}}; packed<4>(sh[k][0], sh[k][1]); }
extern "C" void h_alias() { int n = sx_choose(1, sx_param("qubits", 6), "qubits"); SiteHasher<1> h{(size_t) n, 1}; u64 d = (u64) sx_range(0, (1l << (2 * n)) - 1, "word"); size_t a = h.first_chain_alias(d); size_t want = n; for (int o = n - 1; o >= 1; --o) { bool same = true; for (int q = 0; q < n; ++q) same = same & (site(d, (q + o) % n) == site(d, q)); want = same ? o : want; } sx_assert(a == want, "least translation fixing the word"); V v(n); S s; for (int q = 0; q < n; ++q) { v[q] = sx_concretize(site(d, q)); } s = str(v); sx_assert(h.hash(s) == d && eqw(h.unhash(d), s), "packing and unpacking"); sx_reach("end"); }
// all words on small lattices
extern "C" void h_canon() { int k = sx_choose(0, sx_param("shapes", 7), "shape"); static const L sh[] = {{1, 1, 0, 0}, {2, 1, 0, 0}, {3, 1, 0, 0}, {4, 1, 0, 0}, {2, 2, 0, 1}, {1, 3, 0, 1}, {3, 1, 0, 1}, {4, 1, 0, 1}, {2, 3, 0, 1}, {3, 2, 0, 1}}; L l = sh[k]; l.wrap = sx_choose(0, 1, "wrap"); V v(Q(l)); for (auto& x : v) x = sx_choose(0, 3, "pauli"); canonical(l, v, 4); }
// few letters on larger lattices, including those packed in several machine words
extern "C" void h_large() { int k = sx_choose(sx_param("first", 0), sx_param("last", 4), "shape"); static const L sh[] = {{7, 1, 0, 0}, {3, 4, 0, 1}, {4, 3, 0, 1}, {33, 1, 0, 0}, {5, 7, 0, 1}, {12, 3, 0, 1}, {3, 12, 0, 1}, {8, 5, 0, 1}, {70, 1, 0, 0}, {18, 4, 0, 1}, {4, 18, 0, 1}, {7, 11, 0, 1}, {40, 2, 0, 1}}; L l = sh[k]; l.wrap = sx_choose(sx_param("wrap", 0), 1, "wrap"); V v(Q(l)); int letters = sx_param("letters", 2); for (int i = 0; i < letters; ++i) { int q = i == 0 ? sx_choose(0, Q(l) - 1, "site") : sx_choose(0, Q(l) - 1, "site"); if (v[q]) return; if (i && Q(l) > 20) { static const int pick[] = {0, 1, 3, 4, 5, 11, 17, 19, 30, 31, 32, 33, 34, 39, 63, 64, 65, 69, 70, 71, 76}; bool in = false; for (int p : pick) in = in || p == q; if (!in) return; } v[q] = i + 1; } canonical(l, v, 1); }
// lattices the packing cannot represent are refused rather than mangled
extern "C" void h_tall() { int H = sx_choose(30, 36, "height"), W = sx_choose(1, 3, "width"); L l{H, W, 1, true}; int q = sx_choose(0, Q(l) - 1, "site"), p = sx_choose(0, 2, "pauli"); try { auto c = make(l); OperatorSequence o{S{(oper_name_t) (3 * q + p)}, *c}; OperatorSequence m = c->simplify_as_moment(o); sx_assert(m.size() == 1 && m[0] == p, "one letter moves to the corner"); sx_reach("end"); } catch (const errors::bad_pauli_context&) { sx_assert(H > 32 && W > 1, "refused only where it does not fit"); sx_reach("refused"); } }
// copies of a pattern over the lattice: every translate once
extern "C" void h_fill() { int k = sx_choose(0, sx_param("shapes", 11), "shape"); static const L sh[] = {{1, 1, 0, 0}, {2, 1, 0, 0}, {3, 1, 0, 0}, {4, 1, 0, 0}, {5, 1, 0, 0}, {2, 2, 0, 1}, {2, 3, 0, 1}, {3, 2, 0, 1}, {1, 4, 0, 1}, {4, 1, 0, 1}, {2, 4, 0, 1}, {4, 2, 0, 1}, {3, 3, 0, 1}, {6, 1, 0, 0}}; L l = sh[k]; l.wrap = sx_choose(0, 1, "wrap"); auto c = make(l); std::vector<size_t> sites; for (int q = 0; q < Q(l) && sites.size() < 3; ++q) if (sx_choose(0, 1, "site")) sites.push_back(q); bool check = sx_choose(0, 1, "check"); std::vector<OperatorSequence> out; LatticeDuplicator ld{*c, out}; auto [a, b] = ld.symmetrical_fill(sites, check);
    sx_assert(a == 0 && b == out.size(), "range added"); std::vector<V> want; V base(Q(l)), o; size_t n = sites.size(); bool alias = false; if (n) { int P = 1; for (size_t i = 0; i < n; ++i) P *= 3; for (int ro = 0; ro < l.H; ++ro) for (int co = 0; co < l.W; ++co) { for (auto& x : base) x = 0; for (auto s : sites) base[s] = 1; if (!shift(l, base, ro, co, o)) continue; if ((ro || co) && l.wrap && o == base) alias = true; for (int p = 0; p < P; ++p) { int x = p; for (auto s : sites) { base[s] = 1 + x % 3; x /= 3; } shift(l, base, ro, co, o); if (std::find(want.begin(), want.end(), o) == want.end()) want.push_back(o); } } }
    if (alias && !check) return; bool all = true; for (auto& q : out) { V v = vec(l, q.raw()); auto it = std::find(want.begin(), want.end(), v); all = all && it != want.end() && eqw(q.raw(), str(v)) && q.hash() == c->hash(q.raw()) && q.get_sign() == SequenceSignType::Positive; if (it != want.end()) want.erase(it); } sx_assert(all, "only translates, each once"); sx_assert(want.empty(), "every translate"); sx_observe("n", out.size()); sx_reach("end"); }
// lists of neighbouring operators
extern "C" void h_nn() { int kind = sx_choose(0, 1, "lattice"); L l; int nb = 1; if (kind == 0) { l = L{(int) sx_choose(1, sx_param("chain", 5), "qubits"), 1, 0, false}; nb = sx_choose(1, 3, "neighbours"); } else { l = L{(int) sx_choose(1, 3, "rows"), (int) sx_choose(1, 3, "cols"), 0, true}; } l.wrap = sx_choose(0, 1, "wrap"); int len = sx_choose(0, 4, "L"); bool sym = sx_choose(0, 1, "symmetric"); auto c = make(l, sym); const auto& dict = dynamic_cast<const PauliDictionary&>(c->dictionary()); const OSGPair* pair; try { pair = &dict.NearestNeighbour(NearestNeighbourIndex{(size_t) len, (size_t) nb}); } catch (const errors::bad_pauli_context&) { sx_assert(kind == 1 && l.wrap && !sym && len > 2, "refused without symmetry only"); sx_reach("refused"); return; } const auto& g = (*pair)();
    int n = Q(l); auto adj = [&](int a, int b) { int dr = a % l.H - b % l.H, dc = a / l.H - b / l.H; auto near = [&](int d, int m) { d = d < 0 ? -d : d; return d == 1 || (l.wrap && m > 1 && d == m - 1); }; return (dc == 0 && near(dr, l.H)) || (dr == 0 && near(dc, l.W)); };
    auto in = [&](const std::vector<int>& s) { int k = (int) s.size(); if (k > len) return false; if (k <= 1) return true; if (kind == 0) { int big = 0; for (int i = 0; i + 1 < k; ++i) big += s[i + 1] - s[i] > nb; int close = s[0] + n - s[k - 1]; if (l.wrap) return big + (close > nb) <= 1; return big == 0; } if (k == 2) return adj(s[0], s[1]); if (k > 4) return false; // in line, or within one block
        for (int co = 0; co < l.W; ++co) for (int ro = 0; ro < l.H; ++ro) { auto at = [&](int r, int cc) { r += ro; cc += co; if (l.wrap) { r %= l.H; cc %= l.W; } else if (r >= l.H || cc >= l.W) return -1; return cc * l.H + r; }; auto sub = [&](std::vector<int> q) { std::sort(q.begin(), q.end()); return q == s; }; bool hasH = l.W >= 3, hasV = l.H >= 3; if (k == 3) { if (hasH && sub({at(0, 0), at(0, 1), at(0, 2)})) return true; if (hasV && sub({at(0, 0), at(1, 0), at(2, 0)})) return true; } if (l.H >= 2 && l.W >= 2) { int b[4] = {at(0, 0), at(1, 0), at(0, 1), at(1, 1)}; if (k == 4) { if (sub({b[0], b[1], b[2], b[3]})) return true; } else for (int m = 0; m < 4; ++m) { std::vector<int> q; for (int i = 0; i < 4; ++i) if (i != m) q.push_back(b[i]); if (sub(q)) return true; } } } return false; };
    std::vector<long> codes; bool ok = true, once = true; for (auto& o : g) { std::vector<int> s; for (auto x : o.raw()) s.push_back(x / 3); for (size_t i = 1; i < s.size(); ++i) ok = ok && s[i - 1] < s[i]; ok = ok && in(s) && !o.zero() && o.get_sign() == SequenceSignType::Positive && o.hash() == c->hash(o.raw()); codes.push_back((long) o.hash()); } std::sort(codes.begin(), codes.end()); for (size_t i = 1; i < codes.size(); ++i) once = once && codes[i - 1] != codes[i]; sx_assert(ok, "only words on neighbouring sites"); sx_assert(once, "each word once"); long want = 0; for (long m = 0; m < (1l << n); ++m) { std::vector<int> s; for (int q = 0; q < n; ++q) if ((m >> q) & 1) s.push_back(q); if ((int) s.size() <= len && in(s)) { long p = 1; for (size_t i = 0; i < s.size(); ++i) p *= 3; want += p; } } sx_assert((long) codes.size() == want, "every word on neighbouring sites"); sx_assert(g.size() > 0 && g[0].empty(), "starts with the identity"); sx_assert(&dict.NearestNeighbour(NearestNeighbourIndex{(size_t) len, (size_t) nb}) == pair && dict.WordCount(NearestNeighbourIndex{(size_t) len, (size_t) nb}) == codes.size(), "list is kept"); sx_observe("n", codes.size()); sx_reach("end"); }
// the symmetrised polynomial is the average of its translates
extern "C" void h_average() { int k = sx_choose(0, sx_param("shapes", 6), "shape"); static const L sh[] = {{1, 1, 0, 0}, {2, 1, 0, 0}, {3, 1, 0, 0}, {2, 2, 0, 1}, {3, 1, 0, 1}, {1, 3, 0, 1}, {2, 3, 0, 1}, {3, 2, 0, 1}}; L l = sh[k]; l.wrap = sx_choose(0, 1, "wrap"); bool sym = sx_choose(0, 3, "sym") != 0; auto c = make(l, sym); int n = Q(l), terms = sx_choose(0, sx_param("terms", 2), "terms"); RawPolynomial p; std::vector<V> vs; std::vector<std::complex<double>> ws; bool scalar = true; for (int t = 0; t < terms; ++t) { V v(n); for (auto& x : v) { x = t == 0 ? sx_choose(0, 1, "pauli") : 2 * sx_choose(0, 1, "pauli"); if (x) scalar = false; } if (t && vs[0] == v) return; std::complex<double> w{12.0 * (t + 1), t ? 24.0 : 0.0}; p.emplace_back(OperatorSequence{str(v), *c}, w); vs.push_back(v); ws.push_back(w); }
    RawPolynomial r = LatticeDuplicator::symmetrical_copy(*c, p); int R = l.H, C = l.W; if (!l.wrap) for (auto& v : vs) for (int q = 0; q < n; ++q) if (v[q]) { R = std::min(R, l.H - q % l.H); C = std::min(C, l.W - q / l.H); } if (!sym || scalar) R = C = 1; std::vector<V> ks; std::vector<std::complex<double>> f; auto put = [&](const V& v, std::complex<double> w) { for (size_t i = 0; i < ks.size(); ++i) if (ks[i] == v) { f[i] += w; return; } ks.push_back(v); f.push_back(w); }; for (size_t t = 0; t < vs.size(); ++t) for (int ro = 0; ro < R; ++ro) for (int co = 0; co < C; ++co) { V o; if (!shift(l, vs[t], ro, co, o)) sx_fail("oracle"); put(o, ws[t] / (double) (R * C)); } bool ok = true; for (auto& e : r) { put(vec(l, e.sequence.raw()), -e.weight); ok = ok && eqw(e.sequence.raw(), str(vec(l, e.sequence.raw()))) && e.sequence.hash() == c->hash(e.sequence.raw()); } sx_assert(ok, "terms are words"); bool z = true; for (auto& x : f) z = z && std::abs(x.real()) < 1e-9 && std::abs(x.imag()) < 1e-9; sx_assert(z, "average of the translates"); sx_observe("terms", r.size()); sx_reach("end"); }
