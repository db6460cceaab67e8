// C18: group generation by Dimino's algorithm; representations on words induced from the letters
#include <stddef.h>
#include <cassert>
#include <concepts>
#include <map>
#include <algorithm>
#include <limits>
#include <functional>
#include <numeric>
#include "alg.hpp"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/representation_mapper.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/operator_sequence.h"
using namespace Moment; using namespace Moment::Symmetrized;
namespace {
constexpr auto ST = Multithreading::MultiThreadPolicy::Never;
using S = sequence_storage_t; using M = std::vector<std::vector<long>>; constexpr long Q = 1024;
repmat_t sparse(const M& m, bool all = false) { repmat_t r((int) m.size(), (int) m.size()); std::vector<Eigen::Triplet<double>> t; for (size_t j = 0; j < m.size(); ++j) for (size_t i = 0; i < m.size(); ++i) if (all || m[i][j] != 0) t.emplace_back((int) i, (int) j, (double) m[i][j]); r.setFromTriplets(t.begin(), t.end()); return r; }
M dense(const repmat_t& r) { M m(r.rows(), std::vector<long>(r.cols(), 0)); for (int k = 0; k < r.outerSize(); ++k) for (repmat_t::InnerIterator it(r, k); it; ++it) m[it.row()][it.col()] += (long) (it.value() * Q); return m; }
M mul(const M& a, const M& b) { size_t n = a.size(); M c(n, std::vector<long>(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) c[i][j] += a[i][k] * b[k][j]; return c; }
M one(size_t n) { M c(n, std::vector<long>(n, 0)); for (size_t i = 0; i < n; ++i) c[i][i] = 1; return c; }
M scaled(M m) { for (auto& r : m) for (auto& e : r) e *= Q; return m; }
bool eq(const M& a, const M& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) if (!(a[i][j] == b[i][j])) return false; return r; }
bool eqs(const M& a, const M& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) r = r & (a[i][j] == b[i][j]); return r; }
bool has(const std::vector<M>& v, const M& m) { for (auto& x : v) if (eq(x, m)) return true; return false; }
// independent closure; empty when larger than the bound
std::vector<M> closure(const std::vector<M>& g, size_t bound) { std::vector<M> e{one(g[0].size())}; for (size_t i = 0; i < e.size(); ++i) for (auto& x : g) { M y = mul(e[i], x); if (!has(e, y)) { if (e.size() == bound) return {}; e.push_back(y); } } return e; }
void judge(const std::vector<repmat_t>& out, const std::vector<M>& g, const std::vector<M>& want) { std::vector<M> o; for (auto& x : out) o.push_back(dense(x)); sx_assert(o.size() == want.size(), "the group has the right number of elements"); sx_assert(!o.empty() && eq(o[0], scaled(one(g[0].size()))), "identity comes first"); for (auto& w : want) sx_assert(has(o, scaled(w)), "every product of generators is in the group"); for (size_t i = 0; i < o.size(); ++i) for (size_t j = 0; j < i; ++j) sx_assert(!eq(o[i], o[j]), "each element appears once"); }
M gen(int n, int kind) { M m(n, std::vector<long>(n, 0)); if (kind == 0) { for (auto& r : m) for (auto& e : r) e = sx_choose(-1, 1, "entry"); return m; } bool used[4] = {}; for (int j = 0; j < n; ++j) { int left = n - j, k = (int) sx_choose(0, left - 1, "row"); for (int i = 0; i < n; ++i) if (!used[i] && k-- == 0) { used[i] = true; m[i][j] = kind == 1 || sx_choose(0, 1, "plus") ? 1 : -1; break; } } return m; }
}
extern "C" void h_group() { int n = (int) sx_param("n", 2), kind = (int) sx_param("kind", 0), ng = (int) sx_choose(1, sx_param("gens", 2), "gens"); std::vector<M> g; for (int i = 0; i < ng; ++i) g.push_back(gen(n, i == 0 || ng < 3 ? kind : 1)); size_t cap = sx_choose(1, sx_param("cap", 6), "cap"); std::vector<repmat_t> raw; for (auto& x : g) raw.push_back(sparse(x)); size_t order = 0; { M p = g[0]; for (size_t k = 1; k <= 12; ++k) { if (eq(p, one(n))) { order = k; break; } p = mul(p, g[0]); } }
    bool over = order == 0 || order > cap; if (over) { if (ng > 1) return; bool thrown = false; try { (void) Group::dimino_generation(raw, cap); } catch (const std::runtime_error&) { thrown = true; } sx_assert(thrown, "a first subgroup larger than the limit is refused"); sx_reach("refused"); return; }
    if (n == 2 && ng == 2 && g[1][0][0] * g[1][1][1] == g[1][0][1] * g[1][1][0]) return; auto want = closure(g, sx_param("bound", 48)); if (want.empty()) return; auto out = Group::dimino_generation(raw, cap); sx_observe("size", (long) out.size()); judge(out, g, want); sx_reach("end"); }
// a reflection with free coefficients, and the inversion
extern "C" void h_reflect() { long lim = sx_param("lim", 3), a = sx_choose(-lim, lim, "a"), b = sx_choose(-lim, lim, "b"); int n = (int) sx_choose(2, 3, "n"), extra = (int) sx_choose(0, 2, "extra"); M r = one(n); r[n - 1][n - 1] = -1; r[0][n - 1] = a; if (n == 3) r[1][2] = b; std::vector<M> g; M inv = one(n); for (int i = 0; i < n; ++i) inv[i][i] = -1; if (extra == 1) g.push_back(inv); g.push_back(r); if (extra == 2) g.push_back(inv); std::vector<repmat_t> raw; for (auto& x : g) raw.push_back(sparse(x, true)); std::vector<M> want{one(n), r}; if (extra) { want.push_back(inv); want.push_back(mul(inv, r)); } auto out = Group::dimino_generation(raw, 2); std::vector<M> o; for (auto& x : out) o.push_back(dense(x)); sx_assert(o.size() == want.size(), "the group has the right number of elements"); for (auto& w : want) { bool found = false; for (auto& x : o) found = found | eqs(x, scaled(w)); sx_assert(found, "every product of generators is in the group"); } sx_reach("end"); }
extern "C" void h_none() { auto o = Group::dimino_generation({}, sx_choose(0, 3, "cap")); sx_assert(o.size() == 1 && eq(dense(o[0]), scaled(one(1))), "no generators give the trivial group"); sx_reach("end"); }
namespace {
// words over the letters of a context as integer combinations of the words of a generator (with a factor i kept apart)
struct V { std::vector<long> re, im; bool outside = false; };
struct Words { const Context& c; const OperatorSequenceGenerator& g; size_t n; std::vector<S> raw; explicit Words(const Context& c, size_t L) : c{c}, g{c.operator_sequence_generator(L)}, n{g.size()} { for (auto& x : g) raw.push_back(S{x.raw()}); }
    long at(const S& w) const { for (size_t i = 0; i < n; ++i) if (al::eqw(raw[i], w)) return (long) i; return -1; } };
long ipow(size_t b, size_t e) { long r = 1; while (e--) r *= (long) b; return r; }
// image of a word: product over letters of the images of the letters; index 0 of the letters is the identity
V image(const Words& w, const S& word, const M& m) { V v; v.re.assign(w.n, 0); v.im.assign(w.n, 0); size_t k = word.size(), d = m.size(); for (long x = 0; x < ipow(d, k); ++x) { long y = x; long f = 1; S u; bool zero = false; for (size_t i = 0; i < k; ++i) { size_t p = y % d; y /= d; long e = m[p][word[i] + 1]; if (!sx_symbolic(e) && e == 0) { zero = true; break; } f = f * e; if (p) u.push_back((oper_name_t) (p - 1)); } if (zero) continue; OperatorSequence s{std::move(u), w.c}; if (s.zero()) continue; long at = w.at(s.raw()); if (at < 0) { v.outside = true; continue; } switch (s.get_sign()) { case SequenceSignType::Positive: v.re[at] += f; break; case SequenceSignType::Imaginary: v.im[at] += f; break; case SequenceSignType::Negative: v.re[at] -= f; break; default: v.im[at] -= f; } } return v; }
// the letters' images respect every relation between words of the given length
bool automorphism(const Words& w, const M& m, size_t L) { bool ok = true; size_t d = m.size() - 1; for (size_t k = 2; k <= L; ++k) for (long x = 0; x < ipow(d, k); ++x) { S u; long y = x; for (size_t i = 0; i < k; ++i) { u.push_back((oper_name_t) (y % d)); y /= (long) d; } OperatorSequence s{S{u}, w.c}; if (!s.zero() && s.get_sign() == SequenceSignType::Positive && al::eqw(s.raw(), u)) continue; V a = image(w, u, m), b; if (s.zero()) { b.re.assign(w.n, 0); b.im.assign(w.n, 0); } else { b = image(w, S{s.raw()}, m); int turns = (int) s.get_sign(); V t = b; for (size_t i = 0; i < w.n; ++i) { long re = t.re[i], im = t.im[i]; if (turns == 1) { b.re[i] = -im; b.im[i] = re; } else if (turns == 2) { b.re[i] = -re; b.im[i] = -im; } else if (turns == 3) { b.re[i] = im; b.im[i] = -re; } } } for (size_t i = 0; i < w.n; ++i) ok = ok & (a.re[i] == b.re[i]) & (a.im[i] == b.im[i]); } return ok; }
void check(const Words& w, const repmat_t& r, const M& m) { M o = dense(r); sx_assert(o.size() == w.n, "representation has one row and column per word"); if (o.size() != w.n) return; bool ok = true; for (size_t j = 0; j < w.n; ++j) { V v = image(w, w.raw[j], m); for (size_t i = 0; i < w.n; ++i) ok = ok & (o[i][j] == Q * v.re[i]); } sx_assert(ok, "the image of a word is the product of the images of its letters"); }
std::unique_ptr<Context> context(int k) { using namespace Algebraic; using namespace Locality; al::type = k; if (k < 5) return al::make(); auto pair = [&](int rhs, SequenceSignType s) { AlgebraicPrecontext a{2}; std::vector<OperatorRule> r; for (oper_name_t x = 0; x < 2; ++x) r.emplace_back(HashedSequence{S{x, x}, a.hasher}, HashedSequence{S{}, a.hasher}); r.emplace_back(HashedSequence{S{1, 0}, a.hasher}, HashedSequence{S{0, 1}, a.hasher, s}); (void) rhs; return std::make_unique<AlgebraicContext>(a, false, false, r); };
    switch (k) { case 5: return pair(0, SequenceSignType::Negative); case 6: return pair(0, SequenceSignType::Positive); case 7: return std::make_unique<LocalityContext>(Party::MakeList(2, 1, 2)); case 8: return std::make_unique<Pauli::PauliContext>(1); case 9: return std::make_unique<Context>(1); default: return std::make_unique<LocalityContext>(Party::MakeList(1, 1, 2)); } }
M letters(const Context& c, size_t n, long lim, bool symbolic) { M m = one(n + 1); for (size_t j = 1; j <= n; ++j) for (size_t i = 0; i <= n; ++i) m[i][j] = symbolic ? sx_range(-lim, lim, "coefficient") : sx_choose(-lim, lim, "coefficient"); (void) c; return m; }
}
// any substitution of letters that respects the relations acts on words by acting on their letters
extern "C" void h_words() { int k = (int) sx_choose(sx_param("first", 0), sx_param("last", 10), "context"); auto c = context(k); size_t n = c->size(); Words one_letter{*c, 1}; if (one_letter.n != n + 1) sx_fail("one word per letter"); size_t L = sx_choose(2, sx_param("len", 3), "length"); Words w{*c, L}; M m = letters(*c, n, sx_param("lim", 1), true); sx_assume(automorphism(w, m, std::min<size_t>(L, 2))); std::vector<repmat_t> r; r.push_back(sparse(m, true)); r.push_back(sparse(one(n + 1))); Group g{*c, std::make_unique<Representation>(1, std::move(r))}; auto& rep = g.create_representation(L, ST); sx_assert(rep.size() == 2 && rep.word_length == L, "one matrix per group element"); check(w, rep[0], m); check(w, rep[1], one(n + 1)); M s = dense(rep.sum_of()), a = dense(rep[0]), b = dense(rep[1]); bool ok = s.size() == w.n; for (size_t i = 0; ok && i < w.n; ++i) for (size_t j = 0; j < w.n; ++j) ok = ok & (s[i][j] == a[i][j] + b[i][j]); sx_assert(ok, "the recorded sum is that of the elements"); sx_observe("n", (long) w.n); sx_reach("end"); }
// lengths requested in any order
extern "C" void h_lengths() { auto c = context(sx_choose(0, 1, "few") ? 9 : 10); M m = one(2); m[0][1] = al::type == 9 ? 2 : 1; m[1][1] = -1; std::vector<repmat_t> r; r.push_back(sparse(one(2))); r.push_back(sparse(m)); Group g{*c, std::make_unique<Representation>(1, std::move(r))}; const Representation* seen[16] = {}; seen[1] = &g.representation(1); int N = (int) sx_param("max", 9); for (int k = 0; k < sx_param("requests", 2); ++k) { int L = (int) sx_choose(0, N, "length"); bool make = sx_choose(0, 1, "create"); if (L == 0) { bool t = false; try { if (make) (void) g.create_representation(0, ST); else (void) g.representation(0); } catch (const std::range_error&) { t = true; } sx_assert(t, "length zero is refused"); continue; }
        if (make) { auto& rep = g.create_representation(L, ST); if (seen[L]) sx_assert(seen[L] == &rep, "a representation is created once"); seen[L] = &rep; Words w{*c, (size_t) L}; sx_assert(rep.size() == 2 && rep.word_length == (size_t) L, "one matrix per group element"); check(w, rep[1], m); check(w, rep[0], one(2)); sx_assert(&g.representation(L) == &rep, "a created representation is found"); }
        else { const Representation* p = nullptr; try { p = &g.representation(L); } catch (const std::runtime_error&) { } if (seen[L]) sx_assert(p == seen[L], "a created representation is found"); else if (p) { Words w{*c, (size_t) L}; check(w, (*p)[1], m); seen[L] = p; } } } sx_reach("end"); }
// products of elements are represented by products
extern "C" void h_product() { static const int ks[] = {9, 10, 3, 4, 5, 6, 7, 1}; auto c = context(ks[sx_choose(0, sx_param("last", 7), "context")]); size_t n = c->size(); size_t L = 2 + (sx_param("len", 2) > 2 ? sx_choose(0, 1, "longer") : 0); Words w{*c, L}; M a = letters(*c, n, 1, true); sx_assume(automorphism(w, a, 2)); M b = letters(*c, n, 1, true); sx_assume(automorphism(w, b, 2)); M ab = mul(a, b); std::vector<repmat_t> r; r.push_back(sparse(a, true)); r.push_back(sparse(b, true)); r.push_back(sparse(ab, true)); Group g{*c, std::make_unique<Representation>(1, std::move(r))}; auto& rep = g.create_representation(L, ST); M x = dense(rep[0]), y = dense(rep[1]), z = dense(rep[2]), p = mul(x, y); for (auto& q : z) for (auto& e : q) e *= Q; sx_assert(eqs(p, z), "products are represented by products"); sx_reach("end"); }
extern "C" void h_refuse() { auto c = context((int) sx_choose(0, 10, "context")); int d = (int) sx_choose(1, 5, "dimension"); std::vector<repmat_t> r; r.push_back(sparse(one(d))); bool t = false; try { Group g{*c, std::make_unique<Representation>(1, std::move(r))}; } catch (const std::runtime_error&) { t = true; } sx_assert(t == (d != (int) c->size() + 1), "a representation of the wrong dimension is refused"); sx_reach("end"); }
