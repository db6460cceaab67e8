// C15: enumerations and integer utilities
#include "hx.h"
#include <stddef.h>
#include <cassert>
#include <concepts>
#include "utilities/combinations.h"
#include "utilities/multi_partition.h"
#include "utilities/ordered_permutation.h"
#include "utilities/recursive_index.h"
#include "utilities/triangular_index_iterator.h"
#include "utilities/shift_sorter.h"
#include "utilities/ipow.h"
#include "utilities/iter_tuple.h"
#include "utilities/kronecker_power.h"
#include <span>
using namespace Moment;
namespace { using X = std::vector<size_t>;
// every strictly (or weakly) increasing list of k numbers below n; key: colex order or lex order
std::vector<X> lists(size_t n, size_t k, bool weak, bool colex) { std::vector<X> r; X c(k, 0); if (!n && k) return r; while (true) { bool ok = true; for (size_t j = 0; j + 1 < k; ++j) if (weak ? c[j] > c[j + 1] : c[j] >= c[j + 1]) ok = false; if (ok) r.push_back(c); size_t q = 0; for (; q < k; ++q) { size_t d = colex ? q : k - 1 - q; if (++c[d] < n) break; c[d] = 0; } if (q == k) return r; } }
unsigned __int128 pascal(int n, int k) { static unsigned __int128 t[70][70]; static bool init = false; if (!init) { for (int i = 0; i < 70; ++i) for (int j = 0; j < 70; ++j) t[i][j] = j == 0 ? 1 : i == 0 ? 0 : t[i - 1][j - 1] + t[i - 1][j]; init = true; } return t[n][k]; }
template<class T> void choose(int maxn) { int n = sx_choose(0, maxn, "set"); int k = sx_choose(0, n, "subset"); auto want = pascal(n, k); unsigned __int128 lim = 1; lim = (lim << (sizeof(T) * 8 - (std::is_signed_v<T> ? 1 : 0))) - 1; unsigned __int128 mid = want * (k ? k : 1); if (want > lim || mid > lim) { sx_reach("too large"); return; } sx_assert((unsigned __int128) combinations<T>((T) n, (T) k) == want, "number of combinations"); sx_reach("end"); }
template<class T> void power() { bool sg = std::is_signed_v<T>; int bits = sizeof(T) * 8 - (sg ? 1 : 0); long b; int e; switch (sx_choose(0, 2, "range")) { case 0: b = sx_range(sg ? -3 : 0, 3, "base"); e = sx_choose(0, bits, "exp"); break; case 1: b = sx_range(sg ? -20 : 0, 20, "base"); e = sx_choose(0, 6, "exp"); break; default: b = sx_range(sg ? -2000 : 0, 2000, "base"); e = sx_choose(0, 2, "exp"); } unsigned __int128 lim = 1; lim = (lim << bits) - 1; if (b < -20 || b > 20) { if (sizeof(T) < 4) return; T r = ipow<T>((T) b, (T) e); T w = 1; for (int i = 0; i < e; ++i) w = (T) (w * (T) b); sx_assert(r == w, "power"); return; } b = sx_concretize(b); unsigned __int128 m = b < 0 ? -b : b, w = 1; for (int i = 0; i < e; ++i) { w *= m; if (w > lim) { sx_reach("too large"); return; } } T want = (T) w; if (b < 0 && (e & 1)) want = (T) -want; sx_assert(ipow<T>((T) b, (T) e) == want, "power"); sx_reach("end"); }
struct Chunk : MonotonicChunkRecursiveStorage<long, Chunk> { explicit Chunk(std::span<const size_t> s, size_t d, long z = 0, ptrdiff_t o = 0) : MonotonicChunkRecursiveStorage(s, d, z, o) { } explicit Chunk(long z = 0, ptrdiff_t o = 0) : MonotonicChunkRecursiveStorage(z, o) { } };
}
extern "C" void h_count() { switch (sx_choose(0, 3, "type")) { case 0: choose<size_t>(62); break; case 1: choose<int>(33); break; case 2: choose<long>(62); break; default: choose<unsigned>(33); } }
extern "C" void h_combinations() { int n = sx_choose(0, sx_param("n", 6), "set"); int k = sx_choose(0, n, "subset"); auto want = lists(n, k, false, true); CombinationIndexIterator it(n, k), end(n, k, true); sx_assert(want.size() == (size_t) pascal(n, k) && it.combination_count() == want.size(), "count of combinations"); for (auto& w : want) { sx_assert(!it.done() && it != end && *it == w && it->size() == w.size(), "combinations in order"); auto o = it++; sx_assert(*o == w, "combination before the step"); } sx_assert(it.done() && it == end, "every combination"); sx_reach("end"); }
extern "C" void h_commuting() { int n = sx_choose(0, sx_param("n", 5), "set"); int k = sx_choose(0, n, "subset"); auto want = lists(n, k, true, false); CommutingIndexIterator it(n, k), end(n, k, true); sx_assert(it.combination_count() == want.size(), "count of lists with repeats"); for (auto& w : want) { sx_assert(!it.done() && it != end && *it == w, "lists with repeats in order"); ++it; } sx_assert(it.done() && it == end, "every list with repeats"); sx_reach("end"); }
extern "C" void h_partition() { int n = sx_choose(0, sx_param("n", 6), "set"); int k = sx_choose(0, n, "subset"); auto want = lists(n, k, false, true); PartitionIterator it(n, k); for (auto& w : want) { X other; size_t q = 0; for (int i = 0; i < n; ++i) { bool in = q < w.size() && w[q] == (size_t) i; if (in) ++q; else other.push_back(i); } sx_assert(!it.done() && it.primary() == w && it.complement() == other, "both halves of the partition"); bool ok = it.bits().size() == (size_t) n; for (int i = 0; ok && i < n; ++i) { bool in = false; for (auto x : w) in = in || x == (size_t) i; ok = it.bits(i) == in && it.bits()[i] == in; } for (size_t i = 0; i < w.size(); ++i) ok = ok && it.primary(i) == w[i]; for (size_t i = 0; i < other.size(); ++i) ok = ok && it.complement(i) == other[i]; auto [a, b] = *it; ok = ok && a == w && b == other; sx_assert(ok, "membership of the partition"); auto o = it++; sx_assert(o.primary() == w && o.complement() == other, "partition before the step"); } sx_assert(it.done(), "every partition"); sx_reach("end"); }
extern "C" void h_multi() { int sum = sx_choose(0, sx_param("sum", 5), "sum"), p = sx_choose(1, sx_param("parties", 5), "parties"); std::vector<std::vector<int>> want; std::vector<int> c(p, 0); while (true) { int s = 0; for (int x : c) s += x; if (s == sum) want.push_back(c); int q = p - 1; for (; q >= 0; --q) { if (++c[q] <= sum) break; c[q] = 0; } if (q < 0) break; } MultipartitionIterator<int, false> f(sum, p); MultipartitionIterator<int, true> r(sum, p); bool ok = true; for (size_t i = 0; i < want.size(); ++i) { auto& a = want[i]; auto& b = want[want.size() - 1 - i]; ok = ok && (bool) f && (bool) r && same_seq(*f, a) && same_seq(*r, b); if (!ok) break; for (int k = 0; k < p; ++k) ok = ok && f[k] == a[k] && r[k] == b[k]; auto g = f; auto h = r; ok = ok && g == f && h == r; ++f; ++r; ok = ok && g != f && h != r; } sx_assert(ok, "splittings in order"); sx_assert(!f && !r, "every splitting"); sx_reach("end"); }
extern "C" void h_ordered() { int n = sx_choose(1, sx_param("n", 5), "set"); int k = sx_choose(0, sx_param("k", 4), "length"); auto want = lists(n, k, true, false); OrderedPermutationIterator<size_t> it(n, k), end(n, k, true); for (auto& w : want) { bool ok = !it.done() && it != end && *it == w && it->size() == w.size(); for (int i = 0; ok && i < k; ++i) ok = it[i] == w[i]; sx_assert(ok, "sorted lists in order"); auto o = it++; sx_assert(*o == w && (it.done() || it != o), "list before the step"); } sx_assert(it.done() && it == end, "every sorted list"); sx_reach("end"); }
namespace { template<bool dup, class T> void tri(int n, int k) { auto want = lists(n, k, dup, false); if (!n || !k) want.clear(); using I = TriangularIndexIterator<T, std::vector<T>, dup>; I it(n, k), end(n, k, true); bool ok = true; for (size_t i = 0; i < want.size(); ++i) { ok = ok && (bool) it && !!it && it != end && same_seq(*it, want[i]) && it.global() == i; for (int j = 0; ok && j < k; ++j) ok = (size_t) it[j] == want[i][j]; if (!ok) break; auto o = it++; ok = ok && same_seq(*o, want[i]) && it != o; } sx_assert(ok, "index lists in order"); sx_assert(!it && it == end && !end, "every index list"); } }
extern "C" void h_triangular() { int n = sx_choose(0, sx_param("n", 5), "max"), k = sx_choose(0, sx_param("k", 4), "length"); switch (sx_choose(0, 3, "type")) { case 0: tri<true, size_t>(n, k); break; case 1: tri<false, size_t>(n, k); break; case 2: tri<true, int>(n, k); break; default: tri<false, int>(n, k); } sx_reach("end"); }
namespace { template<class T> void shift(int lo, int hi) { int n = sx_choose(0, sx_param("len", 5), "length"); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back((T) sx_range(lo, hi, "value")); size_t got = ShiftSorter<T>{}(std::span<const T>(v)); if (!n) { sx_assert(got == 0, "rotation of nothing"); return; } sx_assert(got < (size_t) n, "a rotation"); got = sx_concretize(got); for (int s = 0; s < n; ++s) { bool lt = false, eq = true; for (int j = 0; j < n; ++j) { T a = v[(j + s) % n], b = v[(j + got) % n]; lt = lt | (eq & (a < b)); eq = eq & (a == b); } sx_assert(!lt, "no rotation is smaller"); if ((size_t) s < got) sx_assert(!eq, "first of the smallest rotations"); } } }
extern "C" void h_shift() { switch (sx_choose(0, 2, "type")) { case 0: shift<size_t>(0, 9); break; case 1: shift<int>(-4, 4); break; default: shift<unsigned char>(0, 255); } sx_reach("end"); }
extern "C" void h_power() { switch (sx_choose(0, 3, "type")) { case 0: power<long>(); break; case 1: power<size_t>(); break; case 2: power<int>(); break; default: power<unsigned>(); } }
extern "C" void h_tuple() { int n = sx_choose(0, 4, "length"); std::vector<long> a; std::vector<int> b; for (int i = 0; i < n; ++i) { a.push_back(sx_range(-9, 9, "a")); b.push_back((int) sx_range(-9, 9, "b")); } using T = IterTuple<std::vector<long>::iterator, std::vector<int>::const_iterator>; struct V { using value_type = long; }; int i = 0; bool ok = true; auto x = a.begin(); (void) x; T t{a.begin(), b.cbegin()}, e{a.end(), b.cend()}; for (; t != e; ++t) { if (i >= n) { ok = false; break; } auto [p, q] = *t; ok = ok & (&p == &a[i]) & (&q == &b[i]); p = p + q; ++i; } sx_assert(ok && i == n && t == e, "tuples walk together"); sx_reach("end"); }
// tree indexed by words over an alphabet
extern "C" void h_tree() { int w = sx_choose(1, 3, "width"), d = sx_choose(0, 2, "depth"); RecursiveDoubleIndex t(w, d, {7, 8}); X at; int len = sx_choose(0, d, "length"); for (int i = 0; i < len; ++i) at.push_back(sx_choose(0, w - 1, "child")); long a = sx_range(-99, 99, "first"), b = sx_range(-99, 99, "second"); t.set(std::span<const size_t>(at), {a, b}); size_t nodes = 0; bool ok = true; auto f = [&](const std::pair<ptrdiff_t, ptrdiff_t>& v, const X& where) { ++nodes; bool hit = where == at; ok = ok & (v.first == (hit ? a : 7)) & (v.second == (hit ? b : 8)); auto& s = t.access(std::span<const size_t>(where)); ok = ok & (s.first == v.first) & (s.second == v.second) & (&s == &v) & (t.subtree(std::span<const size_t>(where)).num_children() == ((int) where.size() < d ? (size_t) w : 0)); }; const auto& c = t; c.visit(f); size_t want = 0, p = 1; for (int i = 0; i <= d; ++i) { want += p; p *= w; } sx_assert(ok && nodes == want, "each node holds what was stored"); sx_reach("end"); }
extern "C" void h_chunks() { int k = sx_choose(0, 3, "chunks"), depth = sx_choose(0, 3, "depth"); X sizes; size_t total = 0; for (int i = 0; i < k; ++i) { sizes.push_back(sx_choose(1, 2, "size")); total += sizes.back(); } Chunk t(sizes, depth, 0); std::vector<size_t> chunk; for (int i = 0; i < k; ++i) for (size_t j = 0; j < sizes[i]; ++j) chunk.push_back(i); std::vector<X> want{{}}; for (size_t q = 0; q < want.size(); ++q) { if ((int) want[q].size() == depth) continue; for (size_t j = 0; j < total; ++j) if (want[q].empty() || chunk[j] > chunk[want[q].back()]) { auto x = want[q]; x.push_back(j); want.push_back(x); } } size_t pick = sx_choose(0, (int) want.size() - 1, "node"); long v = sx_range(1, 99, "value"); t.set(std::span<const size_t>(want[pick]), v); size_t n = 0; bool ok = true; auto f = [&](long& x, const X& where) { ++n; bool in = false; for (auto& y : want) in = in || y == where; ok = ok & in & (x == (where == want[pick] ? v : 0)); }; t.visit(f); sx_assert(ok && n == want.size(), "one node for each choice of later chunks"); for (auto& y : want) sx_assert(t.access(std::span<const size_t>(y)) == (y == want[pick] ? v : 0), "node found by its indices"); sx_reach("end"); }
extern "C" void h_kron() { using S = Eigen::SparseMatrix<double>; int r = sx_choose(1, 2, "rows"), c = sx_choose(1, 2, "cols"), p = sx_choose(0, sx_param("power", 3), "power"); S b(r, c); std::vector<double> v(r * c, 0.0); int sym = sx_choose(0, r * c - 1, "symbolic"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { int q = i * c + j; double x = q == sym ? (double) sx_range(-3, 3, "value") : (double) ((q * 5 + 2) % 4 - 1); v[q] = x; b.insert(i, j) = x; } b.makeCompressed(); S k = kronecker_power(b, p); int R = 1, C = 1; for (int i = 0; i < p; ++i) { R *= r; C *= c; } sx_assert(k.rows() == R && k.cols() == C, "size of the power"); bool ok = true; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { double w = 1.0; int a = i, d = j; for (int n = 0; n < p; ++n) { w *= v[(a % r) * c + d % c]; a /= r; d /= c; } ok = ok & (k.coeff(i, j) == w); } sx_assert(ok, "tensor power"); sx_reach("end"); }
