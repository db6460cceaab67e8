// C14: index tuples and storage offsets
#include "hx.h"
#include "tensor/tensor.h"
#include "tensor/square_matrix.h"
#include "tensor/auto_storage_tensor.h"
#include "tensor/index_flattener.h"
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include <stdexcept>
using namespace Moment;
namespace { using X = std::vector<size_t>;
template<class F> bool refused(F f) { try { f(); } catch (const errors::bad_tensor_index&) { return true; } return false; }
template<class F> bool refusedAny(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
bool stepLast(X& i, const X& lo, const X& hi, bool first) { size_t n = i.size(); for (size_t k = 0; k < n; ++k) { size_t d = first ? k : n - 1 - k; if (++i[d] < hi[d]) return true; i[d] = lo[d]; } return false; }
// T: tensor type over elements E, S its index storage, n dimensions
template<class E, bool Last, class T, class S> void roundtrip(const T& t, const S& dims, const S& idx, const S& lim, int n) {
    bool in = n > 0, inc = true; E count = n > 0 ? 1 : 0; for (int d = 0; d < n; ++d) { in = in & (idx[d] >= 0) & (idx[d] < dims[d]); inc = inc & (idx[d] >= 0) & (idx[d] <= dims[d]); count *= dims[d]; }
    sx_assert(t.ElementCount == count && t.DimensionCount == (E) n, "number of elements"); E want = 0; for (int k = 0; k < n; ++k) { int d = Last ? n - 1 - k : k; want = want * dims[d] + idx[d]; }
    if (n > 0 && (bool) in) { sx_reach("inside"); E off = t.index_to_offset(idx); sx_assert(off == want, "offset follows the storage order"); sx_assert((off >= 0) & (off < count), "offset is dense"); auto back = t.offset_to_index(off); bool ok = true; for (int d = 0; d < n; ++d) ok = ok & (back[d] == idx[d]); sx_assert(ok, "offset leads back to the index"); sx_assert(!refused([&] { t.validate_index(idx); }), "valid index accepted"); }
    else if (n > 0) { sx_reach("outside"); sx_assert(refused([&] { (void) t.index_to_offset(idx); }), "index out of range is refused"); }
    sx_assert(refused([&] { t.validate_index_inclusive(idx); }) == !inc, "index past the end accepted only one past"); bool inl = true, ord = true; for (int d = 0; d < n; ++d) { inl = inl & (lim[d] >= 0) & (lim[d] <= dims[d]); ord = ord & (lim[d] >= idx[d]); } if (n > 0) { bool good = in & inl & ord; sx_assert(refused([&] { t.validate_range(idx, lim); }) == !good, "ranges that do not fit are refused"); } }
template<class E, bool Last, class T, class S> void offsets(const T& t, const S& dims, int n) { E count = t.ElementCount; long v = sx_range(-1, sx_param("maxoff", 40), "offset"); E off = (E) v; bool in = (v >= 0) & (off < count); if (!in) { sx_assert(refused([&] { (void) t.offset_to_index(off); }), "offset out of range is refused"); return; } auto i = t.offset_to_index(off); bool ok = true; for (int d = 0; d < n; ++d) ok = ok & (i[d] >= 0) & (i[d] < dims[d]); sx_assert(ok, "index of an offset lies inside"); sx_assert(t.index_to_offset(i) == off, "index leads back to the offset"); }
template<class E, bool Last> void dynamic() { int n = sx_choose(0, sx_param("rank", 3), "rank"); int D = sx_param("dim", 5); std::vector<E> dims, idx, lim; for (int d = 0; d < n; ++d) { dims.push_back((E) sx_concretize(sx_range(0, D, "dim"))); } for (int d = 0; d < n; ++d) { idx.push_back((E) sx_range(-1, D + 1, "index")); lim.push_back((E) sx_range(-1, D + 1, "limit")); } Tensor<E, std::vector<E>, std::span<const E>, Last> t(dims); roundtrip<E, Last>(t, dims, idx, lim, n); offsets<E, Last>(t, dims, n); int other = sx_choose(0, n + 1, "given"); if (other != n) { std::vector<E> w(other, 0); sx_assert(refused([&] { (void) t.index_to_offset(w); }) && refused([&] { t.validate_index_inclusive(w); }), "wrong number of indices is refused"); } sx_reach("end"); }
template<class E, bool Last, size_t N> void fixed() { int D = sx_param("dim", 5); std::array<E, N> dims, idx, lim; for (size_t d = 0; d < N; ++d) dims[d] = (E) sx_concretize(sx_range(0, D, "dim")); for (size_t d = 0; d < N; ++d) { idx[d] = (E) sx_range(-1, D + 1, "index"); lim[d] = (E) sx_range(-1, D + 1, "limit"); } Tensor<E, std::array<E, N>, std::span<const E, N>, Last> t(dims); roundtrip<E, Last>(t, dims, idx, lim, N); offsets<E, Last>(t, dims, N); sx_reach("end"); }
struct Auto : AutoStorageTensor<long, 6> { mutable long made = 0; Auto(X d, TensorStorageType s, const std::vector<long>& v) : AutoStorageTensor(std::move(d), s), values(v) { if (StorageType == TensorStorageType::Explicit) data = v; } std::vector<long> values; long make_element_no_checks(IndexView i) const override { ++made; size_t o = 0, s = 1; for (size_t d = 0; d < i.size(); ++d) { o += i[d] * s; s *= Dimensions[d]; } return values[o]; } };
}
extern "C" void h_dynamic() { switch (sx_choose(0, 3, "type")) { case 0: dynamic<size_t, true>(); break; case 1: dynamic<size_t, false>(); break; case 2: dynamic<long, true>(); break; default: dynamic<long, false>(); } }
extern "C" void h_fixed() { switch (sx_choose(0, 5, "type")) { case 0: fixed<size_t, true, 2>(); break; case 1: fixed<size_t, false, 2>(); break; case 2: fixed<long, true, 3>(); break; case 3: fixed<size_t, false, 3>(); break; case 4: fixed<size_t, true, 1>(); break; default: fixed<long, false, 1>(); } }
// wide shapes: the arithmetic itself, with symbolic dimensions
extern "C" void h_wide() { int n = sx_choose(2, 3, "rank"); int B = sx_param("bits", 6); X dims, idx; for (int d = 0; d < n; ++d) dims.push_back(sx_range(1, (1L << B), "dim")); for (int d = 0; d < n; ++d) { size_t x = sx_range(0, (1L << B) - 1, "index"); if (!(x < dims[d])) return; idx.push_back(x); } bool last = sx_choose(0, 1, "last"); size_t off = 0, count = 1; { size_t st = 1; for (int k = 0; k < n; ++k) { int d = last ? k : n - 1 - k; off = last ? off + idx[d] * st : idx[d] * st + off; st *= dims[d]; } } for (auto d : dims) count *= d; if (last) { Tensor<size_t, X, std::span<const size_t>, true> t(dims); sx_assert(t.ElementCount == count, "number of elements"); sx_assert(t.index_to_offset(idx) == off, "offset follows the storage order"); } else { Tensor<size_t, X, std::span<const size_t>, false> t(dims); sx_assert(t.ElementCount == count, "number of elements"); sx_assert(t.index_to_offset(idx) == off, "offset follows the storage order"); } sx_reach("end"); }
extern "C" void h_iterate() { int n = sx_choose(0, sx_param("rank", 3), "rank"); int D = sx_param("dim", 3); X dims; size_t count = n ? 1 : 0; for (int d = 0; d < n; ++d) { dims.push_back(sx_concretize(sx_range(0, D, "dim"))); count *= dims.back(); } X z(n, 0), i; auto walk = [&](auto range, bool first) { i = z; size_t k = 0; bool ok = true; auto e = range.end(); for (auto it = range.begin(); it != e; ++it) { ok = ok && k < count && (bool) it && !!it && it.global() == k && *it == i && it.limits() == dims; for (int d = 0; d < n; ++d) ok = ok && it[d] == i[d]; auto c = it; auto o = c++; ok = ok && o == it && (c == e) == (k + 1 == count); if (!ok) break; stepLast(i, z, dims, first); ++k; } ok = ok && k == count && !e && (n == 0 || e.global() == count); sx_assert(ok, "whole tensor visited once in order"); }; walk(MultiDimensionalIndexRange<false>{dims}, false); walk(MultiDimensionalIndexRange<true>{dims}, true);
    X lo, hi; size_t part = n ? 1 : 0; for (int d = 0; d < n; ++d) { lo.push_back(sx_concretize(sx_range(0, dims[d], "low"))); hi.push_back(sx_concretize(sx_range(lo[d], dims[d], "high"))); part *= hi[d] - lo[d]; } auto block = [&](auto it, auto end, bool first) { i = lo; size_t k = 0; bool ok = true; while (it) { ok = ok && k < part && !(it == end) && it != end && it.global() == k && *it == i && it.lower_limits() == lo && it.upper_limits() == hi; for (int d = 0; d < n; ++d) ok = ok && it[d] == i[d]; if (!ok) break; stepLast(i, lo, hi, first); if (k & 1) ++it; else { auto o = it++; ok = ok && *o != *it || !it || part == 1; } ++k; } sx_assert(ok && k == part && !it && it == end, "block visited once in order"); }; block(MultiDimensionalOffsetIndexIterator<false>{lo, hi}, MultiDimensionalOffsetIndexIterator<false>{}, false); block(MultiDimensionalOffsetIndexIterator<true>{lo, hi}, MultiDimensionalOffsetIndexIterator<true>{}, true); sx_reach("end"); }
extern "C" void h_square() { size_t n = sx_choose(0, sx_param("dim", 4), "dim"); std::vector<long> v; for (size_t k = 0; k < n * n; ++k) v.push_back(sx_range(-1000, 1000, "element")); auto copy = v; SquareMatrix<long> m0(n, std::move(v)); SquareMatrix<long> m{std::move(m0)}; const auto& c = m; bool ok = m.dimension == n && m.ElementCount == n * n; for (size_t r = 0; r < n; ++r) for (size_t k = 0; k < n; ++k) { std::array<size_t, 2> ix{r, k}, xi{k, r}; ok = ok & (c(r, k) == copy[k * n + r]) & (c(ix) == copy[k * n + r]) & (m(ix) == copy[k * n + r]) & (c[k * n + r] == copy[k * n + r]) & (c.Transpose(ix) == copy[r * n + k]) & (c.raw()[k * n + r] == copy[k * n + r]); } sx_assert(ok, "element by row and column"); size_t q = 0; ok = true; for (auto x : c) { ok = ok & (x == copy[q]); ++q; } sx_assert(ok && q == n * n, "whole matrix visited once in order"); q = 0; ok = true; for (auto it = c.Transpose.begin(); it != c.Transpose.end(); ++it) { if (q >= n * n) { ok = false; break; } ok = ok & (*it == copy[(q % n) * n + q / n]) & (*it.operator->() == *it); ++q; } sx_assert(ok && q == n * n, "transpose visited once in order");
    auto tri = [&](auto&& view, bool upper, bool incl) { size_t r = 0, k = 0; bool good = true; auto it = view.begin(); auto e = view.end(); for (k = 0; k < n; ++k) for (r = 0; r < n; ++r) if ((upper ? r < k : r > k) || (incl && r == k)) { if (!good || !(it != e) || it == e) { good = false; continue; } good = good && it.Row() == r && it.Col() == k && it.Offset() == k * n + r && it.Index()[0] == r && it.Index()[1] == k && it.diagonal() == (r == k); if (good) good = *it == copy[k * n + r]; if ((r + k) & 1) ++it; else { auto o = it++; good = good && o.Offset() == k * n + r; } } sx_assert(good && it == e, "triangle visited once in order"); };
    tri(m.UpperTriangle(), true, true); tri(c.UpperTriangle(), true, true); tri(m.ExclusiveUpperTriangle(), true, false); tri(c.ExclusiveUpperTriangle(), true, false); tri(m.LowerTriangle(), false, true); tri(c.LowerTriangle(), false, true); tri(m.ExclusiveLowerTriangle(), false, false); tri(c.ExclusiveLowerTriangle(), false, false);
    size_t p = sx_choose(0, 2, "padding"); long zero = sx_range(-5, 5, "zero"); auto b = c.pad(p, zero); ok = b.dimension == n + p && b.ElementCount == (n + p) * (n + p); for (size_t r = 0; ok && r < n + p; ++r) for (size_t k = 0; k < n + p; ++k) { std::array<size_t, 2> ix{r, k}; ok = ok & (b(ix) == (r < n && k < n ? copy[k * n + r] : zero)); } sx_assert(ok, "padding keeps the matrix as a corner");
    for (auto it = m.UpperTriangle().begin(); it != m.UpperTriangle().end(); ++it) *it = zero; ok = true; for (size_t r = 0; r < n; ++r) for (size_t k = 0; k < n; ++k) ok = ok & (c(r, k) == (r <= k ? zero : copy[k * n + r])); sx_assert(ok, "writing through a triangle"); sx_reach("end"); }
extern "C" void h_auto() { int n = sx_choose(1, sx_param("rank", 3), "rank"); int D = sx_param("dim", 3); X dims; size_t count = 1; for (int d = 0; d < n; ++d) { dims.push_back(sx_concretize(sx_range(1, D, "dim"))); count *= dims.back(); } static const TensorStorageType st[] = {TensorStorageType::Virtual, TensorStorageType::Explicit, TensorStorageType::Automatic}; int s = sx_choose(0, 2, "storage"); std::vector<long> v; for (size_t k = 0; k < count; ++k) v.push_back(k < 4 ? sx_range(-100, 100, "element") : (long) (k * 7)); Auto t(X(dims), st[s], v); bool expl = s == 1 || (s == 2 && count <= 6); sx_assert((t.StorageType == TensorStorageType::Explicit) == expl && t.StorageType != TensorStorageType::Automatic, "storage as asked for"); sx_assert(refusedAny([&] { (void) t.Data(); }) == !expl, "data only when stored");
    X z(n, 0), i = z; size_t k = 0; bool ok = true; auto e = t.end(); auto it = t.begin(); do { ok = ok && (bool) it && !!it && !(it == e) && it != e; if (!ok) break; ok = ok && it.offset() == k && it.index() == i && it.explicit_mode() == expl; ok = ok & (*it == v[k]) & (*it.operator->() == v[k]) & ((long) t(i) == v[k]) & ((long) t.at(k) == v[k]) & ((long) t.elem_no_checks(k) == v[k]) & ((long) t.elem_no_checks(std::span<const size_t>(i)) == v[k]) & (*t.at(k).operator->() == v[k]); ++it; ++k; } while (stepLast(i, z, dims, true)); sx_assert(ok && k == count && !it && it == e, "whole tensor visited once in order");
    X lo, hi; bool good = true; size_t part = 1; for (int d = 0; d < n; ++d) { lo.push_back(sx_concretize(sx_range(0, dims[d], "low"))); hi.push_back(sx_concretize(sx_range(0, dims[d] + 1, "high"))); if (lo[d] >= dims[d] || hi[d] > dims[d] || lo[d] > hi[d]) good = false; part *= hi[d] - lo[d]; } if (!good) { sx_assert(refused([&] { (void) t.Splice(std::span<const size_t>(lo), std::span<const size_t>(hi)); }) && refused([&] { (void) t.Splice(X(lo), X(hi)); }), "ranges that do not fit are refused"); sx_reach("refused"); return; } auto walk = [&](auto r) { i = lo; size_t j = 0; bool good = r.size() == part; for (int d = 0; d < n; ++d) good = good && r.Dimensions()[d] == hi[d] - lo[d]; auto x = r.begin(); for (; j < part; ++j) { good = good && (bool) x && x != r.end(); if (!good) break; size_t o = 0, m = 1; for (int d = 0; d < n; ++d) { o += i[d] * m; m *= dims[d]; } good = good && x.block_offset() == j && x.offset() == o && X(x.index().begin(), x.index().end()) == i; good = good & (*x == v[o]) & (*x.operator->() == v[o]); ++x; stepLast(i, lo, hi, true); } sx_assert(good && !x && x == r.end(), "sub-range visited once in order"); }; walk(t.Splice(std::span<const size_t>(lo), std::span<const size_t>(hi))); walk(t.Splice(X(lo), X(hi))); sx_reach("end"); }
extern "C" void h_auto_bad() { int n = sx_choose(1, 3, "rank"); X dims; size_t count = 1; for (int d = 0; d < n; ++d) { dims.push_back(sx_concretize(sx_range(1, 3, "dim"))); count *= dims.back(); } Auto t(X(dims), sx_choose(0, 1, "explicit") ? TensorStorageType::Explicit : TensorStorageType::Virtual, std::vector<long>(count, 3)); size_t off = sx_range(0, 30, "offset"); bool in = off < count; sx_assert(refused([&] { (void) t.at(off); }) == !in, "offset out of range is refused"); X i; in = true; for (int d = 0; d < n; ++d) { i.push_back(sx_range(0, 4, "index")); in = in & (i[d] < dims[d]); } sx_assert(refused([&] { (void) t(i); }) == !in, "index out of range is refused"); i.push_back(0); sx_assert(refused([&] { (void) t(i); }), "wrong number of indices is refused"); sx_reach("end"); }
extern "C" void h_flatten() { int n = sx_choose(0, 3, "rank"); int D = sx_param("dim", 3); X dims; std::vector<X> pick; size_t count = n ? 1 : 0; for (int d = 0; d < n; ++d) dims.push_back(sx_choose(1, D, "dim")); for (int d = 0; d < n; ++d) { X p; int k = sx_choose(0, 2, "picked"); for (int j = 0; j < k; ++j) p.push_back(sx_range(0, dims[d] - 1, "pick")); pick.push_back(p); count *= k; } IndexFlattener f{dims, pick}; sx_assert(f.size() == count && f.empty() == (count == 0), "number of picked elements"); X z(n, 0), hi, i = z; for (auto& p : pick) hi.push_back(p.size()); size_t k = 0; bool ok = true; for (auto it = f.begin(); it != f.end(); ++it) { if (k >= count) { ok = false; break; } size_t want = 0, s = 1; auto ix = it.index(); ok = ok && it.index_index() == i; for (int d = 0; d < n; ++d) { want += pick[d][i[d]] * s; s *= dims[d]; ok = ok & (ix[d] == pick[d][i[d]]); } ok = ok & (*it == want); stepLast(i, z, hi, true); ++k; } sx_assert(ok && k == count, "picked elements in order"); sx_reach("end"); }
