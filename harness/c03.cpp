// C03: the bit set behaves as a set of integers below its size, over any page boundary
#include "hx.h"
#include "utilities/dynamic_bitset.h"
#include "utilities/small_vector.h"
#include <set>
using namespace Moment;
template<class BS> static void fill(BS& b, std::vector<unsigned char>& model, long n, const char* nm, long nsym, bool conc) {
    // only nsym positions (symbolic choice spread around page boundaries) are symbolic, the rest are a fixed pattern
    long P = BS::page_size; for (long i = 0; i < n; ++i) { bool edge = (i % P) < 2 || (i % P) == P - 1 || i == n - 1; long v; if (edge && nsym > 0) { --nsym; v = sx_range(0, 1, nm); if (conc) v = sx_concretize(v); } else v = (i * 7 + i / P) % 3 == 0; model.push_back(v); if (v) b.set(i); else b.unset(i); } }
template<class BS> static void check_same(const BS& b, const std::vector<unsigned char>& m, const char* id) {
    bool ok = true; long cnt = 0, first = (long) m.size(); for (size_t i = 0; i < m.size(); ++i) { ok = ok & (b.test(i) == (m[i] != 0)); cnt += m[i] != 0; if (m[i] && first == (long) m.size()) first = i; }
    sx_assert(ok, id); sx_assert((long) b.count() == cnt, "count is number of members"); sx_assert((long) b.first_index() == first, "first member"); sx_assert(b.empty() == (cnt == 0), "emptiness"); }
template<class BS> static void run() {
    long P = BS::page_size; static const long szs[] = {1, 2, P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 3}; long n = szs[sx_choose(0, 7, "size")]; long ns = sx_param("nsym", 4);
    BS a(n), b(n); std::vector<unsigned char> ma, mb; int op = sx_choose(0, 9, "op"); fill(a, ma, n, "a", ns, op == 4); fill(b, mb, n, "b", ns, false);
    check_same(a, ma, "membership");
    std::vector<unsigned char> m(n);
    if (op == 0) { auto c = a & b; for (long i = 0; i < n; ++i) m[i] = ma[i] & mb[i]; check_same(c, m, "intersection"); a &= b; sx_assert(a == c, "in-place intersection"); }
    else if (op == 1) { auto c = a | b; for (long i = 0; i < n; ++i) m[i] = ma[i] | mb[i]; check_same(c, m, "union"); a |= b; sx_assert(a == c, "in-place union"); }
    else if (op == 2) { auto c = ~a; for (long i = 0; i < n; ++i) m[i] = !ma[i]; check_same(c, m, "complement"); BS d(a); d.invert_in_place(); sx_assert(d == c, "in-place complement"); sx_assert((~c) == a, "double complement"); }
    else if (op == 3) { bool e = true; for (long i = 0; i < n; ++i) e = e & (ma[i] == mb[i]); sx_assert((a == b) == e, "equality"); sx_assert((a != b) == !e, "inequality"); }
    else if (op == 4) { auto it = a.begin(); auto e = a.end(); for (long i = 0; i < n; ++i) if (ma[i]) { sx_assert(it != e && (long) *it == i, "iteration ascends through members"); ++it; } sx_assert(it == e, "iteration ends after the last member");
        auto s = a.to_set(); long k = 0; for (auto x : s) { sx_assert(ma[x], "exported member"); ++k; } long c = 0; for (auto x : ma) c += x; sx_assert(k == c, "exported set size"); }
    else if (op == 5) { long i = sx_choose(0, n - 1, "i"); BS c(a); c.set(i); m = ma; m[i] = 1; check_same(c, m, "insert"); c.unset(i); m[i] = 0; check_same(c, m, "remove"); c[i] = true; m[i] = 1; check_same(c, m, "proxy insert"); c.clear(); std::fill(m.begin(), m.end(), 0); check_same(c, m, "clear"); check_same(a, ma, "copy is independent"); }
    else if (op == 6 || op == 7) { long st = sx_choose(0, n - 1, "first"); long len = n - st <= 4 ? sx_choose(0, n - st, "len") : sx_choose(0, 1, "full") ? n - st - sx_choose(0, 1, "d") : sx_choose(0, 1, "mid") ? std::min(n - st, P + sx_choose(-1, 1, "d2")) : sx_choose(0, 2, "d3"); 
        auto c = a.subset(st, len); sx_assert((long) c.bit_size == len, "subset size"); m.assign(ma.begin() + st, ma.begin() + st + len); check_same(c, m, "subset contents");
        if (len <= P) { auto v = a.small_subset(st, len); bool ok = true; for (long i = 0; i < P; ++i) ok = ok & (((v >> i) & 1) == (i < len ? m[i] : 0)); sx_assert(ok, "packed subset contents"); } }
    else if (op == 8) { BS f(n, true), z(n, false); for (auto& x : m) x = 1; check_same(f, m, "full set"); for (auto& x : m) x = 0; check_same(z, m, "empty set"); sx_assert((~z) == f && (~f) == z, "full and empty are complements"); }
    else { a.swap(b); check_same(a, mb, "swap left"); check_same(b, ma, "swap right"); }
    sx_observe("c", a.count()); sx_reach("end");
}
extern "C" void h_u8() { run<DynamicBitset<uint8_t, int64_t>>(); }
extern "C" void h_u64() { run<DynamicBitset<uint64_t>>(); }
extern "C" void h_small() { run<DynamicBitset<uint64_t, size_t, SmallVector<uint64_t, 1>>>(); }
extern "C" void h_empty() { using BS = DynamicBitset<uint64_t>; BS a(0), b(0, false); sx_assert(a.empty() && a.count() == 0 && a == b && a.first_index() == 0, "empty universe"); sx_assert(!(a.begin() != a.end()), "nothing to iterate");
    BS f(0, true); sx_assert(f == a, "full set of nothing is empty"); BS c = ~a; sx_assert(c == a, "complement of nothing is nothing"); a.invert_in_place(); sx_assert(a == b, "in place complement of nothing"); sx_observe("n", a.count()); sx_reach("end"); }
