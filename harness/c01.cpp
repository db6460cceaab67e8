// C01: words are numbered by an injective, order preserving code with 0 and 1 reserved; substring codes agree.
#include "hx.h"
#include "shortlex_hasher.h"
#include "hashed_sequence.h"
#include "utilities/substring_hasher.h"
using namespace Moment;
using S = sequence_storage_t;
// shortlex comparison: -1,0,1 computed independently
static int sl(const S& a, const S& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; for (size_t i = 0; i < a.size(); ++i) { if (a[i] < b[i]) return -1; if (a[i] > b[i]) return 1; } return 0; }
extern "C" void h_order() {
    long r = sx_choose(1, sx_param("rmax", 4), "radix"); int L = sx_param("len", 4);
    ShortlexHasher h(r);
    S a = sym_word<S>(sx_choose(0, L, "n1"), r, "a"), b = sym_word<S>(sx_choose(0, L, "n2"), r, "b");
    uint64_t x = h(a), y = h(b); int c = sl(a, b);
    sx_assert((c < 0) == (x < y), "shorter-or-lexicographically-first word has smaller code");
    sx_assert((c == 0) == (x == y), "codes equal only for equal words");
    sx_assert(x >= 1, "zero code reserved"); sx_assert((x == 1) == a.empty(), "code one reserved for the empty word");
    HashedSequence p(a, h), q(b, h);
    sx_assert(p.hash() == x && (p < q) == (c < 0), "sequence ordering follows codes");
    sx_observe("x", x); sx_observe("y", y); sx_reach("end");
}
extern "C" void h_wide() {  // codes of words up to the stack length / beyond it, radix symbolic choice
    static const long rs[] = {2, 3, 7, 16}; long r = rs[sx_choose(0, 3, "ri")]; int n = sx_choose(1, sx_param("len", 20), "n"); 
    ShortlexHasher h(r); if ((size_t) n > h.longest_hashable_string()) { sx_reach("end"); return; }
    // two words agreeing except in a window of at most two symbolic letters
    int at = sx_choose(0, n - 1, "at"); S a, b; bool lt = false, eq = true;
    for (int i = 0; i < n; ++i) { oper_name_t x = (i * 5 + 1) % r, y = x; if (i == at || i == at + 1) { x = sx_range(0, r - 1, "a"); y = sx_range(0, r - 1, "b"); } a.push_back(x); b.push_back(y); lt = lt | (eq & (x < y)); eq = eq & (x == y); }
    S lo, hi, prev; for (int i = 0; i < n; ++i) { lo.push_back(0); hi.push_back(r - 1); if (i) prev.push_back(r - 1); }
    sx_assert(h(prev) + 1 == h(lo), "codes dense across lengths");
    sx_assert(h(lo) <= h(a) && h(a) <= h(hi), "codes of a length lie in its block");
    sx_assert((h(a) == h(b)) == eq, "injective on long words"); sx_assert((h(a) < h(b)) == lt, "order preserving on long words");
    sx_observe("a", h(a)); sx_reach("end");
}
extern "C" void h_single() {
    long r = sx_choose(1, 6, "radix"); ShortlexHasher h(r); oper_name_t o = sx_range(0, r - 1, "o"); S s; s.push_back(o);
    sx_assert(h.hash(o) == h.hash(s) && h({o}) == h(s), "code of a single operator");
    long off = sx_range(0, 1000, "offset"); ShortlexHasher h2(r, off); S w = sym_word<S>(sx_choose(0, 4, "n"), r, "w");
    sx_assert(h2(w) - off == h(w) - 1, "offset shifts the code"); sx_reach("end");
}
extern "C" void h_longest() { // the advertised longest encodable word really has an overflow-free code
    long r = sx_choose(1, sx_param("rmax", 64), "radix"); ShortlexHasher h(r); size_t n = h.longest_hashable_string();
    sx_observe("n", n);
    if (r >= 2) { unsigned __int128 v = 1, m = 1; for (size_t i = 0; i < n; ++i) { v += m * (unsigned) r; m *= (unsigned) r; }
        sx_assert(v <= (unsigned __int128) UINT64_MAX, "longest encodable word does not overflow"); sx_assert(n >= 63 / (64 - __builtin_clzl(r)) , "bound is not vacuous"); }
    sx_reach("end");
}
extern "C" void h_sub() { // codes of all substrings, from the last end position backwards
    long r = sx_choose(1, sx_param("rmax", 4), "radix"); int n = sx_choose(0, sx_param("len", 5), "n"); S w = sym_word<S>(n, r, "w"); ShortlexHasher h(r);
    Algebraic::SubstringHashRange range{w, (size_t) r}; auto it = range.begin(); auto e = range.end(); int cnt = 0;
    for (int end = n; end > 0; --end) for (int st = end - 1; st >= 0; --st) {
        sx_assert(it != e, "enumeration stops early"); S sub; for (int i = st; i < end; ++i) sub.push_back(w[i]);
        sx_assert(*it == h(sub), "substring code equals code of the substring"); sx_assert(it.index() == (size_t) st, "substring position"); ++it; ++cnt; }
    sx_assert(it == e, "every substring exactly once"); sx_observe("cnt", cnt); sx_reach("end");
}
