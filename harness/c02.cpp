// C02: signs form the group {1,i,-1,-i}; signed words compare, overlap and match as words with signs.
#include "hx.h"
#include "hashed_sequence.h"
#include "sequence_sign_type.h"
using namespace Moment;
using S = sequence_storage_t; using G = SequenceSignType;
static void cx(int k, int& re, int& im) { re = (k == 0) - (k == 2); im = (k == 1) - (k == 3); }
static int ofcx(int re, int im) { return re == 1 ? 0 : re == -1 ? 2 : im == 1 ? 1 : 3; }
extern "C" void h_sign() {
    int a = sx_range(0, 3, "a"), b = sx_range(0, 3, "b"); G A = (G) a, Bb = (G) b; int ar, ai, br, bi; cx(a, ar, ai); cx(b, br, bi);
    sx_assert((int) (A * Bb) == ofcx(ar * br - ai * bi, ar * bi + ai * br), "product of signs");
    sx_assert((int) negate(A) == ofcx(-ar, -ai), "negation"); sx_assert((int) conjugate(A) == ofcx(ar, -ai), "conjugation");
    sx_assert((int) difference(A, Bb) == ofcx(ar * br + ai * bi, ar * bi - ai * br), "relative sign");
    sx_assert(are_negatives(A, Bb) == (ar == -br && ai == -bi), "opposites"); sx_assert(is_imaginary(A) == (ai != 0), "imaginary");
    sx_assert(is_negative(A) == (ar == -1 || ai == -1), "negative");
    auto z = to_scalar(A); sx_assert(z.real() == (double) ar && z.imag() == (double) ai, "scalar value"); sx_reach("end");
    sx_observe("p", (int) (A * Bb));
}
extern "C" void h_words() {
    long r = sx_choose(1, sx_param("rmax", 3), "radix"); int L = sx_param("len", 4); ShortlexHasher h(r);
    S a = sym_word<S>(sx_choose(0, L, "n1"), r, "a"), b = sym_word<S>(sx_choose(0, L, "n2"), r, "b");
    int sa = sx_range(0, 3, "sa"), sb = sx_range(0, 3, "sb"); HashedSequence p(a, h, (G) sa), q(b, h, (G) sb);
    bool same = same_seq(a, b);
    sx_assert((p == q) == (same & (sa == sb)), "equality is word and sign"); sx_assert((p != q) == !(p == q), "inequality");
    int c = HashedSequence::compare_same_negation(p, q); int want = !same ? 0 : sa == sb ? 1 : ((sa ^ sb) == 2) ? -1 : 0;
    sx_assert(c == want, "same-up-to-sign comparison"); sx_assert(p.negated() == (sa >= 2) && p.imaginary() == ((sa & 1) != 0), "sign flags");
    // matching
    bool pre = a.size() <= b.size(); for (size_t i = 0; pre && i < a.size(); ++i) pre = pre && a[i] == b[i];
    sx_assert(p.matches(q.begin(), q.end()) == pre, "prefix match");
    auto it = p.matches_anywhere(q.begin(), q.end()); size_t pos = it - q.begin(); size_t first = b.size();
    for (size_t s = 0; s < b.size() && first == b.size(); ++s) { bool m = s + a.size() <= b.size(); for (size_t i = 0; m && i < a.size(); ++i) m = m && a[i] == b[s + i]; if (m) first = s; }
    sx_assert(pos == first, "first occurrence");
    long ov = p.suffix_prefix_overlap(q); long best = 0; for (long k = 1; k <= (long) a.size() && k <= (long) b.size(); ++k) { bool m = true; for (long i = 0; i < k; ++i) m = m && a[a.size() - k + i] == b[i]; if (m) best = k; }
    sx_assert(ov == best, "longest suffix-prefix overlap"); sx_observe("ov", ov); sx_observe("pos", pos); sx_reach("end");
}
extern "C" void h_zero() {
    HashedSequence z(true), o(false); int s = sx_range(0, 3, "s"); ShortlexHasher h(3); S a = sym_word<S>(sx_choose(0, 3, "n"), 3, "a"); HashedSequence p(a, h, (G) s);
    sx_assert(z.zero() && !o.zero() && z.empty() && o.empty() && z != o && !p.zero(), "zero and identity differ");
    sx_assert(p != z, "no word is zero"); HashedSequence q = p; sx_assert(q == p, "copy"); q.set_to_zero(); sx_assert(q == z && q.zero() && q.empty() && !q.negated() && !q.imaginary(), "set to zero is canonical zero"); sx_assert(q != p, "original unchanged");
    HashedSequence m = p; m.set_sign(negate(m.get_sign())); sx_assert(HashedSequence::compare_same_negation(m, p) == -1, "negation detected"); sx_reach("end");
    HashedSequence w = p; w.raw().push_back(2); w.rehash(h); sx_assert(w != p && w.size() == p.size() + 1, "rehash"); sx_observe("h", w.hash());
}
