// C04: the small-buffer vector behaves as a sequence through every history of operations
#include "hx.h"
#include "utilities/small_vector.h"
using namespace Moment;
constexpr int N = 2; using V = SmallVector<int64_t, N>;
struct Mod { int n = 0; int64_t d[24]; };
static void eq(const V& v, const Mod& m, const char* id) { bool ok = (int) v.size() == m.n && v.empty() == (m.n == 0) && (int) v.capacity() >= m.n; sx_assert(ok, "size"); if (!ok) return; for (int i = 0; i < m.n; ++i) ok = ok & (v[i] == m.d[i]); sx_assert(ok, id);
    int i = 0; for (auto x : v) { sx_assert(x == m.d[i], "iteration"); ++i; } sx_assert(i == m.n, "iteration length"); for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; sx_assert(*it == m.d[i], "reverse iteration"); } sx_assert(i == 0, "reverse length");
    if (m.n) sx_assert(v.front() == m.d[0] && v.back() == m.d[m.n - 1], "ends"); std::span<const int64_t> s = v; sx_assert((int) s.size() == m.n && (m.n == 0 || s[m.n - 1] == m.d[m.n - 1]), "span"); sx_assert(v.end() - v.begin() == m.n && v.get() == v.begin(), "range"); }
static int64_t val() { return sx_range(-1000, 1000, "v"); }
static V make(Mod& m, int how, int n) { m.n = n; for (int i = 0; i < n; ++i) m.d[i] = val();
    if (how == 0) { V v; for (int i = 0; i < n; ++i) v.push_back(m.d[i]); return v; }
    if (how == 1) { return V(m.d, m.d + n); }
    if (how == 2) { for (int i = 1; i < n; ++i) m.d[i] = m.d[0]; return V((size_t) n, n ? m.d[0] : 0); }
    V v; v.reserve(n + 3); v.insert(v.begin(), m.d, m.d + n); return v; }
static void step(V& a, Mod& ma, V& b, Mod& mb) {
    switch (sx_choose(0, 11, "op")) {
    case 0: { auto x = val(); a.push_back(x); ma.d[ma.n++] = x; break; }
    case 1: { auto x = val(); a.emplace_back(x); ma.d[ma.n++] = x; break; }
    case 2: if (ma.n) { a.pop_back(); ma.n--; } break;
    case 3: { int p = sx_choose(0, ma.n, "at"), k = sx_choose(0, 3, "cnt"); int64_t src[3]; for (int i = 0; i < k; ++i) src[i] = val(); a.insert(a.begin() + p, src, src + k); for (int i = ma.n - 1; i >= p; --i) ma.d[i + k] = ma.d[i]; for (int i = 0; i < k; ++i) ma.d[p + i] = src[i]; ma.n += k; break; }
    case 4: { int p = sx_choose(0, ma.n, "from"), q = sx_choose(p, ma.n, "to"); auto it = a.erase(a.begin() + p, a.begin() + q); sx_assert(it == a.begin() + p, "erase returns position"); for (int i = q; i < ma.n; ++i) ma.d[p + i - q] = ma.d[i]; ma.n -= q - p; break; }
    case 5: a = b; ma = mb; break;
    case 6: a = std::move(b); ma = mb; b.clear(); mb.n = 0; break;
    case 7: a.swap(b); std::swap(ma, mb); break;
    case 8: { V c(a); eq(c, ma, "copy"); c.push_back(7); if (ma.n) c[0] = 5; break; }
    case 9: { V c(std::move(a)); eq(c, ma, "moved"); a.clear(); eq(a, Mod{}, "cleared"); a = std::move(c); break; }
    case 10: a.reserve(sx_choose(0, 9, "want")); break;
    case 11: if (ma.n) { int i = sx_choose(0, ma.n - 1, "i"); auto x = val(); a[i] = x; ma.d[i] = x; } else { a = *&a; } break;
    }
    eq(a, ma, "contents"); eq(b, mb, "other contents");
}
extern "C" void h_hist() {
    int mx = sx_param("size", 4), depth = sx_param("depth", 2); Mod ma, mb; V a = make(ma, sx_choose(0, 3, "how"), sx_choose(0, mx, "na")), b = make(mb, 0, sx_choose(0, mx, "nb"));
    eq(a, ma, "constructed"); for (int i = 0; i < depth; ++i) step(a, ma, b, mb);
    bool e = ma.n == mb.n; for (int i = 0; e && i < ma.n; ++i) e = e && ma.d[i] == mb.d[i]; sx_assert((a == b) == e && (a != b) == !e, "equality"); sx_observe("n", ma.n); sx_reach("end");
}
extern "C" void h_push() { V a; Mod m; int n = sx_choose(0, sx_param("n", 18), "n"); for (int i = 0; i < n; ++i) { auto x = val(); a.push_back(x); m.d[m.n++] = x; } eq(a, m, "appended"); V b{a}; eq(b, m, "copied"); V c = std::move(b); eq(c, m, "moved"); sx_observe("n", n); sx_reach("end"); }
