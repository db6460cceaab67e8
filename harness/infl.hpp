// inflation scenarios and an independent description of their operators
#pragma once
#include "hx.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/inflation/causal_network.h"
#include "dictionary/operator_sequence.h"
#include <algorithm>
namespace in {
using namespace Moment; using namespace Moment::Inflation; using S = sequence_storage_t; using V = std::vector<int>;
struct Net { std::vector<size_t> outs; std::vector<std::set<oper_name_t>> src; size_t infl; };
static inline Net net(int i) { switch (i) { case 0: return {{2, 2}, {{0, 1}}, 2}; case 1: return {{2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 2}; case 2: return {{3, 2, 2}, {{0, 1}}, 2}; case 3: return {{0, 2}, {{0, 1}}, 2}; case 4: return {{2, 2}, {{0, 1}, {0, 1}}, 2}; case 5: return {{3}, {{0}}, 3}; case 6: return {{2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, 1}; case 7: return {{2, 3, 2}, {{0, 1}, {1, 2}}, 3}; case 8: return {{2, 0, 3}, {{1}, {1, 2}}, 2}; default: return {{0, 2, 2}, {}, 2}; } }
struct Ops { std::vector<V> srcs; std::vector<int> obs, out; std::vector<V> var; V first, nops; std::vector<bool> proj; int nsrc; int infl; // var: copy index of each source of the observable
    int n() const { return obs.size(); } };
static inline Ops ops(const Net& N) { Ops o; o.infl = N.infl; o.nsrc = N.src.size(); for (size_t b = 0; b < N.outs.size(); ++b) { V s; for (size_t k = 0; k < N.src.size(); ++k) if (N.src[k].count(b)) s.push_back(k); o.srcs.push_back(s); int copies = 1; for (size_t k = 0; k < s.size(); ++k) copies *= N.infl; int no = N.outs[b] ? N.outs[b] - 1 : 1; o.first.push_back(o.n()); o.nops.push_back(no); o.proj.push_back(N.outs[b] != 0); for (int v = 0; v < copies; ++v) for (int x = 0; x < no; ++x) { o.obs.push_back(b); o.out.push_back(x); V ix; int r = v; for (size_t k = 0; k < s.size(); ++k) { ix.push_back(r % (int) N.infl); r /= N.infl; } o.var.push_back(ix); } } return o; }
static inline int find_op(const Ops& o, int b, int x, const V& ix) { for (int i = 0; i < o.n(); ++i) if (o.obs[i] == b && o.out[i] == x && o.var[i] == ix) return i; return -1; }
struct El { bool zero = false; V w; bool operator==(const El& e) const { return zero == e.zero && w == e.w; } };
static inline El simp(const Ops& o, V w) { std::sort(w.begin(), w.end()); El e; for (int x : w) { if (!e.w.empty()) { int y = e.w.back(); if (o.obs[x] == o.obs[y] && o.var[x] == o.var[y] && x != y) { e.zero = true; e.w.clear(); return e; } if (x == y && o.proj[o.obs[x]]) continue; } e.w.push_back(x); } return e; }
static inline V raw(const OperatorSequence& q) { V w; for (auto x : q) w.push_back(x); return w; }
static inline S ss(const V& w) { S s; for (int x : w) s.push_back((oper_name_t) x); return s; }
static inline bool is(const OperatorSequence& q, const El& e) { return q.zero() == e.zero && (e.zero || raw(q) == e.w); }
// all moments obtained by permuting the copies of each source (ordered: only those in which the operators keep their order)
static inline std::vector<V> perms(int n) { std::vector<V> r; V p; for (int i = 0; i < n; ++i) p.push_back(i); do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
static inline std::vector<V> orbit(const Ops& o, const V& w, bool ordered = false) { auto ps = perms(o.infl); std::vector<V> out; V pick(o.nsrc, 0); while (true) { V u; for (int x : w) { V ix = o.var[x]; auto& s = o.srcs[o.obs[x]]; for (size_t k = 0; k < s.size(); ++k) ix[k] = ps[pick[s[k]]][ix[k]]; u.push_back(find_op(o, o.obs[x], o.out[x], ix)); } if (!ordered) std::sort(u.begin(), u.end()); if (std::is_sorted(u.begin(), u.end())) out.push_back(u); int k = 0; while (k < o.nsrc && ++pick[k] == (int) ps.size()) pick[k++] = 0; if (k == o.nsrc) break; } std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); return out; }
static inline bool linked(const Ops& o, int x, int y) { auto &a = o.srcs[o.obs[x]], &b = o.srcs[o.obs[y]]; if (a.empty() || b.empty()) return o.obs[x] == o.obs[y]; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i] == b[j] && o.var[x][i] == o.var[y][j]) return true; return false; }
static inline std::vector<V> components(const Ops& o, const V& w) { std::vector<V> r; V lab(w.size(), -1); for (size_t i = 0; i < w.size(); ++i) { if (lab[i] >= 0) continue; V st{(int) i}, c; lab[i] = r.size(); while (!st.empty()) { int a = st.back(); st.pop_back(); c.push_back(w[a]); for (size_t b = 0; b < w.size(); ++b) if (lab[b] < 0 && linked(o, w[a], w[b])) { lab[b] = lab[i]; st.push_back(b); } } std::sort(c.begin(), c.end()); r.push_back(c); } std::sort(r.begin(), r.end()); return r; }
}
