// C25: lookup structures
#include "hx.h"
#include <stddef.h>
#include <algorithm>
#include <cassert>
#include <functional>
#include <limits>
#include <map>
#include <optional>
#include <concepts>
#include <set>
#include "utilities/index_tree.h"
#include "utilities/persistent_storage.h"
#include "utilities/linear_map_merge.h"
#include "utilities/first_intersection_index.h"
#include "utilities/set_to_vector.h"
using namespace Moment;
namespace { template<class K> struct Ref { std::vector<std::pair<std::vector<K>, long>> e; int at(const std::vector<K>& k) const { for (size_t i = 0; i < e.size(); ++i) if (e[i].first == k) return i; return -1; } void put(const std::vector<K>& k, long v) { int i = at(k); if (i < 0) e.push_back({k, v}); else e[i].second = v; } bool node(const std::vector<K>& k) const { for (auto& x : e) if (x.first.size() >= k.size() && std::equal(k.begin(), k.end(), x.first.begin())) return true; return k.empty(); } bool child(const std::vector<K>& k) const { for (auto& x : e) if (x.first.size() > k.size() && std::equal(k.begin(), k.end(), x.first.begin())) return true; return false; } };
template<class K> std::vector<K> key(int maxlen, int lo, int hi) { int n = sx_choose(0, maxlen, "length"); std::vector<K> k; for (int i = 0; i < n; ++i) k.push_back((K) sx_range(lo, hi, "letter")); return k; }
template<class K, class T> void compare(const T& t, const Ref<K>& r, const std::vector<K>& q) { int i = r.at(q); auto f = t.find(std::span<const K>(q)); sx_assert(f.has_value() == (i >= 0) && (i < 0 || *f == r.e[i].second), "found exactly what was inserted"); const auto* n = t.find_node(std::span<const K>(q)); sx_assert((n != nullptr) == r.node(q), "nodes along inserted keys"); if (n) { sx_assert(n->value() == f && n->leaf() == !r.child(q), "node holds the value"); if (q.size() == 1) sx_assert(t.find_node(q[0]) == n, "node by one letter"); } auto [h, rest] = t.find_node_or_return_hint(std::span<const K>(q)); size_t d = q.size(); while (d > 0 && !r.node(std::vector<K>(q.begin(), q.begin() + d))) --d; sx_assert(rest.size() == q.size() - d && h == t.find_node(std::span<const K>(q.data(), d)) && (rest.empty() || rest.data() == q.data() + d), "hint is the longest known part"); }
template<class K, class T> void walk(T& t, const Ref<K>& r) { size_t values = 0, nodes = 0; std::vector<K> last; bool ok = true; for (auto it = t.begin(); it != t.end(); ++it) { auto ix = it.lookup_index(); if (nodes) ok = ok && std::lexicographical_compare(last.begin(), last.end(), ix.begin(), ix.end()); ok = ok && it.current_depth() == ix.size() && (bool) it && !!it && r.node(ix) && &*it == t.find_node(std::span<const K>(ix)); auto v = it->value(); int i = r.at(ix); ok = ok && v.has_value() == (i >= 0) && (i < 0 || *v == r.e[i].second); if (v) ++values; ++nodes; last = ix; } std::set<std::vector<K>> all{{}}; for (auto& x : r.e) for (size_t d = 1; d <= x.first.size(); ++d) all.insert(std::vector<K>(x.first.begin(), x.first.begin() + d)); sx_assert(ok && values == r.e.size() && nodes == all.size(), "iteration sorted and complete"); }
template<class K> void tree(int lo, int hi) { int n = sx_choose(0, sx_param("ops", 3), "operations"), L = sx_param("len", 2); IndexTree<K, long> t; Ref<K> r; for (int i = 0; i < n; ++i) { auto k = key<K>(L, lo, hi); long v = sx_range(-9, 9, "value"); int at = r.at(k); if (sx_choose(0, 1, "replace")) { t.add(std::span<const K>(k), v); r.put(k, v); } else { auto [x, added] = t.add_if_new(std::span<const K>(k), v); sx_assert(added == (at < 0), "new keys are reported new"); sx_assert(x == (at < 0 ? v : r.e[at].second), "existing value kept"); if (at < 0) r.put(k, v); } } compare(t, r, key<K>(L + 1, lo, hi)); walk(t, r); const auto& c = t; walk(c, r); sx_reach("end"); }
}
extern "C" void h_tree_signed() { tree<int>(-1, sx_param("hi", 1)); }
extern "C" void h_tree_unsigned() { tree<uint64_t>(0, sx_param("hi", 2)); }
extern "C" void h_tree_merge() { int n = sx_choose(0, sx_param("n", 2), "mine"), m = sx_choose(0, sx_param("m", 2), "theirs"), L = 2, hi = sx_param("hi", 1); using K = int; IndexTree<K, long> a, b; Ref<K> r; for (int i = 0; i < n; ++i) { auto k = key<K>(L, 0, hi); a.add(std::span<const K>(k), i + 1); r.put(k, i + 1); } Ref<K> s; for (int i = 0; i < m; ++i) { auto k = key<K>(L, 0, hi); b.add(std::span<const K>(k), i + 11); s.put(k, i + 11); } for (auto& x : s.e) r.put(x.first, x.second); a.merge_in(std::move(b)); compare(a, r, key<K>(L, 0, hi)); walk(a, r); auto k = key<K>(1, 0, hi); auto [v, added] = a.add_if_new(std::span<const K>(k), 99); int i = r.at(k); sx_assert(added == (i < 0) && v == (i < 0 ? 99 : r.e[i].second), "insertion after merging"); sx_reach("end"); }
extern "C" void h_tree_move() { using K = int; IndexTree<K, long> a{7, 5}; sx_assert(a.value() == 5 && a.leaf(), "value of a new node"); auto k = key<K>(2, 0, 1); long v = sx_range(0, 9, "value"); a.add(std::span<const K>(k), v); IndexTree<K, long> b{std::move(a)}; Ref<K> r; r.put({}, 5); r.put(k, v); compare(b, r, key<K>(2, 0, 1)); walk(b, r); bool flag = false; auto* p = b.add_node(1, &flag); bool had = r.node({1}); sx_assert(flag == !had && p == b.find_node(1), "added node"); flag = false; sx_assert(b.add_node(1, &flag) == p && !flag, "node added once"); sx_reach("end"); }
namespace { struct Obj { static long alive; long v; explicit Obj(long v) : v{v} { ++alive; } Obj(const Obj&) = delete; virtual ~Obj() { --alive; } }; long Obj::alive = 0; struct Der : Obj { using Obj::Obj; }; }
extern "C" void h_store() { Obj::alive = 0; uint32_t sig = (uint32_t) sx_range(0, 0xFFFFFFFFL, "signature"); { PersistentStorage<Obj> s(sig); std::vector<std::pair<uint64_t, std::shared_ptr<Obj>>> r; std::vector<uint64_t> used; int n = sx_choose(0, sx_param("ops", 4), "operations"); for (int i = 0; i < n; ++i) switch (sx_choose(0, 2, "operation")) { case 0: { auto p = std::make_shared<Obj>(i); auto k = s.store(p); for (auto u : used) sx_assert(u != k, "keys are never reused"); used.push_back(k); r.push_back({k, p}); sx_assert((k >> 32) == sig && s.check_signature(k) && s.sign_index(s.get_index(k)) == k, "key carries the signature"); break; } case 1: { auto p = std::make_unique<Obj>(i); Obj* q = p.get(); auto k = s.store(std::move(p)); for (auto u : used) sx_assert(u != k, "keys are never reused"); used.push_back(k); auto g = s.get(k); sx_assert(g.get() == q, "stored object keeps its identity"); r.push_back({k, g}); break; } default: { if (used.empty()) break; int w = sx_choose(0, (int) used.size() - 1, "which"); size_t at = r.size(); for (size_t j = 0; j < r.size(); ++j) if (r[j].first == used[w]) at = j; bool threw = false; try { s.release(used[w]); } catch (const errors::not_found_error& e) { threw = e.key == used[w]; } sx_assert(threw == (at == r.size()), "releasing what is not there is refused"); if (at < r.size()) { long before = Obj::alive; r.erase(r.begin() + at); sx_assert(Obj::alive == before - 1, "released object is let go"); } } }
        sx_assert(s.size() == r.size() && s.empty() == r.empty(), "number of objects"); uint64_t k = (uint64_t) sx_range(0, 0xFFFFFFFFL, "top") << 32 | (uint64_t) sx_range(0, 5, "index"); Obj* want = nullptr; for (auto& x : r) if (x.first == k) want = x.second.get(); int got = 0; try { auto p = s.get(k); sx_assert(p.get() == want && want, "key leads to its object"); got = 1; } catch (const errors::bad_signature_error&) { got = 2; } catch (const errors::not_found_error&) { got = 3; } sx_assert(got == (want ? 1 : (k >> 32) != sig ? 2 : 3), "unknown keys are refused"); auto [i, p] = s.first(); size_t c = 0; while (p) { sx_assert(c < r.size() && r[c].second == p && s.sign_index(i) == r[c].first, "objects listed in order"); auto nx = s.next(i); i = nx.first; p = nx.second; ++c; } sx_assert(c == r.size() && i == 0xFFFFFFFFu, "every object listed"); if (sx_choose(0, 1, "clear")) { s.clear(); sx_assert(s.empty() && s.size() == 0 && !s.first().second, "nothing after clearing"); for (auto u : used) { bool t = false; try { (void) s.get(u); } catch (const errors::not_found_error&) { t = true; } sx_assert(t, "cleared objects are gone"); } } } sx_assert(Obj::alive == 0, "all objects let go"); sx_reach("end"); }
extern "C" void h_single() { Obj::alive = 0; { bool full = sx_choose(0, 1, "full"); auto o = full ? std::make_shared<Obj>(1) : nullptr; PersistentStorageMonoid<Obj> s(5, o); for (int i = 0; i < 3; ++i) { sx_assert(s.get() == o && s.empty() == !o, "holds what was put"); switch (sx_choose(0, 2, "operation")) { case 0: o = std::make_shared<Obj>(10 + i); s.set(o); break; case 1: s.reset(); o.reset(); break; default: { auto p = s.create_if_empty<Der>((long) (20 + i)); if (o) sx_assert(p == o, "existing object kept"); else { sx_assert(p->v == 20 + i && s.get() == p, "object made when empty"); o = p; } } } sx_assert(Obj::alive == (o ? 1 : 0), "replaced object is let go"); } } sx_assert(Obj::alive == 0, "all objects let go"); sx_reach("end"); }
namespace { template<class K> void merge() { int n = sx_choose(0, sx_param("n", 3), "mine"), m = sx_choose(0, sx_param("m", 3), "theirs"); std::map<K, long> a, b, want; bool neg = std::is_signed_v<K>; for (int i = 0; i < n; ++i) { K k = (K) sx_range(neg ? -2 : 0, 3, "key"); a.emplace(k, i); } want = a; for (int i = 0; i < m; ++i) { K k = (K) sx_range(neg ? -2 : 0, 3, "key"); b.emplace(k, 10 + i); } for (auto& x : b) want.emplace(x.first, x.second); linear_map_merge(a, std::move(b)); sx_assert(a == want, "union, keeping existing values"); for (auto& x : want) sx_assert(a.contains(x.first) && a.at(x.first) == x.second, "each key found"); sx_reach("end"); } }
extern "C" void h_merge() { if (sx_choose(0, 1, "signed")) merge<int>(); else merge<size_t>(); }
extern "C" void h_intersect() { int n = sx_choose(0, sx_param("n", 4), "test"), m = sx_choose(0, sx_param("m", 4), "match"); bool down = sx_choose(0, 1, "descending"); std::vector<long> a, b; for (int i = 0; i < n; ++i) { long x = sx_range(0, 9, "a"); if (i && (down ? x > a.back() : x < a.back())) return; a.push_back(x); } for (int i = 0; i < m; ++i) { long x = sx_range(0, 9, "b"); if (i && (down ? x > b.back() : x < b.back())) return; b.push_back(x); } auto r = down ? first_intersection_index(a.begin(), a.end(), b.begin(), b.end(), std::greater<long>{}) : first_intersection_index(a.begin(), a.end(), b.begin(), b.end()); int got = r ? (int) sx_concretize((long) *r) : -1; sx_assert(got < m, "position lies inside"); bool ok = true; for (int j = 0; j < m; ++j) { bool in = false; for (auto x : a) in = in | (x == b[j]); if (got < 0 || j < got) ok = ok & !in; else if (j == got) ok = ok & in; } sx_assert(ok, "first common element"); sx_reach("end"); }
extern "C" void h_set() { int n = sx_choose(0, 4, "n"); std::set<long> s; std::vector<long> in; for (int i = 0; i < n; ++i) { long x = sx_range(0, 5, "x"); s.insert(x); in.push_back(x); } auto v = set_to_vector(s); bool ok = v.size() == s.size(); for (size_t i = 0; i + 1 < v.size(); ++i) ok = ok & (v[i] < v[i + 1]); for (auto x : in) { bool hit = false; for (auto y : v) hit = hit | (x == y); ok = ok & hit; } sx_assert(ok, "sorted elements of the set"); sx_reach("end"); }
