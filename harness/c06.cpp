// C06: inflation scenarios: canonical words, canonical moments, factors
#include "infl.hpp"
using namespace in;
namespace { V word(const Ops& o, int maxlen, int from = 0) { V w; int n = sx_choose(from, maxlen, "length"); for (int i = 0; i < n; ++i) w.push_back((int) sx_concretize(sx_range(0, o.n() - 1, "op"))); return w; } }
extern "C" void h_words() { Net N = net(sx_choose(sx_param("first", 0), sx_param("last", 9), "network")); Ops o = ops(N); InflationContext c{CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl}; sx_assert((int) c.size() == o.n(), "number of operators"); if ((int) c.size() != o.n()) return; V w = word(o, sx_param("len", 2)); El e = simp(o, w); OperatorSequence q{ss(w), c}; sx_assert(is(q, e), "word simplifies to its sorted reduced form");
    auto k = c.get_if_canonical(ss(w)); sx_assert(k.has_value() == (!e.zero && e.w == w), "canonical words are recognised"); if (k) sx_assert(k->hash() == q.hash() && raw(*k) == w, "canonical word is kept"); V v = word(o, sx_param("len", 2)); El f = simp(o, v); V both = w; both.insert(both.end(), v.begin(), v.end()); El g = simp(o, both); OperatorSequence p{ss(v), c}; sx_assert(is(q * p, g) && is(p * q, g), "product"); sx_assert(is(q.conjugate(), e), "words are Hermitian");
    if (!w.empty()) { int x = w[0]; auto& ob = c.Observables()[o.obs[x]]; int var = (x - o.first[o.obs[x]]) / o.nops[o.obs[x]]; sx_assert(c.operator_number(o.obs[x], var, o.out[x]) == (oper_name_t) x, "operator number"); auto gi = c.obs_variant_to_index(o.obs[x], var); auto ov = c.index_to_obs_variant(gi); sx_assert((int) ov.observable == o.obs[x] && (int) ov.variant == var, "variant index round trip"); if (!ob.singleton) { V ix; for (auto i : ob.variants[var].indices) ix.push_back(i); sx_assert(ix == o.var[x], "copies of a variant"); } }
    sx_observe("len", q.size()); sx_reach("end"); }
extern "C" void h_moments() { Net N = net(sx_choose(sx_param("first", 0), sx_param("last", 9), "network")); Ops o = ops(N); InflationContext c{CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl}; V w = word(o, sx_param("len", 3)); El e = simp(o, w); if (e.zero) return; OperatorSequence q{ss(w), c}; auto orb = orbit(o, e.w); bool alias = N.infl > 1 && !N.src.empty(); sx_assert(c.can_have_aliases() == alias, "aliases possible"); OperatorSequence m = c.canonical_moment(q); V mw = raw(m); bool in = false; for (auto& u : orb) in = in | (u == mw);
    if (alias) { sx_assert(in && !m.zero(), "representative is related by permuting copies of sources"); sx_assert(c.can_be_simplified_as_moment(q) == (mw != e.w), "need for simplification is recognised"); sx_assert(!c.can_be_simplified_as_moment(m), "representative is not simplified further"); sx_assert(raw(c.simplify_as_moment(m)) == mw, "simplification is idempotent"); auto same = orbit(o, e.w, true); size_t at = sx_choose(0, same.size() - 1, "related"); sx_assert(raw(c.simplify_as_moment(OperatorSequence{ss(same[at]), c})) == mw, "moments related by a relabelling that keeps the order of operators have the same representative"); }
    else sx_assert(mw == e.w, "moments without copies are left alone");
    auto fs = c.factorize(q); std::vector<V> got; for (auto& f : fs) got.push_back(raw(f)); std::sort(got.begin(), got.end()); if (e.w.empty()) sx_assert(got.size() == 1 && got[0].empty(), "identity is its own factor"); else sx_assert(got == components(o, e.w), "factors are the source-connected components");
    auto cs = c.connected_sources(q); size_t cnt = 0; for (int s = 0; s < o.nsrc; ++s) for (int k = 0; k < o.infl; ++k) { bool on = false; for (int x : e.w) for (size_t i = 0; i < o.srcs[o.obs[x]].size(); ++i) if (o.srcs[o.obs[x]][i] == s && o.var[x][i] == k) on = true; sx_assert(cs.test(s * o.infl + k) == on, "sources a moment depends on"); } sx_observe("orbit", orb.size()); sx_reach("end"); }
extern "C" void h_outcomes() { Net N = net(sx_choose(0, 2, "network")); Ops o = ops(N); InflationContext c{CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl}; int n = sx_choose(0, 3, "count"); std::vector<OVIndex> ov; std::vector<OVOIndex> full; bool bad = false; size_t total = 1; long expect = 0; for (int i = 0; i < n; ++i) { int b = (int) sx_concretize(sx_range(0, (long) N.outs.size(), "observable")); if (b >= (int) N.outs.size()) { bad = true; ov.emplace_back((oper_name_t) b, (oper_name_t) 0); continue; } int nv = c.Observables()[b].variant_count; ov.emplace_back((oper_name_t) b, (oper_name_t) sx_concretize(sx_range(0, nv - 1, "variant"))); total *= N.outs[b]; }
    bool threw = false; if (bad) { try { c.unflatten_outcome_index(ov, 0); } catch (const errors::bad_observable&) { threw = true; } sx_assert(threw, "unknown observable is refused"); sx_reach("refused"); return; }
    long num = sx_range(0, (long) total - 1, "outcome"); auto u = c.unflatten_outcome_index(ov, (oper_name_t) num); sx_assert(u.size() == (size_t) n, "one outcome per observable"); long stride = 1; for (int i = n - 1; i >= 0; --i) { long k = N.outs[ov[i].observable]; sx_assert((long) u[i].outcome == num / stride % k, "outcome is a digit of the number"); stride *= k; } if (n > 0) sx_assert((long) c.flatten_outcome_index(u) == num, "flattening inverts"); sx_observe("n", num); sx_reach("end"); }
