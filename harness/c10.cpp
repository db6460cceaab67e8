// C10: word lists contain every canonical word up to a length exactly once, and their conjugates entry by entry
#include "alg.hpp"
#include "loc.hpp"
#include "infl.hpp"
#include "dictionary/dictionary.h"
#include "dictionary/osg_pair.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/pauli/pauli_context.h"
using namespace Moment;
namespace { using S = sequence_storage_t;
bool eqw(const S& a, const S& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
S sym(int len, int n) { S s; for (int i = 0; i < len; ++i) s.push_back((oper_name_t) sx_range(0, n - 1, "letter")); return s; }
// canonical: is the given word its own normal form; conj: normal form (and sign) of the conjugate
template<class C, class J> void judge(const Context& ctx, int L, int nops, C canonical, J conj, bool ordered) {
    const OSGPair& first = ctx.dictionary().Level(L); const OperatorSequenceGenerator& g = first(); size_t n = g.size(); size_t other = sx_choose(0, 2, "other"); const OSGPair& more = ctx.dictionary().Level(other); sx_assert(&first() == &g && g.size() == n, "list stays valid when another is generated"); sx_assert(&ctx.dictionary().Level(L)() == &g && &ctx.dictionary().Level(other)() == &more(), "asking again returns the same list");
    sx_assert(n > 0 && g[0].empty() && !g[0].zero(), "list starts with the identity"); bool canon = true, codes = true, order = true, len = true; for (size_t i = 0; i < n; ++i) { const S& w = g[i].raw(); canon = canon && !g[i].zero() && g[i].get_sign() == SequenceSignType::Positive && canonical(w); codes = codes & (g[i].hash() == ctx.hash(w)); len = len & ((long) w.size() <= L); if (i) order = order & (ordered ? g[i - 1].hash() < g[i].hash() : g[i - 1].size() <= w.size()); }
    sx_assert(canon, "every word is canonical"); sx_assert(codes, "codes match the words"); sx_assert(order, "order"); sx_assert(len, "no word is too long"); sx_assert(ctx.dictionary().WordCount(L) == n, "word count");
    auto& c = first.conjugate(); sx_assert(c.size() == n, "conjugate list has the same length"); bool cj = c.size() == n; for (size_t i = 0; cj && i < n; ++i) { S w; int sg = 1; conj(g[i].raw(), w, sg); cj = !c[i].zero() && eqw(c[i].raw(), w) && c[i].get_sign() == (sg > 0 ? SequenceSignType::Positive : SequenceSignType::Negative) && c[i].hash() == ctx.hash(w); } sx_assert(cj, "conjugates are paired entry by entry"); if (first.self_adjoint()) sx_assert(&c == &g, "self-adjoint list");
    S w = sym(sx_choose(0, L, "length"), nops); bool in = canonical(w); long cnt = 0; for (size_t i = 0; i < n; ++i) if (g[i].size() == w.size()) cnt += (long) eqw(g[i].raw(), w); sx_assert(cnt == (long) in, "every canonical word is listed exactly once"); sx_observe("words", n); sx_reach("end"); }
struct Racy : Context { Racy(int n) : Context{(size_t) n} {} mutable int depth = 1; std::unique_ptr<OperatorSequenceGenerator> new_osg(size_t wl) const override { auto p = Context::new_osg(wl); if (depth == 0) { depth = 1; (void) dictionary().Level(sx_choose(0, 2, "elsewhere")); } return p; } };
}
extern "C" void h_generic() { al::type = sx_choose(0, 4, "algebra"); auto ctx = al::make(); int L = sx_choose(0, sx_param("L", 3), "L"); judge(*ctx, L, 2, [](const S& w) { auto e = al::canon(w); return !e.zero & (e.sg == 1) & eqw(e.w, w); }, [](const S& w, S& r, int& sg) { al::El e; e.w = w; auto c = al::conj(e); r = c.w; sg = c.sg; }, true); }
extern "C" void h_free() { int n = sx_choose(0, sx_param("ops", 4), "operators"); Context ctx{(size_t) n}; int L = n ? sx_choose(0, sx_param("L", 3), "L") : sx_choose(0, 2, "L"); if (n == 0) { auto& g = ctx.dictionary().Level(L)(); sx_assert(g.size() == 1 && g[0].empty(), "no operators: identity only"); sx_reach("end"); return; } judge(ctx, L, n, [](const S&) { return true; }, [](const S& w, S& r, int&) { r.clear(); for (size_t i = w.size(); i-- > 0;) r.push_back(w[i]); }, true); }
extern "C" void h_locality() { lc::Layout l = lc::layout(sx_choose(0, 7, "layout")); lc::Ops o = lc::ops(l); size_t np = l.mmts.size(); int L = sx_choose(0, sx_param("L", 3), "L"); if (o.n > 6 && L > 2) return; std::vector<size_t> m = l.mmts, k = l.outs; Locality::LocalityContext ctx{Locality::Party::MakeList(m, k)}; auto flat = [&](const lc::El& e) { S s; for (auto& p : e.w) for (int x : p) s.push_back((oper_name_t) x); return s; };
    judge(ctx, L, o.n, [&](const S& w) { auto e = lc::reduce(o, np, w); return !e.zero && eqw(flat(e), w); }, [&](const S& w, S& r, int&) { S v; for (size_t i = w.size(); i-- > 0;) v.push_back(w[i]); r = flat(lc::reduce(o, np, v)); }, np == 1); }
extern "C" void h_inflation() { in::Net N = in::net(sx_choose(0, 9, "network")); in::Ops o = in::ops(N); Inflation::InflationContext c{Inflation::CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl}; int L = sx_choose(0, sx_param("L", 3), "L"); if (o.n() > 12 && L > 2) return; auto can = [&](const S& w) { bool ok = true; for (size_t i = 1; i < w.size(); ++i) { int a = w[i - 1], b = w[i]; bool same = (o.obs[a] == o.obs[b]) & (a != b); int va = a, vb = b; (void) va; (void) vb; ok = ok & (a <= b); bool sv = o.obs[a] == o.obs[b] && (a - o.first[o.obs[a]]) / o.nops[o.obs[a]] == (b - o.first[o.obs[b]]) / o.nops[o.obs[b]]; ok = ok & !(same & sv) & !((a == b) & (bool) o.proj[o.obs[a]]); } return ok; };
    judge(c, L, o.n(), can, [&](const S& w, S& r, int&) { r = w; }, true); }
extern "C" void h_pauli() { int n = sx_choose(1, sx_param("qubits", 4), "qubits"), wrap = sx_choose(0, 1, "wrap"); Pauli::PauliContext c{(size_t) n, wrap ? Pauli::WrapType::Wrap : Pauli::WrapType::None}; int L = sx_choose(0, sx_param("L", 4), "L"); judge(c, L, 3 * n, [](const S& w) { bool ok = true; for (size_t i = 1; i < w.size(); ++i) ok = ok & (w[i - 1] / 3 < w[i] / 3); return ok; }, [](const S& w, S& r, int&) { r = w; }, false); }
// two requests for the same list where the second is answered while the first is still generating
extern "C" void h_race() { Racy c{2}; c.depth = 0; int L = sx_choose(0, 2, "L"); c.dictionary().Level(1); c.depth = 0; auto& p = c.dictionary().Level(L); auto& q = c.dictionary().Level(L); sx_assert(&p == &q, "one list per length"); sx_assert(p().size() == (size_t) (L == 0 ? 1 : L == 1 ? 3 : 7) && p.conjugate().size() == p().size(), "the list asked for"); sx_reach("end"); }
