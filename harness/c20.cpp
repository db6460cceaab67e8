// C20: each inflation moment is recorded with the multiset of its independent factors; products combine the multisets
#include "infl.hpp"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/rules/moment_rulebook.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/inflation_matrix_system.h"
using namespace in; using cd = std::complex<double>; using Ids = std::vector<symbol_name_t>;
namespace {
V word(const Ops& o, int maxlen, int from = 0) { V w; int n = sx_choose(from, maxlen, "length"); for (int i = 0; i < n; ++i) w.push_back((int) sx_concretize(sx_range(0, o.n() - 1, "op"))); return w; }
bool has(const std::vector<V>& l, const V& x) { for (auto& y : l) if (y == x) return true; return false; }
// products[i] non-empty: symbol i stands for a product without a word
void check(const Ops& o, const InflationContext& c, const SymbolTable& t, const FactorTable& f, const std::vector<Ids>& products) {
    sx_assert(f.size() == t.size(), "one entry per symbol"); if (f.size() != t.size()) return; std::vector<size_t> uses(t.size(), 0);
    for (size_t i = 0; i < t.size(); ++i) { auto& e = f[i]; sx_assert(e.id == (symbol_name_t) i, "entries are aligned with symbols"); Ids want; auto& s = t[i];
        if (i < products.size() && !products[i].empty()) want = products[i];
        else { sx_assert(s.has_sequence(), "symbol has a word"); V w = raw(s.sequence()); if (s.sequence().zero()) want = {0}; else if (w.empty()) want = {1}; else { auto comp = components(o, w); std::vector<V> r; for (auto& q : e.raw.sequences) { V x = raw(q); std::sort(x.begin(), x.end()); r.push_back(x); } std::sort(r.begin(), r.end()); sx_assert(r == comp, "factors are the independent parts of the moment"); sx_assert(e.canonical.sequences.size() == e.raw.sequences.size(), "one representative per factor"); if (e.canonical.sequences.size() != e.raw.sequences.size()) return;
            for (size_t k = 0; k < e.raw.sequences.size(); ++k) { V m = raw(e.canonical.sequences[k]); sx_assert(has(orbit(o, raw(e.raw.sequences[k])), m) || raw(e.raw.sequences[k]) == m, "representative is related to the factor"); sx_assert(e.canonical.sequences[k] == c.canonical_moment(e.raw.sequences[k]), "representative is canonical"); size_t at = t.size(); for (size_t j = 0; j < t.size(); ++j) if (t[j].has_sequence() && !t[j].sequence().zero() && raw(t[j].sequence()) == m) at = j; sx_assert(at < t.size(), "factor is a registered moment"); if (at == t.size()) return; want.push_back(at); } } }
        std::sort(want.begin(), want.end()); sx_assert(e.canonical.symbols == want, "factor list"); if (want.size() > 1) for (auto k : want) ++uses[k]; sx_assert(e.fundamental() == (want.size() <= 1), "fundamental exactly with a single factor"); if (want.size() == 1) sx_assert(want[0] == (symbol_name_t) i, "unfactorised moment is its own factor");
        auto r = f.find_index_by_factors(e.canonical.symbols); sx_assert(r.has_value() && *r >= 0 && *r < (symbol_name_t) f.size() && f[*r].canonical.symbols == want, "lookup by factors returns a moment with those factors"); }
    for (size_t i = 0; i < t.size(); ++i) { for (auto k : f[i].canonical.symbols) sx_assert(f[k].fundamental(), "factors do not factorise further"); if (products.empty()) sx_assert(f[i].appearances == uses[i], "number of appearances"); } }
bool known(const FactorTable& f, Ids m, symbol_name_t& at) { for (auto x : m) if (x == 0) { at = 0; return true; } Ids u; for (auto x : m) for (auto y : f[x].canonical.symbols) if (y != 1) u.push_back(y); if (u.empty()) u = {1}; std::sort(u.begin(), u.end()); for (auto& e : f) if (e.canonical.symbols == u) { at = e.id; return true; } return false; }
struct W { Net N; Ops o; InflationContext c; SymbolTable t; W(int i) : N{net(i)}, o{ops(N)}, c{CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl}, t{c} {} };
}
extern "C" void h_table() { W w{(int) sx_choose(sx_param("first", 0), sx_param("last", 5), "network")}; int pre = sx_choose(0, 1, "before"); if (pre) w.t.merge_in(OperatorSequence{ss(word(w.o, sx_param("len", 2), 1)), w.c}); FactorTable f{w.c, w.t}; check(w.o, w.c, w.t, f, {}); std::vector<Ids> prod; int K = sx_param("ops", 1);
    for (int k = 0; k < K; ++k) { size_t before = f.size(); switch (sx_choose(0, 3, "operation")) {
        case 0: w.t.merge_in(OperatorSequence{ss(word(w.o, sx_param("len", 2), 1)), w.c}); break;
        case 1: w.t.fill_to_word_length(sx_choose(1, sx_param("fill", 1), "fill")); break;
        case 2: w.t.merge_in(OperatorSequence{ss(word(w.o, 1, 1)), w.c}); w.t.merge_in(OperatorSequence{ss(word(w.o, 1, 1)), w.c}); break;
        default: { int a = sx_choose(1, (int) f.size() - 1, "left"), b = sx_choose(1, (int) f.size() - 1, "right"); Ids j = FactorTable::combine_symbolic_factors(f[a].canonical.symbols, f[b].canonical.symbols); symbol_name_t at; bool kn = known(f, {(symbol_name_t) a, (symbol_name_t) b}, at); auto r = f.find_index_by_factors(j); sx_assert(r.has_value() == kn && (!kn || f[*r].canonical.symbols == f[at].canonical.symbols), "product is found exactly when registered"); if (!kn) { auto id = w.t.create(true, false); f.register_new(id, Ids{j}); prod.resize(id + 1); prod[id] = j; before = f.size(); } break; } }
        size_t added = f.on_new_symbols_added(); sx_assert(added == f.size() - before, "number of new entries"); sx_assert(f.on_new_symbols_added() == 0, "nothing left to add"); check(w.o, w.c, w.t, f, prod); }
    sx_observe("symbols", f.size()); sx_reach("end"); }
extern "C" void h_multiply() { W w{(int) sx_choose(sx_param("first", 0), sx_param("last", 5), "network")}; w.t.fill_to_word_length(1); bool triple = sx_param("triple", 0); if (triple) { V x; for (int i = 0; i < 3; ++i) x.push_back((int) sx_choose(i ? x.back() + 1 : 0, w.o.n() - 3 + i, "op")); w.t.merge_in(OperatorSequence{ss(V{x[0], x[1]}), w.c}); w.t.merge_in(OperatorSequence{ss(x), w.c}); } else w.t.merge_in(OperatorSequence{ss(word(w.o, sx_param("len", 2), 2)), w.c}); FactorTable f{w.c, w.t}; int n = (int) f.size() - 1; symbol_name_t a = sx_choose(0, n, "left"), b = sx_choose(0, n, "right"), at = -1; bool k = known(f, {a, b}, at);
    auto tri = [&](auto fn, bool kn, symbol_name_t want) { bool threw = false; symbol_name_t got = -2; try { got = fn(); } catch (const Moment::Inflation::errors::unknown_symbol&) { threw = true; } sx_assert(threw == !kn, "unregistered product is refused"); if (!threw) sx_assert(got == want || (got > 1 && want > 1 && f[got].canonical.symbols == f[want].canonical.symbols), "product has the combined factors"); };
    tri([&] { return f.try_multiply(a, b); }, k, at); tri([&] { return f.try_multiply(b, a); }, k, at); tri([&] { return f.try_multiply(Ids{a, b}); }, k, at); tri([&] { return f.try_multiply(Ids{a}); }, true, a); tri([&] { return f.try_multiply(Ids{1, a, 1}); }, true, a); tri([&] { return f.try_multiply(Ids{1, 1}); }, true, 1);
    if (triple && k && a > 1 && b > 1 && (f[a].canonical.symbols.size() > 1) != (f[b].canonical.symbols.size() > 1)) sx_reach("composite"); if (sx_choose(0, sx_param("three", 1), "three")) { symbol_name_t c = sx_choose(0, n, "third"), at3 = -1; bool k3 = known(f, {a, b, c}, at3); tri([&] { return f.try_multiply(Ids{a, b, c}); }, k3, at3); tri([&] { return f.try_multiply(Ids{c, b, a}); }, k3, at3); sx_reach("three"); } sx_observe("at", at); sx_reach("end"); }
extern "C" void h_combine() { auto mk = [&](const char* nm) { Ids v; int n = sx_choose(0, sx_param("n", 3), nm); for (int i = 0; i < n; ++i) { v.push_back((symbol_name_t) sx_range(0, 5, "factor")); if (i) sx_assume(v[i - 1] <= v[i]); } return v; }; Ids l = mk("left"), r = mk("right"), out{7, 7}; FactorTable::combine_symbolic_factors(out, l, r); bool zero = false; size_t k = 0; for (auto& v : {l, r}) for (auto x : v) { zero = zero | (x == 0); k += x > 1; } 
    if (zero) sx_assert(out.size() == 1 && out[0] == 0, "zero absorbs"); else if (k == 0) sx_assert(out.size() == 1 && out[0] == 1, "empty product is the identity"); else { sx_assert(out.size() == k, "identities are dropped"); for (size_t i = 1; i < out.size(); ++i) sx_assert(out[i - 1] <= out[i], "factors are sorted"); for (symbol_name_t s = 2; s <= 5; ++s) { size_t a = 0, b = 0; for (auto& v : {l, r}) for (auto x : v) a += x == s; for (auto x : out) b += x == s; sx_assert(a == b, "multisets are combined"); } } auto o2 = FactorTable::combine_symbolic_factors(r, l); sx_assert(o2 == out, "order does not matter"); sx_observe("n", out.size()); sx_reach("end"); }
extern "C" void h_poly() { W w{(int) sx_choose(0, sx_param("nets", 2), "network")}; w.t.fill_to_word_length(1); V x = word(w.o, 2, 2); w.t.merge_in(OperatorSequence{ss(x), w.c}); FactorTable f{w.c, w.t}; ByIDPolynomialFactory pf{w.t, 1.0}; int n = (int) f.size() - 1; std::vector<std::array<long, 2>> want(n + 1, {0, 0}); struct Tm { symbol_name_t id; long re, im; }; auto mk = [&](const char* nm, std::vector<Tm>& v) { int k = sx_choose(0, 2, nm); Polynomial::storage_t s; for (int i = 0; i < k; ++i) { symbol_name_t id = sx_choose(i ? v.back().id + 1 : 1, n, "symbol"); long re = i == 0 ? sx_range(-2, 2, "re") : 1, im = i == 0 ? 0 : sx_range(-1, 1, "im"); v.push_back({id, re, im}); s.emplace_back(id, cd((double) re, (double) im), false); if (id == n) { break; } } return pf(std::move(s)); };
    std::vector<Tm> A, B; Polynomial P = mk("left", A), Q = mk("right", B); bool unknown = false; for (auto& a : A) for (auto& b : B) { if ((a.re == 0 && a.im == 0) || (b.re == 0 && b.im == 0)) continue; symbol_name_t at; if (!known(f, {a.id, b.id}, at)) unknown = true; else { want[at][0] += a.re * b.re - a.im * b.im; want[at][1] += a.re * b.im + a.im * b.re; } }
    bool threw = false; Polynomial R; try { R = f.try_multiply(pf, P, Q); } catch (const Moment::Inflation::errors::unknown_symbol&) { threw = true; } sx_assert(threw == unknown, "unregistered product is refused"); if (threw) { sx_reach("refused"); return; } std::vector<bool> seen(n + 1, false); for (auto& m : R) { sx_assert(m.id > 0 && m.id <= n && !seen[m.id] && !m.conjugated, "product is a polynomial in registered symbols"); seen[m.id] = true; sx_assert((long) m.factor.real() == want[m.id][0] && (long) m.factor.imag() == want[m.id][1], "coefficient of the product"); } for (int i = 1; i <= n; ++i) if (!seen[i]) sx_assert(want[i][0] == 0 && want[i][1] == 0, "no term is lost"); sx_observe("n", R.size()); sx_reach("end"); }
// rules on factors extend to the products that contain them, whichever is registered first
extern "C" void h_expand() { static const int ns[] = {0, 4, 5, 7}; Net N = net(ns[sx_choose(0, sx_param("nets", 2), "network")]); Ops o = ops(N); InflationMatrixSystem ms{std::make_unique<InflationContext>(CausalNetwork{N.outs, std::vector<std::set<oper_name_t>>(N.src)}, N.infl)}; bool late = sx_choose(0, 1, "late"); ms.generate_dictionary(1); auto& t = ms.Symbols(); auto& f = ms.Factors(); int len = 2; if (!late) ms.generate_dictionary(len); std::vector<symbol_name_t> fund; for (auto& e : f) if (e.id > 1 && e.fundamental() && raw(t[e.id].sequence()).size() == 1) fund.push_back(e.id);
    auto x = fund[sx_choose(0, (int) fund.size() - 1, "symbol")]; long v = sx_range(-2, 2, "value"); auto rb = std::make_unique<MomentRulebook>(ms); Polynomial::storage_t s; s.emplace_back(x, cd(1, 0), false); s.emplace_back(1, cd(-(double) v, 0), false); rb->add_raw_rule(ms.polynomial_factory()(std::move(s))); rb->complete(); auto [id, book] = ms.Rulebook.add(std::move(rb)); if (late) ms.generate_dictionary(len);
    for (auto& e : f) if (e.id > 1) { long fac = 1; Ids rest; for (auto k : e.canonical.symbols) if (k == x) fac *= v; else rest.push_back(k); auto r = book.reduce(Monomial{e.id, cd(1, 0), false}); if (rest.size() == e.canonical.symbols.size()) { sx_assert(r.size() == 1 && r.back().id == e.id, "products without the factor are untouched"); continue; } symbol_name_t at = 1; bool kn = rest.empty() || known(f, rest, at); if (!kn) continue; if (fac == 0) sx_assert(r.empty(), "product with a vanishing factor vanishes"); else sx_assert(r.size() == 1 && r.back().id == at && (long) r.back().factor.real() == fac && r.back().factor.imag() == 0, "value of a factor is carried into products"); }
    sx_observe("rules", book.size()); sx_reach("end"); }
