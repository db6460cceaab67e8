// C26: matrix systems give one stable matrix per request; lookups of ungenerated matrices are refused
#include "alg.hpp"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/rules/moment_rulebook.h"
#include "dictionary/raw_polynomial.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix_system/matrix_system.h"
#include "matrix_system/matrix_system_errors.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_matrix_system.h"
using namespace Moment; using namespace al; using cd = std::complex<double>;
namespace {
constexpr auto ST = Multithreading::MultiThreadPolicy::Never;
struct Req { int kind; size_t level; long a = 0, b = 0; S w; int sg = 0; bool operator==(const Req& r) const { return kind == r.kind && level == r.level && a == r.a && b == r.b && sg == r.sg && eqw(w, r.w); } };
struct Mem { Req r; size_t off; const SymbolicMatrix* p; };
struct Book { std::vector<Mem> known; std::vector<const SymbolicMatrix*> at; // at: every matrix seen, by offset; nullptr once deleted
    bool deleted() const { for (auto* p : at) if (!p) return true; return false; } // components of polynomial requests may be gone: not explored further
    const Mem* find(const Req& r) const { for (auto& m : known) if (m.r == r) return &m; return nullptr; }
    void grow(MatrixSystem& ms) { for (size_t i = at.size(); i < ms.size(); ++i) at.push_back(&ms[i]); }
    void stable(MatrixSystem& ms) { sx_assert(ms.size() >= at.size(), "no matrix disappears"); for (size_t i = 0; i < at.size() && i < ms.size(); ++i) { bool threw = false; const SymbolicMatrix* p = nullptr; try { p = &ms[i]; } catch (const errors::missing_component&) { threw = true; } sx_assert(threw == !at[i] && p == at[i], "matrices keep their place"); } sx_assert(ms.empty() == (ms.size() == 0), "empty system");
        for (long i : {-1L, (long) ms.size(), (long) ms.size() + 1}) { bool t1 = false, t2 = false; try { (void) ms[i]; } catch (const errors::missing_component&) { t1 = true; } try { (void) ms.get(i); } catch (const errors::missing_component&) { t2 = true; } sx_assert(t1 && t2, "offset out of range is refused"); } } };
void symbols(MatrixSystem& ms, const SymbolicMatrix& m) { auto& t = ms.Symbols(); sx_assert(m.Dimension() > 0, "matrix has entries"); auto in = m.IncludedSymbols(); if (auto* p = dynamic_cast<const MonomialMatrix*>(&m)) { for (auto& x : p->SymbolMatrix()) { sx_assert(x.id >= 0 && x.id < (symbol_name_t) t.size(), "entries are registered symbols"); if (x.id > 0) sx_assert(in.count(x.id), "entries are listed"); } } else if (auto* p = dynamic_cast<const PolynomialMatrix*>(&m)) for (auto& x : p->SymbolMatrix()) for (auto& y : x) { sx_assert(y.id >= 0 && y.id < (symbol_name_t) t.size(), "entries are registered symbols"); sx_assert(in.count(y.id), "entries are listed"); } for (auto s : in) sx_assert(s >= 0 && s < (symbol_name_t) t.size(), "listed symbols are registered"); }
// one request: col is the collection, idx the index
template<class C, class I> void request(Book& k, MatrixSystem& ms, const Req& r, C& col, const I& idx) { const Mem* old = k.find(r); const C& cc = col; bool gone = old && !k.at[old->off]; sx_assert(cc.contains(idx) == (old != nullptr) && (cc.find_index(idx) == (old ? (ptrdiff_t) old->off : -1)), "a matrix is found exactly when it was requested before");
    { bool threw = false; const SymbolicMatrix* p = nullptr; try { p = &cc(idx); } catch (const errors::missing_component&) { threw = true; } sx_assert(threw == (!old || gone) && (threw || p == old->p), "lookup returns the matrix or is refused"); }
    size_t n0 = ms.size(); if (gone) { bool threw = false; try { (void) col.create(idx, ST); } catch (const std::runtime_error&) { threw = true; } sx_assert(threw && ms.size() == n0, "request of a deleted matrix is refused"); return; }
    auto [off, m] = col.create(idx, ST); k.grow(ms); if (old) sx_assert(off == old->off && &m == old->p && ms.size() == n0, "same request gives the same matrix"); else { sx_assert(off >= n0 && off + 1 == ms.size(), "new request takes the next place"); sx_assert(&ms[off] == &m, "offset refers to the matrix"); k.known.push_back({r, off, &m}); symbols(ms, m); } if (!old) { auto* p = &col(idx, ST); sx_assert(p == &m && ms.size() == off + 1, "repeated request gives the same matrix"); } }
Polynomial poly(MatrixSystem& ms, long c, long id) { Polynomial::storage_t s; s.emplace_back((symbol_name_t) id, cd((double) c, 0), false); s.emplace_back((symbol_name_t) 1, cd(1, 0), false); return ms.polynomial_factory()(std::move(s)); }
}
extern "C" void h_history() { type = sx_choose(sx_param("first", 0), sx_param("last", 3), "algebra"); MatrixSystem ms{make()}; Book k; int K = sx_param("ops", 3), L = sx_param("len", 1); ms.generate_dictionary(1); std::vector<size_t> books; bool used = false; auto id0 = 2; int maxop = sx_param("kinds", 8);
    for (int i = 0; i < K; ++i) { switch (sx_choose(0, maxop, "operation")) {
        case 0: { size_t l = sx_choose(0, 1, "level"); request(k, ms, {0, l}, ms.MomentMatrix, MomentMatrixIndex{l}); break; }
        case 1: { size_t l = sx_choose(0, 1, "level"); S w; for (auto x : word(L)) w.push_back((oper_name_t) sx_concretize(x)); OperatorSequence q{S{w}, ms.Context(), static_cast<SequenceSignType>(sx_choose(0, 1, "sign") * 2)}; Req r{1, l}; for (auto x : q) r.w.push_back(x); r.sg = q.zero() ? 9 : (int) q.get_sign(); request(k, ms, r, ms.LocalizingMatrix, LocalizingMatrixIndex{l, q}); break; }
        case 2: { if (k.deleted()) break; size_t l = sx_choose(0, 1, "level"); long c = sx_choose(1, 2, "factor"); long id = sx_choose(1, 2, "symbol"); if (id > 1 && id0 >= (int) ms.Symbols().size()) break; PolynomialLocalizingMatrixIndex ix{l, poly(ms, c, id)}; Req r{2, l, c, id}; request(k, ms, r, ms.PolynomialLocalizingMatrix, ix); break; }
        case 3: { if (books.empty() || ms.empty()) { bool threw = false; try { (void) ms.SubstitutedMatrix.create(SubstitutedMatrixIndex{0, 0}, ST); } catch (const errors::missing_component&) { threw = true; } sx_assert(threw, "substitution without source or rules is refused"); break; } long src = sx_choose(0, (int) ms.size() - 1, "source"), b = sx_choose(0, (int) books.size() - 1, "rules"); if (!k.at[src]) { Req q{3, 0, src, b}; if (!k.find(q)) { bool threw = false; try { (void) ms.SubstitutedMatrix.create(SubstitutedMatrixIndex{src, b}, ST); } catch (const errors::missing_component&) { threw = true; } sx_assert(threw, "deleted source is refused"); } break; } Req r{3, 0, src, b}; request(k, ms, r, ms.SubstitutedMatrix, SubstitutedMatrixIndex{src, b}); sx_reach("substituted"); break; }
        case 4: ms.generate_dictionary(sx_choose(1, 2, "dictionary")); break;
        case 5: { auto rb = std::make_unique<MomentRulebook>(ms); long v = sx_choose(0, 1, "value"); Polynomial::storage_t s; s.emplace_back((symbol_name_t) 2, cd(1, 0), false); s.emplace_back((symbol_name_t) 1, cd(-(double) v, 0), false); rb->add_raw_rule(ms.polynomial_factory()(std::move(s))); rb->complete(); auto [at, ref] = ms.Rulebook.add(std::move(rb)); sx_assert(at == books.size() && &ms.Rulebook(at) == &ref && ref.size() == 1, "rulebooks are numbered densely"); books.push_back(at); break; }
        case 6: { auto lock = ms.get_write_lock(); long at = sx_choose(-1, (int) ms.size(), "offset"); bool live = at >= 0 && at < (long) ms.size() && k.at[at]; bool done = ms.delete_matrix(lock, at); sx_assert(done == live, "deletion succeeds exactly for a live matrix"); if (live) k.at[at] = nullptr; break; }
        case 7: { if (k.deleted()) break; size_t n0 = ms.size(); RawPolynomial rp; S w{(oper_name_t) 1}; rp.emplace_back(OperatorSequence{S{w}, ms.Context()}, cd(2, 0)); auto [off, m] = ms.create_and_register_localizing_matrix(sx_choose(0, 1, "level"), rp, ST); k.grow(ms); sx_assert(off >= (ptrdiff_t) n0 && off + 1 == (ptrdiff_t) ms.size() && &ms[off] == &m, "raw polynomial matrix is appended"); symbols(ms, m); 
            for (size_t l = 0; l < 2; ++l) { LocalizingMatrixIndex ix{l, OperatorSequence{S{w}, ms.Context()}}; auto at = ms.LocalizingMatrix.find_index(ix); Req r{1, l}; for (auto x : ix.Word) r.w.push_back(x); r.sg = ix.Word.zero() ? 9 : 0; if (at >= 0 && !k.find(r)) k.known.push_back({r, (size_t) at, k.at[at]}); } break; }
        default: { long b = sx_choose(-1, 2, "book"); bool threw = false; try { (void) ms.Rulebook(b); } catch (const errors::missing_component&) { threw = true; } sx_assert(threw == (b < 0 || b >= (long) books.size()), "unknown rulebook is refused"); break; } }
        // matrices made on the way (components of polynomial requests) are requests of their own
        for (size_t l = 0; l < 2; ++l) for (long c = -1; c < 2; ++c) { LocalizingMatrixIndex ix{l, c < 0 ? OperatorSequence::Identity(ms.Context()) : OperatorSequence{S{(oper_name_t) c}, ms.Context()}}; auto at = ms.LocalizingMatrix.find_index(ix); Req r{1, l}; for (auto x : ix.Word) r.w.push_back(x); if (at >= 0 && !k.find(r)) { sx_assert(at < (ptrdiff_t) k.at.size(), "component is in the system"); k.known.push_back({r, (size_t) at, k.at[at]}); } }
        k.stable(ms); }
    sx_observe("n", ms.size()); sx_reach("end"); }
extern "C" void h_pauli() { using namespace Moment::Pauli; PauliMatrixSystem ms{std::make_unique<PauliContext>(2)}; auto& pc = ms.pauliContext; Book k; int K = sx_param("ops", 2); 
    for (int i = 0; i < K; ++i) { size_t l = sx_choose(0, 1, "level"), nb = sx_choose(0, 1, "neighbours"); auto mkword = [&](Req& r) { S w; int n = sx_choose(1, 2, "length"); for (int j = 0; j < n; ++j) w.push_back((oper_name_t) sx_choose(0, sx_param("letters", 2), "letter")); OperatorSequence q{S{w}, pc}; for (auto x : q) r.w.push_back(x); r.sg = (int) q.get_sign(); return q; }; auto same = [&](int a, int b, const Req& r, bool plain) { Req o = r; o.kind = b; if (plain && !k.find(o)) if (auto* m = k.find(r)) k.known.push_back({o, m->off, m->p}); (void) a; };
        switch (sx_choose(0, 5, "operation")) {
            case 0: { Req r{0, l}; request(k, ms, r, ms.MomentMatrix, ::Moment::MomentMatrixIndex{l}); Req o{10, l, 0}; if (!k.find(o)) k.known.push_back({o, k.find(r)->off, k.find(r)->p}); break; }
            case 1: { Req r{10, l, (long) nb}; request(k, ms, r, ms.PauliMomentMatrices, Pauli::MomentMatrixIndex{l, nb}); Req o{0, l}; if (nb == 0 && !k.find(o)) k.known.push_back({o, k.find(r)->off, k.find(r)->p}); break; }
            case 2: { Req r{1, l}; auto q = mkword(r); request(k, ms, r, ms.LocalizingMatrix, ::Moment::LocalizingMatrixIndex{l, q}); Req o = r; o.kind = 11; if (!k.find(o)) k.known.push_back({o, k.find(r)->off, k.find(r)->p}); break; }
            case 3: { Req r{11, l, (long) nb}; auto q = mkword(r); request(k, ms, r, ms.PauliLocalizingMatrices, Pauli::LocalizingMatrixIndex{l, nb, q}); Req o = r; o.kind = 1; if (nb == 0 && !k.find(o)) k.known.push_back({o, k.find(r)->off, k.find(r)->p}); break; }
            case 4: { Req r{12, l, (long) nb}; auto q = mkword(r); request(k, ms, r, ms.CommutatorMatrices, CommutatorMatrixIndex{l, nb, q}); break; }
            default: { Req r{13, l, (long) nb}; auto q = mkword(r); request(k, ms, r, ms.AnticommutatorMatrices, AnticommutatorMatrixIndex{l, nb, q}); break; } }
        k.stable(ms); }
    sx_observe("n", ms.size()); sx_reach("end"); }
// rulebooks: numbered densely, found again, merged in place, refused merges change nothing
extern "C" void h_books() { MatrixSystem ms{std::make_unique<Context>(2)}; (void) ms.Symbols().create(true, true); (void) ms.Symbols().create(true, true); struct B { MomentRulebook* at; std::map<long, long> val; std::string name; }; std::vector<B> known; int K = sx_param("ops", 3); auto make = [&](std::map<long, long>& val) { auto rb = std::make_unique<MomentRulebook>(ms); long id = sx_choose(2, 3, "symbol"), v = sx_choose(0, 2, "value"); val[id] = v; Polynomial::storage_t s; s.emplace_back((symbol_name_t) id, cd(1, 0), false); s.emplace_back((symbol_name_t) 1, cd(-(double) v, 0), false); rb->add_raw_rule(ms.polynomial_factory()(std::move(s))); rb->complete(); return rb; };
    auto same = [&](const MomentRulebook& rb, const B& b) { bool ok = rb.size() == b.val.size(); for (auto& [id, v] : b.val) { auto r = rb.reduce(Monomial{(symbol_name_t) id, cd{1, 0}, false}); ok = ok && (v == 0 ? r.empty() : r.size() == 1 && r[0].id == 1 && r[0].factor.real() == (double) v && r[0].factor.imag() == 0); } return ok; };
    for (int k = 0; k < K; ++k) switch (sx_choose(0, 2, "operation")) {
        case 0: { B b; auto rb = make(b.val); b.at = rb.get(); if (sx_choose(0, 1, "named")) { b.name = "given"; rb->set_name("given"); } else b.name = "Rulebook #" + std::to_string(known.size()); auto [at, ref] = ms.Rulebook.add(std::move(rb)); sx_assert(at == known.size() && &ref == b.at, "rulebooks are numbered densely"); known.push_back(b); break; }
        case 1: { std::map<long, long> val; auto rb = make(val); long at = sx_choose(0, 2, "book"); bool in = at < (long) known.size(), clash = false; auto [id, v] = *val.begin(); if (in) { auto f = known[at].val.find(id); clash = f != known[at].val.end() && f->second != v; } int r = 0; try { auto [i, ref] = ms.Rulebook.merge_in((size_t) at, std::move(*rb)); sx_assert((long) i == at && in && &ref == known[at].at, "merge is into the named rulebook"); } catch (const Moment::errors::missing_component&) { r = 1; } catch (const Moment::errors::invalid_moment_rule&) { r = 2; } sx_assert(r == (!in ? 1 : clash ? 2 : 0), "merge is refused exactly when impossible"); if (r == 0) known[at].val[id] = v; else if (r == 2) sx_reach("refused"); break; }
        default: { long at = sx_choose(0, 3, "book"); bool threw = false; try { sx_assert(&ms.Rulebook.find((size_t) at) == known.at((size_t) at).at, "rulebook is found"); } catch (const Moment::errors::missing_component&) { threw = true; } catch (const std::out_of_range&) { sx_assert(false, "unknown rulebook is refused"); } sx_assert(threw == (at >= (long) known.size()), "unknown rulebook is refused"); break; } }
    sx_assert(ms.Rulebook.size() == known.size() && (ms.Rulebook.empty() != 0) == known.empty(), "number of rulebooks"); for (size_t i = 0; i < 4; ++i) { sx_assert(ms.Rulebook.contains(i) == (i < known.size()), "contains"); if (i >= known.size()) continue; auto& rb = ms.Rulebook(i); sx_assert(&rb == known[i].at, "rulebook keeps its place"); sx_assert(rb.name() == known[i].name, "rulebook keeps its name"); sx_assert(same(rb, known[i]), "rulebook holds its own rules and those merged into it"); } sx_observe("books", known.size()); sx_reach("end"); }
