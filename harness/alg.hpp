// small algebras with an obvious normal form, built through the library's scenario contexts, and an independent reduction oracle for them
#pragma once
#include "hx.h"
#include "scenarios/context.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rule.h"
#include <memory>
namespace al { using namespace Moment; using S = sequence_storage_t;
// two-letter algebras with an obvious normal form: 0 free, 1 anticommuting, 2 letters conjugate to each other, 3 idempotent letters, 4 exclusive outcomes
struct El { bool zero = false; int sg = 1; S w; }; inline int type;
static inline bool eqw(const S& a, const S& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
static inline El canon(const S& s) { El e; if (type == 1) { int n0 = 0, n1 = 0; for (auto x : s) { if (x == 0) { if (n1 & 1) e.sg = -e.sg; ++n0; } else ++n1; } for (int i = 0; i < n0; ++i) e.w.push_back(0); for (int i = 0; i < n1; ++i) e.w.push_back(1); return e; }
    for (auto x : s) { if (type >= 3 && !e.w.empty()) { if (e.w.back() == x) continue; if (type == 4) { e.zero = true; e.w.clear(); return e; } } e.w.push_back(x); } return e; }
static inline El conj(const El& a) { if (a.zero) return a; S r; for (size_t i = a.w.size(); i-- > 0;) r.push_back(type == 2 ? 1 - a.w[i] : a.w[i]); El e = canon(r); e.sg *= a.sg; return e; }
static inline bool same(const El& a, const El& b) { return a.zero == b.zero && eqw(a.w, b.w); }
static inline std::unique_ptr<Context> make() { using namespace Algebraic; using namespace Locality; switch (type) { case 0: return std::make_unique<Context>(2);
    case 1: { AlgebraicPrecontext a{2}; std::vector<OperatorRule> r; r.emplace_back(HashedSequence{S{1, 0}, a.hasher}, HashedSequence{S{0, 1}, a.hasher, SequenceSignType::Negative}); return std::make_unique<AlgebraicContext>(a, false, false, r); }
    case 2: return std::make_unique<AlgebraicContext>(AlgebraicPrecontext{1, AlgebraicPrecontext::ConjugateMode::Interleaved}, false, false);
    case 3: return std::make_unique<LocalityContext>(Party::MakeList(1, 2, 2)); default: return std::make_unique<LocalityContext>(Party::MakeList(1, 1, 3)); } }
static inline S word(int maxlen) { S s; int n = sx_choose(0, maxlen, "length"); for (int i = 0; i < n; ++i) s.push_back(static_cast<oper_name_t>(sx_range(0, 1, "letter"))); return s; }
}
