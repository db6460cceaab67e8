// locality scenarios and an independent word-problem oracle for them
#pragma once
#include "hx.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/party.h"
#include "dictionary/operator_sequence.h"
namespace lc {
using namespace Moment; using namespace Moment::Locality;
using S = sequence_storage_t;
struct Layout { std::vector<size_t> mmts; std::vector<size_t> outs; };
static inline Layout layout(int i) { switch (i) {
    case 0: return {{1}, {3}}; case 1: return {{1, 1}, {2, 2}}; case 2: return {{2, 2}, {2, 2, 2, 2}}; case 3: return {{2}, {3, 2}};
    case 4: return {{2, 1}, {3, 2, 4}}; case 5: return {{1, 1, 1}, {2, 3, 2}}; case 6: return {{3, 2}, {2, 3, 2, 3, 3}}; default: return {{1, 2, 1}, {2, 2, 3, 3}}; } }
// flat description computed independently of the library
struct Ops { std::vector<int> party, mmt, out; std::vector<int> mparty, mfirst, mout; int n = 0; };
static inline Ops ops(const Layout& l) { Ops o; size_t m = 0; for (size_t p = 0; p < l.mmts.size(); ++p) for (size_t k = 0; k < l.mmts[p]; ++k, ++m) { o.mparty.push_back(p); o.mfirst.push_back(o.n); o.mout.push_back(l.outs[m]); for (size_t x = 0; x + 1 < l.outs[m]; ++x) { o.party.push_back(p); o.mmt.push_back(m); o.out.push_back(x); ++o.n; } } return o; }
struct El { bool zero = false; std::vector<std::vector<int>> w; }; // element: one reduced word per party, or zero
static inline El reduce(const Ops& o, size_t np, const S& s) { El e; e.w.resize(np); for (size_t p = 0; p < np && !e.zero; ++p) { auto& st = e.w[p]; for (auto x : s) if (o.party[x] == (int) p) { if (!st.empty() && st.back() == x) continue; if (!st.empty() && o.mmt[st.back()] == o.mmt[x]) { e.zero = true; break; } st.push_back(x); } } if (e.zero) e.w.clear(); return e; }
static inline bool same(const El& a, const El& b) { if (a.zero || b.zero) return a.zero == b.zero; for (size_t p = 0; p < a.w.size(); ++p) { if (a.w[p].size() != b.w[p].size()) return false; for (size_t i = 0; i < a.w[p].size(); ++i) if (a.w[p][i] != b.w[p][i]) return false; } return true; }
static inline El elem(const Ops& o, size_t np, const OperatorSequence& q) { if (q.zero()) { El e; e.zero = true; return e; } return reduce(o, np, q.raw()); }
}
