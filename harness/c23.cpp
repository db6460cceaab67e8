// C23: work partitioning
#include "hx.h"
#include <stddef.h>
#include <memory>
#include <tuple>
#include <mutex>
#include <atomic>
#include "utilities/variable_chunk_range.h"
#include "multithreading/queue.h"
#include "multithreading/multithreading.h"
using namespace Moment;
extern "C" void h_chunks() { int n = sx_choose(0, sx_param("n", 5), "data"), c = sx_choose(0, sx_param("c", 4), "chunks"); std::vector<long> d; for (int i = 0; i < n; ++i) d.push_back(100 + i); std::vector<size_t> at; for (int i = 0; i < c; ++i) { size_t x = sx_range(0, n, "start"); if (i && x < at.back()) return; at.push_back(x); } VariableChunkRange<long> r{std::span<const long>(d), std::span<const size_t>(at)}; int k = 0; bool ok = true; size_t next = c ? at[0] : (size_t) n; auto e = r.end(); for (auto it = r.begin(); it != e; ++it) { if (k >= c) { ok = false; break; } auto s = *it; size_t want = (k + 1 < c ? at[k + 1] : (size_t) n) - at[k]; ok = ok & (it.chunk_size() == want) & (s.size() == want) & (at[k] == next); for (size_t j = 0; j < s.size(); ++j) ok = ok & (s[j] == 100 + (long) next + (long) j); next += s.size(); auto cp = it; auto o = cp++; ok = ok & (o == it) & !(cp == it); ++k; } sx_assert(ok && k == c, "one piece for each start"); sx_assert(next == (size_t) n, "pieces are contiguous and cover the data"); sx_reach("end"); }
extern "C" void h_queue() { Multithreading::Queue<long> q; std::vector<long> r; size_t head = 0; int n = sx_choose(0, sx_param("ops", 6), "operations"); bool stop = false; for (int i = 0; i < n; ++i) switch (sx_choose(0, 4, "operation")) { case 0: { long v = sx_range(-99, 99, "value"); q.push_back(v); r.push_back(v); break; } case 1: { long v = sx_range(-99, 99, "value"); q.emplace_back(v); r.push_back(v); break; } case 2: { auto p = q.try_pop_front(); bool have = !stop && head < r.size(); sx_assert((p != nullptr) == have, "item taken when there is one"); if (p) { sx_assert(**p == r[head] && *p->operator->() == r[head], "items leave in order"); ++head; } break; } case 3: { if (!stop && head >= r.size()) break; auto p = q.wait_pop_front(); sx_assert((p != nullptr) == !stop, "waiting gives the next item"); if (p) { sx_assert(**p == r[head], "items leave in order"); ++head; } break; } default: q.abort(); stop = true; sx_assert(q.aborting(), "abort is seen"); } sx_assert(q.aborting() == stop, "abort is seen"); if (!stop) { while (head < r.size()) { auto p = q.try_pop_front(); sx_assert(p && **p == r[head], "every item leaves once"); ++head; } sx_assert(!q.try_pop_front(), "nothing else leaves"); } sx_reach("end"); }
