// shared helpers for harnesses
#pragma once
#include "sx.h"
#include <vector>
#include <array>
#include <string>
#include <cstdint>
#include <utility>
template<class V, class T = typename V::value_type> static inline V sym_word(int n, long radix, const char* name) { V v; for (int i = 0; i < n; ++i) v.push_back(static_cast<T>(sx_range(0, radix - 1, name))); return v; }
template<class A, class B> static inline bool same_seq(const A& a, const B& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
