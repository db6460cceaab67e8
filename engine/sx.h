// Harness API. Under symbolic execution these are intercepted; natively (replay) they are provided by native_rt.cpp.
#pragma once
extern "C" { inline __attribute__((used)) int sx_errno_storage = 0; } // errno of the code under test
extern "C" {
    long sx_range(long lo, long hi, const char* name);   // fresh symbolic integer in [lo,hi]
    void sx_assume(bool c);
    void sx_assert(bool c, const char* id);
    void sx_reach(const char* id);
    void sx_observe(const char* name, long v);
    void sx_observe_f(const char* name, double v);
    long sx_concretize(long v);
    long sx_param(const char* name, long dflt);
    int sx_symbolic(long v);
    [[noreturn]] void sx_fail(const char* id);
    void sx_debug(const char* name, long v);
}
static inline long sx_choose(long lo, long hi, const char* name) { return sx_concretize(sx_range(lo, hi, name)); }
