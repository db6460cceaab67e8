// Native runtime of the harness API: replays one concrete input assignment against the real code.
// Usage: <harness> ENTRY INPUTFILE ; INPUTFILE lines: "name value" or "@param value"
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <fstream>
#include <dlfcn.h>
#include <exception>
static std::map<std::string, long> vals, params; static std::map<std::string, int> occ; static bool missing = false; static int failures = 0;
extern "C" {
long sx_range(long lo, long hi, const char* name) { int k = occ[name]++; std::string u = name; if (k) u += "#" + std::to_string(k); auto it = vals.find(u);
    if (hi < lo) { printf("EMPTY-RANGE %s\n", u.c_str()); fflush(stdout); _Exit(4); }
    if (it == vals.end()) { missing = true; printf("DEFAULT %s %ld\n", u.c_str(), lo); return lo; }
    if (it->second < lo || it->second > hi) { printf("OUT-OF-RANGE %s\n", u.c_str()); fflush(stdout); _Exit(4); } return it->second; }
void sx_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(failures ? 10 : 4); } }
void sx_assert(bool c, const char* id) { if (!c) { printf("ASSERT-FAIL %s\n", id); fflush(stdout); failures++; } }
void sx_reach(const char* id) { printf("REACH %s\n", id); }
void sx_observe(const char* n, long v) { printf("OBS %s %ld\n", n, v); }
void sx_observe_f(const char* n, double v) { if (v == 0) v = 0; printf("OBS %s %.17g\n", n, v); }
long sx_concretize(long v) { return v; }
long sx_param(const char* n, long d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
int sx_symbolic(long) { return 0; }
void sx_fail(const char* id) { printf("ASSERT-FAIL %s\n", id); fflush(stdout); _Exit(10); }
void sx_debug(const char* n, long v) { printf("DEBUG %s %ld\n", n, v); }
unsigned long sx_fmt_double(double v, unsigned long p, char* o) { return (unsigned long)sprintf(o, "%.*g", (int)p, v); }
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    std::ifstream f(argv[2]); std::string n; long v; while (f >> n >> v) { if (n[0] == '@') params[n.substr(1)] = v; else vals[n] = v; }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    try { fn(); } catch (std::exception& e) { printf("UNCAUGHT %s\n", e.what()); fflush(stdout); _Exit(11); } catch (...) { printf("UNCAUGHT\n"); fflush(stdout); _Exit(11); }
    printf("DONE\n"); fflush(stdout); _Exit(failures ? 10 : 0);
}
