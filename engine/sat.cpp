// thin C interface to MiniSat (compiled with g++: its headers need it)
#define __STDC_LIMIT_MACROS
#define __STDC_FORMAT_MACROS
#include <minisat/core/Solver.h>
using namespace Minisat;
extern "C" {
void* sat_new() { Solver* s = new Solver; s->verbosity = 0; return s; }
void sat_del(void* p) { delete (Solver*)p; }
int sat_var(void* p, int dec) { return ((Solver*)p)->newVar(l_Undef, dec != 0); }
void sat_clause3(void* p, int a, int b, int c) { Solver* s = (Solver*)p; vec<Lit> v; v.push(toLit(a)); if (b >= 0) v.push(toLit(b)); if (c >= 0) v.push(toLit(c)); s->addClause_(v); }
void sat_decision(void* p, int v, int on) { ((Solver*)p)->setDecisionVar(v, on != 0); }
int sat_solve(void* p, const int* as, int n, long confl) { Solver* s = (Solver*)p; vec<Lit> v; for (int i = 0; i < n; i++) v.push(toLit(as[i])); if (confl < 0) s->budgetOff(); else s->setConfBudget(confl); lbool r = s->solveLimited(v); return r == l_True ? 1 : r == l_False ? 0 : -1; }
int sat_value(void* p, int v) { return ((Solver*)p)->model[v] == l_True; }
}
