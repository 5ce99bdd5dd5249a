/* linked with -Wl,--wrap=...: sees only the calls made by the code under test */
#include "vmhooks.hh"
extern "C" {
SCIP_RETCODE __real_SCIPaddRow(SCIP* scip, SCIP_ROW* row, SCIP_Bool forcecut, SCIP_Bool* infeasible);
SCIP_RETCODE __real_SCIPaddCons(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE __real_SCIPaddSolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool* stored);
SCIP_RETCODE __real_SCIPsolve(SCIP* scip);
SCIP_Bool __real_SCIPisCutEfficacious(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* row);
SCIP_Bool __wrap_SCIPisCutEfficacious(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* row) { SCIP_Bool r = __real_SCIPisCutEfficacious(scip, sol, row); if (vm_hooks) vm_hooks->on_try_row(scip, row, r); return r; }
SCIP_RETCODE __wrap_SCIPaddRow(SCIP* scip, SCIP_ROW* row, SCIP_Bool forcecut, SCIP_Bool* infeasible) { if (vm_hooks) vm_hooks->on_add_row(scip, row); return __real_SCIPaddRow(scip, row, forcecut, infeasible); }
SCIP_RETCODE __wrap_SCIPaddCons(SCIP* scip, SCIP_CONS* cons) { if (vm_hooks) vm_hooks->on_add_cons(scip, cons); return __real_SCIPaddCons(scip, cons); }
SCIP_RETCODE __wrap_SCIPaddSolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool* stored) { if (vm_hooks) vm_hooks->on_add_sol(scip, *sol); return __real_SCIPaddSolFree(scip, sol, stored); }
SCIP_RETCODE __wrap_SCIPsolve(SCIP* scip) { if (vm_hooks) vm_hooks->on_solve_begin(scip); SCIP_RETCODE rc = __real_SCIPsolve(scip); if (vm_hooks) vm_hooks->on_solve_end(scip, rc); return rc; }
}
