/* Monitor hooks: the adapter calls these around every callback of a C++
 * constraint/event handler of the code under test, and (with -Wl,--wrap) around
 * every row/constraint/solution it hands to SCIP. All optional. */
#ifndef VERIF_VMHOOKS_HH
#define VERIF_VMHOOKS_HH
#include "objscip/objscip.h"
struct VMHooks {
   virtual ~VMHooks() {}
   /* constraint handler callbacks; kind in {"check","enfolp","enfops","sepalp","sepasol"} ; sol==NULL: LP/pseudo solution */
   virtual void before_cons(const char* kind, SCIP* scip, SCIP_CONSHDLR* h, SCIP_SOL* sol) {}
   virtual void after_cons(const char* kind, SCIP* scip, SCIP_CONSHDLR* h, SCIP_SOL* sol, SCIP_RETCODE rc, SCIP_RESULT result) {}
   virtual void after_event(SCIP* scip, SCIP_EVENTHDLR* h, SCIP_EVENT* e, SCIP_RETCODE rc) {}
   virtual void before_event(SCIP* scip, SCIP_EVENTHDLR* h, SCIP_EVENT* e) {}
   virtual void on_try_row(SCIP* scip, SCIP_ROW* row, SCIP_Bool efficacious) {}
   virtual void on_add_row(SCIP* scip, SCIP_ROW* row) {}
   virtual void on_add_cons(SCIP* scip, SCIP_CONS* cons) {}
   virtual void on_add_sol(SCIP* scip, SCIP_SOL* sol) {}
   virtual void on_solve_begin(SCIP* scip) {}
   virtual void on_solve_end(SCIP* scip, SCIP_RETCODE rc) {}
};
extern VMHooks* vm_hooks;
#endif
