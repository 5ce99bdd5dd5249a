#include "vmhooks.hh"
VMHooks* vm_hooks = nullptr;
struct VMCons { scip::ObjConshdlr* obj; SCIP_Bool del; };
struct VMEvent { scip::ObjEventhdlr* obj; SCIP_Bool del; };
struct VMProb { scip::ObjProbData* obj; SCIP_Bool del; };
static scip::ObjConshdlr* C(SCIP_CONSHDLR* h) { return reinterpret_cast<VMCons*>(SCIPconshdlrGetData(h))->obj; }
static scip::ObjEventhdlr* E(SCIP_EVENTHDLR* h) { return reinterpret_cast<VMEvent*>(SCIPeventhdlrGetData(h))->obj; }
extern "C" {
static SCIP_DECL_CONSFREE(c_free) { VMCons* d = reinterpret_cast<VMCons*>(SCIPconshdlrGetData(conshdlr)); SCIP_CALL(d->obj->scip_free(scip, conshdlr)); if (d->del) delete d->obj; delete d; return SCIP_OKAY; }
static SCIP_DECL_CONSINIT(c_init) { return C(conshdlr)->scip_init(scip, conshdlr, conss, nconss); }
static SCIP_DECL_CONSEXIT(c_exit) { return C(conshdlr)->scip_exit(scip, conshdlr, conss, nconss); }
static SCIP_DECL_CONSINITSOL(c_initsol) { return C(conshdlr)->scip_initsol(scip, conshdlr, conss, nconss); }
static SCIP_DECL_CONSEXITSOL(c_exitsol) { return C(conshdlr)->scip_exitsol(scip, conshdlr, conss, nconss, restart); }
static SCIP_DECL_CONSDELETE(c_delete) { return C(conshdlr)->scip_delete(scip, conshdlr, cons, consdata); }
static SCIP_DECL_CONSTRANS(c_trans) { return C(conshdlr)->scip_trans(scip, conshdlr, sourcecons, targetcons); }
static SCIP_DECL_CONSINITLP(c_initlp) { return C(conshdlr)->scip_initlp(scip, conshdlr, conss, nconss, infeasible); }
#define HOOKED(kind, solexpr, call) if (vm_hooks) vm_hooks->before_cons(kind, scip, conshdlr, solexpr); SCIP_RETCODE rc = call; if (vm_hooks) vm_hooks->after_cons(kind, scip, conshdlr, solexpr, rc, *result); return rc;
static SCIP_DECL_CONSSEPALP(c_sepalp) { HOOKED("sepalp", (SCIP_SOL*)NULL, C(conshdlr)->scip_sepalp(scip, conshdlr, conss, nconss, nusefulconss, result)) }
static SCIP_DECL_CONSSEPASOL(c_sepasol) { HOOKED("sepasol", sol, C(conshdlr)->scip_sepasol(scip, conshdlr, conss, nconss, nusefulconss, sol, result)) }
static SCIP_DECL_CONSENFOLP(c_enfolp) { HOOKED("enfolp", (SCIP_SOL*)NULL, C(conshdlr)->scip_enfolp(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, result)) }
static SCIP_DECL_CONSENFOPS(c_enfops) { HOOKED("enfops", (SCIP_SOL*)NULL, C(conshdlr)->scip_enfops(scip, conshdlr, conss, nconss, nusefulconss, solinfeasible, objinfeasible, result)) }
static SCIP_DECL_CONSCHECK(c_check) { HOOKED("check", sol, C(conshdlr)->scip_check(scip, conshdlr, conss, nconss, sol, checkintegrality, checklprows, printreason, completely, result)) }
static SCIP_DECL_CONSLOCK(c_lock) { return C(conshdlr)->scip_lock(scip, conshdlr, cons, locktype, nlockspos, nlocksneg); }
static SCIP_DECL_CONSPRINT(c_print) { return C(conshdlr)->scip_print(scip, conshdlr, cons, file); }
static SCIP_DECL_EVENTFREE(e_free) { VMEvent* d = reinterpret_cast<VMEvent*>(SCIPeventhdlrGetData(eventhdlr)); SCIP_CALL(d->obj->scip_free(scip, eventhdlr)); if (d->del) delete d->obj; delete d; return SCIP_OKAY; }
static SCIP_DECL_EVENTINIT(e_init) { return E(eventhdlr)->scip_init(scip, eventhdlr); }
static SCIP_DECL_EVENTEXIT(e_exit) { return E(eventhdlr)->scip_exit(scip, eventhdlr); }
static SCIP_DECL_EVENTINITSOL(e_initsol) { return E(eventhdlr)->scip_initsol(scip, eventhdlr); }
static SCIP_DECL_EVENTEXITSOL(e_exitsol) { return E(eventhdlr)->scip_exitsol(scip, eventhdlr); }
static SCIP_DECL_EVENTDELETE(e_delete) { return E(eventhdlr)->scip_delete(scip, eventhdlr, eventdata); }
static SCIP_DECL_EVENTEXEC(e_exec) { if (vm_hooks) vm_hooks->before_event(scip, eventhdlr, event); SCIP_RETCODE rc = E(eventhdlr)->scip_exec(scip, eventhdlr, event, eventdata); if (vm_hooks) vm_hooks->after_event(scip, eventhdlr, event, rc); return rc; }
static SCIP_DECL_PROBDELORIG(p_delorig) { VMProb* d = reinterpret_cast<VMProb*>(*probdata); SCIP_CALL(d->obj->scip_delorig(scip)); if (d->del) delete d->obj; delete d; *probdata = NULL; return SCIP_OKAY; }
static SCIP_DECL_PROBTRANS(p_trans) { VMProb* s = reinterpret_cast<VMProb*>(sourcedata); VMProb* t = new VMProb; t->obj = NULL; t->del = FALSE; SCIP_CALL(s->obj->scip_trans(scip, &t->obj, &t->del)); *targetdata = reinterpret_cast<SCIP_PROBDATA*>(t); return SCIP_OKAY; }
static SCIP_DECL_PROBDELTRANS(p_deltrans) { VMProb* d = reinterpret_cast<VMProb*>(*probdata); SCIP_CALL(d->obj->scip_deltrans(scip)); if (d->del) delete d->obj; delete d; *probdata = NULL; return SCIP_OKAY; }
static SCIP_DECL_PROBINITSOL(p_initsol) { return reinterpret_cast<VMProb*>(probdata)->obj->scip_initsol(scip); }
static SCIP_DECL_PROBEXITSOL(p_exitsol) { return reinterpret_cast<VMProb*>(probdata)->obj->scip_exitsol(scip, restart); }
}
SCIP_RETCODE vm_includeObjConshdlr(SCIP* scip, scip::ObjConshdlr* o, SCIP_Bool del) {
   SCIP_CONSHDLR* h = NULL;
   VMCons* d = new VMCons{o, del};
   SCIP_CALL(SCIPincludeConshdlrBasic(scip, &h, o->scip_name_, o->scip_desc_, o->scip_enfopriority_, o->scip_checkpriority_, o->scip_eagerfreq_, o->scip_needscons_,
      c_enfolp, c_enfops, c_check, c_lock, reinterpret_cast<SCIP_CONSHDLRDATA*>(d)));
   SCIP_CALL(SCIPsetConshdlrSepa(scip, h, c_sepalp, c_sepasol, o->scip_sepafreq_, o->scip_sepapriority_, o->scip_delaysepa_));
   SCIP_CALL(SCIPsetConshdlrFree(scip, h, c_free));
   SCIP_CALL(SCIPsetConshdlrInit(scip, h, c_init));
   SCIP_CALL(SCIPsetConshdlrExit(scip, h, c_exit));
   SCIP_CALL(SCIPsetConshdlrInitsol(scip, h, c_initsol));
   SCIP_CALL(SCIPsetConshdlrExitsol(scip, h, c_exitsol));
   SCIP_CALL(SCIPsetConshdlrDelete(scip, h, c_delete));
   SCIP_CALL(SCIPsetConshdlrTrans(scip, h, c_trans));
   SCIP_CALL(SCIPsetConshdlrInitlp(scip, h, c_initlp));
   SCIP_CALL(SCIPsetConshdlrPrint(scip, h, c_print));
   return SCIP_OKAY;
}
scip::ObjConshdlr* vm_getObjConshdlr(SCIP* scip, SCIP_CONSHDLR* h) { return h ? C(h) : NULL; }
scip::ObjConshdlr* vm_findObjConshdlr(SCIP* scip, const char* name) { SCIP_CONSHDLR* h = SCIPfindConshdlr(scip, name); return h ? C(h) : NULL; }
SCIP_RETCODE vm_includeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* o, SCIP_Bool del) {
   SCIP_EVENTHDLR* h = NULL;
   VMEvent* d = new VMEvent{o, del};
   SCIP_CALL(SCIPincludeEventhdlrBasic(scip, &h, o->scip_name_, o->scip_desc_, e_exec, reinterpret_cast<SCIP_EVENTHDLRDATA*>(d)));
   SCIP_CALL(SCIPsetEventhdlrFree(scip, h, e_free));
   SCIP_CALL(SCIPsetEventhdlrInit(scip, h, e_init));
   SCIP_CALL(SCIPsetEventhdlrExit(scip, h, e_exit));
   SCIP_CALL(SCIPsetEventhdlrInitsol(scip, h, e_initsol));
   SCIP_CALL(SCIPsetEventhdlrExitsol(scip, h, e_exitsol));
   SCIP_CALL(SCIPsetEventhdlrDelete(scip, h, e_delete));
   return SCIP_OKAY;
}
scip::ObjEventhdlr* vm_getObjEventhdlr(SCIP* scip, SCIP_EVENTHDLR* h) { return h ? E(h) : NULL; }
scip::ObjEventhdlr* vm_findObjEventhdlr(SCIP* scip, const char* name) { SCIP_EVENTHDLR* h = SCIPfindEventhdlr(scip, name); return h ? E(h) : NULL; }
SCIP_RETCODE vm_createObjProb(SCIP* scip, const char* name, scip::ObjProbData* o, SCIP_Bool del) {
   VMProb* d = new VMProb{o, del};
   return SCIPcreateProb(scip, name, p_delorig, p_trans, p_deltrans, p_initsol, p_exitsol, NULL, reinterpret_cast<SCIP_PROBDATA*>(d));
}
scip::ObjProbData* vm_getObjProbData(SCIP* scip) { VMProb* d = reinterpret_cast<VMProb*>(SCIPgetProbData(scip)); return d ? d->obj : NULL; }
