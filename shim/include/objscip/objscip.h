/* C++ plug-in base classes.  Unlike the originals these are dispatched by
 * /verif/shim/src/objadapter.cpp through SCIP's C API, so that every callback
 * of the code under test passes through the monitor hooks in vmhooks.hh. */
#ifndef VERIF_SHIM_OBJSCIP_H
#define VERIF_SHIM_OBJSCIP_H
#include "scip/scip.h"
#include <string>
namespace scip {
class ObjCloneable {
public:
   virtual ~ObjCloneable() {}
   virtual SCIP_Bool iscloneable(void) const { return FALSE; }
};
class ObjProbCloneable : public ObjCloneable {};

class ObjConshdlr : public ObjProbCloneable {
public:
   SCIP* scip_;
   char* scip_name_; char* scip_desc_;
   const int scip_sepapriority_, scip_enfopriority_, scip_checkpriority_, scip_sepafreq_, scip_propfreq_, scip_eagerfreq_, scip_maxprerounds_;
   const SCIP_Bool scip_delaysepa_, scip_delayprop_, scip_needscons_;
   const SCIP_PROPTIMING scip_proptiming_; const SCIP_PRESOLTIMING scip_presoltiming_;
   ObjConshdlr(SCIP* scip, const char* name, const char* desc, int sepapriority, int enfopriority, int checkpriority, int sepafreq, int propfreq,
      int eagerfreq, int maxprerounds, SCIP_Bool delaysepa, SCIP_Bool delayprop, SCIP_Bool needscons, SCIP_PROPTIMING proptiming, SCIP_PRESOLTIMING presoltiming)
      : scip_(scip), scip_name_(strdup(name)), scip_desc_(strdup(desc)), scip_sepapriority_(sepapriority), scip_enfopriority_(enfopriority),
      scip_checkpriority_(checkpriority), scip_sepafreq_(sepafreq), scip_propfreq_(propfreq), scip_eagerfreq_(eagerfreq), scip_maxprerounds_(maxprerounds),
      scip_delaysepa_(delaysepa), scip_delayprop_(delayprop), scip_needscons_(needscons), scip_proptiming_(proptiming), scip_presoltiming_(presoltiming) {}
   ObjConshdlr(const ObjConshdlr&) = delete;
   ObjConshdlr& operator=(const ObjConshdlr&) = delete;
   virtual ~ObjConshdlr() { free(scip_name_); free(scip_desc_); }
   virtual SCIP_DECL_CONSFREE(scip_free) { return SCIP_OKAY; }
   virtual SCIP_DECL_CONSINIT(scip_init) { return SCIP_OKAY; }
   virtual SCIP_DECL_CONSEXIT(scip_exit) { return SCIP_OKAY; }
   virtual SCIP_DECL_CONSINITSOL(scip_initsol) { return SCIP_OKAY; }
   virtual SCIP_DECL_CONSEXITSOL(scip_exitsol) { return SCIP_OKAY; }
   virtual SCIP_DECL_CONSDELETE(scip_delete) { return SCIP_OKAY; }
   virtual SCIP_DECL_CONSTRANS(scip_trans) = 0;
   virtual SCIP_DECL_CONSINITLP(scip_initlp) { return SCIP_OKAY; }
   virtual SCIP_DECL_CONSSEPALP(scip_sepalp) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
   virtual SCIP_DECL_CONSSEPASOL(scip_sepasol) { *result = SCIP_DIDNOTRUN; return SCIP_OKAY; }
   virtual SCIP_DECL_CONSENFOLP(scip_enfolp) = 0;
   virtual SCIP_DECL_CONSENFOPS(scip_enfops) = 0;
   virtual SCIP_DECL_CONSCHECK(scip_check) = 0;
   virtual SCIP_DECL_CONSLOCK(scip_lock) = 0;
   virtual SCIP_DECL_CONSPRINT(scip_print) { if (file == NULL) file = stdout; fprintf(file, "constraint of class <%s>\n", SCIPconshdlrGetName(conshdlr)); return SCIP_OKAY; }
};

class ObjEventhdlr : public ObjCloneable {
public:
   SCIP* scip_;
   char* scip_name_; char* scip_desc_;
   ObjEventhdlr(SCIP* scip, const char* name, const char* desc) : scip_(scip), scip_name_(strdup(name)), scip_desc_(strdup(desc)) {}
   ObjEventhdlr(const ObjEventhdlr&) = delete;
   ObjEventhdlr& operator=(const ObjEventhdlr&) = delete;
   virtual ~ObjEventhdlr() { free(scip_name_); free(scip_desc_); }
   virtual SCIP_DECL_EVENTFREE(scip_free) { return SCIP_OKAY; }
   virtual SCIP_DECL_EVENTINIT(scip_init) { return SCIP_OKAY; }
   virtual SCIP_DECL_EVENTEXIT(scip_exit) { return SCIP_OKAY; }
   virtual SCIP_DECL_EVENTINITSOL(scip_initsol) { return SCIP_OKAY; }
   virtual SCIP_DECL_EVENTEXITSOL(scip_exitsol) { return SCIP_OKAY; }
   virtual SCIP_DECL_EVENTDELETE(scip_delete) { return SCIP_OKAY; }
   virtual SCIP_DECL_EVENTEXEC(scip_exec) = 0;
};

class ObjProbData {
public:
   virtual ~ObjProbData() {}
   virtual SCIP_RETCODE scip_delorig(SCIP* scip) { return SCIP_OKAY; }
   virtual SCIP_RETCODE scip_trans(SCIP* scip, ObjProbData** objprobdata, SCIP_Bool* deleteobject) { *objprobdata = this; *deleteobject = FALSE; return SCIP_OKAY; }
   virtual SCIP_RETCODE scip_deltrans(SCIP* scip) { return SCIP_OKAY; }
   virtual SCIP_RETCODE scip_initsol(SCIP* scip) { return SCIP_OKAY; }
   virtual SCIP_RETCODE scip_exitsol(SCIP* scip, SCIP_Bool restart) { return SCIP_OKAY; }
};
} /* namespace scip */

SCIP_RETCODE vm_includeObjConshdlr(SCIP* scip, scip::ObjConshdlr* objconshdlr, SCIP_Bool deleteobject);
scip::ObjConshdlr* vm_findObjConshdlr(SCIP* scip, const char* name);
scip::ObjConshdlr* vm_getObjConshdlr(SCIP* scip, SCIP_CONSHDLR* conshdlr);
SCIP_RETCODE vm_includeObjEventhdlr(SCIP* scip, scip::ObjEventhdlr* objeventhdlr, SCIP_Bool deleteobject);
scip::ObjEventhdlr* vm_findObjEventhdlr(SCIP* scip, const char* name);
scip::ObjEventhdlr* vm_getObjEventhdlr(SCIP* scip, SCIP_EVENTHDLR* eventhdlr);
SCIP_RETCODE vm_createObjProb(SCIP* scip, const char* name, scip::ObjProbData* objprobdata, SCIP_Bool deleteobject);
scip::ObjProbData* vm_getObjProbData(SCIP* scip);
#define SCIPincludeObjConshdlr vm_includeObjConshdlr
#define SCIPfindObjConshdlr vm_findObjConshdlr
#define SCIPgetObjConshdlr vm_getObjConshdlr
#define SCIPincludeObjEventhdlr vm_includeObjEventhdlr
#define SCIPfindObjEventhdlr vm_findObjEventhdlr
#define SCIPgetObjEventhdlr vm_getObjEventhdlr
#define SCIPcreateObjProb vm_createObjProb
#define SCIPgetObjProbData vm_getObjProbData
#endif
