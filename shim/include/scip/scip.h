/* Hand-written declarations of the part of the SCIP 10 C API that this
 * repository (and reasonable edits of it) uses.  The implementation is the real
 * libscip shipped inside the PySCIPOpt wheel; this sandbox has no SCIP headers.
 * Enum values were read from the PySCIPOpt bindings of the same library. */
#ifndef VERIF_SHIM_SCIP_H
#define VERIF_SHIM_SCIP_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdarg.h>
#include <assert.h>
#include <math.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fstream>
#include <sstream>
extern "C" {
#endif

#define SCIP_VERSION 1000
#define SCIP_Bool unsigned int
#define SCIP_Longint long long
#define SCIP_Real double
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#ifndef NULL
#define NULL 0
#endif
#define SCIP_MAXSTRLEN 1024
#define SCIP_LONGINT_FORMAT "lld"
#define SCIP_DEFAULT_INFINITY 1e+20
#define SCIP_INVALID 1e99

enum SCIP_Retcode { SCIP_OKAY=1, SCIP_ERROR=0, SCIP_NOMEMORY=-1, SCIP_READERROR=-2, SCIP_WRITEERROR=-3,
 SCIP_NOFILE=-4, SCIP_FILECREATEERROR=-5, SCIP_LPERROR=-6, SCIP_NOPROBLEM=-7, SCIP_INVALIDCALL=-8,
 SCIP_INVALIDDATA=-9, SCIP_INVALIDRESULT=-10, SCIP_PLUGINNOTFOUND=-11, SCIP_PARAMETERUNKNOWN=-12,
 SCIP_PARAMETERWRONGTYPE=-13, SCIP_PARAMETERWRONGVAL=-14, SCIP_KEYALREADYEXISTING=-15, SCIP_MAXDEPTHLEVEL=-16,
 SCIP_BRANCHERROR=-17, SCIP_NOTIMPLEMENTED=-18 };
typedef enum SCIP_Retcode SCIP_RETCODE;

enum SCIP_Vartype { SCIP_VARTYPE_BINARY=0, SCIP_VARTYPE_INTEGER=1, SCIP_VARTYPE_IMPLINT=2, SCIP_VARTYPE_CONTINUOUS=3 };
typedef enum SCIP_Vartype SCIP_VARTYPE;
enum SCIP_Varstatus { SCIP_VARSTATUS_ORIGINAL=0, SCIP_VARSTATUS_LOOSE=1, SCIP_VARSTATUS_COLUMN=2, SCIP_VARSTATUS_FIXED=3,
 SCIP_VARSTATUS_AGGREGATED=4, SCIP_VARSTATUS_MULTAGGR=5, SCIP_VARSTATUS_NEGATED=6 };
typedef enum SCIP_Varstatus SCIP_VARSTATUS;
enum SCIP_Objsense { SCIP_OBJSENSE_MAXIMIZE=-1, SCIP_OBJSENSE_MINIMIZE=1 };
typedef enum SCIP_Objsense SCIP_OBJSENSE;
enum SCIP_Result { SCIP_DIDNOTRUN=1, SCIP_DELAYED=2, SCIP_DIDNOTFIND=3, SCIP_FEASIBLE=4, SCIP_INFEASIBLE=5,
 SCIP_UNBOUNDED=6, SCIP_CUTOFF=7, SCIP_SEPARATED=8, SCIP_NEWROUND=9, SCIP_REDUCEDDOM=10, SCIP_CONSADDED=11,
 SCIP_CONSCHANGED=12, SCIP_BRANCHED=13, SCIP_SOLVELP=14, SCIP_FOUNDSOL=15, SCIP_SUSPENDED=16, SCIP_SUCCESS=17, SCIP_DELAYNODE=18 };
typedef enum SCIP_Result SCIP_RESULT;
enum SCIP_Status { SCIP_STATUS_UNKNOWN=0, SCIP_STATUS_OPTIMAL=1, SCIP_STATUS_INFEASIBLE=2, SCIP_STATUS_UNBOUNDED=3,
 SCIP_STATUS_INFORUNBD=4, SCIP_STATUS_USERINTERRUPT=10, SCIP_STATUS_TERMINATE=11, SCIP_STATUS_NODELIMIT=20,
 SCIP_STATUS_TOTALNODELIMIT=21, SCIP_STATUS_STALLNODELIMIT=22, SCIP_STATUS_TIMELIMIT=23, SCIP_STATUS_MEMLIMIT=24,
 SCIP_STATUS_GAPLIMIT=25, SCIP_STATUS_PRIMALLIMIT=26, SCIP_STATUS_DUALLIMIT=27, SCIP_STATUS_SOLLIMIT=28,
 SCIP_STATUS_BESTSOLLIMIT=29, SCIP_STATUS_RESTARTLIMIT=30 };
typedef enum SCIP_Status SCIP_STATUS;
enum SCIP_Stage { SCIP_STAGE_INIT=0, SCIP_STAGE_PROBLEM=1, SCIP_STAGE_TRANSFORMING=2, SCIP_STAGE_TRANSFORMED=3,
 SCIP_STAGE_INITPRESOLVE=4, SCIP_STAGE_PRESOLVING=5, SCIP_STAGE_EXITPRESOLVE=6, SCIP_STAGE_PRESOLVED=7,
 SCIP_STAGE_INITSOLVE=8, SCIP_STAGE_SOLVING=9, SCIP_STAGE_SOLVED=10, SCIP_STAGE_EXITSOLVE=11, SCIP_STAGE_FREETRANS=12, SCIP_STAGE_FREE=13 };
typedef enum SCIP_Stage SCIP_STAGE;
enum SCIP_LPSolStat { SCIP_LPSOLSTAT_NOTSOLVED=0, SCIP_LPSOLSTAT_OPTIMAL=1, SCIP_LPSOLSTAT_INFEASIBLE=2,
 SCIP_LPSOLSTAT_UNBOUNDEDRAY=3, SCIP_LPSOLSTAT_OBJLIMIT=4, SCIP_LPSOLSTAT_ITERLIMIT=5, SCIP_LPSOLSTAT_TIMELIMIT=6, SCIP_LPSOLSTAT_ERROR=7 };
typedef enum SCIP_LPSolStat SCIP_LPSOLSTAT;
enum SCIP_LockType { SCIP_LOCKTYPE_MODEL=0, SCIP_LOCKTYPE_CONFLICT=1 };
typedef enum SCIP_LockType SCIP_LOCKTYPE;
enum SCIP_ParamSetting { SCIP_PARAMSETTING_DEFAULT=0, SCIP_PARAMSETTING_AGGRESSIVE=1, SCIP_PARAMSETTING_FAST=2, SCIP_PARAMSETTING_OFF=3 };
typedef enum SCIP_ParamSetting SCIP_PARAMSETTING;

typedef unsigned int SCIP_PROPTIMING;
#define SCIP_PROPTIMING_BEFORELP 0x001u
#define SCIP_PROPTIMING_DURINGLPLOOP 0x002u
#define SCIP_PROPTIMING_AFTERLPLOOP 0x004u
#define SCIP_PROPTIMING_AFTERLPNODE 0x008u
typedef unsigned int SCIP_PRESOLTIMING;
#define SCIP_PRESOLTIMING_NONE 0x002u
#define SCIP_PRESOLTIMING_FAST 0x004u
#define SCIP_PRESOLTIMING_MEDIUM 0x008u
#define SCIP_PRESOLTIMING_EXHAUSTIVE 0x010u

typedef uint64_t SCIP_EVENTTYPE;
#define SCIP_EVENTTYPE_NODEFOCUSED UINT64_C(524288)
#define SCIP_EVENTTYPE_NODEFEASIBLE UINT64_C(1048576)
#define SCIP_EVENTTYPE_NODEINFEASIBLE UINT64_C(2097152)
#define SCIP_EVENTTYPE_NODEBRANCHED UINT64_C(4194304)
#define SCIP_EVENTTYPE_NODEDELETE UINT64_C(8388608)
#define SCIP_EVENTTYPE_FIRSTLPSOLVED UINT64_C(33554432)
#define SCIP_EVENTTYPE_LPSOLVED UINT64_C(67108864)
#define SCIP_EVENTTYPE_LPEVENT UINT64_C(100663296)
#define SCIP_EVENTTYPE_POORSOLFOUND UINT64_C(134217728)
#define SCIP_EVENTTYPE_BESTSOLFOUND UINT64_C(268435456)
#define SCIP_EVENTTYPE_SOLFOUND UINT64_C(402653184)
#define SCIP_EVENTTYPE_NODESOLVED UINT64_C(7340032)
#define SCIP_EVENTTYPE_NODEEVENT UINT64_C(7864320)

typedef struct Scip SCIP;
typedef struct SCIP_Var SCIP_VAR;
typedef struct SCIP_VarData SCIP_VARDATA;
typedef struct SCIP_Cons SCIP_CONS;
typedef struct SCIP_ConsData SCIP_CONSDATA;
typedef struct SCIP_Conshdlr SCIP_CONSHDLR;
typedef struct SCIP_ConshdlrData SCIP_CONSHDLRDATA;
typedef struct SCIP_Sol SCIP_SOL;
typedef struct SCIP_Row SCIP_ROW;
typedef struct SCIP_Col SCIP_COL;
typedef struct SCIP_Heur SCIP_HEUR;
typedef struct SCIP_Node SCIP_NODE;
typedef struct SCIP_Branchrule SCIP_BRANCHRULE;
typedef struct SCIP_BranchruleData SCIP_BRANCHRULEDATA;
typedef struct SCIP_Event SCIP_EVENT;
typedef struct SCIP_EventData SCIP_EVENTDATA;
typedef struct SCIP_Eventhdlr SCIP_EVENTHDLR;
typedef struct SCIP_EventhdlrData SCIP_EVENTHDLRDATA;
typedef struct SCIP_Messagehdlr SCIP_MESSAGEHDLR;
typedef struct SCIP_ProbData SCIP_PROBDATA;
typedef struct SCIP_RandNumGen SCIP_RANDNUMGEN;
typedef struct SCIP_HashMap SCIP_HASHMAP;

void SCIPmessagePrintErrorHeader(const char* sourcefile, int sourceline);
void SCIPmessagePrintError(const char* formatstr, ...);
#define SCIPerrorMessage SCIPmessagePrintErrorHeader(__FILE__, __LINE__); SCIPmessagePrintError
#define SCIPdebugMessage while(0) printf
#define SCIP_DEBUG_(x)

#define SCIP_CALL(x) do { SCIP_RETCODE _restat_; if( (_restat_ = (x)) != SCIP_OKAY ) { SCIPerrorMessage("Error <%d> in function call\n", _restat_); return _restat_; } } while( FALSE )
#define SCIP_CALL_ABORT(x) do { SCIP_RETCODE _restat_; if( (_restat_ = (x)) != SCIP_OKAY ) { SCIPerrorMessage("Error <%d> in function call\n", _restat_); abort(); } } while( FALSE )

/* callback declarations */
#define SCIP_DECL_CONSHDLRCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_Bool* valid)
#define SCIP_DECL_CONSFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr)
#define SCIP_DECL_CONSINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss)
#define SCIP_DECL_CONSEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool restart)
#define SCIP_DECL_CONSDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_CONSDATA** consdata)
#define SCIP_DECL_CONSTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* sourcecons, SCIP_CONS** targetcons)
#define SCIP_DECL_CONSINITLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_Bool* infeasible)
#define SCIP_DECL_CONSSEPALP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_RESULT* result)
#define SCIP_DECL_CONSSEPASOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_SOL* sol, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOLP(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSENFOPS(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, int nusefulconss, SCIP_Bool solinfeasible, SCIP_Bool objinfeasible, SCIP_RESULT* result)
#define SCIP_DECL_CONSCHECK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS** conss, int nconss, SCIP_SOL* sol, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool printreason, SCIP_Bool completely, SCIP_RESULT* result)
#define SCIP_DECL_CONSLOCK(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, SCIP_LOCKTYPE locktype, int nlockspos, int nlocksneg)
#define SCIP_DECL_CONSPRINT(x) SCIP_RETCODE x (SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_CONS* cons, FILE* file)
#define SCIP_DECL_EVENTFREE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXIT(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr)
#define SCIP_DECL_EVENTDELETE(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA** eventdata)
#define SCIP_DECL_EVENTEXEC(x) SCIP_RETCODE x (SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENT* event, SCIP_EVENTDATA* eventdata)
#define SCIP_DECL_PROBDELORIG(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA** probdata)
#define SCIP_DECL_PROBTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA* sourcedata, SCIP_PROBDATA** targetdata)
#define SCIP_DECL_PROBDELTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA** probdata)
#define SCIP_DECL_PROBINITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA* probdata)
#define SCIP_DECL_PROBEXITSOL(x) SCIP_RETCODE x (SCIP* scip, SCIP_PROBDATA* probdata, SCIP_Bool restart)
#define SCIP_DECL_PROBCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP* sourcescip, SCIP_PROBDATA* sourcedata, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, SCIP_PROBDATA** targetdata, SCIP_Bool global, SCIP_RESULT* result)
#define SCIP_DECL_VARDELORIG(x) SCIP_RETCODE x (SCIP* scip, SCIP_VAR* var, SCIP_VARDATA** vardata)
#define SCIP_DECL_VARTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_VAR* sourcevar, SCIP_VARDATA* sourcedata, SCIP_VAR* targetvar, SCIP_VARDATA** targetdata)
#define SCIP_DECL_VARDELTRANS(x) SCIP_RETCODE x (SCIP* scip, SCIP_VAR* var, SCIP_VARDATA** vardata)
#define SCIP_DECL_VARCOPY(x) SCIP_RETCODE x (SCIP* scip, SCIP* sourcescip, SCIP_VAR* sourcevar, SCIP_VARDATA* sourcedata, SCIP_HASHMAP* varmap, SCIP_HASHMAP* consmap, SCIP_VAR* targetvar, SCIP_VARDATA** targetdata, SCIP_RESULT* result)

/* general */
SCIP_RETCODE SCIPcreate(SCIP** scip);
SCIP_RETCODE SCIPfree(SCIP** scip);
SCIP_STATUS SCIPgetStatus(SCIP* scip);
SCIP_STAGE SCIPgetStage(SCIP* scip);
SCIP_RETCODE SCIPprintStatistics(SCIP* scip, FILE* file);
void SCIPinfoMessage(SCIP* scip, FILE* file, const char* formatstr, ...);
SCIP_RETCODE SCIPcreateMessagehdlrDefault(SCIP_MESSAGEHDLR** messagehdlr, SCIP_Bool bufferedoutput, const char* filename, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetMessagehdlr(SCIP* scip, SCIP_MESSAGEHDLR* messagehdlr);
SCIP_RETCODE SCIPmessagehdlrRelease(SCIP_MESSAGEHDLR** messagehdlr);
void SCIPmessageSetErrorPrinting(void (*errorPrinting)(void* data, FILE* file, const char* msg), void* data);
void SCIPsetMessagehdlrQuiet(SCIP* scip, SCIP_Bool quiet);
/* params */
SCIP_RETCODE SCIPsetBoolParam(SCIP* scip, const char* name, SCIP_Bool value);
SCIP_RETCODE SCIPsetIntParam(SCIP* scip, const char* name, int value);
SCIP_RETCODE SCIPsetLongintParam(SCIP* scip, const char* name, SCIP_Longint value);
SCIP_RETCODE SCIPsetRealParam(SCIP* scip, const char* name, SCIP_Real value);
SCIP_RETCODE SCIPgetIntParam(SCIP* scip, const char* name, int* value);
SCIP_RETCODE SCIPgetRealParam(SCIP* scip, const char* name, SCIP_Real* value);
SCIP_RETCODE SCIPgetLongintParam(SCIP* scip, const char* name, SCIP_Longint* value);
SCIP_RETCODE SCIPsetPresolving(SCIP* scip, SCIP_PARAMSETTING s, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetHeuristics(SCIP* scip, SCIP_PARAMSETTING s, SCIP_Bool quiet);
SCIP_RETCODE SCIPsetSeparating(SCIP* scip, SCIP_PARAMSETTING s, SCIP_Bool quiet);
/* numerics */
SCIP_Real SCIPinfinity(SCIP* scip);
SCIP_Real SCIPepsilon(SCIP* scip);
SCIP_Real SCIPfeastol(SCIP* scip);
SCIP_Bool SCIPisZero(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisPositive(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisNegative(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisIntegral(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisInfinity(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisLT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisLE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisGT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisGE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasZero(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasPositive(SCIP* scip, SCIP_Real val);
SCIP_Bool SCIPisFeasEQ(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasLT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasGT(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasIntegral(SCIP* scip, SCIP_Real val);
SCIP_Real SCIPcomputeGap(SCIP_Real eps, SCIP_Real inf, SCIP_Real primalbound, SCIP_Real dualbound);
/* problem */
SCIP_RETCODE SCIPcreateProb(SCIP* scip, const char* name, SCIP_DECL_PROBDELORIG((*probdelorig)), SCIP_DECL_PROBTRANS((*probtrans)),
  SCIP_DECL_PROBDELTRANS((*probdeltrans)), SCIP_DECL_PROBINITSOL((*probinitsol)), SCIP_DECL_PROBEXITSOL((*probexitsol)), SCIP_DECL_PROBCOPY((*probcopy)), SCIP_PROBDATA* probdata);
SCIP_RETCODE SCIPcreateProbBasic(SCIP* scip, const char* name);
SCIP_PROBDATA* SCIPgetProbData(SCIP* scip);
SCIP_RETCODE SCIPsetObjsense(SCIP* scip, SCIP_OBJSENSE objsense);
SCIP_RETCODE SCIPaddVar(SCIP* scip, SCIP_VAR* var);
SCIP_RETCODE SCIPaddCons(SCIP* scip, SCIP_CONS* cons);
SCIP_VAR** SCIPgetVars(SCIP* scip);
int SCIPgetNVars(SCIP* scip);
SCIP_VAR** SCIPgetOrigVars(SCIP* scip);
int SCIPgetNOrigVars(SCIP* scip);
int SCIPgetNConss(SCIP* scip);
SCIP_CONS** SCIPgetConss(SCIP* scip);
int SCIPgetNOrigConss(SCIP* scip);
SCIP_CONS** SCIPgetOrigConss(SCIP* scip);
SCIP_RETCODE SCIPtransformProb(SCIP* scip);
SCIP_RETCODE SCIPpresolve(SCIP* scip);
SCIP_RETCODE SCIPsolve(SCIP* scip);
SCIP_RETCODE SCIPinterruptSolve(SCIP* scip);
/* vars */
SCIP_RETCODE SCIPcreateVar(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype,
  SCIP_Bool initial, SCIP_Bool removable, SCIP_DECL_VARDELORIG((*vardelorig)), SCIP_DECL_VARTRANS((*vartrans)),
  SCIP_DECL_VARDELTRANS((*vardeltrans)), SCIP_DECL_VARCOPY((*varcopy)), SCIP_VARDATA* vardata);
SCIP_RETCODE SCIPcreateVarBasic(SCIP* scip, SCIP_VAR** var, const char* name, SCIP_Real lb, SCIP_Real ub, SCIP_Real obj, SCIP_VARTYPE vartype);
SCIP_RETCODE SCIPreleaseVar(SCIP* scip, SCIP_VAR** var);
SCIP_RETCODE SCIPcaptureVar(SCIP* scip, SCIP_VAR* var);
const char* SCIPvarGetName(SCIP_VAR* var);
SCIP_VARSTATUS SCIPvarGetStatus(SCIP_VAR* var);
SCIP_Real SCIPvarGetObj(SCIP_VAR* var);
int SCIPvarGetProbindex(SCIP_VAR* var);
int SCIPvarGetIndex(SCIP_VAR* var);
SCIP_RETCODE SCIPgetTransformedVar(SCIP* scip, SCIP_VAR* var, SCIP_VAR** transvar);
SCIP_RETCODE SCIPgetTransformedVars(SCIP* scip, int nvars, SCIP_VAR** vars, SCIP_VAR** transvars);
SCIP_RETCODE SCIPchgVarLb(SCIP* scip, SCIP_VAR* var, SCIP_Real v);
SCIP_RETCODE SCIPchgVarUb(SCIP* scip, SCIP_VAR* var, SCIP_Real v);
/* conss */
SCIP_RETCODE SCIPcreateCons(SCIP* scip, SCIP_CONS** cons, const char* name, SCIP_CONSHDLR* conshdlr, SCIP_CONSDATA* consdata,
  SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local,
  SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs,
  SCIP_Bool initial, SCIP_Bool separate, SCIP_Bool enforce, SCIP_Bool check, SCIP_Bool propagate, SCIP_Bool local,
  SCIP_Bool modifiable, SCIP_Bool dynamic, SCIP_Bool removable, SCIP_Bool stickingatnode);
SCIP_RETCODE SCIPcreateConsBasicLinear(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Real* vals, SCIP_Real lhs, SCIP_Real rhs);
SCIP_RETCODE SCIPcreateConsBasicKnapsack(SCIP* scip, SCIP_CONS** cons, const char* name, int nvars, SCIP_VAR** vars, SCIP_Longint* weights, SCIP_Longint capacity);
SCIP_RETCODE SCIPaddCoefLinear(SCIP* scip, SCIP_CONS* cons, SCIP_VAR* var, SCIP_Real val);
int SCIPgetNVarsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_VAR** SCIPgetVarsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real* SCIPgetValsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetLhsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_Real SCIPgetRhsLinear(SCIP* scip, SCIP_CONS* cons);
SCIP_RETCODE SCIPreleaseCons(SCIP* scip, SCIP_CONS** cons);
const char* SCIPconsGetName(SCIP_CONS* cons);
SCIP_CONSHDLR* SCIPconsGetHdlr(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsInitial(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsSeparated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsEnforced(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsChecked(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsPropagated(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsLocal(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsModifiable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsDynamic(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsRemovable(SCIP_CONS* cons);
SCIP_Bool SCIPconsIsStickingAtNode(SCIP_CONS* cons);
SCIP_RETCODE SCIPgetConsNVars(SCIP* scip, SCIP_CONS* cons, int* nvars, SCIP_Bool* success);
SCIP_RETCODE SCIPgetConsVars(SCIP* scip, SCIP_CONS* cons, SCIP_VAR** vars, int varssize, SCIP_Bool* success);
SCIP_RETCODE SCIPgetConsVals(SCIP* scip, SCIP_CONS* cons, SCIP_Real* vals, int varssize, SCIP_Bool* success);
SCIP_Real SCIPconsGetLhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
SCIP_Real SCIPconsGetRhs(SCIP* scip, SCIP_CONS* cons, SCIP_Bool* success);
SCIP_CONSHDLR* SCIPfindConshdlr(SCIP* scip, const char* name);
const char* SCIPconshdlrGetName(SCIP_CONSHDLR* conshdlr);
SCIP_CONSHDLRDATA* SCIPconshdlrGetData(SCIP_CONSHDLR* conshdlr);
SCIP_RETCODE SCIPincludeConshdlrBasic(SCIP* scip, SCIP_CONSHDLR** conshdlrptr, const char* name, const char* desc, int enfopriority, int chckpriority,
  int eagerfreq, SCIP_Bool needscons, SCIP_DECL_CONSENFOLP((*consenfolp)), SCIP_DECL_CONSENFOPS((*consenfops)), SCIP_DECL_CONSCHECK((*conscheck)), SCIP_DECL_CONSLOCK((*conslock)), SCIP_CONSHDLRDATA* conshdlrdata);
SCIP_RETCODE SCIPsetConshdlrSepa(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSSEPALP((*conssepalp)), SCIP_DECL_CONSSEPASOL((*conssepasol)), int sepafreq, int sepapriority, SCIP_Bool delaysepa);
SCIP_RETCODE SCIPsetConshdlrTrans(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSTRANS((*constrans)));
SCIP_RETCODE SCIPsetConshdlrFree(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSFREE((*consfree)));
SCIP_RETCODE SCIPsetConshdlrDelete(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSDELETE((*consdelete)));
SCIP_RETCODE SCIPsetConshdlrPrint(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSPRINT((*consprint)));
SCIP_RETCODE SCIPsetConshdlrInit(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSINIT((*consinit)));
SCIP_RETCODE SCIPsetConshdlrExit(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSEXIT((*consexit)));
SCIP_RETCODE SCIPsetConshdlrInitsol(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSINITSOL((*consinitsol)));
SCIP_RETCODE SCIPsetConshdlrExitsol(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSEXITSOL((*consexitsol)));
SCIP_RETCODE SCIPsetConshdlrInitlp(SCIP* scip, SCIP_CONSHDLR* conshdlr, SCIP_DECL_CONSINITLP((*consinitlp)));
/* rows */
SCIP_RETCODE SCIPcreateEmptyRowConshdlr(SCIP* scip, SCIP_ROW** row, SCIP_CONSHDLR* conshdlr, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcreateEmptyRowUnspec(SCIP* scip, SCIP_ROW** row, const char* name, SCIP_Real lhs, SCIP_Real rhs, SCIP_Bool local, SCIP_Bool modifiable, SCIP_Bool removable);
SCIP_RETCODE SCIPcacheRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPflushRowExtensions(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPaddVarToRow(SCIP* scip, SCIP_ROW* row, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPaddVarsToRow(SCIP* scip, SCIP_ROW* row, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPaddRow(SCIP* scip, SCIP_ROW* row, SCIP_Bool forcecut, SCIP_Bool* infeasible);
SCIP_RETCODE SCIPreleaseRow(SCIP* scip, SCIP_ROW** row);
SCIP_Bool SCIPisCutEfficacious(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
int SCIProwGetNNonz(SCIP_ROW* row);
SCIP_COL** SCIProwGetCols(SCIP_ROW* row);
SCIP_Real* SCIProwGetVals(SCIP_ROW* row);
SCIP_Real SCIProwGetLhs(SCIP_ROW* row);
SCIP_Real SCIProwGetRhs(SCIP_ROW* row);
SCIP_Real SCIProwGetConstant(SCIP_ROW* row);
const char* SCIProwGetName(SCIP_ROW* row);
SCIP_Bool SCIProwIsLocal(SCIP_ROW* row);
SCIP_VAR* SCIPcolGetVar(SCIP_COL* col);
/* sols */
SCIP_RETCODE SCIPcreateSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPsetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var, SCIP_Real val);
SCIP_RETCODE SCIPaddSolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPtrySolFree(SCIP* scip, SCIP_SOL** sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_RETCODE SCIPfreeSol(SCIP* scip, SCIP_SOL** sol);
SCIP_Real SCIPgetSolVal(SCIP* scip, SCIP_SOL* sol, SCIP_VAR* var);
SCIP_SOL* SCIPgetBestSol(SCIP* scip);
int SCIPgetNSols(SCIP* scip);
SCIP_SOL** SCIPgetSols(SCIP* scip);
SCIP_Real SCIPgetSolOrigObj(SCIP* scip, SCIP_SOL* sol);
SCIP_Real SCIPgetPrimalbound(SCIP* scip);
SCIP_Real SCIPgetDualbound(SCIP* scip);
SCIP_Real SCIPgetLowerbound(SCIP* scip);
SCIP_Real SCIPgetUpperbound(SCIP* scip);
SCIP_Real SCIPgetGap(SCIP* scip);
SCIP_Longint SCIPgetNNodes(SCIP* scip);
SCIP_Longint SCIPgetNTotalNodes(SCIP* scip);
SCIP_Real SCIPgetLPObjval(SCIP* scip);
SCIP_LPSOLSTAT SCIPgetLPSolstat(SCIP* scip);
/* tree */
SCIP_NODE* SCIPgetCurrentNode(SCIP* scip);
SCIP_NODE* SCIPgetFocusNode(SCIP* scip);
SCIP_RETCODE SCIPgetChildren(SCIP* scip, SCIP_NODE*** children, int* nchildren);
int SCIPgetNChildren(SCIP* scip);
int SCIPgetDepth(SCIP* scip);
SCIP_Longint SCIPnodeGetNumber(SCIP_NODE* node);
SCIP_NODE* SCIPnodeGetParent(SCIP_NODE* node);
SCIP_Real SCIPnodeGetLowerbound(SCIP_NODE* node);
int SCIPnodeGetDepth(SCIP_NODE* node);
SCIP_RETCODE SCIPbranchLP(SCIP* scip, SCIP_RESULT* result);
/* branch rules */
SCIP_BRANCHRULE* SCIPfindBranchrule(SCIP* scip, const char* name);
SCIP_BRANCHRULE** SCIPgetBranchrules(SCIP* scip);
int SCIPgetNBranchrules(SCIP* scip);
const char* SCIPbranchruleGetName(SCIP_BRANCHRULE* branchrule);
int SCIPbranchruleGetPriority(SCIP_BRANCHRULE* branchrule);
int SCIPbranchruleGetMaxdepth(SCIP_BRANCHRULE* branchrule);
SCIP_BRANCHRULEDATA* SCIPbranchruleGetData(SCIP_BRANCHRULE* branchrule);
SCIP_RETCODE SCIPsetBranchrulePriority(SCIP* scip, SCIP_BRANCHRULE* branchrule, int priority);
SCIP_RETCODE SCIPsetBranchruleMaxdepth(SCIP* scip, SCIP_BRANCHRULE* branchrule, int maxdepth);
/* events */
SCIP_RETCODE SCIPincludeEventhdlrBasic(SCIP* scip, SCIP_EVENTHDLR** eventhdlrptr, const char* name, const char* desc, SCIP_DECL_EVENTEXEC((*eventexec)), SCIP_EVENTHDLRDATA* eventhdlrdata);
SCIP_RETCODE SCIPsetEventhdlrFree(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTFREE((*eventfree)));
SCIP_RETCODE SCIPsetEventhdlrInit(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTINIT((*eventinit)));
SCIP_RETCODE SCIPsetEventhdlrExit(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTEXIT((*eventexit)));
SCIP_RETCODE SCIPsetEventhdlrInitsol(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTINITSOL((*eventinitsol)));
SCIP_RETCODE SCIPsetEventhdlrExitsol(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTEXITSOL((*eventexitsol)));
SCIP_RETCODE SCIPsetEventhdlrDelete(SCIP* scip, SCIP_EVENTHDLR* eventhdlr, SCIP_DECL_EVENTDELETE((*eventdelete)));
SCIP_EVENTHDLR* SCIPfindEventhdlr(SCIP* scip, const char* name);
SCIP_EVENTHDLRDATA* SCIPeventhdlrGetData(SCIP_EVENTHDLR* eventhdlr);
const char* SCIPeventhdlrGetName(SCIP_EVENTHDLR* eventhdlr);
SCIP_RETCODE SCIPcatchEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int* filterpos);
SCIP_RETCODE SCIPdropEvent(SCIP* scip, SCIP_EVENTTYPE eventtype, SCIP_EVENTHDLR* eventhdlr, SCIP_EVENTDATA* eventdata, int filterpos);
SCIP_EVENTTYPE SCIPeventGetType(SCIP_EVENT* event);
/* random */
SCIP_RETCODE SCIPcreateRandom(SCIP* scip, SCIP_RANDNUMGEN** randnumgen, unsigned int initialseed, SCIP_Bool useglobalseed);
void SCIPsetRandomSeed(SCIP* scip, SCIP_RANDNUMGEN* randnumgen, unsigned int seed);
unsigned int SCIPinitializeRandomSeed(SCIP* scip, unsigned int initialseedvalue);
/* plugins */
SCIP_RETCODE SCIPincludeDefaultPlugins(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleFullstrong(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleMostinf(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleLeastinf(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchrulePscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRelpscost(SCIP* scip);
SCIP_RETCODE SCIPincludeBranchruleRandom(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrIntegral(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrKnapsack(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLinear(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrVarbound(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrSetppc(SCIP* scip);
SCIP_RETCODE SCIPincludeConshdlrLogicor(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurDps(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurFeaspump(SCIP* scip);
SCIP_RETCODE SCIPincludeHeurRounding(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBreadthfirst(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselBfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselDfs(SCIP* scip);
SCIP_RETCODE SCIPincludeNodeselEstimate(SCIP* scip);
SCIP_RETCODE SCIPincludeSepaGomory(SCIP* scip);
/* wider surface so that ordinary edits of the repository still build */
SCIP_SOL* SCIPeventGetSol(SCIP_EVENT* event);
SCIP_NODE* SCIPeventGetNode(SCIP_EVENT* event);
SCIP_VAR* SCIPeventGetVar(SCIP_EVENT* event);
SCIP_Real SCIPeventGetOldbound(SCIP_EVENT* event);
SCIP_Real SCIPeventGetNewbound(SCIP_EVENT* event);
SCIP_Real SCIPgetSolTransObj(SCIP* scip, SCIP_SOL* sol);
SCIP_Real SCIPgetCutoffbound(SCIP* scip);
SCIP_Real SCIPgetLocalDualbound(SCIP* scip);
SCIP_Real SCIPgetLocalLowerbound(SCIP* scip);
SCIP_Real SCIPgetDualboundRoot(SCIP* scip);
SCIP_Real SCIPgetLowerboundRoot(SCIP* scip);
SCIP_Real SCIPgetNodeDualbound(SCIP* scip, SCIP_NODE* node);
SCIP_Real SCIPgetNodeLowerbound(SCIP* scip, SCIP_NODE* node);
SCIP_Real SCIPgetTransGap(SCIP* scip);
SCIP_Real SCIPgetObjlimit(SCIP* scip);
SCIP_RETCODE SCIPsetObjlimit(SCIP* scip, SCIP_Real objlimit);
SCIP_Real SCIPretransformObj(SCIP* scip, SCIP_Real obj);
SCIP_Real SCIPtransformObj(SCIP* scip, SCIP_Real obj);
SCIP_Real SCIPgetSolvingTime(SCIP* scip);
SCIP_Longint SCIPgetNSolsFound(SCIP* scip);
SCIP_Longint SCIPgetNBestSolsFound(SCIP* scip);
int SCIPgetNNodesLeft(SCIP* scip);
SCIP_Longint SCIPgetNLPs(SCIP* scip);
SCIP_Longint SCIPgetNLPIterations(SCIP* scip);
int SCIPgetNCuts(SCIP* scip);
int SCIPgetNCutsFound(SCIP* scip);
int SCIPgetNCutsApplied(SCIP* scip);
SCIP_NODE* SCIPgetRootNode(SCIP* scip);
SCIP_Real SCIPnodeGetEstimate(SCIP_NODE* node);
SCIP_Real SCIPvarGetLbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbLocal(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbGlobal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbGlobal(SCIP_VAR* var);
SCIP_Real SCIPvarGetLbOriginal(SCIP_VAR* var);
SCIP_Real SCIPvarGetUbOriginal(SCIP_VAR* var);
SCIP_Bool SCIPvarIsTransformed(SCIP_VAR* var);
SCIP_Bool SCIPvarIsOriginal(SCIP_VAR* var);
SCIP_Bool SCIPvarIsActive(SCIP_VAR* var);
SCIP_Bool SCIPvarIsBinary(SCIP_VAR* var);
SCIP_Bool SCIPvarIsIntegral(SCIP_VAR* var);
SCIP_VARTYPE SCIPvarGetType(SCIP_VAR* var);
SCIP_Real SCIPvarGetLPSol(SCIP_VAR* var);
SCIP_Bool SCIPisFeasGE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasLE(SCIP* scip, SCIP_Real a, SCIP_Real b);
SCIP_Bool SCIPisFeasNegative(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPfloor(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPceil(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPround(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPfrac(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPfeasFloor(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPfeasCeil(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPfeasRound(SCIP* scip, SCIP_Real a);
SCIP_Real SCIPsumepsilon(SCIP* scip);
SCIP_Real SCIPgetCutEfficacy(SCIP* scip, SCIP_SOL* sol, SCIP_ROW* cut);
SCIP_Real SCIPgetRowSolActivity(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
SCIP_Real SCIPgetRowLPActivity(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowActivity(SCIP* scip, SCIP_ROW* row);
SCIP_Real SCIPgetRowSolFeasibility(SCIP* scip, SCIP_ROW* row, SCIP_SOL* sol);
SCIP_RETCODE SCIPaddPoolCut(SCIP* scip, SCIP_ROW* row);
SCIP_RETCODE SCIPaddSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool* stored);
SCIP_RETCODE SCIPtrySol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* stored);
SCIP_RETCODE SCIPcheckSol(SCIP* scip, SCIP_SOL* sol, SCIP_Bool printreason, SCIP_Bool completely, SCIP_Bool checkbounds, SCIP_Bool checkintegrality, SCIP_Bool checklprows, SCIP_Bool* feasible);
SCIP_RETCODE SCIPsetSolVals(SCIP* scip, SCIP_SOL* sol, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPgetSolVals(SCIP* scip, SCIP_SOL* sol, int nvars, SCIP_VAR** vars, SCIP_Real* vals);
SCIP_RETCODE SCIPcreateOrigSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPcreatePartialSol(SCIP* scip, SCIP_SOL** sol, SCIP_HEUR* heur);
SCIP_RETCODE SCIPgetLPBranchCands(SCIP* scip, SCIP_VAR*** lpcands, SCIP_Real** lpcandssol, SCIP_Real** lpcandsfrac, int* nlpcands, int* npriolpcands, int* nfracimplvars);
int SCIPgetNLPBranchCands(SCIP* scip);
SCIP_RETCODE SCIPbranchVar(SCIP* scip, SCIP_VAR* var, SCIP_NODE** downchild, SCIP_NODE** eqchild, SCIP_NODE** upchild);
SCIP_RETCODE SCIPcutoffNode(SCIP* scip, SCIP_NODE* node);
SCIP_RETCODE SCIPgetBoolParam(SCIP* scip, const char* name, SCIP_Bool* value);
SCIP_RETCODE SCIPsetCharParam(SCIP* scip, const char* name, char value);
SCIP_RETCODE SCIPsetStringParam(SCIP* scip, const char* name, const char* value);
SCIP_RETCODE SCIPchgVarObj(SCIP* scip, SCIP_VAR* var, SCIP_Real newobj);
SCIP_RETCODE SCIPchgVarType(SCIP* scip, SCIP_VAR* var, SCIP_VARTYPE vartype, SCIP_Bool* infeasible);
SCIP_RETCODE SCIPfixVar(SCIP* scip, SCIP_VAR* var, SCIP_Real fixedval, SCIP_Bool* infeasible, SCIP_Bool* fixed);
SCIP_Bool SCIPisTransformed(SCIP* scip);
SCIP_Bool SCIPisStopped(SCIP* scip);
SCIP_Bool SCIPinProbing(SCIP* scip);
SCIP_Bool SCIPinRepropagation(SCIP* scip);
const char* SCIPgetProbName(SCIP* scip);
SCIP_OBJSENSE SCIPgetObjsense(SCIP* scip);
SCIP_RETCODE SCIPsetBranchruleMaxbounddist(SCIP* scip, SCIP_BRANCHRULE* rule, SCIP_Real dist);
SCIP_RETCODE SCIPfreeTransform(SCIP* scip);
SCIP_RETCODE SCIPprintBestSol(SCIP* scip, FILE* file, SCIP_Bool printzeros);
SCIP_RETCODE SCIPprintSol(SCIP* scip, SCIP_SOL* sol, FILE* file, SCIP_Bool printzeros);
SCIP_RETCODE SCIPwriteOrigProblem(SCIP* scip, const char* filename, const char* extension, SCIP_Bool genericnames);
void BMScheckEmptyMemory_call(void);
#define BMScheckEmptyMemory() BMScheckEmptyMemory_call()
#ifdef __cplusplus
}
#endif
#endif
