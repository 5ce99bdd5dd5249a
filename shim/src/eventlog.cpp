/* Event recorder used by the Python checks: every hook of vmhooks.hh becomes one
 * JSON line in the file named by vm_log_open(). Nothing here judges anything. */
#include "vmhooks.hh"
#include "pctsp/data_structures.hh"
#include <cstdio>
#include <string>
#include <vector>

namespace {
std::string vname(SCIP_VAR* v) {
    std::string s = SCIPvarGetName(v);
    while (s.rfind("t_", 0) == 0) s = s.substr(2);
    return s;
}
std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.12g", d); return b; }
std::string q(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c >= 32) o += c; } return o + "\""; }

struct EventLog : VMHooks {
    FILE* f = nullptr;
    long lines = 0;
    std::vector<std::string> stack;
    void put(const std::string& s) { if (f) { fputs(s.c_str(), f); fputc('\n', f); lines++; } }
    static long long node(SCIP* scip) {
        int st = (int)SCIPgetStage(scip);
        if (st != (int)SCIP_STAGE_SOLVING) return 0;
        SCIP_NODE* n = SCIPgetCurrentNode(scip);
        return n ? SCIPnodeGetNumber(n) : 0;
    }
    std::string values(SCIP* scip, SCIP_SOL* sol) {
        auto* pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip));
        std::string s = "{";
        if (pd) for (auto& kv : *pd->getEdgeVariableMap()) {
            double v = SCIPgetSolVal(scip, sol, kv.second);
            if (v > 1e-9 || v < -1e-9) s += (s.size() > 1 ? "," : "") + q(vname(kv.second)) + ":" + num(v);
        }
        return s + "}";
    }
    void after_cons(const char* kind, SCIP* scip, SCIP_CONSHDLR* h, SCIP_SOL* sol, SCIP_RETCODE rc, SCIP_RESULT r) override {
        std::string pre = stack.empty() ? "{}" : stack.back();
        if (!stack.empty()) stack.pop_back();
        put("{\"ev\":\"cb\",\"kind\":" + q(kind) + ",\"hdlr\":" + q(SCIPconshdlrGetName(h)) + ",\"node\":" + std::to_string(node(scip)) +
            ",\"stage\":" + std::to_string((int)SCIPgetStage(scip)) + ",\"rc\":" + std::to_string((int)rc) + ",\"result\":" + std::to_string((int)r) +
            ",\"lp\":" + (sol ? "0" : "1") + ",\"vals\":" + pre + (r == SCIP_CUTOFF ? ",\"fixed\":" + fixed(scip) + ",\"primal\":" + num(SCIPgetPrimalbound(scip)) : "") + "}");
    }
    /* the variables fixed at the current node */
    std::string fixed(SCIP* scip) {
        auto* pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip));
        std::string s = "{";
        if (pd) for (auto& kv : *pd->getEdgeVariableMap()) {
            SCIP_VAR* t = kv.second;
            if (!SCIPvarIsTransformed(t) && SCIPgetTransformedVar(scip, t, &t) != SCIP_OKAY) continue;
            if (!t) continue;
            double l = SCIPvarGetLbLocal(t), u = SCIPvarGetUbLocal(t);
            if (u - l < .5) s += (s.size() > 1 ? "," : "") + q(vname(kv.second)) + ":" + num(l);
        }
        return s + "}";
    }
    /* the point is recorded before the callback runs: branching inside it may move the LP */
    void before_cons(const char* kind, SCIP* scip, SCIP_CONSHDLR* h, SCIP_SOL* sol) override {
        stack.push_back(values(scip, sol));
        if (kind[0] == 's') put("{\"ev\":\"sepa\",\"kind\":" + q(kind) + ",\"hdlr\":" + q(SCIPconshdlrGetName(h)) + ",\"vals\":" + stack.back() + "}");
    }
    void before_event(SCIP* scip, SCIP_EVENTHDLR* h, SCIP_EVENT* e) override {
        if (SCIPeventGetType(e) & SCIP_EVENTTYPE_NODEEVENT)
            put("{\"ev\":\"nodeevent\",\"hdlr\":" + q(SCIPeventhdlrGetName(h)) + ",\"node\":" + std::to_string(node(scip)) + "}");
        if (SCIPeventGetType(e) & SCIP_EVENTTYPE_BESTSOLFOUND) {
            SCIP_SOL* s = SCIPeventGetSol(e);
            put("{\"ev\":\"best\",\"hdlr\":" + q(SCIPeventhdlrGetName(h)) + ",\"obj\":" + num(SCIPgetSolOrigObj(scip, s)) + "}");
        }
    }
    void on_try_row(SCIP* scip, SCIP_ROW* row, SCIP_Bool eff) override { if (!eff) record_row(scip, row, "refused"); }
    void on_add_row(SCIP* scip, SCIP_ROW* row) override { record_row(scip, row, "row"); }
    void record_row(SCIP* scip, SCIP_ROW* row, const char* ev) {
        std::string s = std::string("{\"ev\":\"") + ev + "\",\"lhs\":" + num(SCIProwGetLhs(row) - SCIProwGetConstant(row)) + ",\"rhs\":" + num(SCIProwGetRhs(row) - SCIProwGetConstant(row)) +
            ",\"local\":" + (SCIProwIsLocal(row) ? "1" : "0") + ",\"node\":" + std::to_string(node(scip)) + ",\"coefs\":{";
        SCIP_COL** cols = SCIProwGetCols(row); double* vals = SCIProwGetVals(row); int n = SCIProwGetNNonz(row);
        for (int i = 0; i < n; i++) s += (i ? "," : "") + q(vname(SCIPcolGetVar(cols[i]))) + ":" + num(vals[i]);
        put(s + "}}");
    }
    void on_add_cons(SCIP* scip, SCIP_CONS* cons) override {
        SCIP_CONSHDLR* h = SCIPconsGetHdlr(cons);
        std::string hn = SCIPconshdlrGetName(h);
        std::string s = "{\"ev\":\"cons\",\"hdlr\":" + q(hn) + ",\"stage\":" + std::to_string((int)SCIPgetStage(scip)) + ",\"name\":" + q(SCIPconsGetName(cons));
        SCIP_Bool ok = FALSE, ok2 = FALSE; int n = 0;
        SCIPgetConsNVars(scip, cons, &n, &ok);
        if (ok && n >= 0 && (hn == "linear" || hn == "knapsack" || hn == "logicor" || hn == "setppc" || hn == "varbound")) {
            std::vector<SCIP_VAR*> vars(n); std::vector<double> vals(n);
            if (n > 0) { SCIPgetConsVars(scip, cons, vars.data(), n, &ok); SCIPgetConsVals(scip, cons, vals.data(), n, &ok2); } else ok2 = TRUE;
            if (ok && ok2) {
                SCIP_Bool a, b; double lhs = SCIPconsGetLhs(scip, cons, &a), rhs = SCIPconsGetRhs(scip, cons, &b);
                s += ",\"lhs\":" + num(lhs) + ",\"rhs\":" + num(rhs) + ",\"coefs\":[";
                for (int i = 0; i < n; i++) s += std::string(i ? "," : "") + "[" + q(vname(vars[i])) + "," + num(vals[i]) + "]";
                s += "]";
            }
        }
        put(s + "}");
    }
    void on_add_sol(SCIP* scip, SCIP_SOL* sol) override { put("{\"ev\":\"addsol\",\"vals\":" + values(scip, sol) + "}"); }
    void on_solve_begin(SCIP* scip) override {
        auto* pd = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip));
        if (!pd) { put("{\"ev\":\"begin\",\"noprob\":1}"); return; }
        auto& g = *pd->getInputGraph();
        auto prize = boost::get(boost::vertex_distance, g);
        std::string s = "{\"ev\":\"begin\",\"n\":" + std::to_string(boost::num_vertices(g)) + ",\"root\":" + std::to_string(*pd->getRootVertex()) + ",\"quota\":" + std::to_string(*pd->getQuota()) + ",\"prize\":[";
        bool first = true;
        for (auto v : boost::make_iterator_range(boost::vertices(g))) { s += (first ? "" : ",") + std::to_string(prize[v]); first = false; }
        s += "],\"vars\":["; first = true;
        for (auto& kv : *pd->getEdgeVariableMap()) {
            s += std::string(first ? "" : ",") + "[" + std::to_string(boost::source(kv.first, g)) + "," + std::to_string(boost::target(kv.first, g)) + "," + q(vname(kv.second)) + "," + num(SCIPvarGetObj(kv.second)) + "," + num(SCIPvarGetLbOriginal(kv.second)) + "," + num(SCIPvarGetUbOriginal(kv.second)) + "]";
            first = false;
        }
        s += "],\"rules\":[";
        SCIP_BRANCHRULE** rules = SCIPgetBranchrules(scip); int nr = SCIPgetNBranchrules(scip);
        for (int i = 0; i < nr; i++) s += std::string(i ? "," : "") + "[" + q(SCIPbranchruleGetName(rules[i])) + "," + std::to_string(SCIPbranchruleGetPriority(rules[i])) + "," + std::to_string(SCIPbranchruleGetMaxdepth(rules[i])) + "]";
        double tl = -1; SCIPgetRealParam(scip, "limits/time", &tl);
        put(s + "],\"time_limit\":" + num(tl) + "}");
    }
    void on_solve_end(SCIP* scip, SCIP_RETCODE rc) override {
        int st = (int)SCIPgetStatus(scip), ns = SCIPgetNSols(scip);
        put("{\"ev\":\"end\",\"rc\":" + std::to_string((int)rc) + ",\"status\":" + std::to_string(st) + ",\"nsols\":" + std::to_string(ns) + ",\"primal\":" + num(SCIPgetPrimalbound(scip)) +
            ",\"dual\":" + num(SCIPgetDualbound(scip)) + ",\"nnodes\":" + std::to_string(SCIPgetNNodes(scip)) +
            ",\"best\":" + (ns > 0 ? values(scip, SCIPgetBestSol(scip)) : "null") + "}");
    }
} the_log;
}
extern "C" {
int vm_log_open(const char* path) { if (the_log.f) fclose(the_log.f); the_log.f = fopen(path, "w"); the_log.lines = 0; the_log.stack.clear(); vm_hooks = the_log.f ? &the_log : nullptr; return the_log.f != nullptr; }
long vm_log_close() { if (the_log.f) fclose(the_log.f); the_log.f = nullptr; vm_hooks = nullptr; return the_log.lines; }
void vm_log_flush() { if (the_log.f) fflush(the_log.f); }
}
