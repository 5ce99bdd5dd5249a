// Drives the statistics files.
#include <limits>
#include "pctsp/event_handlers.hh"
#include "pctsp/exception.hh"
#include "pctsp/stats.hh"
#include "proto.hpp"

static void handle(Req& q, Ans& a) {
    std::string op = q.word();
    std::filesystem::path f = q.word();
    a.out.precision(17);
#ifndef WITHOUT_write
    if (op == "write") {
        SummaryStats s;
        s.status = (SCIP_Status)q.num();
        s.lower_bound = q.real(); s.upper_bound = q.real();
        s.num_cost_cover_disjoint_paths = q.num(); s.num_cost_cover_shortest_paths = q.num();
        s.nconss_presolve_disjoint_paths = q.num(); s.nconss_presolve_shortest_paths = q.num();
        s.num_cycle_cover = q.num(); s.num_nodes = q.num();
        s.num_sec_disjoint_tour = q.num(); s.num_sec_maxflow_mincut = q.num();
        writeSummaryStatsToYaml(s, f);
        a.one("exists", (int)std::filesystem::exists(f));
        return;
    }
#endif
#ifndef WITHOUT_read
    if (op == "read") {
        try {
            auto s = readSummaryStatsFromYaml(f);
            a.one("status", (int)s.status);
            a.one("lower_bound", s.lower_bound); a.one("upper_bound", s.upper_bound);
            a.one("num_cost_cover_disjoint_paths", s.num_cost_cover_disjoint_paths);
            a.one("num_cost_cover_shortest_paths", s.num_cost_cover_shortest_paths);
            a.one("nconss_presolve_disjoint_paths", s.nconss_presolve_disjoint_paths);
            a.one("nconss_presolve_shortest_paths", s.nconss_presolve_shortest_paths);
            a.one("num_cycle_cover", s.num_cycle_cover); a.one("num_nodes", s.num_nodes);
            a.one("num_sec_disjoint_tour", s.num_sec_disjoint_tour);
            a.one("num_sec_maxflow_mincut", s.num_sec_maxflow_mincut);
        } catch (const FileDoesNotExistError& e) { a.one("missing", e.what()); }
        return;
    }
#endif
#ifndef WITHOUT_nodes
    if (op == "nodes") {
        std::vector<NodeStats> v(q.num());
        for (auto& s : v) {
            s.lower_bound = q.real(); s.node_id = q.num(); s.num_sec_disjoint_tour = q.num(); s.num_sec_maxflow_mincut = q.num();
            s.num_cost_cover_disjoint_paths = q.num(); s.num_cost_cover_shortest_paths = q.num(); s.num_cost_cover_steiner_tree = q.num();
            s.parent_id = q.num(); s.upper_bound = q.real();
        }
        writeNodeStatsToCSV(v, f);
#ifndef WITHOUT_totals
        a.one("dt", numDisjointTourSECs(v));
        a.one("mm", numMaxflowMincutSECs(v));
#endif
        a.one("exists", (int)std::filesystem::exists(f));
        return;
    }
#endif
#ifndef WITHOUT_bounds
    if (op == "bounds") {
        std::vector<Bounds> v(q.num());
        for (auto& b : v) {
            b.start_timestamp = TimePointUTC(std::chrono::milliseconds(q.num()));
            b.end_timestamp = TimePointUTC(std::chrono::milliseconds(q.num()));
            b.lower_bound = q.real(); b.upper_bound = q.real(); b.node_id = q.num();
        }
        writeBoundsToCSV(v, f);
        a.one("exists", (int)std::filesystem::exists(f));
        return;
    }
#endif
    a.one("absent", op);
}
int main() { return serve(handle); }
