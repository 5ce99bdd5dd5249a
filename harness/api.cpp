// Drives the public graph, walk and renaming functions of the C++ library. A section that does not
// compile any more (its function is gone) is left out by build.py.
#include <list>
#include <map>
#include <set>
#include <boost/graph/connected_components.hpp>
#include <boost/graph/depth_first_search.hpp>
#include "pctsp/graph.hh"
#include "pctsp/data_structures.hh"
#include "pctsp/heuristic.hh"
#include "pctsp/preprocessing.hh"
#include "pctsp/renaming.hh"
#include "pctsp/separation.hh"
#include "pctsp/subtour_elimination.hh"
#include "pctsp/walk.hh"
#include "proto.hpp"

typedef PCTSPvertex V;
typedef std::pair<V, V> VP;

static PCTSPgraph readGraph(Req& q, std::vector<PCTSPedge>* edges = nullptr, bool weighted = true) {
    long n = q.num(), m = q.num();
    PCTSPgraph g(n);
    auto cost = boost::get(edge_weight, g);
    for (long i = 0; i < m; i++) {
        long u = q.num(), v = q.num(), c = q.num();
        auto e = boost::add_edge(u, v, g).first;
        if (weighted) cost[e] = c;
        if (edges) edges->push_back(e);
    }
    return g;
}
template <class G, class C> static std::vector<VP> ends(G& g, const C& es) {
    std::vector<VP> r;
    for (auto const& e : es) r.push_back({boost::source(e, g), boost::target(e, g)});
    return r;
}

static void handle(Req& q, Ans& a) {
    std::string op = q.word();
#ifndef WITHOUT_components
    if (op == "components") {
        auto g = readGraph(q);
        std::vector<int> ids(boost::num_vertices(g));
        int k = boost::connected_components(g, &ids[0]);
        auto all = getConnectedComponentsVectors(g, k, ids);
        a.seqs("all", all);
#ifndef WITHOUT_nonsingular
        auto ns1 = getNonSingularConnectedComponentVectors(all);
        auto ns2 = getNonSingularConnectedComponentVectors(g, k, ids);
        a.seqs("ns1", ns1); a.seqs("ns2", ns2);
#endif
        return;
    }
#endif
#ifndef WITHOUT_cycle
    if (op == "cycle") {
        std::vector<PCTSPedge> es;
        auto g = readGraph(q, &es);
        auto idx = q.vec<int>();
        std::vector<PCTSPedge> sub;
        for (int i : idx) sub.push_back(es[i]);
        a.one("simple", (int)isSimpleCycle(g, sub));
        PCTSPgraph h(boost::num_vertices(g));
        for (auto& e : sub) boost::add_edge(boost::source(e, g), boost::target(e, g), h);
        std::vector<int> comp(boost::num_vertices(h) + 1);
        a.one("graph", (int)isGraphSimpleCycle(h, comp));
        std::vector<int> comp2(boost::num_vertices(g) + 1);
        a.one("graph_all", (int)isGraphSimpleCycle(g, comp2));
        return;
    }
#endif
#ifndef WITHOUT_induced
    if (op == "induced") {
        auto g = readGraph(q);
        auto vs = q.vec<V>();
        a.prs("edges", ends(g, getEdgesInducedByVertices(g, vs)));
        try { a.prs("loops", ends(g, getSelfLoops(g, vs))); }
        catch (const NoSelfLoopFoundException&) { a.one("noloop", 1); }
        std::vector<bool> mark(boost::num_vertices(g));
        for (auto v : vs) mark[v] = true;
        auto f = filterMarkedVertices(g, mark);
        auto cost = boost::get(edge_weight, g);
        positive_edge_weight<EdgeCostMap> pos(cost);
        boost::filtered_graph<PCTSPgraph, positive_edge_weight<EdgeCostMap>> fp(g, pos);
        a.one("npos", numEdgesInFilteredGraph(fp));
        std::vector<VP> fe;
        for (auto e : boost::make_iterator_range(boost::edges(f))) fe.push_back({boost::source(e, f), boost::target(e, f)});
        a.prs("fe", fe);
        std::vector<V> fv;
        for (auto v : boost::make_iterator_range(boost::vertices(f))) fv.push_back(v);
        a.seq("fv", fv);
        return;
    }
#endif
#ifndef WITHOUT_edges
    if (op == "edges") {
        std::vector<PCTSPedge> es;
        auto g = readGraph(q, &es);
        auto pairs = q.pairs<V>();
        auto idx = q.vec<int>();
        try { a.prs("found", ends(g, edgesFromVertexPairs(g, pairs))); }
        catch (const EdgeNotFoundException& e) { a.one("missing", e.what()); }
        a.prs("all", ends(g, getEdgeVectorOfGraph(g)));
        std::vector<PCTSPedge> sub;
        for (int i : idx) sub.push_back(es[i]);
        a.prs("sub", getVertexPairVectorFromEdgeSubset(g, sub));
#ifndef WITHOUT_edgevertices
        auto first = sub.begin(), last = sub.end();
        a.seq("verts", getVerticesOfEdges(g, first, last));
#endif
        PCTSPgraph h;
        auto allp = getVertexPairVectorFromEdgeSubset(g, getEdgeVectorOfGraph(g));
        addEdgesToGraph(h, allp);
        a.prs("copy", ends(h, getEdgeVectorOfGraph(h)));
        return;
    }
#endif
#ifndef WITHOUT_loops
    if (op == "loops") {
        auto g = readGraph(q);
        auto prize = q.vec<int>();
        auto cost = boost::get(edge_weight, g);
        a.one("has0", (int)hasSelfLoopsOnAllVertices(g));
        assignZeroCostToSelfLoops(g, cost);
        std::vector<long> c0;
        for (auto e : boost::make_iterator_range(boost::edges(g))) c0.push_back(cost[e]);
        a.seq("c0", c0);
        addSelfLoopsToGraph(g);
        a.one("has1", (int)hasSelfLoopsOnAllVertices(g));
        a.prs("all", ends(g, getEdgeVectorOfGraph(g)));
        std::map<PCTSPedge, int> w;
        putPrizeOntoEdgeWeights(g, prize, w);
        std::vector<long> wv;
        for (auto e : boost::make_iterator_range(boost::edges(g))) wv.push_back(w[e]);
        a.seq("w", wv);
        return;
    }
#endif
#ifndef WITHOUT_reach
    if (op == "reach") {
        auto g = readGraph(q);
        V s = q.num();
        auto cost = boost::get(edge_weight, g);
        a.seq("yes", getReachableVertices(g, s, cost));
        a.seq("no", getUnreachableVertices(g, s, cost));
        return;
    }
#endif
#ifndef WITHOUT_walk
    if (op == "walk") {
        auto g = readGraph(q);
        auto prize = q.vec<int>();
        auto w = q.vec<V>();
        auto cost = boost::get(edge_weight, g);
        std::list<V> l(w.begin(), w.end());
        try {
            auto f = w.begin(), e = w.end();
            auto es = getEdgesInWalk(g, f, e);
            a.prs("edges", ends(g, es));
#ifndef WITHOUT_edgecost
            a.one("ce", totalCost(es, cost));
            std::list<PCTSPedge> le(es.begin(), es.end());
            a.one("cle", totalCost(le, cost));
#endif
        } catch (const EdgeNotFoundException& e) { a.one("missing", e.what()); }
        try { a.one("cv", totalCost(g, w, cost)); } catch (const EdgeNotFoundException&) { a.one("cv", "missing"); }
        try { a.one("cl", totalCost(g, l, cost)); } catch (const EdgeNotFoundException&) { a.one("cl", "missing"); }
        a.one("pv", totalPrize(prize, w));
        a.one("pl", totalPrize(prize, l));
        if (!l.empty()) a.one("pt", totalPrizeOfTour(prize, l));
        a.one("pg", totalPrizeOfGraph(g, prize));
#ifndef WITHOUT_walktext
        a.one("str", walkToString(l));
#endif
        if (w.size() >= 2) {
            std::vector<int> in;
            for (V v = 0; v < boost::num_vertices(g); v++) in.push_back(isInternalVertexOfWalk(w, v));
            a.seq("internal", in);
        }
        int quota = q.num();
#ifndef WITHOUT_feasible
        a.one("feas", (int)isPrizeFeasible(prize, quota, w));
#endif
        return;
    }
#endif
#ifndef WITHOUT_tour
    if (op == "tour") {
        auto w = q.vec<V>();
        V root = q.num();
        int i = q.num(), j = q.num();
        std::list<V> l(w.begin(), w.end());
        a.seq("reordered", ReorderTourFromRoot(l, root));
        a.seq("sub", getSubpathOfCycle(l, i, j));
        a.seq("unchanged", l);
        return;
    }
#endif
#ifndef WITHOUT_swap
    if (op == "swap") {
        auto w = q.vec<V>();
        auto p = q.vec<V>();
        int i = q.num(), j = q.num();
        std::list<V> l(w.begin(), w.end()), np(p.begin(), p.end());
        swapPathsInTour(l, np, i, j);
        a.seq("tour", l);
        a.seq("path", np);
        return;
    }
#endif
#ifndef WITHOUT_search
    if (op == "search") {
        auto g = readGraph(q);
        V s = q.num();
        auto pre = q.vec<V>();
        int depth = q.num();
        int n = boost::num_vertices(g);
        for (int k = 0; k < 2; k++) {
            std::vector<bool> mark(n);
            for (auto v : pre) mark[v] = true;
            std::vector<V> par(n);
            for (int v = 0; v < n; v++) par[v] = v;
            if (k) breadthFirstSearch(g, s, mark, par, depth); else depthFirstSearch(g, s, mark, par, depth);
            a.seq(k ? "bmark" : "dmark", std::vector<int>(mark.begin(), mark.end()));
            a.seq(k ? "bpar" : "dpar", par);
            std::vector<std::list<V>> paths;
            for (V v = 0; v < (V)n; v++) paths.push_back(pathInTreeFromParents(par, s, v));
            a.seqs(k ? "bpath" : "dpath", paths);
        }
        return;
    }
#endif
#ifndef WITHOUT_dijkstra
    if (op == "dijkstra") {
        auto g = readGraph(q);
        V s = q.num(), t = q.num();
        auto pre = q.vec<V>();
        int n = boost::num_vertices(g);
        std::vector<bool> mark(n);
        for (auto v : pre) mark[v] = true;
        std::vector<V> pred(n);
        std::vector<int> dist(n);
        std::vector<ColorType> col(n);
        auto cost = boost::get(edge_weight, g);
        int found = 0;
        try { dijkstraShortestPathBlacklist(g, s, t, pred, dist, cost, col, mark); }
        catch (const TargetVertexFound&) { found = 1; }
        a.one("found", found);
        if (found) { a.one("dist", dist[t]); a.seq("path", pathInTreeFromParents(pred, s, t)); }
        return;
    }
#endif
#ifndef WITHOUT_common
    if (op == "common") {
        auto g = readGraph(q);
        V u = q.num(), v = q.num();
        a.seq("common", neighborIntersection(g, u, v));
        return;
    }
#endif
#ifndef WITHOUT_gain
    if (op == "gain") {
        int p = q.num(), a1 = q.num(), b = q.num(), c = q.num();
        a.out.precision(9);
#ifndef WITHOUT_gainrule
        a.one("gain", unitaryGain(p, a1, b, c));
#endif
        int ip = q.num(), ic = q.num();
#ifndef WITHOUT_lossrule
        a.one("loss", unitaryLoss(p, ip, a1, ic));
#endif
        auto lv = q.vec<int>();
        auto fv = q.vec<int>();
        std::vector<float> l(lv.begin(), lv.end());
        std::vector<bool> f(fv.begin(), fv.end());
#ifndef WITHOUT_feasibleloss
        a.one("nfeas", numFeasibleExtensions(f));
#endif
#ifndef WITHOUT_smallestloss
        a.one("best", indexOfSmallestLoss(l, f));
#endif
#ifndef WITHOUT_averageloss
        if (numFeasibleExtensions(f)) a.one("avg", averageUnitaryLoss(l, f));
#endif
        return;
    }
#endif
#ifndef WITHOUT_tailing
    if (op == "tailing") {
        std::list<double> gaps;
        long n = q.num();
        std::vector<double> gs;
        for (long i = 0; i < n; i++) gs.push_back(q.real());
        double thr = q.real();
        int max = q.num();
        std::vector<int> verdicts, sizes;
        for (double x : gs) {
            pushIntoRollingLpGapList(gaps, x, max);
            sizes.push_back(gaps.size());
            verdicts.push_back(isNodeTailingOff(gaps, thr, max));
        }
        a.seq("verdicts", verdicts);
        a.seq("sizes", sizes);
        return;
    }
#endif
#ifndef WITHOUT_rename
    if (op == "rename") {
        auto edges = q.pairs<V>();
        auto costs = q.vec<int>();
        auto pv = q.vec<V>();
        auto pp = q.vec<int>();
        auto more = q.pairs<V>();
        auto ask = q.vec<V>();
        boost::bimap<V, V> m;
        auto ne = renameEdges(m, edges);
        a.prs("new", ne);
        a.one("size", m.size());
#ifndef WITHOUT_oldedges
        a.prs("old", getOldEdges(m, ne));
#endif
#ifndef WITHOUT_newedges
        a.prs("again", getNewEdges(m, edges));
#endif
        std::vector<V> names;
        for (V i = 0; i < m.size(); i++) names.push_back(getOldVertex(m, i));
        a.seq("names", names);
#ifndef WITHOUT_vertexlists
        std::vector<V> back = getNewVertices(m, names);
        a.seq("back", back);
        a.seq("names2", getOldVertices(m, back));
#endif
        std::vector<std::string> asked;
        for (auto v : ask) {
            try { asked.push_back(std::to_string(getNewVertex(m, v))); } catch (const VertexNotFoundException&) { asked.push_back("missing"); }
            try { asked.push_back(std::to_string(getOldVertex(m, v))); } catch (const VertexNotFoundException&) { asked.push_back("missing"); }
        }
        a.seq("asked", asked);
        PCTSPgraph g;
        addEdgesToGraph(g, ne);
        auto cm = boost::get(edge_weight, g);
        std::map<VP, int> oc;
        for (size_t i = 0; i < edges.size(); i++) oc[edges[i]] = costs[i];
        fillCostMapFromRenamedMap(g, cm, oc, m);
        std::vector<long> got;
        for (auto& e : ne) got.push_back(cm[boost::edge(e.first, e.second, g).first]);
        a.seq("costs", got);
        std::map<V, int> op2;
        for (size_t i = 0; i < pv.size(); i++) op2[pv[i]] = pp[i];
        std::vector<int> np(m.size());
        fillRenamedVertexMap(np, op2, m);
        a.seq("prizes", np);
        std::string verdict = "ok";
        try { for (auto& e : more) oc[e] = 1; fillCostMapFromRenamedMap(g, cm, oc, m); }
        catch (const EdgeNotFoundException&) { verdict = "edge"; }
        catch (const VertexNotFoundException&) { verdict = "vertex"; }
        a.one("more", verdict);
#ifndef WITHOUT_vertexnames
        boost::bimap<V, V> m2;
        renameVertices(m2, pv);
        std::vector<V> n2;
        for (V i = 0; i < m2.size(); i++) n2.push_back(getOldVertex(m2, i));
        a.seq("vnames", n2);
#endif
        return;
    }
#endif
    a.one("absent", op);
}
int main() { return serve(handle); }
