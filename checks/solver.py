"""Branch and cut: S01-S14. The deciding step of each is an oracle over the recorded events
of real solver runs, against exhaustive enumeration of the tours of the logged instance."""
import numpy as np
import networkx as nx
import yaml
from rt import prop
import pc
from pctsp.vial import BranchingStrategy


def interesting(r):
    return sum(e["ev"] == "row" for e in r.log), sum(e["ev"] == "sepa" for e in r.log)


def tour_or_nothing(c, inst, r, feas_known=None):
    if r.edges:
        bad = pc.judge_tour(inst, r.edges)
        c.check(not bad, lambda: "returned edges %r: %s" % (r.edges, "; ".join(bad)), lambda: dict(inst.dump(), opts=r.opts, status=r.status))
    else:
        c.acc["evals"] += 1


# ---------------------------------------------------------------- S01
@prop("S01", 4000, 32000, lib="plain", min_distinct=60,
      rule="distinct (instance, returned edge set) with a non-empty returned tour, or a limit that stopped the search")
def s01(c):
    """Every returned tour is feasible, also on larger graphs and when a time limit stops the search."""
    rng = c.rng
    big = rng.random() < .25
    inst = pc.instance(rng, 9, rng.choice([12, 16, 20]), fam=rng.choice(["gnp", "metric", "clusters", "grid", "ring", "pendant", "ties"]), isolated=rng.random() < .3, loops=.15) if big \
        else pc.instance(rng, 3, 8, isolated=rng.random() < .3, loops=.15)
    opts = pc.options(rng, inst)
    if big:
        opts["sec_disjoint_tour"] = True
        opts["time_limit"] = rng.choice([0.02, 0.05, 0.2, 1.0])
    elif rng.random() < .15:
        opts["time_limit"] = rng.choice([0.0, 0.001])
    heur = []
    if rng.random() < .4:
        feas = [x for x in pc.simple_cycles(inst.g, inst.root, 300) if inst.prize(x) >= inst.quota]
        if feas:
            heur = pc.heuristic_edges(rng, inst, feas)
    limits = pc.limits(rng) if rng.random() < .25 else None
    if not big and inst.g.degree(inst.root) and rng.random() < .3:
        b = pc.basic(c, inst, heur if rng.random() < .7 else (), limits)
        tour_or_nothing(c, inst, b)
        c.event("basic_" + b.status)
        c.check(b.status in ("optimal", "infeasible") + (pc.LIMITED if limits else ()), "the basic solver ended with status %s" % b.status, inst.dump)
        c.check((b.status != "optimal" or b.edges) and (b.status != "infeasible" or not b.edges), lambda: "the basic solver ended with status %s and returned %r" % (b.status, b.edges), inst.dump)
    r = pc.solve(c, inst, heur, opts, limits=limits)
    tour_or_nothing(c, inst, r)
    c.event("status_" + r.status)
    c.event("large" if big else "small")
    c.check(r.begin is None or abs(r.begin["time_limit"] - opts.get("time_limit", 14400)) < 1e-6, lambda: "a time limit of %s was asked, the solver runs with %s" % (opts.get("time_limit"), r.begin["time_limit"]), inst.dump)
    c.check(r.status in ("optimal", "infeasible", "timelimit", "gaplimit") + (pc.LIMITED if limits else ()), "solver ended with status %s" % r.status, inst.dump)
    if r.status == "optimal":
        c.check(bool(r.edges), "status optimal but no tour returned", lambda: dict(inst.dump(), opts=opts))
    if r.status == "infeasible":
        c.check(not r.edges, "status infeasible but a tour was returned", lambda: dict(inst.dump(), opts=opts))
    if r.end and r.end["best"] is not None:
        # what was returned is the best solution the solver holds
        best = {frozenset(v[:2]) for v in r.begin["vars"] if v[0] != v[1] and r.end["best"].get(v[2], 0) > .5}
        c.check(len(best) == len(r.edges), "returned %d edges, the incumbent has %d" % (len(r.edges), len(best)), inst.dump)
    if r.edges or r.status == "timelimit":
        c.distinct(inst.sig(), sorted(map(sorted, r.edges)))
    c.sample({"instance": inst.dump() if not big else inst.family, "options": str(opts), "returned": r.edges, "status": r.status})


# ---------------------------------------------------------------- S02
@prop("S02", 8800, 70400, lib="plain", min_distinct=300,
      rule="distinct (instance, options) solved whose optimum (or infeasibility) was established independently by enumeration or subset dynamic programming")
def s02(c):
    rng = c.rng
    dp = rng.random() < (.06 if c.thorough else .03)
    if dp:
        inst = pc.instance(rng, 9, 11 if not c.thorough else 12, isolated=rng.random() < .2, loops=.15)
        best = pc.held_karp(inst)
    else:
        inst = pc.instance(rng, 3, 8, isolated=rng.random() < .3, loops=.15)
        best = min(map(inst.cost, inst.feasible()), default=None)
    for _ in range(1 if dp else 2):
        opts = pc.options(rng, inst)
        heur = []
        if not dp and best is not None and rng.random() < .35:
            heur = pc.heuristic_edges(rng, inst, inst.feasible(), rng.choice(["any", "worst", "best"]))
        r = pc.solve(c, inst, heur, opts, log=False)
        data = lambda: dict(inst.dump(), opts=opts, heur=heur, returned=r.edges, status=r.status, optimum=best)
        if best is None:
            c.check(not r.edges and r.status == "infeasible", lambda: "no feasible tour exists, but status %s and returned %r" % (r.status, r.edges), data)
            c.event("infeasible_confirmed")
        else:
            c.check(bool(r.edges) and r.status == "optimal", lambda: "a feasible tour of cost %d exists, but status %s and returned %r" % (best, r.status, r.edges), data)
            bad = pc.judge_tour(inst, r.edges)
            cost = sum(inst.g[a][b]["cost"] for a, b in r.edges if inst.g.has_edge(a, b))
            c.check(not bad and cost == best, lambda: "returned cost %d, optimum %d; %s" % (cost, best, bad), data)
            c.event("optimum_confirmed")
        c.event("strategy_%d" % opts["branching_strategy"])
        for k in ("cycle_cover", "cost_cover_shortest_path", "cost_cover_disjoint_paths", "simple_rules_only", "sec_disjoint_tour", "sec_maxflow_mincut"):
            if opts.get(k):
                c.event("with_" + k)
        c.event("by_dp" if dp else "by_enumeration")
        c.distinct(inst.sig(), str(sorted(opts.items(), key=str)))
    if not dp and inst.g.degree(inst.root) and rng.random() < .15:
        heur = pc.heuristic_edges(rng, inst, inst.feasible()) if best is not None and rng.random() < .5 else ()
        b = pc.basic(c, inst, heur)
        cost = sum(inst.g[x][y]["cost"] for x, y in b.edges if inst.g.has_edge(x, y))
        c.check(b.status == ("infeasible" if best is None else "optimal") and (not b.edges if best is None else not pc.judge_tour(inst, b.edges) and cost == best),
                lambda: "the basic solver ended with status %s and a tour of cost %d, the optimum is %s" % (b.status, cost, best), lambda: dict(inst.dump(), heur=heur, returned=b.edges))
        c.event("basic_confirmed")
    c.sample({"instance": inst.dump(), "optimum": best})


# ---------------------------------------------------------------- S03
def hard_instance(rng, hi=9):
    """Shapes on which the relaxation has subtours."""
    return pc.instance(rng, 6, hi, fam=rng.choice(["clusters", "clusters", "metric", "cactus", "twoparts", "grid", "gnp", "ties", "ladder", "ring", "pendant"]), isolated=rng.random() < .2, zero_cost=.2, loops=.15)


@prop("S03", 5600, 44800, lib="plain", min_distinct=300,
      rule="distinct cutting planes recorded while solving, each tested against every feasible tour of its instance")
def s03(c):
    rng = c.rng
    inst = hard_instance(rng)
    opts = pc.options(rng, inst, cost_cover=False)
    opts["cycle_cover"] = rng.random() < .6
    r = pc.solve(c, inst, (), opts)
    if r.begin is None:
        return
    sp = pc.Space(r.begin)
    if not sp.complete:
        c.event("skipped_too_many_tours")
        return
    hdlr = None
    for e in r.log:
        if e["ev"] == "sepa":
            hdlr = e["hdlr"]
        elif e["ev"] == "row":
            v = sp.vec(e["coefs"])
            c.check(v is not None, "a cut names an unknown variable", e)
            k = sp.cut_off(e)
            c.check(k is None, lambda: "a cut excludes the feasible tour %r (cost %g)" % (sp.cyc[k], sp.costs[k]), lambda: {"row": e, "begin": r.begin, "opts": opts})
            c.event("rows_" + str(hdlr).replace(" ", "_"))
            c.event("tour_row_pairs", int(sp.feas.sum()))
            c.distinct(inst.sig(), tuple(sorted(e["coefs"].items())), e["rhs"])
            c.sample({"row": e, "tours_tested": int(sp.feas.sum())})
            # subtour rows also hold for tours below the quota, cycle covers need not
            if hdlr == "pctsp_sec_handler":
                k = sp.cut_off(e, np.ones(len(sp.cyc), bool))
                c.check(k is None, lambda: "a subtour cut excludes the tour %r" % (sp.cyc[k],), lambda: {"row": e, "begin": r.begin})
        elif e["ev"] == "cons" and e.get("coefs") and e["name"] in ("prize-constraint", "root-constraint"):
            c.event("model_constraints")


# ---------------------------------------------------------------- S04
@prop("S04", 6000, 48000, lib="plain", min_distinct=250,
      rule="distinct cost cover inequalities recorded, each tested against every feasible tour no dearer than the best tour known at that moment")
def s04(c):
    rng = c.rng
    inst = pc.instance(rng, 4, 8, isolated=rng.random() < .3, fam=rng.choice(["gnp", "metric", "complete", "ring", "pendant", "grid", "wheel", "clusters", "twoparts"]), loops=.15)
    crowd = rng.random() < .03
    if not crowd and rng.random() < .05:  # a vertex so far away that twice its distance does not fit an int
        v = max(inst.g) + 1
        inst.g.add_edge(rng.choice([u for u in inst.g]), v, cost=rng.randint(2**29, 2**31 - 10**8))
        inst.g.nodes[v]["prize"] = rng.randint(0, 9)
        c.event("far_vertex")
    if crowd:  # more vertices out of reach than one round of a handler may be limited to
        top = 1 + sum(x for _, _, x in inst.g.edges(data="cost"))
        old = list(inst.g)
        for v in range(max(old) + 1, max(old) + rng.randint(40, 150)):
            inst.g.add_edge(rng.choice(old), v, cost=rng.randint(top, 2 * top))
            inst.g.nodes[v]["prize"] = rng.randint(0, 9)
        c.event("many_far_vertices")
    feas = inst.feasible()
    opts = pc.options(rng, inst, cost_cover=False)
    mode = rng.choice(["sp", "dp", "both"]) if not crowd else rng.choice(["sp", "both"])
    if mode != "dp":
        opts["cost_cover_shortest_path"] = True
    if mode != "sp":
        d = pc.disjoint_costs(inst)
        if rng.random() < .5:
            d[inst.root] = min(pc.INT_MAX, 2 * sum(sorted(x["cost"] for v, x in inst.g[inst.root].items() if v != inst.root)[:2]))
        opts["cost_cover_disjoint_paths"], opts["disjoint_paths_cost"] = True, d
    heur = pc.heuristic_edges(rng, inst, feas, rng.choice(["any", "worst", "best", "best"])) if feas and rng.random() < .6 else []
    r = pc.solve(c, inst, heur, opts)
    if r.begin is None:
        return
    sp = pc.Space(r.begin)
    bound = None
    hc = sum(inst.g[a][b]["cost"] for a, b in heur)
    n = 0
    active, pending, seen_nodes = [], [], set()
    # a bound that is due: every vertex dearer than it must be excluded by now
    g0 = inst.g.copy()
    g0.remove_edges_from(list(nx.selfloop_edges(g0)))
    far = {v: 2 * x for v, x in nx.single_source_dijkstra_path_length(sp.g, sp.root, weight="cost").items() if v != sp.root} if mode != "dp" else {}
    dear = [x for v, x in opts.get("disjoint_paths_cost", {}).items() if v != inst.root and g0.degree(v)]
    due, out = hc if heur and hc > 0 else None, set()
    for e in r.log:
        if e["ev"] in ("nodeevent", "cb", "begin", "best", "end") and due is not None:
            miss = [v for v, x in far.items() if x > due + 1e-6 and v not in out]
            # (the initial tour counts from before the search, new tours as soon as both handlers were told)
            if e["ev"] != "best":
                c.check(not miss, lambda: "a tour of cost %g is known, reaching vertex %d costs %g, but no cost cover excludes it" % (due, miss[0], far[miss[0]]), lambda: {"begin": r.begin, "inst": inst.dump(), "opts": opts, "heur": heur})
                c.check(len(out) >= sum(x > due + 1e-6 for x in dear), lambda: "a tour of cost %g is known, %d vertices are dearer, only %d are excluded" % (due, sum(x > due + 1e-6 for x in dear), len(out)), lambda: {"inst": inst.dump(), "opts": opts, "heur": heur})
                c.event("bounds_settled")
                due = None
        if e["ev"] == "best":
            bound = due = e["obj"]
        if e["ev"] == "nodeevent" and e["node"] not in seen_nodes:
            seen_nodes.add(e["node"])
            active += pending
            pending = []
        if e["ev"] == "cb" and e["kind"] in ("sepalp", "enfolp") and e["lp"] and e["node"]:
            # covers known before this node was entered are in force at its relaxation
            for a, q in active:
                val = sum(k * e["vals"].get(sp.names[i], 0) for i, k in a)
                c.check(val <= q["rhs"] + 1e-5, lambda: "a relaxation uses what the cost cover %r forbids (%g > %g)" % (q["coefs"], val, q["rhs"]), lambda: {"cons": q, "point": e, "inst": inst.dump(), "opts": opts})
                c.event("points_under_cover")
        if e["ev"] == "cons" and e["name"].startswith("CostCover") or e["ev"] == "cons" and "over" in e["name"] and e.get("coefs"):
            if "coefs" not in e:
                c.event("cover_without_coefs")
                continue
            b = bound if bound is not None else hc
            # every tour at most as costly as the best one known must survive
            k = sp.cut_off(e, sp.feas & (sp.costs <= b + pc.EPS))
            c.check(k is None, lambda: "a cost cover added at incumbent cost %g excludes the feasible tour %r of cost %g" % (b, sp.cyc[k], sp.costs[k]),
                    lambda: {"cons": e, "inst": inst.dump(), "opts": opts, "heur": heur})
            c.event("covers_initial" if bound is None else "covers_during_search")
            n += 1
            out |= {v for v, i in sp.loop.items() if v != sp.root and sum(a for m, a in e["coefs"] if m in (sp.names[i], sp.names[sp.loop[sp.root]])) > e["rhs"] + 1e-9 and all(a >= 0 for _, a in e["coefs"])
                    and sum(a for m, a in e["coefs"] if m == sp.names[i]) > 0}
            (active if e["stage"] <= 2 else pending).append(([(int(i), a) for i, a in enumerate(sp.vec(e["coefs"])) if a], e))
            c.distinct(inst.sig(), tuple(map(tuple, e["coefs"])), b)
            c.sample({"cover": e, "bound": b, "instance": inst.dump()})
    # not vacuous: vertices dearer than the bound are really forbidden
    final = min((inst.cost(x) for x in feas), default=None)
    if final is not None:
        cost = sum(inst.g[a][b]["cost"] for a, b in r.edges if inst.g.has_edge(a, b))
        c.check(cost == final, lambda: "cost covers lost the optimum: returned %d, optimum %d" % (cost, final), lambda: dict(inst.dump(), opts=opts, heur=heur))
    else:
        c.check(not r.edges, "a tour was returned for an infeasible instance", inst.dump)
    c.event("mode_" + mode)
    c.event("covers", n)


# ---------------------------------------------------------------- S05
@prop("S05", 6600, 52800, lib="plain", min_distinct=200,
      rule="distinct integral candidates on which the solver asked for a verdict, each compared with a direct definition of a tour")
def s05(c):
    rng = c.rng
    inst = hard_instance(rng)
    opts = pc.options(rng, inst, cost_cover=False)
    feas = [x for x in pc.simple_cycles(inst.g, inst.root, 500) if inst.prize(x) >= inst.quota]
    heur = pc.heuristic_edges(rng, inst, feas) if feas and rng.random() < .4 else []
    r = pc.solve(c, inst, heur, opts)
    if r.begin is None:
        return
    sp = pc.Space(r.begin)
    R = pc.RESULT
    for e in r.log:
        if e["ev"] == "cb" and e["result"] == R["cutoff"] and e["kind"] != "check" and sp.complete:
            # giving up a node is a verdict on everything below it: no better tour may fit its fixed variables
            ok = sp.feas & (sp.costs <= e["primal"] - 1)
            for n, v in e["fixed"].items():
                ok &= abs(sp.X[:, sp.idx[n]] - v) < .5
            w = np.flatnonzero(ok)
            c.check(not len(w), lambda: "%s gave up a node (%s) that holds the better tour %r of cost %g" % (e["hdlr"], e["kind"], sp.cyc[w[0]], sp.costs[w[0]]), lambda: {"event": e, "inst": inst.dump(), "opts": opts})
            c.event("nodes_given_up")
        if e["ev"] != "cb" or e["kind"] not in ("check", "enfolp", "enfops"):
            continue
        if e["hdlr"] == "Cycle cover" and sp.integral(e["vals"]) and sp.is_tour(e["vals"]):
            # whoever is asked: a tour that meets the quota is acceptable
            if sum(sp.prize[v] for v, i in sp.loop.items() if e["vals"].get(sp.names[i], 0) > .5) >= sp.quota:
                c.check(e["result"] == R["feasible"], "a feasible tour was rejected by the cycle cover constraint", lambda: {"event": e, "inst": inst.dump(), "opts": opts})
                c.event("cover_verdicts_on_tours")
        if e["hdlr"] != "pctsp_sec_handler":
            continue
        c.check(e["rc"] == 1, "verdict callback failed with code %d" % e["rc"], e)
        if not sp.integral(e["vals"]):
            c.event("fractional_" + e["kind"])
            continue
        tour = sp.is_tour(e["vals"])
        # candidates the other constraints reject anyway carry no obligation
        deg_ok = all(abs(sum(e["vals"].get(sp.names[i], 0) for k, i in sp.edge.items() if v in k) - 2 * e["vals"].get(sp.names[j], 0)) < 1e-6 for v, j in sp.loop.items())
        rooted = e["vals"].get(sp.names[sp.loop[sp.root]], 0) > .5
        c.event("%s_%s" % (e["kind"], "tour" if tour else "subtours" if deg_ok and rooted else "other"))
        if tour:
            c.check(e["result"] == R["feasible"], "a simple cycle through the root was rejected", lambda: {"event": e, "inst": inst.dump(), "opts": opts})
        elif deg_ok and rooted:
            c.check(e["result"] not in (R["feasible"],), "a point with a subtour was accepted", lambda: {"event": e, "inst": inst.dump(), "opts": opts})
        if tour or (deg_ok and rooted):
            c.distinct(inst.sig(), tuple(sorted(e["vals"])))
            c.sample({"kind": e["kind"], "selected": sorted(e["vals"]), "is_tour": tour, "verdict": e["result"]})


# ---------------------------------------------------------------- S06
COUNTS = ["num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths", "nconss_presolve_shortest_paths",
          "num_cycle_cover", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]


def pinned_undercount():
    """Small fixed instance of the recorded finding: the record of the newest search node is
    reset by later node events, so its subtour cuts vanish from the summary."""
    g = nx.Graph()
    for a, b, k in [(0, 1, 1), (1, 2, 1), (0, 2, 1), (3, 4, 1), (4, 5, 1), (3, 5, 1), (0, 3, 50), (1, 4, 50)]:
        g.add_edge(a, b, cost=k)
    for v in g:
        g.nodes[v]["prize"] = 1
    return pc.Inst(g, 0, 5, "pinned")


@prop("S06", 8800, 70400, lib="plain", min_distinct=200,
      rule="distinct (instance, summary contents) compared with the recorded events and the independent optimum")
def s06(c):
    rng = c.rng
    if c.idx == 0:
        inst = pinned_undercount()
        r = pc.solve(c, inst, (), dict(sec_maxflow_mincut=False, simple_rules_only=True))
        s = yaml.safe_load(r.summary_file.read_text())
        made = sum(e["ev"] == "row" for e in r.log)
        c.event("pinned_rows", made)
        c.check(s["num_sec_disjoint_tour"] >= made, "summary reports %d disjoint tour cuts, %d were added" % (s["num_sec_disjoint_tour"], made), key="undercount-pinned")
        return
    inst = pc.instance(rng, 3, 8, isolated=rng.random() < .3, loops=.15) if rng.random() < .6 else hard_instance(rng, 8)
    opts = pc.options(rng, inst)
    lim = rng.random() < .12
    if lim:
        opts["time_limit"] = 0.0
    feas = inst.feasible()
    best = min(map(inst.cost, feas), default=None)
    heur = pc.heuristic_edges(rng, inst, feas) if feas and rng.random() < .5 else []
    where = None
    if rng.random() < .15:  # results of an earlier run into the same directory are replaced
        prev = pc.instance(rng, 3, 6)
        where = pc.solve(c, prev, (), pc.options(rng, prev), log=False).dir
        c.event("directories_reused")
    r = pc.solve(c, inst, heur, opts, limits=pc.limits(rng) if not lim and rng.random() < .2 else None, where=where)
    data = lambda: dict(inst.dump(), opts=opts, heur=heur, summary=s)
    s = None
    if not c.check(r.summary_file.exists(), "no summary file was written", data):
        return
    s = yaml.safe_load(r.summary_file.read_text())
    s["lower_bound"], s["upper_bound"] = float(s["lower_bound"]), float(s["upper_bound"])
    from pctsp.algorithms import SummaryStats
    st = c.call("reading the summary", SummaryStats.from_yaml, r.summary_file)
    c.check({k: getattr(st, k) for k in s} == s and set(s) == set(COUNTS) | {"status", "lower_bound", "upper_bound", "num_nodes"}, "summary read back differs from the file", data)
    text = r.dir / "scip_logs.txt"
    text = text.read_text() if text.exists() else None
    # the solver's own statistics are kept beside it: of this run, not of an earlier one (a solver with only the simple rules has none to print)
    c.check(text is not None and (opts["simple_rules_only"] and "SCIP Status" not in text or "SCIP Status" in text and ("optimal solution found" in text) == (r.status == "optimal") and ("[infeasible]" in text) == (r.status == "infeasible")),
            lambda: "the solver ended with status %s, its statistics file says %r" % (r.status, text and text[:80]), data)
    c.event("statistics_printed", "SCIP Status" in (text or ""))
    c.check(s["status"] == r.end["status"], lambda: "summary status %s, solver ended with %s" % (s["status"], r.end["status"]), data)
    c.check(s["num_nodes"] == r.end["nnodes"], lambda: "summary nodes %s, solver processed %s" % (s["num_nodes"], r.end["nnodes"]), data)
    close = lambda a, b: abs(a - b) <= 1e-4 * max(1, abs(a), abs(b))
    if r.status == "optimal":
        c.check(best is not None and close(s["lower_bound"], best) and close(s["upper_bound"], best), lambda: "bounds [%s, %s], optimum %s" % (s["lower_bound"], s["upper_bound"], best), data)
    elif best is not None:
        c.check(s["lower_bound"] <= best + 1e-4 * max(1, best) and s["upper_bound"] >= best - 1e-4 * max(1, best), lambda: "bounds [%s, %s] do not contain the optimum %s" % (s["lower_bound"], s["upper_bound"], best), data)
    if r.edges:
        cost = sum(inst.g[a][b]["cost"] for a, b in r.edges)
        c.check(close(s["upper_bound"], cost), lambda: "upper bound %s, returned tour costs %s" % (s["upper_bound"], cost), data)
    if best is None and r.status == "infeasible":
        c.check(s["upper_bound"] >= 1e19, lambda: "infeasible, yet upper bound %s" % s["upper_bound"], data)
    # counts against the recorded events
    made = {"sec": 0, "cycle": 0}
    hdlr = None
    cc_calls = 0
    covers_pre = covers_in = 0
    for e in r.log:
        if e["ev"] == "sepa":
            hdlr = e["hdlr"]
        elif e["ev"] == "row":
            made["sec" if hdlr == "pctsp_sec_handler" else "cycle"] += 1
        elif e["ev"] == "cb" and e["hdlr"] == "Cycle cover" and e["kind"] == "sepalp" and e["result"] in (7, 8):
            cc_calls += 1
        elif e["ev"] == "cons" and e["hdlr"] == "linear" and "over" in e["name"]:
            if e["stage"] <= 2:
                covers_pre += 1
            else:
                covers_in += 1
    # subtour cuts: the two separators, told apart by the piece of the support graph a cut lives in. A counter holds
    # every cut tried or every cut added; or (the recorded finding) it misses exactly what the newest node's record lost.
    sp0 = pc.Space(r.begin, 0)
    ideal, kept, size, hdlr, comp = {}, {}, 0, None, set()
    for e in r.log:
        if e["ev"] == "nodeevent" and e["hdlr"] == "pctsp_node_handler":
            if e["node"] >= size:
                size = e["node"]
                for k in [k for k in kept if k[1] == e["node"]]:
                    kept[k] = 0
        elif e["ev"] == "sepa":
            hdlr = e["hdlr"]
            h = nx.Graph([tuple(k) for k, i in sp0.edge.items() if e["vals"].get(sp0.names[i], 0) > 1e-9]) if hdlr == "pctsp_sec_handler" else nx.Graph()
            comp = nx.node_connected_component(h, sp0.root) if sp0.root in h else {sp0.root}
        elif e["ev"] in ("row", "refused") and hdlr == "pctsp_sec_handler":
            touched = {v for v, i in sp0.loop.items() if sp0.names[i] in e["coefs"]}
            which = "num_sec_maxflow_mincut" if touched <= comp else "num_sec_disjoint_tour"
            for d in (ideal, kept):
                for kind in ("tried", "added") if e["ev"] == "row" else ("tried",):
                    d[(which, e["node"], kind)] = d.get((which, e["node"], kind), 0) + 1
    for which in ("num_sec_disjoint_tour", "num_sec_maxflow_mincut"):
        tot = lambda d, kind: sum(n for k, n in d.items() if k[0] == which and k[2] == kind)
        want = [tot(ideal, "tried"), tot(ideal, "added"), tot(kept, "tried"), tot(kept, "added")]
        c.check(s[which] in want, lambda: "summary reports %s = %d; tried %d, added %d, on surviving node records %d and %d" % (which, s[which], *want), data)
        c.event("known_undercounts", s[which] < want[1])
        c.event("sec_counts_exact", s[which] in want[:2] and want[0] > 0)
    if not opts["sec_maxflow_mincut"]:
        c.check(s["num_sec_maxflow_mincut"] == 0, "maxflow cuts reported with the separator off", data)
        c.check(s["num_sec_disjoint_tour"] >= 0, "negative count", data)
    if not opts["sec_disjoint_tour"]:
        c.check(s["num_sec_disjoint_tour"] == 0, "disjoint tour cuts reported with the separator off", data)
    if opts.get("cycle_cover"):
        c.check(s["num_cycle_cover"] == cc_calls, lambda: "summary reports %d successful cycle cover separations, %d observed" % (s["num_cycle_cover"], cc_calls), data)
    else:
        c.check(s["num_cycle_cover"] == 0, "cycle covers reported with the separator off", data)
    sp, dp = s["num_cost_cover_shortest_paths"], s["num_cost_cover_disjoint_paths"]
    c.check(sp + dp == covers_pre + covers_in, lambda: "summary reports %d+%d cost covers, %d were added" % (sp, dp, covers_pre + covers_in), data)
    c.check(s["nconss_presolve_shortest_paths"] + s["nconss_presolve_disjoint_paths"] == covers_pre, lambda: "summary reports %s+%s presolve cost covers, %d were added" % (s["nconss_presolve_shortest_paths"], s["nconss_presolve_disjoint_paths"], covers_pre), data)
    if not opts.get("cost_cover_shortest_path"):
        c.check(sp == 0 and s["nconss_presolve_shortest_paths"] == 0, "shortest path covers reported with the option off", data)
    if not opts.get("cost_cover_disjoint_paths"):
        c.check(dp == 0 and s["nconss_presolve_disjoint_paths"] == 0, "disjoint path covers reported with the option off", data)
    c.event("covers", covers_in + covers_pre)
    c.event("cycle_cover_separations", cc_calls)
    c.event("sec_rows", made["sec"])
    c.event("sec_reported", s["num_sec_disjoint_tour"] + s["num_sec_maxflow_mincut"])
    c.event("status_" + r.status)
    c.distinct(inst.sig(), str(s))
    c.sample({"summary": s, "instance": inst.dump()})


# ---------------------------------------------------------------- S07
@prop("S07", 12000, 96000, lib="plain", min_distinct=200,
      rule="distinct (instance, starting tour) handed to the solver")
def s07(c):
    rng = c.rng
    large = rng.random() < .06  # tours of many edges; the search is cut short
    if large:
        inst = pc.instance(rng, 12, rng.choice([20, 40, 60]), fam=rng.choice(["gnp", "ring", "grid", "ladder", "wheel", "metric"]), loops=.15)
        allc = pc.simple_cycles(inst.g, inst.root, 300, 60000)
        if not len(allc):
            return
        t = rng.choice([max(allc, key=len), rng.choice(allc)])
        inst.quota = max(0, inst.prize(t) - rng.choice([0, 0, 1, 5]))
        feas = [x for x in allc if inst.prize(x) >= inst.quota]
        feas = [x for x in feas if len(x) == max(map(len, feas))] if rng.random() < .6 else feas
        c.event("large")
    else:
        inst = pc.instance(rng, 4, 8, isolated=rng.random() < .3, loops=.15)
        feas, allc = inst.feasible(), inst.cycles()
    opts = pc.options(rng, inst)
    stop = rng.random() < .5
    if stop:
        opts["time_limit"] = 0.0
    elif large:
        opts["time_limit"] = .2
    kind = rng.choice(["feasible", "feasible", "feasible", "short", "notour"])
    if kind == "short":
        cand = [x for x in allc if inst.prize(x) < inst.quota]
        if not cand:
            return
        heur = pc.cyc_edges(rng.choice(cand))
    elif kind == "notour":
        if rng.random() < .5:  # an open path from the root
            p = [inst.root]
            while len(p) < 7:
                nb = [w for w in inst.g[p[-1]] if w not in p]
                if not nb or (len(p) > 2 and rng.random() < .2):
                    break
                p.append(rng.choice(nb))
            heur = list(zip(p, p[1:]))
        else:  # a tour that misses the root
            v = rng.choice(list(inst.g))
            cand = [x for x in pc.simple_cycles(inst.g, v, 200) if inst.root not in x]
            heur = pc.cyc_edges(rng.choice(cand)) if cand else []
        if not heur:
            return
    else:
        if not feas:
            return
        heur = pc.heuristic_edges(rng, inst, feas, rng.choice(["any", "worst", "best"]))
    r = pc.solve(c, inst, heur, opts, limits=pc.limits(rng) if not stop and rng.random() < .3 else None)
    data = lambda: dict(inst.dump(), opts=opts, heur=heur, returned=r.edges, status=r.status)
    added = [e for e in r.log if e["ev"] == "addsol"]
    before = []
    for e in r.log:
        if e["ev"] == "begin":
            break
        if e["ev"] == "addsol":
            before.append(e)
    best = min(map(inst.cost, feas), default=None)
    cost = sum(inst.g[a][b]["cost"] for a, b in r.edges if inst.g.has_edge(a, b))
    c.event("long_start", kind == "feasible" and len(heur) > 10)
    if kind == "feasible":
        hc = sum(inst.g[a][b]["cost"] for a, b in heur)
        c.check(len(before) == 1, lambda: "%d solutions were given to the solver before the search, expected 1" % len(before), data)
        if before and r.begin:
            sp = pc.Space(r.begin, 0)
            on = {k for k, v in before[0]["vals"].items() if v > .5}
            c.check(sp.is_tour(before[0]["vals"]), "the starting tour reached the solver as something else", data)
            c.check(abs(sum(sp.obj[sp.idx[k]] for k in on) - hc) < 1e-6, "the starting tour changed its cost on the way into the solver", data)
        c.check(bool(r.edges) and cost <= hc and not pc.judge_tour(inst, r.edges), lambda: "started from a tour of cost %d, ended with %r of cost %d" % (hc, r.edges, cost), data)
        c.event("accepted_limit" if r.status in pc.LIMITED else "accepted")
        if rng.random() < .25:
            lim = rng.choice([None, {"limits/nodes": 0}, {"limits/nodes": 1}, {"limits/solutions": 1}])
            if large:
                lim = {"limits/time": .2}
            b = pc.basic(c, inst, heur, lim)
            bc = sum(inst.g[x][y]["cost"] for x, y in b.edges if inst.g.has_edge(x, y))
            c.check(bool(b.edges) and bc <= hc and not pc.judge_tour(inst, b.edges), lambda: "the basic solver started from a tour of cost %d, ended with %r of cost %d (%s)" % (hc, b.edges, bc, b.status), data)
            c.event("basic_" + b.status)
        c.distinct(inst.sig(), sorted(map(sorted, heur)))
    else:
        c.check(len(before) == 0, "an infeasible starting tour was given to the solver", data)
        c.event("rejected_" + kind)
    if r.status == "optimal" and not large:
        c.check(best is not None and cost == best, lambda: "with a starting tour the result costs %d, optimum %s" % (cost, best), data)
    c.check(r.begin is None or abs(r.begin["time_limit"] - opts.get("time_limit", 14400)) < 1e-6, "the time limit did not reach the solver", data)
    c.sample({"instance": inst.dump(), "start": heur, "kind": kind, "result_cost": cost, "status": r.status})


# ---------------------------------------------------------------- S08
@prop("S08", 2000, 16000, lib="plain", min_distinct=10, rule="distinct (strategy, depth, plugin set) whose branching rule priorities were read back from the solver at the start of the search")
def s08(c):
    rng = c.rng
    inst = pc.instance(rng, 4, 7, loops=.15)
    base = dict(simple_rules_only=bool(c.idx & 1))
    r0 = pc.solve(c, inst, (), dict(base, branching_strategy=4))
    strat = ask = c.idx // 2 % 5
    if strat != 3 and rng.random() < .5:  # by its name in the settings of experiments
        ask = BranchingStrategy[{0: "RELPSCOST", 1: "STRONG", 2: "STRONG_AT_TREE_TOP", 4: "DEFAULT"}[strat]]
    depth = rng.choice([-1, 0, 1, 2, 5, 10, 25, 100, 5000])
    r = pc.solve(c, inst, (), dict(base, branching_strategy=ask, branching_max_depth=depth))
    if not r.begin or not r0.begin:
        return
    rules = {n: (p, d) for n, p, d in r.begin["rules"]}
    dflt = {n: (p, d) for n, p, d in r0.begin["rules"]}
    top = max(rules, key=lambda n: rules[n][0])
    data = lambda: {"strategy": strat, "depth": depth, "rules": rules, "defaults": dflt}
    uniq = sum(p == rules[top][0] for p, _ in rules.values()) == 1
    c.check(set(rules) == set(dflt), "the set of branching rules depends on the strategy", data)
    if strat == 0:
        c.check(top == "relpscost" and uniq, "relative pseudo cost selected, but %s has the highest priority" % top, data)
    elif strat in (1, 2):
        c.check(top == "fullstrong" and uniq, "strong branching selected, but %s has the highest priority" % top, data)
        second = max((n for n in rules if n != "fullstrong"), key=lambda n: rules[n][0])
        c.check(second == "relpscost", "strong branching selected, but %s comes second" % second, data)
        c.check(rules["fullstrong"][1] == (depth if strat == 2 else dflt["fullstrong"][1]), "strong branching has depth limit %d, asked for %d" % (rules["fullstrong"][1], depth), data)
    elif strat == 3:
        c.check(top == "pscost" and uniq, "pseudo cost branching selected, but %s has the highest priority" % top, data,
                key="pscost-strategy-ignored" if rules == dflt else None)
    else:
        c.check(rules == dflt, "default strategy changed the rules", data)
    for n, (p, d) in rules.items():
        if n != "fullstrong":
            c.check(d == dflt[n][1], "the depth limit of %s changed" % n, data)
    c.event("strategy_%d" % strat)
    c.event("rules_read", len(rules))
    c.distinct(strat, depth, base["simple_rules_only"])
    c.sample({"strategy": strat, "depth": depth, "rules": rules})


# ---------------------------------------------------------------- S10
@prop("S10", 10000, 80000, lib="plain", min_distinct=200, rule="distinct (instance, renaming) pairs solved on both sides")
def s10(c):
    rng = c.rng
    inst = pc.instance(rng, 4, 8, isolated=rng.random() < .25, relabel=False, loops=.15)
    opts = pc.options(rng, inst, cost_cover=False)
    opts["cost_cover_shortest_path"] = rng.random() < .4
    dp = pc.disjoint_costs(inst) if rng.random() < .4 else None

    def run(i, o, d):
        o = dict(o)
        if d is not None:
            o["cost_cover_disjoint_paths"], o["disjoint_paths_cost"] = True, d
        return pc.solve(c, i, (), o, log=False)
    r1 = run(inst, opts, dp)
    vs = list(inst.g)
    new = rng.sample(range(0, rng.choice([len(vs), 50, 10**6])+len(vs)), len(vs))
    m = dict(zip(vs, new))
    order = vs[:]
    rng.shuffle(order)
    h = nx.Graph()
    h.add_nodes_from((m[v], dict(inst.g.nodes[v])) for v in order)
    es = list(inst.g.edges(data="cost"))
    rng.shuffle(es)
    for a, b, k in es:
        if rng.random() < .5:
            a, b = b, a
        h.add_edge(m[a], m[b], cost=k)
    other = pc.Inst(h, m[inst.root], inst.quota, inst.family)
    r2 = run(other, opts, None if dp is None else {m[v]: k for v, k in dp.items()})
    cost = lambda i, r: sum(i.g[a][b]["cost"] for a, b in r.edges if i.g.has_edge(a, b))
    data = lambda: {"inst": inst.dump(), "map": m, "opts": opts, "r1": r1.edges, "r2": r2.edges}
    c.check(r1.status == r2.status and bool(r1.edges) == bool(r2.edges), lambda: "status %s became %s after renaming" % (r1.status, r2.status), data)
    for i, r in ((inst, r1), (other, r2)):
        c.check(not r.edges or not pc.judge_tour(i, r.edges), lambda: "the returned tour is not one of the graph: %s" % pc.judge_tour(i, r.edges), data)
    c.check(cost(inst, r1) == cost(other, r2), lambda: "optimal cost %d became %d after renaming" % (cost(inst, r1), cost(other, r2)), data)
    c.event("renamed_pairs")
    c.event("nonempty", bool(r1.edges))
    c.distinct(inst.sig(), tuple(new))
    c.sample(data())


# ---------------------------------------------------------------- S11
@prop("S11", 3000, 24000, lib="plain", min_distinct=200,
      rule="distinct LP points handed to the subtour separator that have a piece away from the root or a fully used vertex weakly connected to it")
def s11(c):
    rng = c.rng
    large = rng.random() < .05
    inst = pc.instance(rng, 14, 24, fam=rng.choice(["clusters", "twoparts", "grid", "metric"]), quota=lambda rng, tot: rng.randint(tot // 2, tot)) if large else hard_instance(rng, 10)
    opts = pc.options(rng, inst, cost_cover=False)
    opts["cycle_cover"] = False
    opts["sec_sepafreq"] = 1
    opts["time_limit"] = .3 if large else 5.0
    c.event("large", large)
    r = pc.solve(c, inst, (), opts)
    if r.begin is None:
        return
    sp = pc.Space(r.begin, 0)
    rows, cur = [], None
    for e in r.log:
        if e["ev"] == "sepa" and e["hdlr"] == "pctsp_sec_handler":
            rows = []
        elif e["ev"] == "row":
            rows.append(e)
        elif e["ev"] == "cb" and e["hdlr"] == "pctsp_sec_handler" and e["kind"] in ("sepalp", "sepasol"):
            x = e["vals"]
            if e["result"] == pc.RESULT["cutoff"]:
                continue
            deg = lambda v: sum(x.get(sp.names[i], 0) for k, i in sp.edge.items() if v in k)
            y = lambda v: x.get(sp.names[sp.loop[v]], 0)
            if any(abs(deg(v) - 2 * y(v)) > 1e-6 for v in sp.loop):
                c.event("points_off_degree")
                continue
            G = nx.Graph()
            G.add_nodes_from(sp.loop)
            for k, i in sp.edge.items():
                w = x.get(sp.names[i], 0)
                if w > 1e-6:
                    G.add_edge(*k, capacity=w)

            def cuts_off(v, comp):
                """Is some recorded row violated here that involves vertex v?"""
                for q in rows:
                    a = sp.vec(q["coefs"])
                    val = sum(t * x.get(n, 0) for n, t in q["coefs"].items())
                    if val > q["rhs"] + 1e-6:
                        return True
                return False
            comps = list(nx.connected_components(G))
            away = [k for k in comps if sp.root not in k and len(k) >= 2 and max(map(y, k)) > .1]
            data = lambda: {"point": x, "rows": rows, "begin": r.begin, "opts": opts}
            for k in away:
                if opts["sec_disjoint_tour"]:
                    hit = any(sum(t * x.get(n, 0) for n, t in q["coefs"].items()) > q["rhs"] + 1e-6 and
                              any(sp.names[i] in q["coefs"] for f, i in sp.edge.items() if f <= k) for q in rows)
                    c.check(hit, lambda: "the piece %r away from the root was not cut off" % (sorted(k),), data)
                    c.check(e["result"] == pc.RESULT["separated"], "cuts were found but the separator did not say so", data)
                    c.event("pieces_away")
                    c.event("pieces_away_of_8_or_more", len(k) >= 8)
                    c.event("pieces_away_of_2", len(k) == 2)
                    c.distinct(inst.sig(), tuple(sorted(x.items())))
            weak = []
            if opts["sec_maxflow_mincut"]:
                k = next(k for k in comps if sp.root in k)
                # one cut side may be shared by several vertices: a side whose capacity is a hair below
                # two settles its vertices without a usable cut, so such points carry no obligation
                I = nx.Graph()
                for p, q, d in G.subgraph(k).edges(data="capacity"):
                    I.add_edge(p, q, capacity=10**6 if abs(d - 1) < 1e-9 else int(d * 10**6) - 2)
                lam = {v: nx.maximum_flow_value(I, sp.root, v) for v in k if v != sp.root} if len(k) > 1 else {}
                if any(1999000 <= f < 2000000 for f in lam.values()):
                    c.event("points_nearly_tight")
                else:
                    weak = [(v, f / 1e6) for v, f in lam.items() if y(v) > 1 - 1e-9 and f < 1999000]
                for v, f in weak:
                    hit = any(sum(t * x.get(n, 0) for n, t in q["coefs"].items()) > q["rhs"] + 1e-6 for q in rows)
                    c.check(hit, lambda: "vertex %d is fully used but connected to the root by a cut of only %g, and no violated cut was added" % (v, f), data)
                    c.event("weak_vertices")
                    c.distinct(inst.sig(), tuple(sorted(x.items())), v)
            # a cut that was added is really violated by the point
            for q in rows:
                val = sum(t * x.get(n, 0) for n, t in q["coefs"].items())
                c.check(val > q["rhs"] + 1e-9, "a subtour cut that the point satisfies was added", data)
                c.event("rows")
            c.event("points")
            if away or weak:
                c.sample({"point": x, "pieces": [sorted(k) for k in away], "weak": weak, "rows": len(rows)})


# ---------------------------------------------------------------- S12
@prop("S12", 4400, 35200, lib="plain", min_distinct=150, rule="distinct solver models whose variables and linear constraints were compared with the instance")
def s12(c):
    """The model handed to the solver is the instance."""
    rng = c.rng
    inst = pc.instance(rng, 3, 9, isolated=False, loops=.15)
    opts = pc.options(rng, inst)
    r = pc.solve(c, inst, (), opts)
    b = r.begin
    if b is None:
        return
    g = inst.g.copy()
    g.remove_edges_from(list(nx.selfloop_edges(g)))
    data = lambda: dict(inst.dump(), begin=b)
    sp = pc.Space(b, 0)
    c.check(b["n"] == g.number_of_nodes() and b["quota"] == inst.quota, "vertex count or quota differ", data)
    c.check(len(sp.edge) == g.number_of_edges() and set(sp.loop) == set(range(b["n"])), "variables do not match edges and vertices", data)
    c.check(len(set(sp.names)) == len(sp.names), "two variables share a name", data)
    c.check(all(v[4] == 0 and v[5] == 1 for v in b["vars"]), "a variable is not binary", data)
    c.check(all(sp.obj[i] == 0 for i in sp.loop.values()), "a vertex variable has a cost", data)
    # the logged graph is the input up to renaming: prizes, costs, root
    G = nx.Graph()
    for v in range(b["n"]):
        G.add_node(v, p=b["prize"][v], r=v == b["root"])
    for k, i in sp.edge.items():
        G.add_edge(*k, w=sp.obj[i])
    H = nx.Graph()
    for v in g:
        H.add_node(v, p=g.nodes[v]["prize"], r=v == inst.root)
    for u, v, k in g.edges(data="cost"):
        H.add_edge(u, v, w=k)
    c.check(nx.is_isomorphic(G, H, lambda a, d: a == d, lambda a, d: a["w"] == d["w"]), "costs, prizes or root were mixed up on the way into the solver", data)
    # linear constraints: exactly the tours-with-possible-subtours of the instance
    cons = [e for e in r.log if e["ev"] == "cons" and "coefs" in e and e["stage"] <= 1 and "over" not in e["name"]]
    deg, prize, root = set(), 0, 0
    for e in cons:
        a = {}
        for n, k in e["coefs"]:
            a[n] = a.get(n, 0) + k
        rg = (e["lhs"], e["rhs"])
        ok = False
        for v in sp.loop:
            want = {sp.names[i]: 1.0 for k, i in sp.edge.items() if v in k}
            want[sp.names[sp.loop[v]]] = -2.0
            for s in (1, -1):
                if a == {n: s * k for n, k in want.items()} and rg == (0, 0):
                    deg.add(v)
                    ok = True
        yv = lambda f: {sp.names[i]: f(v) for v, i in sp.loop.items()}
        nz = lambda d: {n: k for n, k in d.items() if k}
        if nz(a) == nz(yv(lambda v: -b["prize"][v])) and e["rhs"] == -b["quota"] and e["lhs"] <= -1e19 or nz(a) == nz(yv(lambda v: b["prize"][v])) and e["lhs"] == b["quota"] and e["rhs"] >= 1e19:
            prize += 1
            ok = True
        if nz(a) == {sp.names[sp.loop[b["root"]]]: 1} and e["lhs"] == 1:
            root += 1
            ok = True
        c.event("constraints")
        if not ok:
            # any other constraint must be valid for every tour
            full = pc.Space(b)
            k = full.cut_off({"coefs": a, "lhs": e["lhs"], "rhs": e["rhs"]})
            c.check(k is None, lambda: "constraint %s excludes the feasible tour %r" % (e["name"], full.cyc[k]), lambda: {"cons": e, "begin": b})
    # whatever form they take: together the constraints admit a 0/1 point iff degrees, quota and root agree
    names = sp.names
    for _ in range(60):
        x = {n: 0 for n in names}
        mode = rng.random()
        es = [k for k in sp.edge if rng.random() < .5]
        cyc = rng.choice(pc.simple_cycles(sp.g, rng.choice(list(sp.g)), 60) or [[]])
        if mode < .7 and cyc:
            es = [frozenset(p) for p in pc.cyc_edges(cyc)]
            if rng.random() < .4:
                o = rng.choice(pc.simple_cycles(sp.g.subgraph(set(sp.g) - set(cyc)), next(iter(set(sp.g) - set(cyc)), -1), 20) or [[]])
                es += [frozenset(p) for p in pc.cyc_edges(o)] if o else []
        for k in es:
            x[names[sp.edge[k]]] = 1
        for v, i in sp.loop.items():
            x[names[i]] = 1 if any(v in k for k in es) else 0
        if rng.random() < .25:
            n = rng.choice(names)
            x[n] = 1 - x[n]
        want = all(sum(x[names[i]] for k, i in sp.edge.items() if v in k) == 2 * x[names[j]] for v, j in sp.loop.items()) and \
            sum(b["prize"][v] * x[names[i]] for v, i in sp.loop.items()) >= b["quota"] and x[names[sp.loop[b["root"]]]] == 1
        got = all(e["lhs"] - 1e-9 <= sum(k * x[n] for n, k in e["coefs"]) <= e["rhs"] + 1e-9 for e in cons)
        c.check(want == got, lambda: "the linear model %s a point it should %s" % (("admits", "reject") if got else ("rejects", "admit")), lambda: {"x": [n for n in names if x[n]], "begin": b})
        c.event("points_admitted" if got else "points_rejected")
    c.distinct(inst.sig())
    c.sample({"instance": inst.dump(), "constraints": len(cons)})
