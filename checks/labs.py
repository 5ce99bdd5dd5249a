"""Experiments end to end: L01-L11. The lab, the command line functions and the tables run on synthetic
data sets in a scratch directory; the oracles are enumeration, recomputation from the files, and bookkeeping."""
import contextlib
import enum
import io
import itertools
import json
import logging
import math
import os
import subprocess
import uuid
from datetime import datetime, timedelta
from pathlib import Path

import data
import pc
from rt import prop
nx = pc.nx
from tspwplib import (Generation, GraphName, LondonaqGraphName, asymmetric_from_undirected, biggest_vertex_id_from_graph, split_head)
from tspwplib.types import EdgeWeightType
from pctsp.vial import (AlgorithmName, BranchingStrategy, DataConfig, DatasetName, Experiment, ExperimentName, LongAlgorithmName, ModelParams,
                        Preprocessing, Result, ShortAlgorithmName, Vial, dataframe_from_vial_list, flat_dict_from_vial)
BIND = []  # what crosses the boundary from Python into the solver library
if pc.LIBDIR:
    import pctsp.libpypctsp as boundary
    solve_bind = boundary.solve_pctsp_bind

    def recording_bind(*a, **k):
        BIND.append([crossing(x) for x in a[1:]] + sorted((x, crossing(y)) for x, y in k.items() if x != "model"))
        return solve_bind(*a, **k)

    def crossing(x):
        if isinstance(x, Path):
            return "dir"
        if isinstance(x, (list, tuple)):
            return sorted(tuple(sorted(e)) for e in x)
        if isinstance(x, dict):
            return sorted(x.items())
        return int(x) if isinstance(x, int) else x
    boundary.solve_pctsp_bind = recording_bind

    def recording_heuristic(name, fn):
        def called(*a, **k):
            BIND.append([name] + [crossing(x) for x in a if isinstance(x, (bool, int, float))] + sorted((x, crossing(y)) for x, y in k.items() if isinstance(y, (bool, int, float))))
            return fn(*a, **k)
        return called
    for _n in ("collapse_bind", "extension_unitary_gain_bind", "extension_until_prize_feasible_bind", "path_extension_bind", "path_extension_collapse_bind",
               "path_extension_until_prize_feasible_bind"):
        setattr(boundary, _n, recording_heuristic(_n, getattr(boundary, _n)))
    import pandas as pd
    from pctsp.lab import Lab
    from pctsp.lab.lab import get_nbatches
    from pctsp.lab.run_algorithm import run_algorithm, run_heuristic, run_preprocessing

A = AlgorithmName
HEUR = [A.bfs_extension_collapse, A.bfs_path_extension_collapse, A.suurballes_extension_collapse, A.suurballes_heuristic, A.suurballes_path_extension_collapse]
LQ = list(LondonaqGraphName)
QUIET = logging.getLogger("verif-quiet")
QUIET.setLevel(logging.CRITICAL)
QUIET.propagate = False
logging.raiseExceptions = False


def silent():
    return contextlib.ExitStack()


def command(c, name, fn, *a, **k):
    """Runs a command of the command line by its function or, as often, by its name."""
    rng = c.rng
    if rng.random() < .5:
        return c.call(name, fn, *a, **k)
    import inspect
    from pctsp.apps import main_app
    from typer.testing import CliRunner
    sig = inspect.signature(fn)
    args, opts, env = name.split(), [], {}
    word = lambda x: [x.value] if isinstance(x, enum.Enum) else [y for z in x for y in word(z)] if isinstance(x, (list, tuple)) else [str(x)]
    for p, x in sig.bind(*a, **k).arguments.items():
        key = p.replace("_", "-")
        if sig.parameters[p].default is inspect.Parameter.empty:
            args += word(x)
        elif isinstance(x, bool):
            opts.append("--" + ("" if x else "no-") + key)
        elif isinstance(x, Path) and rng.random() < .3:
            env[p.upper()] = str(x)
        else:
            opts += ["--" + key] + word(x)

    def run():
        r = CliRunner().invoke(main_app.app, args + opts, env=env, catch_exceptions=False)
        if r.exit_code:
            raise RuntimeError("pctsp %s exits with status %s: %s" % (" ".join(args + opts), r.exit_code, r.output[-600:]))
        print(r.output, end="")
    c.event("commands_by_name")
    c.call("the command " + name, run)


@contextlib.contextmanager
def captured():
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(io.StringIO()):
        yield o


# ---------------------------------------------------------------- random settings
def prep(rng, conn=None, leaves=None, one=None, **k):
    b = lambda x, p: (rng.random() < p) if x is None else x
    return Preprocessing(**dict(dict(disjoint_path_cutoff=False, shortest_path_cutoff=False, remove_leaves=b(leaves, .3), remove_disconnected_components=b(conn, .3),
                                     remove_one_connected_components=b(one, .5)), **k))


def params(rng, alg, heur=None):
    k = dict(algorithm=alg, is_exact=alg == A.solve_pctsp, is_heuristic=alg in HEUR + [A.extension], is_relaxation=alg == A.disjoint_tours_relaxation)
    k.update(path_depth_limit=rng.choice([None, 2, 3, 4]), step_size=rng.choice([None, 1, 2, 3]), collapse_paths=rng.choice([None, True, False]))
    if alg == A.solve_pctsp:
        cc = rng.choice([(False, False), (True, False), (False, True)])
        sec = rng.choice([(True, True), (True, False), (False, True)])
        k.update(branching_max_depth=rng.choice([-1, 1]), branching_strategy=rng.choice(list(BranchingStrategy)), cost_cover_disjoint_paths=cc[0], cost_cover_shortest_path=cc[1],
                 heuristic=heur, sec_disjoint_tour=sec[0], sec_lp_gap_improvement_threshold=rng.choice([.001, .1]), sec_maxflow_mincut=sec[1],
                 sec_max_tailing_off_iterations=rng.choice([-1, 1, 5]), sec_sepafreq=rng.choice([1, 2]), time_limit=60.0)
    return ModelParams(**k)


def vial_for(rng, inst, alg, heur=None, name=LondonaqGraphName.laqtinyA, **k):
    return Vial(uuid=uid(rng), data_config=DataConfig(dataset=DatasetName.londonaq, cost_function=EdgeWeightType.EXPLICIT, graph_name=name, quota=inst.quota, root=inst.root),
                model_params=params(rng, alg, heur), preprocessing=k.get("preprocessing") or prep(rng))


def uid(rng):
    """A new identifier, which sometimes begins or ends like the one before."""
    x, last = rng.getrandbits(128), getattr(rng, "last_uid", None)
    k = rng.random()
    if last and k < .2:
        n = rng.choice([32, 48, 64, 96])
        x = last >> n << n | x & ((1 << n) - 1)
    elif last and k < .3:
        n = rng.choice([32, 64, 96])
        x = x >> n << n | last & ((1 << n) - 1)
    rng.last_uid = uuid.UUID(int=x, version=4).int
    return uuid.UUID(int=rng.last_uid)


def optimum(inst):
    cs = [inst.cost(x) for x in inst.feasible()]
    return min(cs) if cs else None


def judge_result(c, what, inst, v, res, dat):
    """Checks one result against the instance; returns True if it is a feasible tour."""
    g = inst.g
    edges = [tuple(e) for e in res.edge_list]
    c.check(res.vial_uuid == v.uuid, lambda: "%s: the result carries vial %s, not %s" % (what, res.vial_uuid, v.uuid), dat)
    c.check(res.start_time <= res.end_time, lambda: "%s: ends before it starts" % what, dat)
    if not c.check(all(g.has_edge(*e) for e in edges), lambda: "%s: edges %r are not all in the input graph" % (what, edges), dat):
        return False
    on = {x for e in edges for x in e}
    c.check(res.objective == sum(g[a][b]["cost"] for a, b in edges if a != b), lambda: "%s: objective %s is not the cost of its edges %r" % (what, res.objective, edges), dat)
    c.check(res.prize == inst.prize(on), lambda: "%s: prize %s is not the prize of its vertices %r" % (what, res.prize, sorted(on)), dat)
    if edges:
        loose = inst.quota
        inst.quota = 0
        bad = pc.judge_tour(inst, edges)
        inst.quota = loose
        c.check(not bad, lambda: "%s: the result is not a tour through the root: %s" % (what, "; ".join(bad)), dat)
        walk = all(set(x) & set(y) for x, y in zip(edges, edges[1:] + edges[:1]))
        c.check(walk, lambda: "%s: consecutive edges of the tour do not meet: %r" % (what, edges), dat)
    return bool(edges) and res.prize >= inst.quota


# ---------------------------------------------------------------- L01
@prop("L01", 5600, 44800, lib="plain", min_distinct=250, rule="distinct (instance, algorithm, settings) run from preprocessing to result whose result is a feasible tour")
def l01(c):
    rng = c.rng
    inst = pc.instance(rng, 4, 8, isolated=rng.random() < .2, zero_cost=.05, loops=.15)
    if rng.random() < .05:  # tours that cost nothing
        for _, _, x in inst.g.edges(data=True):
            x["cost"] = 0
        c.event("free_tours")
    exact = rng.random() < .5
    alg = A.solve_pctsp if exact else rng.choice(HEUR)
    heur = rng.choice([None] + HEUR) if exact else None
    v = vial_for(rng, inst, alg, heur)
    g = inst.g
    before = (sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True))))
    dat = lambda: dict(inst.dump(), vial=json.loads(v.model_dump_json()))
    core = nx.Graph(g)
    core.remove_edges_from(list(nx.selfloop_edges(core)))
    cyc = inst.cycles()
    if not len(cyc):  # no tour at all: nothing may be claimed
        c.event("root_on_no_cycle")
        try:
            with captured():
                d = c.tmp / "vial"
                d.mkdir()
                res = run_algorithm(g, v, logger=QUIET, vial_dir=d)
        except ValueError:
            c.check(alg != A.solve_pctsp or heur is not None, "the exact algorithm refuses a graph whose root is on no cycle", dat)
            return
        c.check(not res.edge_list and res.objective == 0 and res.prize == 0, lambda: "no tour exists but the result is %r" % (res.edge_list,), dat)
        return
    with captured():
        h = c.call("preprocessing", run_preprocessing, g, v, logger=QUIET)
        # preprocessing = the chosen steps, each by its definition
        keep = set(g)
        p = v.preprocessing
        if p.remove_disconnected_components:
            keep &= nx.node_connected_component(core, inst.root)
        if p.remove_leaves:
            keep &= set(nx.k_core(core.subgraph(keep), 2))
        if p.remove_one_connected_components:
            keep &= set().union(*[b for b in nx.biconnected_components(core.subgraph(keep)) if inst.root in b and len(b) > 2])
        c.check(set(h) == keep, lambda: "preprocessing keeps %r instead of %r" % (sorted(h), sorted(keep)), dat)
        c.check(all(h.nodes[x] == g.nodes[x] for x in h) and all(g[a][b] == d for a, b, d in h.edges(data=True)) and h.number_of_edges() == g.subgraph(keep).number_of_edges(),
                "preprocessing changes what it keeps", dat)
        d = c.tmp / "vial"
        d.mkdir()
        try:
            res = run_algorithm(h, v, logger=QUIET, vial_dir=d)
        except ValueError as e:
            # the only permitted refusal: Suurballe's heuristics without any pair of disjoint paths to a vertex
            pair = any(pc.two_disjoint(g, inst.root, x) is not None for x in g if x != inst.root)
            c.check(not pair, lambda: "run_algorithm refused a graph whose root is on a cycle: %r" % e, dat)
            return
    after = (sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True))))
    c.check(after == before, "running the algorithm changed its input graph", dat)
    c.event("ran_" + alg.value)
    if heur:
        c.event("exact_with_" + heur.value)
    ok = judge_result(c, alg.value, inst, v, res, dat)
    best = optimum(inst)
    if best is None:
        c.check(not ok, "a feasible tour is claimed for an infeasible instance", dat)
    if exact:
        if best is None:
            c.check(not res.edge_list and res.objective == 0 and res.prize == 0, lambda: "infeasible, but the result has edges %r" % (res.edge_list,), dat)
        else:
            c.check(ok and res.objective == best, lambda: "optimum %s, the result says %s (feasible: %s)" % (best, res.objective, ok), dat)
        c.check((d / "pctsp_summary_stats.yaml").exists(), "the summary is not in the directory of the vial", dat)
        c.event("optimum_confirmed" if best is not None else "infeasible_confirmed")
    elif best is not None and ok:
        c.check(res.objective >= best, "a heuristic beats the optimum", dat)
    if alg in (A.bfs_path_extension_collapse, A.suurballes_path_extension_collapse, A.suurballes_heuristic):
        c.check(ok or not res.edge_list, "a tour that misses the quota is returned", dat)
    if ok:
        c.distinct(inst.sig(), v.model_params.model_dump_json(), v.preprocessing.model_dump_json())
        c.sample({"algorithm": alg.value, "objective": res.objective, "optimum": best})
    # refusals
    k = rng.random()
    if k < .15:
        for a in (A.disjoint_tours_relaxation, A.extension):
            w = v.model_copy(update={"model_params": params(rng, a)})
            try:
                with captured():
                    r = run_algorithm(h, w, logger=QUIET, vial_dir=d)
                c.check(False, lambda: "%s is not implemented but gave %r" % (a.value, r), dat)
            except NotImplementedError:
                c.event("refused")
                c.check(True, "")
        for f in ("shortest_path_cutoff", "disjoint_path_cutoff"):
            w = v.model_copy(update={"preprocessing": prep(rng, **{f: True})})
            try:
                with captured():
                    run_preprocessing(g, w, logger=QUIET)
                c.check(False, "%s is not implemented but was accepted" % f, dat)
            except NotImplementedError:
                c.check(True, "")
        for a in (A.suurballes_heuristic, A.suurballes_extension_collapse, A.suurballes_path_extension_collapse):
            try:
                with captured():
                    run_heuristic(h, inst.quota, inst.root, a, {}, {}, logger=QUIET)
                c.check(False, "%s ran without disjoint paths" % a.value, dat)
            except ValueError:
                c.check(True, "")


# ---------------------------------------------------------------- L12
def expected_heuristic(g, quota, root, alg, cost_map, paths, collapse, depth, step):
    """The heuristic of that name: its start tour, then its improvement, by the library's building blocks."""
    from pctsp import algorithms as al
    prize = nx.get_node_attributes(g, "prize")
    if alg == A.suurballes_heuristic:
        return al.suurballes_heuristic(prize, quota, cost_map, paths)
    if alg in (A.bfs_extension_collapse, A.bfs_path_extension_collapse):
        start = al.find_cycle_from_bfs(g, root)
    else:
        start = al.suurballes_tour_initialization(prize, quota, cost_map, paths)
    if alg in (A.bfs_extension_collapse, A.suurballes_extension_collapse):
        return al.extension_unitary_gain_collapse(g, al.extension_until_prize_feasible(g, start, quota), quota, root)
    return al.path_extension_collapse(g, start, root, quota, collapse_shortest_paths=bool(collapse), path_depth_limit=depth or g.number_of_nodes(), step_size=step or 10)


def recorded(c, fn):
    """Runs fn with the monitor at the solver library's boundary on; returns (result, events)."""
    i = c._nrec = getattr(c, "_nrec", 0) + 1
    lf = c.tmp / ("rec%d.jsonl" % i)
    BIND.clear()
    assert pc.LOG.vm_log_open(str(lf).encode())
    try:
        out = fn()
    finally:
        c.event("log_lines", pc.LOG.vm_log_close())
    # the order of rows follows memory addresses, the search with it; what is set up must be the same
    ev = [json.loads(x) for x in lf.read_text().splitlines()]
    model = [{"ev": "call", "arguments": x} for x in BIND if not isinstance(x[0], str)]
    for e in ev:
        if e["ev"] == "begin":
            model.append(dict(e, vars=sorted(e["vars"], key=lambda v: v[2])))
        elif e["ev"] == "cons" and e["stage"] <= 1:
            model.append({k: sorted(x) if k == "coefs" else x for k, x in e.items() if k != "name"})
        elif e["ev"] == "addsol":
            model.append(e)
    c.event("boundary_calls", len(BIND))
    return out, sorted(model, key=repr)


def same_calls(c, ref, dat):
    """The settings handed to the compiled heuristics are those of the reference run."""
    got = list(BIND)
    c.event("heuristic_calls", len(got))
    c.check(got == ref, lambda: "the compiled heuristics are called with the settings %r; the settings asked for are %r" % (got, ref), dat)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            d = {k: (x.get(k), y.get(k)) for k in set(x) | set(y) if x.get(k) != y.get(k)}
            return "event %d (%s): %s" % (i, x.get("ev"), repr(d)[:700])
    return "%d events instead of %d" % (len(b), len(a))


SOLVER_DEFAULTS = dict(branching_max_depth=-1, branching_strategy=0, cost_cover_disjoint_paths=False, cost_cover_shortest_path=False, cycle_cover=False, sec_disjoint_tour=True,
                       sec_lp_gap_improvement_threshold=.01, sec_maxflow_mincut=True, sec_max_tailing_off_iterations=-1, sec_sepafreq=1, simple_rules_only=False, time_limit=14400.0)


@prop("L12", 6000, 48000, lib="plain", min_distinct=250, rule="distinct (instance, settings) whose run was compared with a direct run under the same settings")
def l12(c):
    rng = c.rng
    from pyscipopt import Model
    from pctsp.algorithms import solve_pctsp
    from pctsp.preprocessing import undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map
    from pctsp.suurballe import suurballe_shortest_vertex_disjoint_paths
    from pctsp.constants import FOUR_HOURS, LP_GAP_IMPROVEMENT_THRESHOLD
    mode = rng.choice(["heuristic", "vial-heuristic", "vial-heuristic", "exact", "exact", "defaults"])
    inst = pc.instance(rng, 4, 14 if "heuristic" in mode else 9, isolated=False, loops=.1)
    g, root, quota = inst.g, inst.root, inst.quota
    if not len(inst.cycles(1)):
        return
    big = biggest_vertex_id_from_graph(g)
    tree = suurballe_shortest_vertex_disjoint_paths(asymmetric_from_undirected(g), split_head(big, root), weight="cost")
    cost_map, paths = vertex_disjoint_cost_map(tree, big), undirected_vertex_disjoint_paths_map(tree, big)
    clean = lambda es: [frozenset(e) for e in es if e[0] != e[1]]
    dat = lambda: dict(inst.dump(), mode=mode)
    n = g.number_of_nodes()
    if mode == "heuristic":
        alg = rng.choice(HEUR)
        k = {}
        depth = step = coll = None
        if rng.random() < .8:
            k["path_depth_limit"] = depth = rng.choice([None, 1, 2, 3, n])
        if rng.random() < .8:
            k["step_size"] = step = rng.choice([None, 1, 2, 3, 8, 9, 10, 11, 15, 20])
        if rng.random() < .8:
            k["collapse_shortest_paths"] = coll = rng.choice([None, True, False])
        if not paths:
            return
        dat = lambda: dict(inst.dump(), algorithm=alg.value, **k)
        with captured():
            BIND.clear()
            want = expected_heuristic(g, quota, root, alg, cost_map, paths, coll, depth, step)
            ref = list(BIND)
            BIND.clear()
            got = c.call("run_heuristic", run_heuristic, g, quota, root, alg, cost_map, paths, logger=QUIET, **k)
        we = [frozenset(e) for e in zip(want, want[1:])]
        c.check([frozenset(e) for e in got] == we, lambda: "%s gives %r; its start tour and improvement with the given settings give %r" % (alg.value, got, want), dat)
        same_calls(c, ref, dat)
        c.event("heuristic_" + alg.value)
        if alg in (A.suurballes_extension_collapse, A.suurballes_heuristic, A.suurballes_path_extension_collapse):
            for a, b in ((cost_map, {}), ({}, paths)):
                try:
                    with captured():
                        run_heuristic(g, quota, root, alg, a, b, logger=QUIET)
                    c.check(False, "%s accepts an empty table of disjoint paths or of their costs" % alg.value, dat)
                except ValueError:
                    c.check(True, "")
                    c.event("refused_empty_table")
    elif mode == "vial-heuristic":
        alg = rng.choice(HEUR)
        v = vial_for(rng, inst, alg)
        m = v.model_params
        m.path_depth_limit, m.step_size = rng.choice([None, 1, 2, 3, 4, 6]), rng.choice([None, 1, 2, 3, 5, 9, 10, 11, 16])
        if not paths:
            return
        dat = lambda: dict(inst.dump(), vial=json.loads(v.model_dump_json()))
        with captured():
            BIND.clear()
            want = expected_heuristic(g, quota, root, alg, cost_map, paths, m.collapse_paths, m.path_depth_limit, m.step_size)
            ref = list(BIND)
            BIND.clear()
            res = c.call("run_algorithm", run_algorithm, g, v, logger=QUIET, vial_dir=c.tmp)
        we = [frozenset(e) for e in zip(want, want[1:])]
        c.check(sorted(map(sorted, clean(res.edge_list))) == sorted(map(sorted, we)), lambda: "the result has edges %r; the algorithm with the vial's settings gives the tour %r" % (res.edge_list, want), dat)
        same_calls(c, ref, dat)
        c.event("vial_" + alg.value)
    elif mode == "exact":
        heur = rng.choice([None] + HEUR) if paths else None
        v = vial_for(rng, inst, A.solve_pctsp, heur)
        m = v.model_params
        m.time_limit = rng.choice([30.0, 60.0, 3600.0, 7.5, 90.25])
        m.branching_max_depth = rng.choice([-1, 0, 1, 2, 5])
        m.sec_lp_gap_improvement_threshold = rng.choice([.001, .1, .5])
        m.sec_sepafreq = rng.choice([1, 2, 3, 0, -1])
        m.sec_max_tailing_off_iterations = rng.choice([-1, 1, 2, 5])
        dat = lambda: dict(inst.dump(), vial=json.loads(v.model_dump_json()))
        d1, d2 = c.tmp / "a", c.tmp / "b"
        d1.mkdir()
        with captured():
            res, log = recorded(c, lambda: c.call("run_algorithm", run_algorithm, g, v, logger=QUIET, vial_dir=d1))
            start, heuristic_calls = [], [x for x in BIND if isinstance(x[0], str)]
            if heur:
                BIND.clear()
                w = expected_heuristic(g, quota, root, heur, cost_map, paths, m.collapse_paths, m.path_depth_limit, m.step_size)
                start = list(zip(w, w[1:]))
                if not w or inst.prize(set(w)) < quota or len(set(w)) < 3:
                    start = []
                c.event("start_tour" if start else "no_start_tour")
                ref = list(BIND)
                BIND[:] = heuristic_calls
                same_calls(c, ref, dat)
            edges, ref = recorded(c, lambda: c.call("solve_pctsp", solve_pctsp, Model(problemName=str(v.uuid), createscip=True, defaultPlugins=False), g, start, quota, root,
                branching_max_depth=m.branching_max_depth, branching_strategy=m.branching_strategy, cost_cover_disjoint_paths=m.cost_cover_disjoint_paths,
                cost_cover_shortest_path=m.cost_cover_shortest_path, disjoint_paths_cost=cost_map, logging_level=QUIET.level, name=str(v.uuid), solver_dir=d2, sec_disjoint_tour=m.sec_disjoint_tour,
                sec_lp_gap_improvement_threshold=m.sec_lp_gap_improvement_threshold, sec_maxflow_mincut=m.sec_maxflow_mincut, sec_max_tailing_off_iterations=m.sec_max_tailing_off_iterations,
                sec_sepafreq=m.sec_sepafreq, time_limit=m.time_limit))
        c.event("events_compared", len(ref))
        c.check(log == ref, lambda: "the run of the vial differs from the solver run with the vial's settings: " + first_difference(ref, log), dat)
        cost = lambda es: sum(g[x][y]["cost"] for x, y in map(tuple, clean(es)))
        c.check(cost(res.edge_list) == cost(edges) and bool(clean(res.edge_list)) == bool(clean(edges)),
                lambda: "the result has edges %r, the solver with the vial's settings returns %r" % (res.edge_list, edges), dat)
        c.check(all((d / "pctsp_summary_stats.yaml").exists() for d in (d1, d2)), "a summary is missing from its directory", dat)
        m2 = {k: x for k, x in m.model_dump().items()}
        c.event("exact_compared")
        c.sample({"events": len(ref), "settings": {k: str(x) for k, x in m2.items() if x is not None}})
    else:
        full = dict(SOLVER_DEFAULTS, disjoint_paths_cost=None)
        c.check(FOUR_HOURS == 4 * 3600 and LP_GAP_IMPROVEMENT_THRESHOLD > 0, "the default limits are not four hours and a positive threshold")
        full["sec_lp_gap_improvement_threshold"] = LP_GAP_IMPROVEMENT_THRESHOLD
        opts = {}
        if rng.random() < .5:
            opts = pc.options(rng, inst)
        if rng.random() < .5:
            opts["disjoint_paths_cost"] = pc.disjoint_costs(inst)
        keep = {k: opts[k] for k in opts if rng.random() < .4}
        dat = lambda: dict(inst.dump(), given={k: str(x) for k, x in keep.items()})
        mk = lambda: Model(problemName="x", createscip=True, defaultPlugins=False)
        with captured():
            e1, log = recorded(c, lambda: c.call("solve_pctsp", solve_pctsp, mk(), g, [], quota, root, solver_dir=c.tmp / "a", **keep))
            e2, ref = recorded(c, lambda: c.call("solve_pctsp", solve_pctsp, mk(), g, [], quota, root, solver_dir=c.tmp / "b", **dict(full, **keep)))
        c.event("events_compared", len(ref))
        c.check(log == ref and bool(e1) == bool(e2), lambda: "a run with options left out differs from the run with their documented defaults: " + first_difference(ref, log), dat)
        c.event("defaults_compared")
        # the improvements by paths: depth two, one step at a time, shortest paths kept
        from pctsp import algorithms as al
        with captured():
            t = list(al.find_cycle_from_bfs(g, root))
            for what, fn, a, b in (("path_extension_until_prize_feasible", al.path_extension_until_prize_feasible, (g, t, root, quota), {}), ("path_extension", al.path_extension, (g, t, root), {}),
                                   ("path_extension_collapse", al.path_extension_collapse, (g, t, root, quota), {"collapse_shortest_paths": False})):
                one = c.call(what, fn, *a)
                two = c.call(what, fn, *a, **dict(b, path_depth_limit=2, step_size=1))
                c.check(one == two, lambda: "%s without settings gives %r, with its documented defaults %r" % (what, one, two), dat)
    c.distinct(inst.sig(), mode, json.dumps(dat(), default=str, sort_keys=True))


# ---------------------------------------------------------------- labs
def world(c, n=2, lo=4, hi=7):
    """Graphs of one of the two data sets."""
    rng = c.rng
    if rng.random() < .35:
        w = data.World(c.tmp, rng, op=[(rng.choice(list(Generation)), x) for x in rng.sample([GraphName.st70, GraphName.eil76, GraphName.eil51], n)], lo=lo, hi=hi)
        w.ds = DatasetName.tspwplib
    else:
        w = data.World(c.tmp, rng, laq=rng.sample(LQ, n), lo=lo, hi=hi)
        w.ds = DatasetName.londonaq
    c.event("on_" + w.ds.value)
    return w


def some_data(rng, w):
    """The settings of a random instance of the world and its graph."""
    if w.ds == DatasetName.londonaq:
        name = rng.choice(list(w.laq))
        k = dict(dataset=w.ds, cost_function=EdgeWeightType.EXPLICIT, graph_name=name, root=w.laq[name].root)
        tot = w.total(name)
    else:
        gen, name = rng.choice(list(w.op))
        k = dict(dataset=w.ds, cost_function=rng.choice([EdgeWeightType.EUC_2D, EdgeWeightType.MST, EdgeWeightType.SEMI_MST, EdgeWeightType.UNIFORM_RANDOM]), graph_name=name, root=w.op[gen, name][2],
                 generation=gen, kappa=rng.choice([None, 1, 2, 3, 25]))
        tot = w.total((gen, name))
        core = as_read(w, gen, name, k["kappa"], k["cost_function"])
        if all(pc.two_disjoint(core, k["root"], x) is None for x in core if x != k["root"]):
            k["kappa"] = None  # no tour from the root is left
    return DataConfig(quota=rng.choice([0, tot // 3, tot // 2, tot, tot + 1]), **k)


def graph_of(w, k):
    """The graph these settings stand for."""
    if w.ds == DatasetName.londonaq:
        return w.laq[k.graph_name].g
    return as_read(w, k.generation, k.graph_name, k.kappa, k.cost_function)


def batch_experiment(c, w, n, broken=0.0, algs=None):
    """An experiment of fast vials on the world; returns it with the set of vials bound to fail."""
    rng, vials, bad = c.rng, [], set()
    for _ in range(n):
        alg = rng.choice(algs or [A.suurballes_heuristic, A.bfs_extension_collapse, A.bfs_path_extension_collapse, A.suurballes_path_extension_collapse])
        v = Vial(uuid=uid(rng), data_config=some_data(rng, w), model_params=params(rng, alg), preprocessing=prep(rng, False, False, True))
        if rng.random() < broken:
            k = rng.randint(0, 2)
            if k == 0:
                v.preprocessing.shortest_path_cutoff = True
            elif k == 1:
                v.model_params = params(rng, A.disjoint_tours_relaxation)
            else:
                v.data_config.root = max(graph_of(w, v.data_config)) + 7
            bad.add(v.uuid)
        vials.append(v)
    return Experiment(name=rng.choice([ExperimentName.dryrun, ExperimentName.compare_heuristics, ExperimentName.baseline]), vials=vials, timestamp=datetime(2024, 5, 6, 7, 8, 9, rng.randint(0, 999999))), bad


def lab_on(c, w, sub="lab"):
    d = c.tmp / sub
    d.mkdir(exist_ok=True)
    return Lab(d / w.ds.value, logger=QUIET, londonaq_root=w.laq_root, oplib_root=w.op_root)


def stable(res):
    """A result without its times."""
    d = json.loads(res.model_dump_json())
    d.pop("start_time")
    d.pop("end_time")
    return d


@prop("L02", 960, 7680, lib="plain", min_distinct=60, rule="distinct (number of vials, batch size, way of running) whose batches were run and counted")
def l02(c):
    """Batches partition the experiment; the generated job script runs every batch once."""
    rng = c.rng
    from pctsp.apps import main_app
    w = world(c, 1, 4, 5)
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8])
    size = rng.choice([1, 2, 3, n, max(1, n - 1), n + 1, 5])
    ex, _ = batch_experiment(c, w, n, algs=[A.suurballes_heuristic])
    lab = lab_on(c, w)
    ids = [v.uuid for v in ex.vials]
    dat = lambda: {"vials": n, "batch_size": size}
    for k in range(30):
        a, b = rng.randint(0, 5000), rng.randint(1, 400)
        m = get_nbatches(a, b)
        c.check(m == -(-a // b), lambda: "%d vials in batches of %d need %d batches, not %r" % (a, b, -(-a // b), m))
    m = get_nbatches(n, size)
    mode = rng.choice(["direct", "slurm", "missing"])
    if mode == "direct":
        got = []
        for i in range(m):
            with captured():
                rs = c.call("run_batch", lab.run_batch, ex, i * size, size)
            c.check([r.vial_uuid for r in rs] == ids[i * size:(i + 1) * size], lambda: "batch %d does not run its vials" % i, dat)
            got += [r.vial_uuid for r in rs]
        c.check(got == ids, lambda: "the batches together ran %d of %d vials, or some twice" % (len(got), n), dat)
        with captured():
            c.check(lab.run_batch(ex, m * size, size) == [], "a batch beyond the last one ran something", dat)
        c.event("vials_run", len(got))
        c.distinct(n, size, mode, rng.random())
        return
    # through the command line functions and the job script
    with captured():
        lab.write_experiment_to_file(ex)
        only = mode == "missing"
        labdir = c.tmp / "lab"
        if only:
            for v in rng.sample(ex.vials, rng.randint(0, n - 1)):
                lab.run_experiment_from_vial_list(ex, [v])
            done = {u for u in ids if (lab.get_vial_dir(ex.name, u) / (str(u) + ".json")).exists()}
            kept = {u: (lab.get_vial_dir(ex.name, u) / (str(u) + ".json")).read_bytes() for u in done}
            command(c, "missing", main_app.missing, w.ds, ex.name, lab_dir=labdir)
            ids = [u for u in ids if u not in done]
        mem, hours = rng.choice([12000, 4000]), rng.choice([.25, 1, 3.5, 4, 30, 60])
        limit = hours * 3600.0
        part = rng.choice(["cpu-batch", "gpu"])
        command(c, "slurm", main_app.slurm, w.ds, ex.name, size, lab_dir=labdir, logging_level=logging.CRITICAL, londonaq_root=w.laq_root, mem_per_cpu=mem,
               only_missing_results=only, oplib_root=w.op_root, overwrite=False, partition=part, time_limit=limit)
    script = labdir / w.ds.value / ex.name.value / (ex.name.value + ".slurm")
    text = script.read_text()
    opts = dict(x[len("#SBATCH --"):].split("=", 1) for x in text.splitlines() if x.startswith("#SBATCH --"))
    lo, hi = map(int, opts["array"].split("-"))
    cnt = -(-len(ids) // size)
    c.check((lo, hi) == (0, cnt - 1), lambda: "the job array is %s for %d batches" % (opts["array"], cnt), dat)
    want = min(math.ceil(size * hours) + 1, 48)
    c.check(opts["time"] == "%d:00:00" % want, lambda: "the job time is %s: batch size %d at %s hours each gives %d hours (at most two days)" % (opts["time"], size, hours, want), dat)
    c.check(opts["partition"] == part and opts["mem-per-cpu"] == str(mem), "partition or memory option lost", dat)
    try:
        with captured():
            main_app.slurm(w.ds, ex.name, size, lab_dir=labdir, logging_level=logging.CRITICAL, londonaq_root=w.laq_root, mem_per_cpu=mem,
                           only_missing_results=only, oplib_root=w.op_root, overwrite=False, partition=part, time_limit=limit)
        c.check(False, "an existing job script is overwritten", dat)
    except FileExistsError:
        c.check(script.read_text() == text, "an existing job script is changed", dat)
    # run the script with a recording srun
    stub = c.tmp / "bin"
    stub.mkdir()
    (stub / "srun").write_text('#!/bin/bash\nprintf "%s\\0" "$@" >> "$REC"; printf "END\\0" >> "$REC"\n')
    (stub / "srun").chmod(0o755)
    rec = c.tmp / "rec"
    rec.write_bytes(b"")
    from typer.testing import CliRunner
    for i in range(lo, hi + 1):
        subprocess.run(["bash", str(script)], check=True, cwd=str(c.tmp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env={"PATH": str(stub) + ":/usr/bin:/bin", "REC": str(rec), "SLURM_ARRAY_TASK_ID": str(i)})
    calls, cur = [], []
    for x in rec.read_bytes().decode().split("\0"):
        if x == "END":
            calls.append(cur)
            cur = []
        else:
            cur.append(x)
    c.check(len(calls) == cnt, lambda: "%d job steps for %d batches" % (len(calls), cnt), dat)
    order = []
    exdir = labdir / w.ds.value / ex.name.value
    result = lambda u: exdir / str(u) / (str(u) + ".json")
    for a in calls:
        args = [x for x in a[a.index("pctsp") + 1:] if x.strip()]
        had = {u: result(u).stat().st_mtime_ns for u in (v.uuid for v in ex.vials) if result(u).exists()}
        with captured():
            r = CliRunner().invoke(main_app.app, args, catch_exceptions=True)
        if not c.check(r.exit_code == 0, lambda: "the job step %r fails: %r %s" % (args, r.exception, r.output[-500:]), dat):
            return
        ran = [v.uuid for v in ex.vials if result(v.uuid).exists() and had.get(v.uuid) != result(v.uuid).stat().st_mtime_ns]
        order += ran
    c.check(order == ids, lambda: "the job steps ran %r, expected %r" % (order, ids), dat)
    if only:
        for u, b in kept.items():
            c.check(result(u).read_bytes() == b, "a vial that already had a result was run again", dat)
        c.event("kept_results", len(kept))
    with captured() as o:
        command(c, "nbatches", main_app.nbatches, w.ds, ex.name, size, lab_dir=labdir, logging_level=logging.CRITICAL, londonaq_root=w.laq_root, oplib_root=w.op_root)
    c.check(o.getvalue().split()[-1] == str(m), "the nbatches command prints %r instead of %d" % (o.getvalue(), m), dat)
    c.event("job_steps", len(calls))
    c.event("vials_run", len(order))
    c.distinct(n, size, mode, hours, len(ids), rng.random())
    c.sample({"vials": n, "size": size, "mode": mode, "array": opts["array"], "time": opts["time"]})


# ---------------------------------------------------------------- L03
FAULTS = [KeyError("edge"), IndexError("list index out of range"), nx.NetworkXError("no path"), ArithmeticError("overflow"), AssertionError(), OSError(28, "No space left on device"), StopIteration(), RuntimeError("solver"),
          AttributeError("x"), UnicodeDecodeError("utf-8", b"x", 0, 1, "bad"), MemoryError(), RecursionError("too deep"), type("Failure", (Exception,), {})("unknown kind")]


@contextlib.contextmanager
def failing(faults):
    """The runner of an algorithm raises the given exception for the given vials; yields the vials it was raised for."""
    from pctsp.lab import lab as mod
    fired, old = set(), getattr(mod, "run_algorithm", None)
    if old is None:
        yield fired
        return

    def run(*a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, Vial) and x.uuid in faults:
                fired.add(x.uuid)
                raise faults[x.uuid]
        return old(*a, **k)
    mod.run_algorithm = run
    try:
        yield fired
    finally:
        mod.run_algorithm = old


@prop("L03", 1000, 8000, lib="plain", min_distinct=100, rule="distinct experiments in which some vial failed or some result file was damaged")
def l03(c):
    """Failures and damaged files stay local."""
    rng = c.rng
    from pctsp.apps import main_app
    w = world(c, 2)
    n = rng.randint(2, 7)
    ex, bad = batch_experiment(c, w, n, broken=.4)
    lab = lab_on(c, w)
    faults = {v.uuid: rng.choice(FAULTS) for v in ex.vials if v.uuid not in bad and rng.random() < .15}
    with captured(), failing(faults) as fired:
        lab.write_experiment_to_file(ex)
        results = c.call("run_experiment", lab.run_experiment, ex)
    c.event("failures_injected", len(fired))
    bad |= fired
    dat = lambda: {"vials": [json.loads(v.model_dump_json()) for v in ex.vials], "bound_to_fail": [str(b) for b in bad]}
    c.event("vials_run", n)
    c.event("vials_bound_to_fail", len(bad))
    good = [v for v in ex.vials if v.uuid not in bad]
    c.check([r.vial_uuid for r in results] == [v.uuid for v in good], lambda: "results of %r; the vials that can run are %r" % ([str(r.vial_uuid) for r in results], [str(v.uuid) for v in good]), dat)
    if len(results) != len(good):
        return
    with captured():
        for v, r in zip(good, results):
            one = pc.Inst(graph_of(w, v.data_config), v.data_config.root, v.data_config.quota, "lab")
            judge_result(c, v.model_params.algorithm.value, one, v, r, dat)
        if good:
            k = rng.randrange(len(good))
            alone = c.call("running one vial alone", lab_on(c, w, "alone").run_experiment_from_vial_list, ex, [good[k]])
            c.check(len(alone) == 1 and stable(alone[0]) == stable(results[k]), "a vial gives another result when it runs alone", dat)
        f = lambda v: lab.get_vial_dir(ex.name, v.uuid) / (str(v.uuid) + ".json")
        for v, r in zip(good, results):
            c.check(f(v).exists() and Result.read_from_json_file(f(v).parent, v.uuid) == r, "the result file does not hold the result", dat)
        c.check(not any(f(v).exists() for v in ex.vials if v.uuid in bad), "a failed vial has a result file", dat)
        # damage
        hurt = set()
        for v in good:
            if rng.random() < .35:
                b = f(v).read_bytes()
                k = rng.randint(0, 7)
                if k == 0:
                    f(v).unlink()
                elif k == 1:
                    f(v).write_bytes(b"")
                elif k == 2:  # blocks that never reached the disk
                    f(v).write_bytes(b[:len(b) // 2] + bytes(len(b) - len(b) // 2))
                elif k == 3:  # not text at all
                    f(v).write_bytes(bytes(rng.randint(128, 255) for _ in range(len(b))))
                elif k == 4:  # readable, but no result
                    f(v).write_text(rng.choice(["{}", '{"vial_uuid": "%s"}' % v.uuid, "not json"]))
                else:
                    f(v).write_bytes(b[:rng.randint(1, len(b) - 2)])
                c.event("damage_%d" % min(k, 5))
                hurt.add(v.uuid)
        ok = [(v, r) for v, r in zip(good, results) if v.uuid not in hurt]
        gone = [v.uuid for v in ex.vials if v.uuid in bad | hurt]
        c.event("files_damaged", len(hurt))
        back = c.call("read_results_from_file", lab.read_results_from_file, ex)
        c.check(back == [r for _, r in ok], "reading the results does not give exactly the intact ones in order", dat)
        miss = c.call("missing_vials", lab.missing_vials, ex, ex.vials)
        c.check([v.uuid for v in miss] == gone, lambda: "missing vials %r, expected %r" % ([str(v.uuid) for v in miss], [str(g) for g in gone]), dat)
        inf = c.call("infeasible_vials", lab.infeasible_vials, ex, ex.vials)
        want = [v.uuid for v, r in ok if r.prize < v.data_config.quota]
        c.check([v.uuid for v in inf] == want, lambda: "infeasible vials %r, expected %r" % ([str(v.uuid) for v in inf], [str(x) for x in want]), dat)
    if rng.random() < .4:
        away = rng.choice([None, c.tmp / "nowhere"])
        other = Lab(c.tmp / "elsewhere", logger=QUIET, **{{DatasetName.londonaq: "londonaq_root", DatasetName.tspwplib: "oplib_root"}[w.ds]: away})
        try:
            with captured():
                other.run_experiment(ex)
            c.check(False, "the directory of the data set does not exist, but the experiment runs", dat)
        except FileNotFoundError:
            c.check(not list((c.tmp / "elsewhere").rglob("*.json")), "results without a data set", dat)
            c.event("no_data_set")
    labdir = c.tmp / "lab"
    with captured() as o:
        command(c, "missing", main_app.missing, w.ds, ex.name, lab_dir=labdir)
    c.check([x.split()[0] for x in o.getvalue().splitlines() if x.strip() and x.split()[0] in {str(v.uuid) for v in ex.vials}] == [str(g) for g in gone], "the missing command lists other vials", dat)
    with captured():
        me = lab.read_experiment_from_file(ex.name, only_missing_results=True)
        fe = lab.read_experiment_from_file(ex.name)
    c.check(me == Experiment(name=ex.name, vials=[v for v in ex.vials if v.uuid in set(gone)], timestamp=ex.timestamp), "the file of missing vials is not exactly the missing vials", dat)
    c.check(fe == ex, "the experiment file changed", dat)
    with captured() as o:
        command(c, "nmissing", main_app.nmissing, w.ds, ex.name, lab_dir=labdir)
    c.check(o.getvalue().split()[:1] == [str(len(gone))] and str(n) in o.getvalue().split(), lambda: "nmissing prints %r for %d of %d" % (o.getvalue(), len(gone), n), dat)
    with captured() as o:
        command(c, "infeasible", main_app.infeasible, w.ds, ex.name, lab_dir=labdir)
    c.check([x for x in o.getvalue().split() if len(x) == 36] == [str(u) for u in want], "the infeasible command lists other vials", dat)
    # running what is missing completes the experiment and leaves the rest alone
    keep = {v.uuid: f(v).read_bytes() for v, _ in ok}
    with captured():
        with failing(faults):
            lab.run_batch(ex, 0, n, only_missing_results=True)
        c.check([v.uuid for v in lab.missing_vials(ex, ex.vials)] == [v.uuid for v in ex.vials if v.uuid in bad], "running the missing vials leaves some missing", dat)
        c.check(all(f(v).read_bytes() == keep[v.uuid] for v, _ in ok), "running the missing vials rewrites intact results", dat)
        again = lab.read_results_from_file(ex)
    c.check([stable(r) for r in again] == [stable(r) for r in results], "the repaired results differ from the first run", dat)
    if bad or hurt:
        c.distinct([str(v.uuid) for v in ex.vials], len(bad), sorted(map(str, hurt)))
        c.sample({"vials": n, "fail": len(bad), "damaged": len(hurt), "infeasible": len(want)})


# ---------------------------------------------------------------- L04
def random_vial(rng):
    alg = rng.choice(list(A))
    if rng.random() < .5:
        dc = DataConfig(dataset=DatasetName.tspwplib, cost_function=rng.choice(list(EdgeWeightType)), graph_name=rng.choice(list(GraphName)), quota=rng.randint(0, 10 ** 7), root=rng.randint(0, 2000),
                        alpha=rng.choice([None, 5, 100]), generation=rng.choice([None] + list(Generation)), kappa=rng.choice([None, 0, 5, 25]), triangle=rng.choice([None, 0, 3]))
    else:
        dc = DataConfig(dataset=DatasetName.londonaq, cost_function=EdgeWeightType.EXPLICIT, graph_name=rng.choice(LQ), quota=rng.randint(0, 6000), root=rng.getrandbits(rng.choice([4, 31, 52])), alpha=rng.choice([None, 0, 50]))
    return Vial(uuid=uid(rng), data_config=dc, model_params=params(rng, alg, rng.choice([None] + list(A))), preprocessing=prep(rng, disjoint_path_cutoff=rng.random() < .3))


def random_result(rng, u=None):
    t = datetime(2020 + rng.randint(0, 9), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 1, 999999, rng.randint(0, 999999)]))
    k = rng.choice([0, 0, 3, 5, 40])
    vs = [rng.getrandbits(rng.choice([3, 20, 40])) for _ in range(k)]
    return Result(vial_uuid=u or uid(rng), objective=rng.choice([0, rng.randint(1, 10 ** 9)]), prize=rng.choice([0, rng.randint(1, 10 ** 9)]), edge_list=list(zip(vs, vs[1:] + vs[:1])), start_time=t,
                  end_time=t + timedelta(microseconds=rng.choice([0, 1, rng.randint(0, 10 ** 11)])))


@prop("L04", 6000, 48000, lib="plain", min_distinct=700, rule="distinct experiments and results written to disk and read back")
def l04(c):
    """What is written is what is read."""
    rng = c.rng
    r = random_result(rng)
    d = c.tmp / "r"
    for f in (lambda: r.write_to_json_file(d), lambda: Result.read_from_json_file(d, r.vial_uuid)):
        try:
            f()
            c.check(False, "a missing directory is not reported")
        except FileNotFoundError:
            c.check(not d.exists(), "a missing directory is created")
    d.mkdir()
    others = [random_result(rng) for _ in range(rng.randint(0, 2))]
    p = c.call("writing a result", r.write_to_json_file, d)
    for o in others:
        o.write_to_json_file(d)
    c.check(p == d / (str(r.vial_uuid) + ".json") and p.exists(), "the result is not written to the file named after the vial")
    for x in [r] + others:
        c.check(c.call("reading a result", Result.read_from_json_file, d, x.vial_uuid) == x, lambda: "result read back differs: %r" % x)
    if rng.random() < .5:  # overwriting with a shorter result
        r2 = random_result(rng, r.vial_uuid)
        r2.write_to_json_file(d)
        c.check(Result.read_from_json_file(d, r.vial_uuid) == r2, "overwriting a result does not replace it")
    try:
        Result.read_from_json_file(d, uid(rng))
        c.check(False, "a missing result is not reported")
    except FileNotFoundError:
        c.check(True, "")
    vials = [random_vial(rng) for _ in range(rng.randint(0, 5))]
    ex = Experiment(name=rng.choice(list(ExperimentName)), vials=vials, timestamp=r.start_time)
    lab = Lab(c.tmp / "lab", logger=QUIET)
    for miss in (False, True):
        try:
            lab.read_experiment_from_file(ex.name, only_missing_results=miss)
            c.check(False, "a missing experiment file is not reported")
        except FileNotFoundError:
            c.check(True, "")
    lab.write_experiment_to_file(ex)
    part = Experiment(name=ex.name, vials=vials[1:], timestamp=ex.timestamp)
    lab.write_experiment_to_file(part, only_missing_results=True)
    for miss, want in ((False, ex), (True, part)):
        got = c.call("reading an experiment", lab.read_experiment_from_file, ex.name, only_missing_results=miss)
        c.check(got == want and [type(v.data_config.graph_name) for v in got.vials] == [type(v.data_config.graph_name) for v in want.vials], "experiment read back differs", lambda: {"want": json.loads(want.model_dump_json()), "got": json.loads(got.model_dump_json())})
    results = [random_result(rng, v.uuid) for v in vials]
    lab.write_results_to_file(ex.name, results)
    raw = json.loads((lab.get_experiment_dir(ex.name) / "results.json").read_text())
    c.check([Result(**x) for x in raw] == results, "results.json differs from the results")
    if rng.random() < .3:  # a later, smaller batch replaces the file
        fewer = results[:rng.randint(0, len(results))]
        lab.write_results_to_file(ex.name, fewer)
        raw = json.loads((lab.get_experiment_dir(ex.name) / "results.json").read_text())
        c.check([Result(**x) for x in raw] == fewer, lambda: "after writing %d results over %d, results.json holds %d" % (len(fewer), len(results), len(raw)))
    dirs = [Path(lab.get_vial_dir(ex.name, v.uuid)).resolve() for v in vials]
    c.check(len(set(dirs)) == len({v.uuid for v in vials}), lambda: "two vials share a directory: %r" % sorted(map(str, dirs)))
    c.event("close_identifiers", sum(a.uuid.hex[:8] == b.uuid.hex[:8] for a, b in zip(vials, vials[1:])))
    for v, x in zip(vials, results):
        x.write_to_json_file(lab.get_vial_dir(ex.name, v.uuid))
    c.check(lab.read_results_from_file(ex) == results, "results of an experiment read back differ")
    # flat table of vials
    for v in vials:
        flat = flat_dict_from_vial(v)
        want = {"uuid": v.uuid}
        for part_ in (v.data_config, v.model_params, v.preprocessing):
            want.update({k: getattr(part_, k) for k in type(part_).model_fields})
        c.check(flat == want, lambda: "flat dictionary differs: %r" % {k: (flat.get(k), want.get(k)) for k in set(flat) | set(want) if flat.get(k) != want.get(k) or (k in flat) != (k in want)})
    if vials:
        df = dataframe_from_vial_list(vials)
        c.check(len(df) == len(vials) and list(df["uuid"]) == [v.uuid for v in vials] and list(df["quota"]) == [v.data_config.quota for v in vials] and
                list(df["algorithm"]) == [v.model_params.algorithm for v in vials], "table of vials differs from the vials")
    c.event("results", len(results) + 1 + len(others))
    c.event("vials", len(vials))
    c.distinct(str(r.vial_uuid), len(vials))
    c.sample({"vials": len(vials), "edges": len(r.edge_list)})


# ---------------------------------------------------------------- L05
def want_algos(vials):
    return {v.model_params.algorithm for v in vials}


@prop("L05", 640, 5120, lib="plain", min_distinct=60, rule="distinct parameter lists and experiment definitions whose vials were compared with the full cross product")
def l05(c):
    rng = c.rng
    from pctsp.compare import product_of_params as pp
    from pctsp.constants import FOUR_HOURS
    pick = lambda xs, lo=1, hi=3: rng.sample(list(xs), rng.randint(lo, min(hi, len(list(xs)))))
    gens, names = pick(Generation, 1, 2), pick([GraphName.st70, GraphName.eil76, GraphName.eil51, GraphName.a280], 1, 3)
    w = data.World(c.tmp, rng, laq=pick(LQ), op=[(g, n) for g in gens for n in names], lo=4, hi=7)
    alphas, kappas, costs = pick([0, 5, 25, 50, 75, 100]), pick([None, 0, 2, 10]), pick([EdgeWeightType.EUC_2D, EdgeWeightType.MST, EdgeWeightType.UNIFORM_RANDOM])
    dcs = c.call("TSPLIB settings", pp.product_of_tspwplib_data_config, w.op_root, alphas, kappas, gens, names, costs)
    key = lambda d: (d.alpha, d.kappa, d.generation, d.graph_name, d.cost_function, d.quota, d.root, d.dataset)
    want = sorted(repr((a, k or None, g, n, f, a * w.total((g, n)) // 100, w.op[g, n][2], DatasetName.tspwplib)) for a in alphas for k in kappas for g in gens for n in names for f in costs)
    c.check(sorted(repr(key(d)) for d in dcs) == want, lambda: "TSPLIB settings are not the cross product: %r..., expected %r..." % (sorted(repr(key(d)) for d in dcs)[:2], want[:2]))
    quotas, lnames = pick([0, 1, 10, 1000, 5000]), list(w.laq)
    lk = lambda d: (d.quota, d.graph_name, d.root, d.dataset, d.cost_function, d.alpha)
    dl = c.call("londonaq settings", pp.product_of_londonaq_data_config, w.laq_root, quotas, lnames)
    c.check(sorted(repr(lk(d)) for d in dl) == sorted(repr((q, n, w.laq[n].root, DatasetName.londonaq, EdgeWeightType.EXPLICIT, None)) for q in quotas for n in lnames), "londonaq settings are not the cross product")
    alphas = pick([0, 5, 25, 50, 75, 100] + [a for a in range(1, 101) if any(int(a / 100 * w.total(n)) != a * w.total(n) // 100 for n in lnames)] * 3)
    da = c.call("londonaq settings by alpha", pp.product_of_londonaq_data_config_from_alpha, w.laq_root, alphas, lnames)
    c.check(sorted(repr(lk(d)) for d in da) == sorted(repr((a * w.total(n) // 100, n, w.laq[n].root, DatasetName.londonaq, EdgeWeightType.EXPLICIT, a)) for a in alphas for n in lnames),
            lambda: "londonaq settings by alpha are not the cross product: %r" % [lk(d) for d in da])
    algs = rng.sample(list(A), rng.randint(1, len(A)))
    cp, depth, step, tl = rng.random() < .5, rng.randint(2, 9), rng.randint(1, 9), rng.choice([FOUR_HOURS, 7.5])
    mp = c.call("model parameters", pp.product_of_model_params, algs, collapse_paths=cp, path_depth_limit=depth, step_size=step, time_limit=tl)
    c.check([m.algorithm for m in mp] == algs, "model parameters are not one per algorithm")
    for m in mp:
        kinds = (m.algorithm == A.solve_pctsp, m.algorithm in HEUR + [A.extension], m.algorithm == A.disjoint_tours_relaxation)
        c.check((m.is_exact, m.is_heuristic, m.is_relaxation) == kinds, lambda: "%s is not classified as what it is" % m.algorithm.value)
        if m.is_exact:
            c.check(m.time_limit == tl and m.sec_disjoint_tour is True and m.sec_maxflow_mincut is True and m.cost_cover_disjoint_paths is False and m.cost_cover_shortest_path is False and m.sec_sepafreq == 1 and
                    m.sec_max_tailing_off_iterations == -1 and m.branching_strategy == BranchingStrategy.RELPSCOST and m.branching_max_depth == -1, "parameters of the exact algorithm are not the plain branch and cut ones")
        if m.algorithm == A.bfs_extension_collapse:
            c.check((m.collapse_paths, m.path_depth_limit, m.step_size) == (cp, depth, step), "parameters of the extension heuristic are not those given")
    bl = lambda: rng.choice([[True], [False], [True, False], [False, True]])
    b1, b2, b3 = bl(), bl(), bl()
    ps = c.call("preprocessing settings", pp.product_of_preprocessing, b1, b2, b3)
    pk = lambda p: (p.remove_disconnected_components, p.remove_leaves, p.remove_one_connected_components)
    c.check(sorted(map(pk, ps)) == sorted((x, y, z) for x in b1 for y in b2 for z in b3) and not any(p.shortest_path_cutoff or p.disjoint_path_cutoff for p in ps), "preprocessing settings are not the cross product")
    dcs = rng.sample(dcs, min(len(dcs), 6))
    vs = c.call("vials", pp.product_of_vials, dcs, mp, ps)
    c.check(len({v.uuid for v in vs}) == len(vs), "two vials have the same id")
    vk = lambda d, m, p: d.model_dump_json() + m.model_dump_json() + p.model_dump_json()
    c.check(sorted(vk(v.data_config, v.model_params, v.preprocessing) for v in vs) == sorted(vk(d, m, p) for d in dcs for m in mp for p in ps), "vials are not the cross product of data, model and preprocessing")
    c.event("vials", len(vs))
    c.distinct(c.idx, "product", len(vs))
    c.sample({"settings": len(dcs), "params": len(mp), "vials": len(vs)})
    if c.idx % 8 == 3 or c.thorough and c.idx % 4 == 3:
        named_experiments(c, rng)


STUDY = json.loads((Path(__file__).parent / "study.json").read_text()) if (Path(__file__).parent / "study.json").exists() else {}


def study_of(vials):
    """What an experiment of the study consists of, apart from what the instances decide (roots and quotas given by alpha)."""
    plain = lambda m: json.loads(m.model_dump_json())
    axes = {}
    for v in vials:
        d = plain(v.data_config)
        for k in ("alpha", "kappa", "generation", "graph_name", "cost_function") + (() if d["alpha"] is not None else ("quota",)):
            if d[k] not in axes.setdefault(k, []):
                axes[k].append(d[k])
    uniq = lambda xs: sorted({json.dumps(x, sort_keys=True) for x in xs})
    return {"vials": len(vials), "axes": {k: sorted(x, key=str) for k, x in axes.items()}, "params": [json.loads(x) for x in uniq(plain(v.model_params) for v in vials)],
            "preprocessing": [json.loads(x) for x in uniq(plain(v.preprocessing) for v in vials)]}


def named_experiments(c, rng):
    """The experiments of the study: for every instance the algorithms to be compared differ only in what is compared."""
    from pctsp import compare
    from pctsp.compare import params as P
    from pctsp.compare.exact_experiment import baseline
    from pctsp.constants import FOUR_HOURS
    names = sorted({*P.TSPLIB_GRAPH_NAME_LIST, GraphName.st70, GraphName.pr152, GraphName.gr229, GraphName.rat195, GraphName.a280})
    d = c.tmp / "study"
    d.mkdir()
    full = data.World(d, rng, laq=LQ, op=[(g, n) for g in Generation for n in names], lo=4, hi=5)
    T, L = DatasetName.tspwplib, DatasetName.londonaq
    cand = ["cost_cover", "tailing_off", "baseline", "simple_branch_cut", "compare_heuristics", "londonaq_alpha", "cc_londonaq_alpha", "disjoint_tours_vs_heuristics", "dryrun"]
    only = {"simple_branch_cut": T, "disjoint_tours_vs_heuristics": T, "cc_londonaq_alpha": L, "londonaq_alpha": L}
    turn = c.idx // (4 if c.thorough else 8)
    name, ds = cand[turn % len(cand)], [T, L][turn // len(cand) % 2]
    fn = baseline if name == "baseline" else getattr(compare, name)
    root = full.op_root if ds == T else full.laq_root
    if name in only and only[name] != ds:
        if name != "londonaq_alpha":
            try:
                fn(ds, root)
                c.check(False, "experiment %s accepts data set %s" % (name, ds.value))
            except ValueError:
                c.check(True, "")
            c.event("unsupported_data_set")
        return
    vs = c.call("experiment " + name, fn, ds, root)
    dat = {"experiment": name, "dataset": ds.value, "vials": len(vs)}
    c.check(len(vs) > 0 and len({v.uuid for v in vs}) == len(vs), "no vials or repeated ids", dat)
    inst, pre = {}, set()
    for v in vs:
        k = v.data_config
        c.check(k.dataset == ds, "a vial is on another data set", dat)
        tot, dep = (full.total((k.generation, k.graph_name)), full.op[k.generation, k.graph_name][2]) if ds == T else (full.total(k.graph_name), full.laq[k.graph_name].root)
        c.check(k.root == dep, lambda: "root %r, the depot is %r" % (k.root, dep), dat)
        if k.alpha is not None:
            c.check(k.quota == k.alpha * tot // 100, lambda: "quota %r is not %r percent of %r" % (k.quota, k.alpha, tot), dat)
        inst.setdefault(k.model_dump_json(), []).append(v.model_params)
        pre.add(v.preprocessing.model_dump_json())
        m = v.model_params
        c.check([m.is_exact, m.is_heuristic, m.is_relaxation] == [m.algorithm == A.solve_pctsp, m.algorithm in HEUR, m.algorithm == A.disjoint_tours_relaxation], "an algorithm is not classified as what it is", dat)
        c.check(v.preprocessing.remove_one_connected_components, "the study always removes one-connected parts", dat)
    c.check(len(pre) == 1, "preprocessing differs inside one experiment", dat)
    sets = {json.dumps(sorted(m.model_dump_json() for m in ms)) for ms in inst.values()}
    c.check(len(sets) == 1, "not every instance is run with the same algorithms", dat)
    one = next(iter(inst.values()))
    c.check(len({m.model_dump_json() for m in one}) == len(one), "an instance is run twice with the same parameters", dat)
    diff = lambda ms, keys: len({json.dumps({k: x for k, x in json.loads(m.model_dump_json()).items() if k not in keys}) for m in ms})
    if name in ("cost_cover", "cc_londonaq_alpha"):
        kinds = sorted((m.cost_cover_disjoint_paths, m.cost_cover_shortest_path) for m in one)
        c.check(kinds == [(False, False), (False, True), (True, False)], lambda: "cost cover variants are %r" % kinds, dat)
        c.check(diff(one, {"cost_cover_disjoint_paths", "cost_cover_shortest_path"}) == 1, "the cost cover variants differ in something else", dat)
    if name == "tailing_off":
        c.check(len({(m.branching_strategy, m.sec_max_tailing_off_iterations) for m in one}) == len(one) and diff(one, {"branching_strategy", "sec_max_tailing_off_iterations"}) == 1,
                "tailing off variants differ in something else", dat)
        c.check({m.sec_max_tailing_off_iterations for m in one} >= {-1}, "tailing off is never switched off", dat)
    if name in ("compare_heuristics", "londonaq_alpha"):
        c.check({m.algorithm for m in one} == set(HEUR), "not all heuristics are compared", dat)
    if name == "baseline":
        c.check([m.algorithm for m in one] == [A.solve_pctsp] and not one[0].cost_cover_disjoint_paths and not one[0].cost_cover_shortest_path, "the baseline is not plain branch and cut", dat)
    for m in one:
        if m.is_exact:
            c.check(m.sec_disjoint_tour and m.sec_maxflow_mincut and (m.time_limit == FOUR_HOURS or name == "dryrun"), "exact algorithm without subtour cuts or with another time limit", dat)
    n = {"cost_cover": (len(P.TSPLIB_ALPHA_LIST) * len(P.TSPLIB_KAPPA_LIST) * len(Generation) * len(P.TSPLIB_GRAPH_NAME_LIST) * len(P.TSPLIB_COST_FUNCTIONS), len(P.LONDONAQ_QUOTA_LIST) * len(P.LONDONAQ_GRAPH_NAME_LIST))}
    n["baseline"] = n["compare_heuristics"] = n["cost_cover"]
    if name in n:
        c.check(len(inst) == n[name][ds == L], lambda: "%d instances instead of %d" % (len(inst), n[name][ds == L]), dat)
    # the settings the study was made with
    want, got = STUDY.get(name + " " + ds.value), study_of(vs)
    if want:
        c.check(got["vials"] == want["vials"], lambda: "%d vials instead of %d" % (got["vials"], want["vials"]), dat)
        c.check(got["axes"] == want["axes"], lambda: "the instances are %r, the study's are %r" % (got["axes"], want["axes"]), dat)
        for k in ("params", "preprocessing"):
            known = [{x: m.get(x) for x in want[k][0]} for m in got[k]]
            c.check(all(m in want[k] for m in known) and all(m in known for m in want[k]), lambda: "%s are %r, the study's are %r" % (k, known, want[k]), dat)
    c.event("named_" + name)
    c.distinct(name, ds.value)


# ---------------------------------------------------------------- L06
STAT_INTS = ["num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths", "nconss_presolve_shortest_paths", "num_cycle_cover", "num_nodes",
             "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]


def random_stats(rng, status=None):
    lb = rng.choice([rng.randint(1, 900), float(rng.randint(1, 900)) + .5])
    d = {"status": status or rng.choice([11, 12, 4, 5]), "lower_bound": lb, "upper_bound": lb + rng.choice([0, 0, rng.randint(1, 50)])}
    d.update({k: rng.randint(0, 300) for k in STAT_INTS})
    d["num_nodes"] += 1
    return d


def near(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)


@prop("L06", 800, 6400, lib="plain", min_distinct=100, rule="distinct experiments (with results and summaries missing or damaged) exported to CSV and compared row by row")
def l06(c):
    """The exported table says what the files say."""
    rng = c.rng
    from pctsp.apps import csv_app
    from pctsp.constants import PCTSP_SUMMARY_STATS_YAML
    ds = rng.choice(list(DatasetName))
    branch = rng.random() < .6
    ename = rng.choice([ExperimentName.cost_cover, ExperimentName.tailing_off]) if branch else ExperimentName.compare_heuristics
    vials = [random_vial(rng) for _ in range(rng.randint(1, 7))]
    ex = Experiment(name=ename, vials=vials, timestamp=datetime(2024, 1, 2, 3, 4, 5))
    labdir = c.tmp / "lab"
    labdir.mkdir()
    lab = Lab(labdir / ds.value, logger=QUIET)
    lab.write_experiment_to_file(ex)
    res, stats, hurt = {}, {}, 0
    for v in vials:
        d = lab.get_vial_dir(ename, v.uuid)
        if rng.random() < .85 or not res:
            r = random_result(rng, v.uuid)
            if res and rng.random() < .25:  # two vials with the same result
                t = rng.choice(list(res.values()))
                r = Result(**dict(t.model_dump(), vial_uuid=v.uuid))
            if rng.random() < .4:
                r.prize = v.data_config.quota + rng.choice([0, 0, 1, -1, 17])
            r.write_to_json_file(d)
            res[v.uuid] = r
        f = d / PCTSP_SUMMARY_STATS_YAML
        k = rng.random()
        s = random_stats(rng)
        text = "".join("%s: %s\n" % x for x in rng.sample(list(s.items()), len(s)))
        if k < .7 or v is vials[-1] and not set(stats) & set(res):
            f.write_text(text)
            stats[v.uuid] = s
        elif k < .95:
            hurt += 1
            miss = rng.choice(list(s))
            f.write_text(rng.choice(["", "a: [", text.split("\n")[0][:3], "".join("%s: %s\n" % x for x in s.items() if x[0] != miss), "just words", text.replace("num_nodes: ", "num_nodes: x")]))
    ok = [v for v in vials if v.uuid in res and (not branch or v.uuid in stats)]
    dat = lambda: {"dataset": ds.value, "experiment": ename.value, "vials": len(vials), "results": len(res), "summaries": len(stats)}
    back = lab.read_results_from_file(ex)
    df = c.call("experiment_summary_df", csv_app.experiment_summary_df, ex, rng.sample(back, len(back)))
    st = c.call("summary_stats_df", csv_app.summary_stats_df, lab.get_experiment_dir(ename), [v.uuid for v in vials])

    def judge(row, v, where):
        r, q = res[v.uuid], v.data_config.quota
        fe = r.prize >= q
        want = {"duration": (r.end_time - r.start_time).total_seconds(), "prize": r.prize, "objective": r.objective if fe else math.nan, "overshoot": r.prize - q if fe else math.nan,
                "quota": q, "root": v.data_config.root, "time_limit": v.model_params.time_limit if v.model_params.time_limit is not None else math.nan}
        c.check(bool(row["feasible"]) == fe and str(row["feasible"]) in ("True", "False"), lambda: "%s: feasible is %r with prize %s and quota %s" % (where, row["feasible"], r.prize, q), dat)
        for k, x in want.items():
            c.check(near(row[k] if row[k] is not None else math.nan, x), lambda: "%s: column %s is %r, expected %r" % (where, k, row[k], x), dat)
        for k, x in (("algorithm", v.model_params.algorithm), ("graph_name", v.data_config.graph_name), ("dataset", v.data_config.dataset), ("cost_function", v.data_config.cost_function)):
            c.check(row[k] == x or str(row[k]) in (x.value, str(x)), lambda: "%s: column %s is %r, expected %r" % (where, k, row[k], x), dat)
        for k in ("remove_leaves", "remove_one_connected_components", "remove_disconnected_components"):
            c.check(bool(row[k]) == getattr(v.preprocessing, k), lambda: "%s: column %s is wrong" % (where, k), dat)
    rows = {str(r["uuid"]): r for r in df.to_dict("records")}
    c.check(len(df) == len(res) and set(rows) == {str(u) for u in res}, "the table has not one row per result", dat)
    for v in vials:
        if v.uuid in res and str(v.uuid) in rows:
            c.check(str(rows[str(v.uuid)]["vial_uuid"]) == str(v.uuid), "result joined to another vial", dat)
            judge(rows[str(v.uuid)], v, "data frame")
    got = {str(r["vial_uuid"]): r for r in st.to_dict("records")}
    c.check(set(got) == {str(u) for u in stats} and len(st) == len(stats), lambda: "summaries of %d vials, %d are complete" % (len(st), len(stats)), dat)
    for u, s in stats.items():
        c.check(all(near(got[str(u)][k], x) for k, x in s.items()), lambda: "summary in the table %r differs from the file %r" % (got[str(u)], s), dat)
    # the commands
    out = lab.get_experiment_dir(ename) / ("%s_%s.csv" % (ds.value, ename.value))
    if branch and not stats:
        return
    with captured():
        if rng.random() < .3:
            command(c, "csv all", csv_app.write_all_experiments_to_csv, labdir)
        elif branch:
            command(c, "csv branch-cut", csv_app.write_branch_cut_experiment_to_csv, ds, ename, labdir)
        else:
            command(c, "csv heuristics", csv_app.write_heuristics_experiment_to_csv, ds, ename, labdir)
    if not c.check(out.exists(), "no CSV file", dat):
        return
    csv = pd.read_csv(out, index_col=0)
    rows = {r["uuid"]: r for r in csv.to_dict("records")}
    c.check(len(csv) == len(ok) and set(rows) == {str(v.uuid) for v in ok}, lambda: "the CSV has %d rows for %d vials" % (len(csv), len(ok)), dat)
    for v in ok:
        if str(v.uuid) in rows:
            row = rows[str(v.uuid)]
            judge(row, v, "CSV")
            if branch:
                c.check(all(near(row[k], x) for k, x in stats[v.uuid].items()), "the summary in the CSV differs from the file", dat)
    c.event("rows", len(ok))
    c.event("damaged_summaries", hurt)
    c.event("missing_results", len(vials) - len(res))
    if ok:
        c.distinct([str(v.uuid) for v in vials], len(ok))
        c.sample(dat())


# ---------------------------------------------------------------- L07
class Shown:
    """Stands in for the LaTeX writer (jinja2 is not installed): records the tables handed to it."""

    def __init__(self):
        self.tables = []

    @contextlib.contextmanager
    def on(self):
        rec = self

        class Style:
            def __init__(self, df):
                self.df = df

            def format(self, *a, **k):
                return self

            def format_index(self, f=None, axis=0, **k):
                if callable(f):
                    d = self.df.copy()
                    ix = d.columns if axis in (1, "columns") else d.index
                    ix = ix.map(lambda t: tuple(map(f, t))) if ix.nlevels > 1 else ix.map(f)
                    if axis in (1, "columns"):
                        d.columns = ix
                    else:
                        d.index = ix
                    self.df = d
                return self

            def to_latex(self, buf=None, **k):
                rec.tables.append((self.df, k))
                if buf is not None:
                    Path(buf).write_text("table")
                return "table"
        old = pd.DataFrame.style, pd.DataFrame.to_latex
        pd.DataFrame.style = property(Style)
        pd.DataFrame.to_latex = lambda df, buf=None, **k: Style(df).to_latex(buf, **k)
        try:
            yield self
        finally:
            pd.DataFrame.style, pd.DataFrame.to_latex = old


def mean(xs):
    xs = [float(x) for x in xs if not (isinstance(x, float) and math.isnan(x))]
    return sum(xs) / len(xs) if xs else math.nan


def write_csv(path, rows):
    path.parent.mkdir(parents=True, exist_ok=True)
    pd.DataFrame(rows).to_csv(path)


def exact_rows(rng, ds, n, full):
    """Rows of a branch and cut experiment CSV: every instance under the three cost cover variants."""
    from pctsp.compare import params as P
    rows, seen = [], set()
    for _ in range(n):
        if ds == DatasetName.tspwplib:
            k = dict(graph_name=rng.choice(["st70", "eil51", "a280"]), generation=rng.choice(["gen1", "gen2", "gen3"]), cost_function=rng.choice(["EUC_2D", "MST", "SEMI_MST"] if full else ["EUC_2D", "MST"]),
                     kappa=rng.choice([5, 10]), alpha=rng.choice([5, 25, 50]), quota=rng.choice([100, 200]), root=1)
        else:
            k = dict(graph_name=rng.choice(["laqbbA", "laqidA", "laqkxA", "laqtinyA"]), generation=math.nan, cost_function="EXPLICIT", kappa=math.nan, alpha=rng.choice([5, 25]), quota=rng.choice([1000, 2000]), root=rng.choice([1, 7]))
        key = tuple(sorted((a, str(b)) for a, b in k.items() if a != "alpha"))
        if key in seen:
            continue
        seen.add(key)
        lb0 = rng.choice([rng.randint(1, 500), rng.randint(1, 500), rng.randint(10 ** 5, 10 ** 7)])
        for dp, sp in ((True, False), (False, True), (False, False)):
            s = random_stats(rng, rng.choice([11, 11, 4, 12]))
            s["lower_bound"] = lb0 + (0 if not full else rng.randint(0, 5))
            s["upper_bound"] = s["lower_bound"] if s["status"] == 11 else s["lower_bound"] + rng.choice([0, 1, rng.randint(0, 30)])
            if full and rng.random() < .1 or s["status"] == 12:
                s["upper_bound"] = s["lower_bound"] = 1e20
            fe = s["status"] != 12 and rng.random() < .9
            rows.append(dict(k, dataset=ds.value, cost_cover_disjoint_paths=dp, cost_cover_shortest_path=sp, duration=rng.randint(1, 4000) / 8, feasible=fe, branching_max_depth=rng.choice([1, 5]),
                             branching_strategy=rng.choice([0, 1, 2, 4]), sec_lp_gap_improvement_threshold=rng.choice([.01, .05]), sec_max_tailing_off_iterations=rng.choice([-1, 5]), **s))
    rng.shuffle(rows)
    return rows


@prop("L07", 2000, 16000, lib="plain", min_distinct=60, rule="distinct result tables whose aggregates were recomputed from the CSV cell by cell")
def l07(c):
    rng = c.rng
    kind = rng.choice(["cost_cover", "cost_cover", "tailing_off", "heuristics", "heuristics", "dataset", "pretty", "join", "all"])
    ds = rng.choice(list(DatasetName))
    labdir, tables = c.tmp / "lab", c.tmp / "tables"
    {"cost_cover": t_cost_cover, "tailing_off": t_tailing_off, "heuristics": t_heuristics, "dataset": t_dataset, "pretty": t_pretty, "join": t_join, "all": t_all}[kind](c, rng, ds, labdir, tables)
    c.event("table_" + kind)


def csv_path(labdir, ds, e):
    return labdir / ds.value / e.value / ("%s_%s.csv" % (ds.value, e.value))


def cellmap(df):
    """{(row key tuple, column key tuple): value} of a table."""
    t = lambda x: tuple(map(str, x)) if isinstance(x, tuple) else (str(x),)
    return {(t(i), t(j)): df.iat[a, b] for a, i in enumerate(df.index) for b, j in enumerate(df.columns)}


def one_table(c, rec, what):
    if not c.check(len(rec.tables) >= 1, "%s: no table was written" % what):
        return None
    return rec.tables[-1][0]


def groups(rows, keys):
    out = {}
    for r in rows:
        out.setdefault(tuple(r[k] for k in keys), []).append(r)
    return out


def t_cost_cover(c, rng, ds, labdir, tables):
    from pctsp.apps import tables_app as T
    alpha = ds == DatasetName.londonaq and rng.random() < .4
    e = ExperimentName.cc_londonaq_alpha if alpha else ExperimentName.cost_cover
    rows = [r for r in exact_rows(rng, ds, rng.randint(2, 8), True)]
    live = [r for r in rows if r["cost_function"] != "SEMI_MST" and r["graph_name"] != "laqtinyA"]
    if not live:
        return
    write_csv(csv_path(labdir, ds, e), rows)
    rec = Shown()
    with captured(), rec.on():
        command(c, "tables cost-cover", T.cost_cover_table, ds, tables, lab_dir=labdir, experiment_name=e)
    df = one_table(c, rec, "cost cover")
    if df is None:
        return
    n = T.PRETTY_COLUMN_NAMES
    name = {(True, False): "Cost cover disjoint paths", (False, True): "Cost cover shortest paths", (False, False): "No cost cover"}
    keys = ["cost_function", "alpha"] if ds == DatasetName.tspwplib else ["alpha"] if alpha else ["quota"]
    cells = cellmap(df)
    want = {}
    big = lambda x: math.nan if x == 1e20 else x
    for k, rs in groups(live, keys + ["cost_cover_disjoint_paths", "cost_cover_shortest_path"]).items():
        row = tuple(str({"EUC_2D": "EUC", "MST": "MST"}[x]) if y == "cost_function" else str(x / 100) if y == "alpha" and ds == DatasetName.tspwplib else str(x) for x, y in zip(k, keys))
        gap = [math.nan if r["status"] == 12 else (big(r["upper_bound"]) - big(r["lower_bound"])) / big(r["lower_bound"]) for r in rs]
        val = {"mean_gap": mean(gap), "mean_duration": mean(r["duration"] for r in rs), "num_optimal_solutions": sum(g == 0 and r["status"] == 11 for g, r in zip(gap, rs)),
               "avg_cuts_presolve": mean(r["nconss_presolve_disjoint_paths"] for r in rs) + mean(r["nconss_presolve_shortest_paths"] for r in rs),
               "num_feasible_solutions": sum(r["feasible"] for r in rs), "mean_lower_bound": mean(big(r["lower_bound"]) for r in rs), "mean_upper_bound": mean(big(r["upper_bound"]) for r in rs)}
        show = ["mean_gap", "num_feasible_solutions", "mean_lower_bound", "mean_upper_bound"] if alpha else ["mean_gap", "mean_duration", "num_optimal_solutions", "avg_cuts_presolve"]
        for m in show:
            want[row, (name[k[-2:]], n[m])] = val[m]
    dat = lambda: {"rows": rows, "table": {str(k): str(v) for k, v in cells.items()}}
    c.check(set(want) <= set(cells), lambda: "cost cover table lacks %r" % sorted(set(want) - set(cells))[:4], dat)
    for k, x in cells.items():
        y = want.get(k, math.nan)
        c.check(near(x, y), lambda: "cost cover table: %r is %r, the CSV gives %r" % (k, x, y), dat)
    c.distinct("cc", sorted(map(str, want.items())))
    c.sample({"table": "cost cover", "cells": len(cells)})


def t_tailing_off(c, rng, ds, labdir, tables):
    from pctsp.apps import tables_app as T
    rows = [r for r in exact_rows(rng, ds, rng.randint(1, 8), False) if r["status"] != 12]
    if not rows:
        return
    write_csv(csv_path(labdir, ds, ExperimentName.tailing_off), rows)
    rec = Shown()
    with captured(), rec.on():
        command(c, "tables tailing-off", T.tailing_off_table, ds, tables, lab_dir=labdir)
    df = one_table(c, rec, "tailing off")
    if df is None:
        return
    n, cells, want = T.PRETTY_COLUMN_NAMES, cellmap(df), {}
    bname = {0: "Relative branching", 1: "Strong branching", 2: "Strong at tree top", 4: "Default"}
    keys = ["branching_max_depth", "branching_strategy", "sec_lp_gap_improvement_threshold", "sec_max_tailing_off_iterations"]
    for k, rs in groups(rows, keys).items():
        row = (str(k[0]), bname[k[1]], str(k[2]), str(k[3]))
        gap = [(r["upper_bound"] - r["lower_bound"]) / r["lower_bound"] for r in rs]
        val = {"mean_duration": mean(r["duration"] for r in rs), "mean_gap": mean(gap), "num_optimal_solutions": sum(g == 0 for g in gap), "num_feasible_solutions": sum(r["feasible"] for r in rs),
               "mean_num_nodes": mean(r["num_nodes"] for r in rs), "num_secs": mean((r["num_sec_disjoint_tour"] + r["num_sec_maxflow_mincut"]) / r["num_nodes"] for r in rs)}
        for m, x in val.items():
            want[row, (n[m],)] = x
    dat = lambda: {"rows": rows, "table": {str(k): str(v) for k, v in cells.items()}}
    c.check(set(want) == set(cells), lambda: "tailing off table: cells %r differ" % sorted(set(want) ^ set(cells))[:6], dat)
    for k in set(want) & set(cells):
        c.check(near(cells[k], want[k]), lambda: "tailing off table: %r is %r, the CSV gives %r" % (k, cells[k], want[k]), dat)
    c.check(list(df.index.names) == [n[k] for k in keys], lambda: "tailing off table: index names %r" % list(df.index.names), dat)
    c.distinct("to", sorted(map(str, want.items())))


def heur_rows(rng, ds, exact):
    rows = []
    inst = groups(exact, ["graph_name", "quota", "root", "cost_function", "kappa_s", "generation_s"])
    for k, rs in inst.items():
        r = rs[0]
        for a in rng.sample(HEUR, rng.randint(1, len(HEUR))):
            for _ in range(rng.choice([1, 1, 1, 2])):  # runs that differ in one setting at most
                p = dict(path_depth_limit=rng.choice([2, 3]), step_size=rng.choice([1, 1, 2]), collapse_paths=rng.random() < .7)
                obj = math.nan if rng.random() < .15 else r["lower_bound"] + rng.choice([0, 0, 3, 40])
                for _ in range(rng.choice([1, 1, 2])):  # a repeated run counts once
                    rows.append(dict({x: r[x] for x in ("dataset", "graph_name", "quota", "root", "cost_function", "kappa", "generation", "alpha")}, algorithm=a.value, objective=obj, feasible=not math.isnan(obj), duration=rng.randint(1, 800) / 8, **p))
    rng.shuffle(rows)
    return rows


def both(c, rng, ds, labdir):
    exact = [dict(r, kappa_s=str(r["kappa"]), generation_s=str(r["generation"])) for r in exact_rows(rng, ds, rng.randint(2, 7), False) if r["lower_bound"] != 1e20]
    alpha = ds == DatasetName.londonaq and rng.random() < .4
    he = ExperimentName.londonaq_alpha if alpha else ExperimentName.compare_heuristics
    ee = ExperimentName.cc_londonaq_alpha if alpha else ExperimentName.cost_cover
    if rng.random() < .4:  # the same instances under further settings
        exact += [dict(r, upper_bound=r["upper_bound"] + rng.choice([0, 1, 9]), branching_max_depth=7, duration=1.5) for r in exact if rng.random() < .5]
        c.event("instances_solved_twice")
    have = [r for r in exact if r["cost_cover_disjoint_paths"]]
    heur = heur_rows(rng, ds, exact)
    if not have or not heur:
        return None
    write_csv(csv_path(labdir, ds, ee), exact)
    write_csv(csv_path(labdir, ds, he), heur)
    ident = lambda r: tuple(str(r[k]) for k in ("graph_name", "quota", "root", "cost_function", "kappa", "generation"))
    bound = {}
    for r in have:
        bound.setdefault(ident(r), r["lower_bound"])
    seen, uniq = set(), []
    for r in heur:
        k = ident(r) + (r["algorithm"], r["path_depth_limit"], r["step_size"], r["collapse_paths"])
        if k not in seen:
            seen.add(k)
            b = bound.get(ident(r), math.nan)
            uniq.append(dict(r, gap=(r["objective"] - b) / b, bound=b))
    return exact, he, ee, uniq


def t_join(c, rng, ds, labdir, tables):
    from pctsp.apps import tables_app as T
    b = both(c, rng, ds, labdir)
    if b is None:
        return
    exact, he, ee, uniq = b
    df = c.call("heuristics data frame", T.get_heuristics_df, ds, labdir, exact_experiment_name=ee, heuristic_experiment_name=he)
    got = df.reset_index().to_dict("records")
    sig = lambda r, g: (r["graph_name"], int(r["quota"]), int(r["root"]), r["algorithm"], int(r["path_depth_limit"]), "nan" if math.isnan(g) else "%.9f" % g, r["duration"])
    x, y = sorted(sig(r, r["gap"]) for r in got), sorted(sig(r, r["gap"]) for r in uniq)
    dat = lambda: {"exact": exact, "heuristics": uniq}
    c.check(x == y, lambda: "gaps are %r, expected %r" % ([a for a in x if a not in y][:3], [a for a in y if a not in x][:3]), dat)
    c.check(all(bool(r["is_optimal"]) == (r["gap"] == 0) for r in got), "a tour is called optimal although its gap is not zero", dat)
    c.distinct("join", x)


def t_heuristics(c, rng, ds, labdir, tables):
    from pctsp.apps import tables_app as T
    b = both(c, rng, ds, labdir)
    if b is None:
        return
    exact, he, ee, uniq = b
    only = rng.random() < .3
    live = [r for r in uniq if (r["algorithm"] == "suurballes_extension_collapse") == only and r["graph_name"] != "laqtinyA"]
    if not live:
        return
    tables.mkdir()
    rec = Shown()
    with captured(), rec.on():
        command(c, "tables heuristics", T.heuristics_table, ds, he, tables, lab_dir=labdir, exact_experiment_name=ee, sbl_ec_only=only)
    df = one_table(c, rec, "heuristics")
    if df is None:
        return
    n, cells, want = T.PRETTY_COLUMN_NAMES, cellmap(df), {}
    keys = ["cost_function", "kappa"] if ds == DatasetName.tspwplib else ["alpha"] if he == ExperimentName.londonaq_alpha else ["quota"]
    for k, rs in groups(live, keys + ["algorithm"]).items():
        row = tuple({"EUC_2D": "EUC"}.get(x, str(x)) for x in k[:-1])
        val = {"num_optimal_solutions": sum(r["gap"] == 0 for r in rs), "num_feasible_solutions": sum(r["feasible"] for r in rs), "mean_gap": mean(r["gap"] for r in rs), "mean_duration": mean(r["duration"] for r in rs)}
        for m, x in val.items():
            want[row, (str(ShortAlgorithmName[k[-1]]), n[m])] = x
    dat = lambda: {"exact": exact, "heuristics": uniq, "table": {str(k): str(v) for k, v in cells.items()}}
    c.check(set(want) <= set(cells), lambda: "heuristics table lacks %r of %r" % (sorted(set(want) - set(cells))[:4], sorted(cells)[:4]), dat)
    for k, x in cells.items():
        y = want.get(k, math.nan)
        c.check(near(x, y), lambda: "heuristics table: %r is %r, the CSVs give %r" % (k, x, y), dat)
    c.distinct("heur", sorted(map(str, want.items())))
    c.sample({"table": "heuristics", "cells": len(cells)})


def t_dataset(c, rng, ds, labdir, tables):
    from pctsp.apps import tables_app as T
    tables.mkdir()
    root = c.tmp / "root"
    root.mkdir()
    cols = ["num_nodes", "num_edges", "preprocessed_num_nodes", "preprocessed_num_edges", "preprocessed_prize_ratio", "metricness", "disjoint_prize_ratio"]
    row = lambda: {k: rng.randint(1, 999) / 4 for k in cols + ["total_cost", "total_prize"]}
    n = T.PRETTY_COLUMN_NAMES
    want = {}
    if ds == DatasetName.londonaq:
        rows = [dict(row(), graph_name=g) for g in rng.sample(["laqbbA", "laqidA", "laqkxA", "laqwsA"], rng.randint(1, 4))]
        pd.DataFrame(rows).to_csv(root / "londonaq_dataset.csv", index=False)
        want = {((r["graph_name"],), (n[k],)): r[k] for r in rows for k in cols}
    else:
        rows = [dict(row(), graph_name=g, generation=e, cost_function=f, kappa=k) for g in ("st70", "a280") for e in ("gen1", "gen2") for f in ("EUC_2D", "MST") for k in (5, 10) if rng.random() < .7]
        if not rows:
            return
        pd.DataFrame(rows).to_csv(root / "tsplib_dataset.csv", index=False)
        for (f, k), rs in groups(rows, ["cost_function", "kappa"]).items():
            for m, x in (("mean_disjoint_prize_ratio", "disjoint_prize_ratio"), ("mean_preprocessed_prize_ratio", "preprocessed_prize_ratio")):
                want[(str(k),), (f, n[m])] = mean(r[x] for r in rs)
    rec = Shown()
    with captured(), rec.on():
        command(c, "tables dataset", T.summarize_dataset, ds, tables, londonaq_root=root, oplib_root=root)
    df = one_table(c, rec, "data set")
    if df is None:
        return
    cells = cellmap(df)
    dat = lambda: {"rows": rows, "table": {str(k): str(v) for k, v in cells.items()}}
    c.check(set(want) <= set(cells), lambda: "data set table lacks %r of %r" % (sorted(set(want) - set(cells))[:4], sorted(cells)[:4]), dat)
    for k, x in cells.items():
        y = want.get(k, math.nan)
        c.check(near(x, y), lambda: "data set table: %r is %r, the CSV gives %r" % (k, x, y), dat)
    c.check(len(list(tables.iterdir())) == 1, "the table file is not written", dat)
    c.distinct("ds", sorted(map(str, want.items())))


def t_all(c, rng, ds, labdir, tables):
    """The command for all tables writes every table there is data for, as the single commands do."""
    from pctsp.apps import tables_app as T
    roots = {x: c.tmp / ("root_" + x.value) for x in DatasetName}
    for x in DatasetName:
        roots[x].mkdir()
        exact = [dict(r, kappa_s=str(r["kappa"]), generation_s=str(r["generation"])) for r in exact_rows(rng, x, rng.randint(2, 6), False) if r["lower_bound"] != 1e20]
        have = [r for r in exact if r["graph_name"] != "laqtinyA"]
        heur = [r for r in heur_rows(rng, x, have) if r["algorithm"] != "suurballes_extension_collapse"] if have else []
        if rng.random() < .75 and have:
            write_csv(csv_path(labdir, x, ExperimentName.cost_cover), exact)
        if rng.random() < .75 and heur and any(r["cost_cover_disjoint_paths"] for r in have):
            write_csv(csv_path(labdir, x, ExperimentName.compare_heuristics), heur)
        live = [r for r in exact if r["status"] != 12]
        if rng.random() < .75 and live:
            write_csv(csv_path(labdir, x, ExperimentName.tailing_off), live)
        if rng.random() < .75:
            cols = ["num_nodes", "num_edges", "preprocessed_num_nodes", "preprocessed_num_edges", "preprocessed_prize_ratio", "metricness", "disjoint_prize_ratio"]
            f = roots[x] / ("londonaq_dataset.csv" if x == DatasetName.londonaq else "tsplib_dataset.csv")
            pd.DataFrame([dict({k: rng.randint(1, 99) / 4 for k in cols}, graph_name=g, generation="gen1", cost_function=f, kappa=5) for g in ("laqbbA", "laqidA") for f in ("EUC_2D", "MST")][::1 if x == DatasetName.tspwplib else 2]).to_csv(f, index=False)
        (labdir / x.value).mkdir(parents=True, exist_ok=True)
    tables.mkdir()
    text = lambda rec: sorted(pd.DataFrame(df).to_csv() for df, _ in rec.tables)
    kw = {"londonaq_root": roots[DatasetName.londonaq], "oplib_root": roots[DatasetName.tspwplib]}
    single, both_ = Shown(), Shown()
    with captured(), single.on():
        for x in DatasetName:
            for f in (lambda: T.summarize_dataset(x, tables, **kw), lambda: T.cost_cover_table(x, tables, lab_dir=labdir), lambda: T.heuristics_table(x, ExperimentName.compare_heuristics, tables, lab_dir=labdir),
                      lambda: T.tailing_off_table(x, tables, lab_dir=labdir)):
                try:
                    f()
                except FileNotFoundError:
                    c.event("no_data")
    with captured(), both_.on():
        command(c, "tables all", T.generate_all_tables, tables, lab_dir=labdir, **kw)
    c.check(text(both_) == text(single), lambda: "the command for all tables makes %d tables, the single commands %d" % (len(both_.tables), len(single.tables)), lambda: {"all": text(both_), "single": text(single)})
    c.distinct("all", text(single))


def t_pretty(c, rng, ds, labdir, tables):
    """Names: every value and column keeps its place and its meaning."""
    from pctsp.apps import tables_app as T
    n = T.PRETTY_COLUMN_NAMES
    long = rng.random() < .5
    names = LongAlgorithmName if long else ShortAlgorithmName
    k = rng.randint(1, 6)
    algs, costs, brs = [rng.choice(list(A)) for _ in range(k)], [rng.choice(["EUC_2D", "MST"]) for _ in range(k)], [rng.choice([0, 1, 2, 4]) for _ in range(k)]
    nums = {m: [rng.choice([0, 1, 2, 4, rng.randint(0, 99)]) for _ in range(k)] for m in rng.sample(["kappa", "mean_gap", "num_nodes", "quota", "alpha", "some_other_column", "duration"], rng.randint(1, 5))}
    full = dict({"algorithm": [a.value for a in algs], "cost_function": costs, "branching_strategy": brs}, **nums)
    cols = rng.sample(list(full), rng.randint(1, len(full)))
    df = pd.DataFrame({x: full[x] for x in cols})
    shown = {"algorithm": [names[a.name].value for a in algs], "cost_function": ["EUC" if x == "EUC_2D" else x for x in costs],
             "branching_strategy": [{0: "Relative branching", 1: "Strong branching", 2: "Strong at tree top", 4: "Default"}[b] for b in brs]}
    copy = df.copy()
    out = c.call("pretty_dataframe", T.pretty_dataframe, df, long=long)
    dat = lambda: {"in": {x: list(map(str, full[x])) for x in cols}, "out": str(out)}
    c.check(list(out.columns) == [n.get(x, x) for x in cols], lambda: "pretty columns %r of %r" % (list(out.columns), cols), dat)
    for x, y in zip(cols, out.columns):
        c.check(list(out[y]) == shown.get(x, full[x]), lambda: "column %s shows %r for %r" % (x, list(out[y]), full[x]), dat)
    c.check(df.equals(copy) and list(df.columns) == cols, "the given table is changed", dat)
    # the same values in the index
    if len(cols) > 1:
        ix = rng.sample(cols, rng.randint(1, len(cols) - 1))
        rest = [x for x in cols if x not in ix]
        out = c.call("pretty_dataframe", T.pretty_dataframe, pd.DataFrame({x: full[x] for x in cols}).set_index(ix), long=long)
        c.check(list(out.index.names) == [n.get(x, x) for x in ix] and list(out.columns) == [n.get(x, x) for x in rest], lambda: "pretty names %r %r" % (list(out.index.names), list(out.columns)), dat)
        for i, x in enumerate(ix):
            c.check(list(out.index.get_level_values(i)) == shown.get(x, full[x]), lambda: "index level %s shows %r for %r" % (x, list(out.index.get_level_values(i)), full[x]), dat)
        for x, y in zip(rest, out.columns):
            c.check(list(out[y]) == shown.get(x, full[x]), lambda: "column %s shows %r for %r" % (x, list(out[y]), full[x]), dat)
    c.check(all(T.make_column_name_pretty(x) == n.get(x, x) for x in list(n) + ["zzz"]), "make_column_name_pretty", dat)
    c.distinct("pretty", cols, str(full), long)


# ---------------------------------------------------------------- L08
def graph_features(g, root):
    """The data set features of one graph, recomputed by definition; None where a feature is not defined."""
    core = nx.Graph(g)
    core.remove_edges_from(list(nx.selfloop_edges(core)))
    prize = lambda vs: sum(g.nodes[v]["prize"] for v in vs)
    cost = lambda h: sum(d["cost"] for _, _, d in h.edges(data=True))

    def metric(h):
        d = dict(nx.all_pairs_dijkstra_path_length(h, weight="cost"))
        es = [(u, v, k["cost"]) for u, v, k in h.edges(data=True) if u != v]
        tree = len(h) - 1  # 0 if only a spanning tree is metric, 1 if all edges are
        return None if len(es) == tree else (sum(d[u][v] == k for u, v, k in es) - tree) / (len(es) - tree)
    out = {"num_nodes": len(g), "num_edges": g.number_of_edges(), "total_cost": cost(g), "total_prize": prize(g)}
    comps = list(nx.connected_components(g))
    big = max(map(len, comps))
    if len(comps) == 1:
        out["metricness"] = metric(g)
    elif sum(len(x) == big for x in comps) == 1:
        out["metricness"] = metric(g.subgraph(max(comps, key=len)))
    out = {k: x for k, x in out.items() if x is not None}
    keep = set().union(*[b for b in nx.biconnected_components(core) if root in b and len(b) > 2])
    h = g.subgraph(keep)
    out.update({"preprocessed_num_nodes": len(h), "preprocessed_num_edges": h.number_of_edges(), "preprocessed_total_cost": cost(h), "preprocessed_total_prize": prize(h),
                "preprocessed_metricness": metric(h), "preprocessed_prize_ratio": prize(h) / prize(g)})
    pairs = {}
    for v in core:
        if v != root:
            p = pc.two_disjoint(core, root, v)
            if p is not None:
                pairs[v] = p
    out["max_disjoint_paths_cost"] = max(pairs.values())
    return out


def features_defined(g):
    """Whether the share of metric edges is defined: one component is the largest, and no tree if there are others."""
    comps = sorted(map(len, nx.connected_components(g)))
    return not (len(comps) > 1 and nx.is_forest(g.subgraph(max(nx.connected_components(g), key=len))) or comps[-2:] == comps[-1:] * 2)


@prop("L08", 1200, 9600, lib="plain", min_distinct=200, rule="distinct graphs whose features were recomputed by definition")
def l08(c):
    rng = c.rng
    from pctsp.apps import dataset_app as D
    if c.idx % 20 == 7:
        return whole_dataset(c, rng, D)
    inst = pc.instance(rng, 4, 9, isolated=rng.random() < .3, zero_cost=.0, loops=0)
    g = inst.g
    if not len(inst.cycles(200)) or not inst.prize(g):
        return
    if not features_defined(g):
        return
    before = (sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True))))
    got = c.call("get_graph_stats", D.get_graph_stats, g, inst.root)
    want = graph_features(g, inst.root)
    dat = lambda: dict(inst.dump(), got={k: float(v) for k, v in got.items()}, want=want)
    judge_features(c, inst, got, want, dat)
    c.check((sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True)))) == before, "computing features changes the graph", dat)
    c.distinct(inst.sig())
    c.event("graphs")
    c.sample({"vertices": len(g), "features": len(want)})


def judge_features(c, inst, got, want, dat):
    for k, x in want.items():
        c.check(k in got and near(got[k], x), lambda: "feature %s is %r, by definition %r" % (k, got.get(k), x), dat)
    # the cheapest pair of disjoint paths need not be unique: the prize must be one that some cheapest pair to some vertex collects
    g = inst.g
    tot = inst.prize(g)
    b = float(got["biggest_disjoint_prize"])
    c.check(near(got["disjoint_prize_ratio"], b / tot), "ratio of the biggest disjoint prize", dat)
    if len(g) <= 9:
        lo = hi = 0
        best = {}
        for cy in pc.simple_cycles(g, inst.root):
            vs = list(cy)
            for v in vs:
                if v != inst.root:
                    best.setdefault(v, []).append((inst.cost(cy), inst.prize(set(vs))))
        for v, xs in best.items():
            m = min(x for x, _ in xs)
            ps = [p for x, p in xs if x == m]
            lo, hi = max(lo, min(ps)), max(hi, max(ps))
        c.check(lo <= b <= hi, lambda: "biggest prize of a cheapest pair of disjoint paths is %r, possible are %r to %r" % (b, lo, hi), dat)


def whole_dataset(c, rng, D):
    from pctsp.compare import params as P
    ds = rng.choice(list(DatasetName))
    names = rng.sample([GraphName.st70, GraphName.eil76, GraphName.eil51], 2)
    gens = rng.sample(list(Generation), 1)
    w = data.World(c.tmp, rng, laq=list(P.LONDONAQ_GRAPH_NAME_LIST), op=[(e, n) for e in Generation for n in names], lo=5, hi=7)
    for k in w.op:  # every graph must collect something
        if not w.total(k):
            return
    if any(not w.total(n) for n in w.laq):
        return
    kappas = rng.choice([[25, 20], [3], [2], [3, 2], [4, 3]])
    table = {}
    if ds == DatasetName.tspwplib:
        for e, n, f, k in itertools.product(Generation, names, P.TSPLIB_COST_FUNCTIONS, kappas):
            g, core = as_read(w, e, n, k, f, loops=True), as_read(w, e, n, k, f)
            inst = pc.Inst(core, w.op[e, n][2], 0, "oplib")
            if not len(inst.cycles(200)) or not features_defined(core):
                return
            table[n.value, e.value, f.value, k] = (g, inst)
    old = P.TSPLIB_GRAPH_NAME_LIST, P.TSPLIB_KAPPA_LIST
    P.TSPLIB_GRAPH_NAME_LIST, P.TSPLIB_KAPPA_LIST = names, kappas
    try:
        with captured():
            command(c, "dataset stats", D.stats_of_dataset, ds, londonaq_root=w.laq_root, oplib_root=w.op_root)
    finally:
        P.TSPLIB_GRAPH_NAME_LIST, P.TSPLIB_KAPPA_LIST = old
    if ds == DatasetName.londonaq:
        csv = pd.read_csv(w.laq_root / "londonaq_dataset.csv").set_index("graph_name")
        c.check(list(csv.index) == [n.value for n in P.LONDONAQ_GRAPH_NAME_LIST], "not one row per graph")
        for n, inst in w.laq.items():
            judge_features(c, inst, dict(csv.loc[n.value]), graph_features(inst.g, inst.root), inst.dump)
    else:
        csv = pd.read_csv(w.op_root / "tsplib_dataset.csv")
        key = ["graph_name", "generation", "cost_function", "kappa"]
        c.check(sorted(map(tuple, csv[key].to_numpy().tolist())) == sorted(table), "not one row per combination")
        for r in csv.to_dict("records"):
            g, inst = table[tuple(r[k] for k in key)]
            judge_features(c, inst, r, graph_features(g, inst.root), lambda: {"row": r})
            c.event("rows")
            c.event("rows_" + r["cost_function"])
    c.event("data_sets")
    c.distinct(ds.value, c.idx)


# ---------------------------------------------------------------- L09
@prop("L09", 2400, 19200, lib="plain", min_distinct=100, rule="distinct logger histories and archives")
def l09(c):
    """Logging once at the chosen level; archives give back what was put in; log file paths."""
    rng = c.rng
    import sys
    from pctsp.utils import get_pctsp_logger, get_scip_log_filepath
    name = "verif-%d-%d" % (os.getpid(), c.idx)
    levels = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
    lev = None
    hist = []
    for _ in range(rng.randint(1, 4)):
        lev = rng.choice(levels + [None])
        lg = c.call("get_pctsp_logger", get_pctsp_logger, name) if lev is None else c.call("get_pctsp_logger", get_pctsp_logger, name, level=lev)
        lev = logging.INFO if lev is None else lev
        hist.append(lev)
        c.check(lg.name == name and lg.level == lev and logging.getLogger(name) is lg, "the logger has another name or level")
        buf = io.StringIO()
        old = [(h, h.setStream(buf)) for h in lg.handlers if isinstance(h, logging.StreamHandler)]
        msgs = ["message-%d-%d" % (i, x) for i, x in enumerate(levels)]
        for x, m in zip(levels, msgs):
            lg.log(x, "%s", m)
        for h, s in old:
            if s is not None:
                h.setStream(s)
        out = buf.getvalue()
        for x, m in zip(levels, msgs):
            c.check(out.count(m) == (x >= lev), lambda: "history %r: a message of level %d appears %d times at level %d" % (hist, x, out.count(m), lev))
            line = [y for y in out.splitlines() if m in y]
            c.check(not line or logging.getLevelName(x) in line[0], "the line does not name its level")
        c.event("messages", len(msgs))
    logging.getLogger(name).handlers.clear()
    d = c.tmp / "logs"
    if rng.random() < .5:
        d.mkdir()
    for n, e in (("run", None), ("a-b", "log"), ("x.y", "txt"), (" tours of 5", "out"), (str(uid(rng)), "log.1"), ("UPPER.log", "txt")):
        p = get_scip_log_filepath(d, n) if e is None else get_scip_log_filepath(d, n, log_extension=e)
        c.check(p == d / ("%s.%s" % (n, e or "txt")) and d.is_dir() and not p.exists(), lambda: "log file path %s" % p)
    try:
        get_scip_log_filepath(c.tmp / "no" / "such", "x")
        c.check(False, "a missing parent directory is created")
    except FileNotFoundError:
        c.check(True, "")
    if rng.random() < .4:
        archive(c, rng)
    c.distinct(c.idx, hist)
    c.sample({"levels": hist})


def archive(c, rng):
    from pctsp.apps import utils_app
    ds = rng.choice(list(DatasetName))
    lab = c.tmp / "lab"
    es = rng.sample(list(ExperimentName), rng.randint(1, 3))
    extra = rng.choice([e for e in ExperimentName if e not in es])
    tree = lambda d: {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}
    for e in es + [extra]:
        d = lab / ds.value / e.value
        for _ in range(rng.randint(1, 4)):
            f = d / str(uid(rng)) / rng.choice(["a.json", "b.yaml", "no_ext"])
            f.parent.mkdir(parents=True)
            f.write_bytes(rng.randbytes(rng.choice([0, 1, 5000])))
        (d / "experiment.json").write_text("{}")
    before = {e: tree(lab / ds.value / e.value) for e in es + [extra]}
    command(c, "utils zip", utils_app.zip_experiments, ds, es, lab_dir=lab)
    zips = sorted(p.name for p in (lab / ds.value).glob("*.zip"))
    c.check(zips == sorted(e.value + ".zip" for e in es), lambda: "archives %r for %r" % (zips, [e.value for e in es]))
    other = c.tmp / "other"
    (other / ds.value).mkdir(parents=True)
    for e in es:
        (other / ds.value / (e.value + ".zip")).write_bytes((lab / ds.value / (e.value + ".zip")).read_bytes())
    command(c, "utils unzip", utils_app.unzip_experiments, ds, es, lab_dir=other)
    for e in es:
        c.check(tree(other / ds.value / e.value) == before[e], "the archive of %s does not give back the experiment" % e.value)
    c.check(not (other / ds.value / extra.value).exists() and tree(lab / ds.value / extra.value) == before[extra], "another experiment is touched")
    c.check(sorted(p.name for p in (other / ds.value).iterdir()) == sorted([e.value for e in es] + [e.value + ".zip" for e in es]), "unpacked outside the experiment directory")
    c.event("archives", len(es))


# ---------------------------------------------------------------- L10
def as_read(w, gen, name, kappa, cost, loops=False):
    """The instance as the data set library reads, sparsifies and prices it."""
    from tspwplib import BaseTSP, ProfitsProblem, build_path_to_oplib_instance, mst_cost, rename_edge_attributes, semi_mst_cost, sparsify_uid
    from tspwplib.metric import uniform_random_cost
    p = ProfitsProblem().load(build_path_to_oplib_instance(w.op_root, gen, name))
    g = BaseTSP.from_tsplib95(p).get_graph()
    rename_edge_attributes(g, {"weight": "cost"}, del_old_attr=True)
    nx.set_node_attributes(g, p.get_node_score(), name="prize")
    if kappa:
        g = sparsify_uid(g, kappa)
    full, _ = w.euclid(gen, name)
    assert all(full[a][b]["cost"] == d["cost"] for a, b, d in g.edges(data=True) if a != b)
    if cost == EdgeWeightType.UNIFORM_RANDOM:
        nx.set_edge_attributes(g, uniform_random_cost(list(g.edges())), name="cost")
    if cost == EdgeWeightType.MST:
        nx.set_edge_attributes(g, mst_cost(g, cost_attr="cost"), name="cost")
    if cost == EdgeWeightType.SEMI_MST:
        nx.set_edge_attributes(g, semi_mst_cost(g, cost_attr="cost"), name="cost")
    if not loops:
        g.remove_edges_from(list(nx.selfloop_edges(g)))
    return g


def one_vial(c, rng):
    """The command that runs one vial of an experiment."""
    from pctsp.apps import main_app
    from typer.testing import CliRunner
    w = world(c, 2, 4, 6)
    ex, _ = batch_experiment(c, w, rng.randint(2, 6))
    lab = lab_on(c, w)
    labdir = c.tmp / "lab"
    for v in ex.vials[1:]:
        if rng.random() < .6:  # some begin or end alike
            other = rng.choice([x for x in ex.vials if x is not v]).uuid
            n = rng.choice([32, 64, 96])
            new = uuid.UUID(int=rng.choice([other.int >> n << n | v.uuid.int & ((1 << n) - 1), v.uuid.int >> n << n | other.int & ((1 << n) - 1)]))
            if all(x.uuid != new for x in ex.vials):
                v.uuid = new
    lab.write_experiment_to_file(ex)
    order = rng.sample(ex.vials, rng.randint(1, len(ex.vials)))
    run = CliRunner()
    stamp = lambda: {v.uuid: f.stat().st_mtime_ns for v in ex.vials if (f := lab.get_vial_dir(ex.name, v.uuid) / (str(v.uuid) + ".json")).exists()}
    for v in order:
        had = stamp()
        args = ["vial", w.ds.value, ex.name.value, str(v.uuid), "--lab-dir", str(labdir), "--londonaq-root", str(w.laq_root), "--oplib-root", str(w.op_root), "--logging-level", "50"]
        with captured():
            r = run.invoke(main_app.app, args, catch_exceptions=True)
        dat = {"vial": str(v.uuid), "vials": [str(x.uuid) for x in ex.vials], "output": r.output[-500:]}
        ran = {u for u, t in stamp().items() if had.get(u) != t}
        if r.exit_code:  # Suurballe's heuristics refuse a graph without any pair of disjoint paths
            c.check(not ran, lambda: "the command for one vial fails (%r) but ran others" % r.exception, dat)
            c.event("vial_without_result")
            continue
        c.check(ran == {v.uuid}, lambda: "the command for one vial ran %r" % sorted(map(str, ran)), dat)
        res = Result.read_from_json_file(lab.get_vial_dir(ex.name, v.uuid), v.uuid)
        judge_result(c, "the vial command", pc.Inst(graph_of(w, v.data_config), v.data_config.root, v.data_config.quota, "cli"), v, res, dat)
        c.event("one_vial_runs")
    had = stamp()
    for name in (str(uid(rng)), str(ex.vials[0].uuid)[:8], ""):
        with captured():
            r = run.invoke(main_app.app, ["vial", w.ds.value, ex.name.value, name, "--lab-dir", str(labdir), "--londonaq-root", str(w.laq_root), "--oplib-root", str(w.op_root)], catch_exceptions=True)
        c.check(r.exit_code != 0 and stamp() == had, lambda: "a vial named %r is not in the experiment, but the command ran" % name)
    c.distinct("vial", len(ex.vials), len(order), c.idx)


def named_commands(c, rng):
    """The commands that set up or run a named experiment."""
    if rng.random() < .35:
        return one_vial(c, rng)
    from pctsp import compare
    from pctsp.apps import main_app
    from pctsp.compare.exact_experiment import baseline
    from typer.testing import CliRunner
    T, L = DatasetName.tspwplib, DatasetName.londonaq
    cmd = rng.choice(["lab", "lab", "setup", "setup", "refuse"])
    ds = rng.choice([T, L])
    if cmd == "refuse":
        name = rng.choice([ExperimentName.cc_londonaq_alpha, ExperimentName.londonaq_alpha, ExperimentName.onerun] if ds == T else
                          [ExperimentName.simple_branch_cut, ExperimentName.disjoint_tours_vs_heuristics, ExperimentName.onerun])
    elif cmd == "lab":
        name = ExperimentName.dryrun
    else:
        name = rng.choice([ExperimentName.dryrun, ExperimentName.simple_branch_cut if ds == T else ExperimentName.cc_londonaq_alpha])
    big = name != ExperimentName.dryrun and cmd == "setup"
    w = data.World(c.tmp, rng, laq=LQ if big and ds == L else [LondonaqGraphName.laqtinyA], lo=5, hi=7,
                   op=[(x, n) for x in Generation for n in (GraphName.st70, GraphName.rat195, GraphName.pr152, GraphName.gr229)] if big and ds == T else [(Generation.gen1, GraphName.st70)])
    labdir = c.tmp / "lab"
    labdir.mkdir()
    roots = {"lab-dir": labdir, "londonaq-root": w.laq_root, "oplib-root": w.op_root}
    env, args = {}, [{"refuse": rng.choice(["lab", "setup"])}.get(cmd, cmd), ds.value, name.value, "--logging-level", "50"]
    for k, x in roots.items():
        if rng.random() < .4:
            env[k.upper().replace("-", "_")] = str(x)
        else:
            args += ["--" + k, str(x)]
    r = CliRunner().invoke(main_app.app, args, env=env, catch_exceptions=True)
    dat = {"args": args, "env": env, "output": r.output[-500:]}
    lab = Lab(labdir / ds.value, logger=QUIET)
    if cmd == "refuse":
        c.check(r.exit_code != 0 and isinstance(r.exception, ValueError), lambda: "%s is no experiment on %s, but the command says %r" % (name.value, ds.value, r.exception), dat)
        c.check(not list(labdir.rglob("*.json")), "a refused command leaves files", dat)
        c.event("refused_experiment")
        return
    if not c.check(r.exit_code == 0, lambda: "the command fails: %r" % r.exception, dat):
        return
    ex = c.call("reading the experiment", lab.read_experiment_from_file, name)
    fn = baseline if name == ExperimentName.baseline else getattr(compare, name.value)
    want = fn(ds, w.op_root if ds == T else w.laq_root)
    key = lambda v: (v.data_config.model_dump_json(), v.model_params.model_dump_json(), v.preprocessing.model_dump_json())
    c.check(ex.name == name and sorted(map(key, ex.vials)) == sorted(map(key, want)), lambda: "the experiment written has other vials (%d) than the experiment's definition (%d)" % (len(ex.vials), len(want)), dat)
    c.check(len({v.uuid for v in ex.vials}) == len(ex.vials), "two vials share an id", dat)
    c.check(abs((datetime.now() - ex.timestamp.replace(tzinfo=None)).total_seconds()) < 86400, "the time of the experiment is not the time of the command", dat)
    c.event("%s_%s_%s" % (cmd, ds.value, name.value))
    c.distinct(cmd, ds.value, name.value, len(env), c.idx)
    if cmd == "setup":
        c.check(not lab.read_results_from_file(ex), "setting up an experiment gives results", dat)
        return
    res = {x.vial_uuid: x for x in lab.read_results_from_file(ex)}
    raw = json.loads((lab.get_experiment_dir(name) / "results.json").read_text())
    c.check({Result(**x).vial_uuid: Result(**x) for x in raw} == res, "results.json and the results of the vials differ", dat)
    for v in ex.vials:
        k = v.data_config
        g = as_read(w, k.generation, k.graph_name, k.kappa, k.cost_function) if ds == T else w.laq[k.graph_name].g
        inst = pc.Inst(g, k.root, k.quota, "cli")
        x = res.get(v.uuid)
        alg = v.model_params.algorithm
        if x is None:
            part = pc.nx.Graph(g)
            part.remove_edges_from(list(nx.selfloop_edges(part)))
            pair = any(pc.two_disjoint(part, k.root, y) is not None for y in part if y != k.root)
            c.check(alg != A.solve_pctsp and not pair, lambda: "no result of %s" % alg.value, dat)
            continue
        ok = judge_result(c, alg.value, inst, v, x, lambda: dat)
        if alg == A.solve_pctsp:
            best = optimum(inst)
            c.check(ok == (best is not None) and (best is None or x.objective == best), lambda: "optimum %r, the command found %r" % (best, x.objective), dat)
            c.check((lab.get_vial_dir(name, v.uuid) / "pctsp_summary_stats.yaml").exists(), "no summary", dat)


@prop("L10", 1200, 9600, lib="plain", min_distinct=80, rule="distinct command line runs whose experiment and result files were compared with the options")
def l10(c):
    """The command line runs what its options say."""
    rng = c.rng
    if c.idx % 5 == 4:
        return named_commands(c, rng)
    from pctsp.apps import main_app
    from typer.testing import CliRunner
    laq, gens, names = rng.sample(LQ, 2), rng.sample(list(Generation), 2), [GraphName.st70, GraphName.eil76]
    w = data.World(c.tmp, rng, laq=laq, op=[(g, n) for g in gens for n in names], lo=5, hi=7)
    labdir = c.tmp / "lab"
    labdir.mkdir()
    run = CliRunner()
    alg = rng.choice(HEUR + [A.solve_pctsp] * 3)
    b = lambda: rng.random() < .5
    opt = []

    def flag(name, value, default):
        if value != default or rng.random() < .3:
            opt.append("--" + ("" if value else "no-") + name)
    dp, sp, rl = b(), b(), b()
    if dp and sp:
        sp = False
    tl = rng.choice([4 * 3600.0, 60.0, 300.0])
    flag("cost-cover-disjoint-paths", dp, True)
    flag("cost-cover-shortest-path", sp, False)
    flag("remove-leaves", rl, False)
    if tl != 4 * 3600.0 or b():
        opt += ["--time-limit", str(tl)]
    opt += ["--logging-level", "50"]
    env = {"LAB_DIR": str(labdir)} if rng.random() < .3 else {}
    if not env:
        opt += ["--lab-dir", str(labdir)]
    if b():
        ds = DatasetName.londonaq
        name = rng.choice(laq)
        inst = w.laq[name]
        quota = rng.choice([0, 1, w.total(name) // 2, w.total(name) // 3, w.total(name) + 1])
        args = ["londonaq", alg.value, "--graph-name", name.value, "--londonaq-root", str(w.laq_root)] + opt
        if quota != 200 or b():
            args += ["--quota", str(quota)]
        want = dict(cost_function=EdgeWeightType.EXPLICIT, graph_name=name, quota=quota, root=inst.root, alpha=None, kappa=None, generation=None)
        one, heur, bd, tail, gap, pl, st, cp = True, None, None, -1, None, None, None, None
        g = inst.g
    else:
        ds = DatasetName.tspwplib
        gen, name = rng.choice(gens), rng.choice(names)
        alpha, bd, tail, gap = rng.choice([50, 5, 25, 99, 100, 0]), rng.choice([5, 10]), rng.choice([-1, 3]), rng.choice([.001, .01])
        heur = rng.choice([None] + HEUR)
        pl, st, cp = rng.choice([2, 3]), rng.choice([1, 2]), b()
        one = False
        args = ["tsplib", alg.value, "--alpha", str(alpha), "--branching-max-depth", str(bd), "--generation", gen.value, "--graph-name", name.value, "--oplib-root", str(w.op_root),
                "--path-depth-limit", str(pl), "--sec-lp-gap-improvement-threshold", str(gap), "--sec-max-tailing-off-iterations", str(tail), "--step-size", str(st)] + opt
        args.append("--collapse-paths" if cp else "--no-collapse-paths")
        kappa = rng.choice([None, None, 2])
        if kappa:
            args += ["--kappa", str(kappa)]
        if heur:
            args += ["--heuristic", heur.value]
        cost = rng.choice([EdgeWeightType.EUC_2D, EdgeWeightType.MST, EdgeWeightType.UNIFORM_RANDOM])
        if cost != EdgeWeightType.UNIFORM_RANDOM or b():
            args += ["--cost-function", cost.value]
        tot = w.total((gen, name))
        want = dict(cost_function=cost, graph_name=name, quota=alpha * tot // 100, root=w.op[gen, name][2], alpha=alpha, kappa=kappa, generation=gen)
        g = as_read(w, gen, name, kappa, cost)
        inst = pc.Inst(g, w.op[gen, name][2], want["quota"], "oplib")
        if alg != A.bfs_extension_collapse and (not (alg == A.solve_pctsp and heur == A.bfs_extension_collapse)):
            pl = st = cp = None
        if alg != A.solve_pctsp:
            heur = None
    r = run.invoke(main_app.app, args, env=env, catch_exceptions=True)
    dat = {"args": args, "env": env, "output": r.output[-800:]}
    if not c.check(r.exit_code == 0, lambda: "the command %r fails: %r" % (args, r.exception), dat):
        return
    lab = Lab(labdir / ds.value, logger=QUIET)
    ex = c.call("reading the experiment", lab.read_experiment_from_file, ExperimentName.onerun)
    if not c.check(len(ex.vials) == 1 and ex.name == ExperimentName.onerun, "not one vial", dat):
        return
    v = ex.vials[0]
    k, m, p = v.data_config, v.model_params, v.preprocessing
    got = {x: getattr(k, x) for x in want}
    c.check(got == want and k.dataset == ds, lambda: "the data settings are %r, asked for %r" % (got, want), dat)
    exact = alg == A.solve_pctsp
    mw = dict(algorithm=alg, is_exact=exact, is_heuristic=not exact, is_relaxation=False, heuristic=heur, collapse_paths=cp, path_depth_limit=pl, step_size=st)
    if exact:
        mw.update(cost_cover_disjoint_paths=dp, cost_cover_shortest_path=sp, sec_disjoint_tour=True, sec_maxflow_mincut=True, sec_max_tailing_off_iterations=tail, time_limit=tl, branching_strategy=BranchingStrategy.STRONG_AT_TREE_TOP)
        if bd is not None:
            mw["branching_max_depth"] = bd
        if gap is not None:
            mw["sec_lp_gap_improvement_threshold"] = gap
    got = {x: getattr(m, x) for x in mw}
    c.check(got == mw, lambda: "the model settings are %r, asked for %r" % (got, mw), dat)
    c.check((p.remove_leaves, p.remove_one_connected_components, p.remove_disconnected_components, p.shortest_path_cutoff, p.disjoint_path_cutoff) == (rl, one, False, False, False), lambda: "the preprocessing settings are %r" % p, dat)
    res = lab.read_results_from_file(ex)
    raw = json.loads((lab.get_experiment_dir(ex.name) / "results.json").read_text())
    c.check([Result(**x) for x in raw] == res, "results.json and the result of the vial differ", dat)
    if not res:
        # Suurballe's algorithms are refused where no vertex has two disjoint paths; everything else has a result
        kept = nx.k_core(inst.g, 2) if rl else inst.g
        pair = inst.root in kept and any(pc.two_disjoint(kept, inst.root, x) is not None for x in kept if x != inst.root)
        c.check(not pair, "no result", dat)
        return
    ok = judge_result(c, alg.value, pc.Inst(inst.g, inst.root, want["quota"], "cli"), v, res[0], lambda: dat)
    if exact:
        best = optimum(pc.Inst(inst.g, inst.root, want["quota"], "cli"))
        c.check(ok == (best is not None) and (best is None or res[0].objective == best), lambda: "optimum %r, the command found %r" % (best, res[0].objective), dat)
        c.check((lab.get_vial_dir(ex.name, v.uuid) / "pctsp_summary_stats.yaml").exists(), "no summary", dat)
        c.event("optimum_confirmed")
    # running the vial again gives the same result
    with captured():
        r2 = run.invoke(main_app.app, ["vial", ds.value, "onerun", str(v.uuid), "--lab-dir", str(labdir), "--londonaq-root", str(w.laq_root), "--oplib-root", str(w.op_root), "--logging-level", "50"])
    c.check(r2.exit_code == 0, lambda: "running the vial again fails: %r" % r2.exception, dat)
    if r2.exit_code == 0:
        again = lab.read_results_from_file(ex)
        c.check(len(again) == 1 and again[0].objective == res[0].objective and (exact or stable(again[0]) == stable(res[0])), "running the vial again gives another result", dat)
    c.event("ran_" + alg.value)
    c.distinct(args[:3], c.idx)
    c.sample({"args": args[:12]})


# ---------------------------------------------------------------- L11
def segments(tr):
    """The pieces of a line trace: its points between gaps."""
    out, cur = [], []
    for x, y in zip(tr.x, tr.y):
        if x is None or y is None or math.isnan(x) or math.isnan(y):
            out.append(cur)
            cur = []
        else:
            cur.append((float(x), float(y)))
    return [s for s in out + [cur] if len(s) > 0]


def heuristics_figure(c, rng):
    """The box plots of the heuristics' gaps: one figure per cost function, one box per kappa and algorithm."""
    import plotly.graph_objects as go
    from pctsp.apps import plot_app
    lab, out = c.tmp / "lab", c.tmp / "figures"
    data_of = {}
    for ds in (DatasetName.londonaq, DatasetName.tspwplib):
        for _ in range(40):
            b = both(c, rng, ds, lab)
            if b is not None and b[1] == ExperimentName.compare_heuristics and any(r["gap"] == r["gap"] for r in b[3]):
                data_of[ds] = b[3]
                break
        else:
            return
    shown = []
    old = go.Figure.write_image
    go.Figure.write_image = lambda self, path, *a, **k: shown.append((str(path), self))
    try:
        with captured():
            command(c, "plot heuristics", plot_app.plot_heuristics_figure, out, lab_dir=lab)
    finally:
        go.Figure.write_image = old
    rows = data_of[DatasetName.tspwplib]
    dat = lambda: {"rows": rows, "figures": [x for x, _ in shown]}
    algs = [A.bfs_extension_collapse, A.bfs_path_extension_collapse, A.suurballes_extension_collapse, A.suurballes_path_extension_collapse]
    c.check(len(shown) == 2, lambda: "%d figures for two cost functions" % len(shown), dat)
    seen = set()
    for path, fig in shown:
        cost = [f for f in ("EUC_2D", "MST") if f in Path(path).name]
        if not c.check(len(cost) == 1 and "tspwplib" in Path(path).name and Path(path).parent == out, lambda: "the figure is called %s" % path, dat):
            continue
        seen.add(cost[0])
        want, got = {}, {}
        for a in algs:
            for r in rows:
                if r["cost_function"] == cost[0] and r["algorithm"] == a.value and r["gap"] == r["gap"]:
                    want.setdefault((str(ShortAlgorithmName[a.value].value), float(r["kappa"])), []).append(round(r["gap"], 9))
        panels = {}
        for t in fig.data:
            ys = [float(y) for y in (t.y if t.y is not None else [])]
            xs = [float(x) for x in (t.x if t.x is not None else [])]
            c.check(len(xs) == len(ys), "a box has places without values", dat)
            for x, y in zip(xs, ys):
                if not math.isnan(y):
                    panels.setdefault(t.yaxis or "y", {}).setdefault((str(getattr(t.name, "value", t.name)), x), []).append(round(y, 9))
        norm = lambda d: sorted((k, sorted(v)) for k, v in d.items())
        for a, p in panels.items():
            c.check(norm(p) == norm(want), lambda: "figure %s, panel %s shows %r, the results give %r" % (cost[0], a, norm(p)[:4], norm(want)[:4]), dat)
        c.check(len(panels) == (2 if want else 0), lambda: "figure %s has %d panels with values" % (cost[0], len(panels)), dat)
        colour = {}
        for t in fig.data:
            colour.setdefault(str(getattr(t.name, "value", t.name)), set()).add(t.marker.color)
        c.check(all(len(x) == 1 for x in colour.values()) and len(set().union(*colour.values())) == len(colour), lambda: "colours do not tell the algorithms apart: %r" % colour, dat)
        c.event("boxes", len(want))
        if want:
            c.distinct("figure", cost[0], norm(want))
    c.check(seen == {"EUC_2D", "MST"}, lambda: "figures for %r" % sorted(seen), dat)
    c.event("heuristics_figures")


@prop("L11", 2000, 16000, lib="plain", min_distinct=250, rule="distinct graphs and tours whose drawing was decoded back into edges and vertices")
def l11(c):
    rng = c.rng
    if c.idx % 10 == 7:
        return heuristics_figure(c, rng)
    from pctsp.plot import edge_scatter, graph_layout, graph_trace, tour_edges_trace, vertex_scatter
    inst = pc.instance(rng, 4, 9, loops=.1)
    g = inst.g
    src, tgt = rng.choice([("source", "target"), ("u", "v")])
    xn, yn = rng.choice([("x", "y"), ("easting", "northing")])
    pos = dict(zip(g, data.points(rng, len(g))))
    vdf = pd.DataFrame([{"id": v, xn: pos[v][0], yn: pos[v][1], "prize": g.nodes[v]["prize"], "other": rng.randint(0, 99)} for v in rng.sample(list(g), len(g))]).set_index("id")
    es = [(a, b) if rng.random() < .5 else (b, a) for a, b in g.edges()]
    rng.shuffle(es)
    if not es:
        return
    cols = [src, tgt, "cost"]
    rng.shuffle(cols)
    edf = pd.DataFrame([{src: a, tgt: b, "cost": g[a][b]["cost"]} for a, b in es])[cols]
    kw = dict(source=src, target=tgt, x_name=xn, y_name=yn)
    norm = lambda ps: sorted(tuple(sorted(map(tuple, p))) for p in ps)
    place = lambda ee: norm([[tuple(map(float, pos[a])), tuple(map(float, pos[b]))] for a, b in ee])
    dat = lambda: {"edges": es, "pos": {str(k): v for k, v in pos.items()}}
    snap = edf.copy(), vdf.copy()
    tr = c.call("edge_scatter", edge_scatter, edf, vdf, **kw)
    c.check(norm(segments(tr)) == place(es), lambda: "the drawing shows %d lines for %d edges, or other ends" % (len(segments(tr)), len(es)), dat)
    c.check(tr.mode == "lines", "edges are not drawn as lines", dat)
    tr = c.call("edge_scatter", edge_scatter, edf, vdf, hoverinfo="text", name="edges", **kw)
    c.check(tr.hoverinfo == "text" and tr.name == "edges", "an option of the trace is lost", dat)
    for col in ("prize", "other"):
        vt = c.call("vertex_scatter", vertex_scatter, vdf, **(dict(x_name=xn, y_name=yn) if col == "prize" else dict(x_name=xn, y_name=yn, color=col)))
        got = sorted((float(x), float(y), float(k)) for x, y, k in zip(vt.x, vt.y, vt.marker.color))
        c.check(got == sorted((float(r[xn]), float(r[yn]), float(r[col])) for _, r in vdf.iterrows()), "the drawing does not show every vertex at its place with its colour", dat)
        c.check(vt.mode == "markers", "vertices are not drawn as markers", dat)
    cy = inst.cycles(50)
    if len(cy):
        tour = list(rng.choice(list(cy)))
        if tour[0] != tour[-1]:
            tour.append(tour[0])
        if rng.random() < .5:
            tour.reverse()
        tt = c.call("tour_edges_trace", tour_edges_trace, tour, edf, vdf, color=rng.choice(["red", "blue"]), **kw)
        c.check(norm(segments(tt)) == place(list(zip(tour, tour[1:]))), lambda: "the tour %r is drawn as %r" % (tour, segments(tt)), dat)
        c.event("tours")
    if (src, xn) == ("source", "x"):
        two = c.call("graph_trace", graph_trace, edf, vdf)
        c.check(len(two) == 2 and norm(segments(two[0])) == place(es) and len(two[1].x) == len(g), "the trace of the graph is not its edges and its vertices", dat)
        import plotly.graph_objects as go
        c.call("a figure", lambda: go.Figure(data=two, layout=graph_layout()))
    c.check(edf.equals(snap[0]) and vdf.equals(snap[1]), "drawing changes the data", dat)
    c.event("edges", len(es))
    c.distinct(inst.sig())
    c.sample({"edges": len(es)})
