"""Shared workload generators, oracles and access to the code under test."""
import ctypes
import itertools
import json
import logging
import os
import sys
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
LIBDIR = os.environ.get("VERIF_PYLIB")

import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402
import pctsp  # noqa: E402

assert pctsp.__file__.startswith(REPO), pctsp.__file__
LOG = None
if LIBDIR:
    pctsp.__path__.append(LIBDIR)
    LOG = ctypes.CDLL(LIBDIR + "/libpypctsp.so")

EPS = 1e-5
INT_MAX = 2**31 - 1
RESULT = {"didnotrun": 1, "delayed": 2, "didnotfind": 3, "feasible": 4, "infeasible": 5, "unbounded": 6, "cutoff": 7,
          "separated": 8, "newround": 9, "reduceddom": 10, "consadded": 11, "constchanged": 12, "branched": 13, "solvelp": 14}


# ---------------------------------------------------------------- instances
class Inst:
    """An undirected simple graph with integer costs, integer prizes, a quota and a root."""

    def __init__(self, g, root, quota, family):
        self.g, self.root, self.quota, self.family = g, root, quota, family
        self._cyc = None

    def cycles(self, limit=None):
        if self._cyc is None:
            self._cyc = simple_cycles(self.g, self.root, limit)
        return self._cyc

    def prize(self, vs):
        return sum(self.g.nodes[v]["prize"] for v in vs)

    def cost(self, cyc):
        return sum(self.g[a][b]["cost"] for a, b in zip(cyc, cyc[1:] + cyc[:1]))

    def feasible(self):
        return [c for c in self.cycles() if self.prize(c) >= self.quota]

    def dump(self):
        return {"family": self.family, "root": self.root, "quota": self.quota, "edges": [(u, v, d["cost"]) for u, v, d in self.g.edges(data=True)],
                "prize": dict(self.g.nodes(data="prize"))}

    def sig(self):
        return (self.root, self.quota, tuple(sorted((min(u, v), max(u, v), d["cost"]) for u, v, d in self.g.edges(data=True))), tuple(sorted(dict(self.g.nodes(data="prize")).items())))


class Cycles(list):
    cut = False


def simple_cycles(g, root, limit=None, steps=400000):
    """All simple cycles through root (length >= 3), each once, as vertex lists starting at root.
    With a limit it may stop early (then more than `limit` are not returned in full)."""
    out = []
    path, on = [root], {root}
    left = [steps if limit is not None else None]
    if root not in g:
        return out
    # a cycle through root stays inside the blocks that contain root
    adj = {}
    for blk in nx.biconnected_components(g):
        if root in blk and len(blk) >= 3:
            for v in blk:
                adj.setdefault(v, []).extend(w for w in g[v] if w in blk and w != v)

    def ext(u):
        for v in adj.get(u, ()):
            if left[0] is not None:
                left[0] -= 1
                if left[0] < 0:
                    return True
            if v == root:
                if len(path) >= 3 and str(path[1]) < str(path[-1]):
                    out.append(list(path))
                    if limit is not None and len(out) > limit:
                        return True
            elif v not in on:
                path.append(v)
                on.add(v)
                if ext(v):
                    return True
                on.discard(path.pop())
        return False
    cut = ext(root)
    res = Cycles(out)
    res.cut = cut
    return res


def cyc_edges(c):
    return list(zip(c, c[1:] + c[:1]))


FAMILIES = ["gnp", "complete", "clusters", "grid", "cactus", "pendant", "twoparts", "wheel", "ladder", "ring", "metric", "ties"]


def topology(rng, fam, n):
    g = nx.Graph()
    if fam == "gnp":
        return nx.gnp_random_graph(n, rng.choice([.35, .5, .7]), seed=rng.randint(0, 10**9))
    if fam in ("complete", "metric", "ties"):
        return nx.complete_graph(n)
    if fam == "clusters":  # two or three dense parts, few links: subtours are attractive
        k = rng.choice([2, 2, 3])
        parts = [[] for _ in range(k)]
        for v in range(n):
            parts[v % k].append(v)
        g.add_nodes_from(range(n))
        for p in parts:
            g.add_edges_from(itertools.combinations(p, 2))
        for a, b in zip(parts, parts[1:] + parts[:1]):
            if a is b or not a or not b:
                continue
            for _ in range(rng.choice([1, 2])):
                g.add_edge(rng.choice(a), rng.choice(b))
        return g
    if fam == "grid":
        a = 3 if n >= 6 else 2
        b = max(2, n // a)
        return nx.convert_node_labels_to_integers(nx.grid_2d_graph(a, b))
    if fam == "cactus":  # cycles sharing single vertices
        g.add_node(0)
        nxt = 1
        while nxt < n:
            at = rng.choice(list(g))
            k = min(rng.choice([1, 2, 2, 3, 3]), n - nxt)
            ring = [at] + list(range(nxt, nxt + k))
            nxt += k
            nx.add_cycle(g, ring) if k > 1 else g.add_edge(*ring)
        g.remove_edges_from(list(nx.selfloop_edges(g)))
        return g
    if fam == "pendant":
        m = max(3, n - rng.randint(1, 3))
        g = nx.gnp_random_graph(m, .7, seed=rng.randint(0, 10**9))
        for v in range(m, n):
            g.add_edge(v, rng.randrange(v))
        return g
    if fam == "twoparts":
        m = max(3, n // 2)
        g = nx.complete_graph(m)
        g.add_edges_from((a + m, b + m) for a, b in nx.complete_graph(max(2, n - m)).edges)
        return g
    if fam == "wheel":
        return nx.wheel_graph(n)
    if fam == "ladder":
        return nx.ladder_graph(max(2, n // 2))
    if fam == "ring":
        g = nx.cycle_graph(n)
        for _ in range(rng.randint(0, 3)):
            a, b = rng.sample(range(n), 2)
            g.add_edge(a, b)
        return g
    raise ValueError(fam)


def instance(rng, lo=3, hi=8, fam=None, isolated=False, quota=None, relabel=True, scale=None, zero_cost=0.08, loops=0.0):
    while True:
        f = fam or rng.choice(FAMILIES)
        n = rng.randint(max(lo, 4) if f in ("clusters", "wheel", "ladder", "grid", "twoparts") else lo, max(hi, 4))
        g = topology(rng, f, n)
        if not isolated:
            g.remove_nodes_from(list(nx.isolates(g)))
        if g.number_of_edges() == 0 or g.number_of_nodes() > max(hi, 4):
            continue
        nodes = list(g)
        style = rng.choice(["id", "shift", "sparse", "perm"]) if relabel else "id"
        if style == "shift":
            k = rng.randint(1, 50)
            m = {v: v + k for v in nodes}
        elif style == "sparse":
            m = dict(zip(nodes, rng.sample(range(0, 1000), len(nodes))))
        elif style == "perm":
            m = dict(zip(nodes, rng.sample(nodes, len(nodes))))
        else:
            m = {v: v for v in nodes}
        h = nx.Graph()
        vs = [m[v] for v in nodes]
        if relabel and rng.random() < .5:
            rng.shuffle(vs)
        h.add_nodes_from(vs)
        es = [(m[a], m[b]) for a, b in g.edges]
        if relabel:
            rng.shuffle(es)
            es = [(b, a) if rng.random() < .3 else (a, b) for a, b in es]
        s = scale or rng.choice([1, 1, 1, 7, 10, 100, 1000, 10**4])
        pos = {v: (rng.randint(0, 30), rng.randint(0, 30)) for v in vs}
        z = rng.random() < zero_cost
        for a, b in es:
            if f == "metric":
                c = int(round(((pos[a][0] - pos[b][0]) ** 2 + (pos[a][1] - pos[b][1]) ** 2) ** .5)) + (0 if z else 1)
            elif f == "ties":
                c = rng.choice([1, 2])
            else:
                c = rng.randint(0 if z else 1, 20)
            h.add_edge(a, b, cost=s * c)
        pm = rng.choice([9, 9, 9, 1, 30, 30, 1000, 10**5])
        for v in vs:
            h.nodes[v]["prize"] = rng.randint(0 if rng.random() < .7 else 1, pm)
        root = rng.choice([v for v in vs if h.degree(v)])
        if rng.random() < .3:
            h.nodes[root]["prize"] = 0
        tot = sum(dict(h.nodes(data="prize")).values())
        if rng.random() < loops:  # complete data sets come with a free self loop on every vertex
            priced = rng.random() < .3  # (the random cost function also puts costs on the loops: they never count)
            some = rng.random() < .3  # (and a graph put together by hand may have them on some of its vertices)
            for v in vs:
                if not some or rng.random() < .5:
                    h.add_edge(v, v, cost=rng.randint(1, 9) if priced else 0)
        q = quota(rng, tot) if quota else rng.choice([rng.randint(0, tot + 1), rng.randint(tot // 2, tot), rng.randint(tot // 3, max(tot // 3, 2 * tot // 3)), tot, 1])
        return Inst(h, root, q, f)


def enlarge(inst, rest=0):
    """The same instance with costs and prizes so large that their sums only just fit an int."""
    f = max(1, (INT_MAX - rest) // max(1, sum(d["cost"] for _, _, d in inst.g.edges(data=True))))
    p = max(1, (INT_MAX - rest) // max(1, sum(x for _, x in inst.g.nodes(data="prize"))))
    for _, _, d in inst.g.edges(data=True):
        d["cost"] *= f
    for v in inst.g:
        inst.g.nodes[v]["prize"] *= p
    inst.quota = min(inst.quota * p, INT_MAX)
    return inst


def held_karp(inst, quota=None):
    """Cost of the cheapest feasible simple cycle through the root, or None (n <= 13)."""
    g, root = inst.g, inst.root
    quota = inst.quota if quota is None else quota
    vs = [v for v in g if v != root]
    n = len(vs)
    INF = float("inf")
    C = np.full((n, n), INF)
    for i, a in enumerate(vs):
        for j, b in enumerate(vs):
            if i != j and g.has_edge(a, b):
                C[i, j] = g[a][b]["cost"]
    R = np.array([g[root][v]["cost"] if g.has_edge(root, v) else INF for v in vs])
    dp = np.full((1 << n, n), INF)
    for i in range(n):
        dp[1 << i, i] = R[i]
    prize = np.zeros(1 << n, dtype=int)
    for i, v in enumerate(vs):
        prize[1 << i: 2 << i] = prize[: 1 << i] + g.nodes[v]["prize"]
    best = INF
    for S in range(1, 1 << n):
        row = dp[S]
        for j in range(n):
            if S >> j & 1 and S != 1 << j:
                P = S ^ (1 << j)
                row[j] = (dp[P] + C[:, j]).min()
        if S & (S - 1) and prize[S] + g.nodes[root]["prize"] >= quota:
            best = min(best, (row + R).min())
    return None if best == INF else int(best)


def judge_tour(inst, edges):
    """Reasons why `edges` is not a feasible tour of inst (empty list: it is one)."""
    bad = []
    g = inst.g
    for e in edges:
        if not g.has_edge(*e):
            bad.append("edge %r is not in the graph" % (e,))
    h = nx.Graph()
    h.add_edges_from(edges)
    if h.number_of_edges() != len(edges):
        bad.append("an edge occurs twice")
    if any(a == b for a, b in edges):
        bad.append("a self loop")
    if inst.root not in h:
        bad.append("the root is not on it")
    if len(h) == 0 or not nx.is_connected(h) or any(d != 2 for _, d in h.degree):
        bad.append("not one simple cycle")
    if not bad and inst.prize(h.nodes) < inst.quota:
        bad.append("prize %d is below the quota %d" % (inst.prize(h.nodes), inst.quota))
    return bad


# ---------------------------------------------------------------- solving
OPT_DEFAULT = {}


def options(rng, inst, cost_cover=True, depth=True):
    o = dict(branching_strategy=rng.randint(0, 4), cycle_cover=rng.random() < .4, simple_rules_only=rng.random() < .4,
             sec_sepafreq=rng.choice([1, 1, 1, 2, 3, 10, 0, -1]), sec_max_tailing_off_iterations=rng.choice([-1, -1, 1, 2, 2, 3, 5]),
             sec_lp_gap_improvement_threshold=rng.choice([0.001, 0.01, 0.1, 0.5, 1e6]))
    if depth:
        o["branching_max_depth"] = rng.choice([-1, -1, 1, 3])
    a = rng.choice([(1, 1), (1, 0), (0, 1)])
    o["sec_disjoint_tour"], o["sec_maxflow_mincut"] = bool(a[0]), bool(a[1])
    if cost_cover:
        o["cost_cover_shortest_path"] = rng.random() < .5
        if rng.random() < .5:
            d = disjoint_costs(inst)
            if d is not None:
                if rng.random() < .5:  # as the experiments do: there and back for the root, nothing where there are no paths
                    big = min(INT_MAX, sum(x["cost"] for _, _, x in inst.g.edges(data=True)) + 1)
                    near = sorted(x["cost"] for v, x in inst.g[inst.root].items() if v != inst.root)[:2]
                    d = {v: x for v, x in d.items() if x < big and v != inst.root}
                    if len(near) == 2:
                        d[inst.root] = min(INT_MAX, 2 * sum(near))
                o["cost_cover_disjoint_paths"], o["disjoint_paths_cost"] = True, d
    return o


def disjoint_costs(inst):
    """Independent least cost of two vertex-disjoint paths root-v (min cost flow on the split
    graph); a number no cycle through root and v can beat. Vertices without such paths are
    given the largest cost that keeps them valid to exclude (they are on no cycle)."""
    out = {}
    big = min(INT_MAX, sum(d["cost"] for _, _, d in inst.g.edges(data=True)) + 1)
    for v in inst.g:
        if v == inst.root:
            out[v] = 0
            continue
        c = two_disjoint(inst.g, inst.root, v)
        out[v] = big if c is None else c
    return out


def two_disjoint(g, s, t):
    """Min total cost of two internally vertex-disjoint s-t paths using different edges, or None."""
    D = nx.DiGraph()
    for v in g:
        D.add_edge((v, 0), (v, 1), capacity=2 if v in (s, t) else 1, weight=0)
    for a, b, d in g.edges(data=True):
        if a == b:
            continue
        D.add_edge((a, 1), (b, 0), capacity=1, weight=d["cost"])
        D.add_edge((b, 1), (a, 0), capacity=1, weight=d["cost"])
    D.add_node((s, 0), demand=-2)
    D.add_node((t, 1), demand=2)
    try:
        return nx.min_cost_flow_cost(D)
    except nx.NetworkXUnfeasible:
        return None


class Run:
    pass


def limits(rng):
    """Limits a caller may put on the model before it is solved."""
    return rng.choice([{"limits/nodes": rng.choice([0, 1, 1, 2, 3, 5])}, {"limits/nodes": rng.choice([1, 2, 10])}, {"limits/solutions": rng.choice([1, 2])},
                       {"limits/gap": rng.choice([.05, .5])}, {"limits/stallnodes": 1}, {"limits/nodes": 1, "limits/solutions": 1}])


LIMITED = ("nodelimit", "totalnodelimit", "stallnodelimit", "sollimit", "bestsollimit", "gaplimit", "timelimit")


def basic(c, inst, heur=(), limits=None, gaps=False):
    """One run of the basic solving entry point (its vertices are numbers from zero, possibly with gaps)."""
    from pctsp import libpypctsp
    from pyscipopt import Model
    r = Run()
    g = inst.g.edge_subgraph(inst.g.edges())
    step = 3 if gaps else 1
    num = {v: step * i + (step > 1) for i, v in enumerate(g)}
    r.opts = {"basic": True, "limits": limits}
    model = Model(problemName="x", createscip=True, defaultPlugins=False)
    for k, v in (limits or {}).items():
        model.setParam(k, v)
    out = c.call("basic solving", libpypctsp.basic_solve_pctsp_bind, model, [(num[a], num[b]) for a, b in g.edges()], [(num[a], num[b]) for a, b in heur],
                 {(num[a], num[b]): d["cost"] for a, b, d in g.edges(data=True)}, {num[v]: g.nodes[v]["prize"] for v in g}, inst.quota, num[inst.root], "basic")
    back = {i: v for v, i in num.items()}
    r.edges = [(back.get(a, ("unknown", a)), back.get(b, ("unknown", b))) for a, b in out]
    r.status = model.getStatus()
    r.model = model
    c.event("basic_solves")
    return r


def solve(c, inst, heur=(), opts=None, log=True, limits=None, where=None, **kw):
    """One run of the branch and cut solver; returns what came back and what the monitors recorded."""
    from pctsp.algorithms.algorithms import solve_pctsp
    from pyscipopt import Model
    r = Run()
    opts = dict(opts or {}, **kw)
    r.opts = opts
    i = getattr(c, "_nsolve", 0)
    c._nsolve = i + 1
    d = where or c.tmp / ("s%d" % i)
    r.dir = d
    lf = c.tmp / ("log%d.jsonl" % i)
    model = Model(problemName="x", createscip=True, defaultPlugins=False)
    for k, v in (limits or {}).items():
        model.setParam(k, v)
    if log:
        assert LOG.vm_log_open(str(lf).encode())
    try:
        r.edges = c.call("solving", solve_pctsp, model, inst.g, list(heur), inst.quota, inst.root, solver_dir=d, logging_level=logging.ERROR, **opts)
    finally:
        if log:
            c.event("log_lines", LOG.vm_log_close())
    r.status = model.getStatus()
    r.model = model
    r.summary_file = d / "pctsp_summary_stats.yaml"
    if log:
        r.log = [json.loads(x) for x in lf.read_text().splitlines()]
        lf.unlink()
        begins = [e for e in r.log if e["ev"] == "begin"]
        r.begin = begins[0] if begins else None
        ends = [e for e in r.log if e["ev"] == "end"]
        r.end = ends[0] if ends else None
    c.event("solves")
    return r


class Space:
    """The logged graph of one solve, with all simple cycles through its root as 0/1 vectors
    over the logged variables. Uses only what the solver was actually given."""

    def __init__(self, begin, limit=20000):
        self.names = [v[2] for v in begin["vars"]]
        self.idx = {n: i for i, n in enumerate(self.names)}
        self.quota, self.root, self.prize = begin["quota"], begin["root"], begin["prize"]
        self.obj = np.array([v[3] for v in begin["vars"]], dtype=float)
        self.edge, self.loop, g = {}, {}, nx.Graph()
        g.add_nodes_from(range(begin["n"]))
        for i, (u, v, name, obj, lb, ub) in enumerate(begin["vars"]):
            if u == v:
                self.loop[u] = i
            else:
                self.edge[frozenset((u, v))] = i
                g.add_edge(u, v, cost=obj)
        self.g = g
        self.cyc = simple_cycles(g, self.root, limit)
        self.complete = not self.cyc.cut
        self.X = np.zeros((len(self.cyc), len(self.names)))
        for k, c in enumerate(self.cyc):
            for v in c:
                self.X[k, self.loop[v]] = 1
            for a, b in cyc_edges(c):
                self.X[k, self.edge[frozenset((a, b))]] = 1
        p = np.zeros(len(self.names))
        for v, i in self.loop.items():
            p[i] = self.prize[v]
        self.prizes, self.costs = self.X @ p, self.X @ self.obj
        self.feas = self.prizes >= self.quota

    def vec(self, coefs):
        a = np.zeros(len(self.names))
        for n, v in (coefs.items() if isinstance(coefs, dict) else coefs):
            if n not in self.idx:
                return None
            a[self.idx[n]] += v
        return a

    def cut_off(self, row, mask=None):
        """Index of a cycle (in mask, default the feasible ones) the row excludes, or None."""
        a = self.vec(row["coefs"])
        if a is None or not len(self.cyc):
            return None
        val = self.X @ a
        bad = ((val > row["rhs"] + EPS) | (val < row["lhs"] - EPS)) & (self.feas if mask is None else mask)
        w = np.flatnonzero(bad)
        return int(w[0]) if len(w) else None

    def is_tour(self, vals):
        """Does this integral point select one simple cycle through the root whose vertex
        variables agree with its edges (no quota)?"""
        on = {i for n, v in vals.items() if v > .5 for i in [self.idx[n]]}
        h = nx.Graph()
        for e, i in self.edge.items():
            if i in on:
                h.add_edge(*e)
        loops = {v for v, i in self.loop.items() if i in on}
        return len(h) >= 3 and self.root in h and set(h) == loops and nx.is_connected(h) and all(d == 2 for _, d in h.degree)

    @staticmethod
    def integral(vals):
        return all(abs(v - round(v)) < 1e-6 for v in vals.values())


def heuristic_edges(rng, inst, feas, which="any"):
    """A feasible tour as a starting solution: its edges in walk order from the root."""
    c = rng.choice(feas) if which == "any" else (max if which == "worst" else min)(feas, key=inst.cost)
    if rng.random() < .5:
        c = c[:1] + c[:0:-1]
    return [(b, a) if rng.random() < .3 else (a, b) for a, b in cyc_edges(c)]
