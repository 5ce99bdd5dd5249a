"""Synthetic data sets on disk in the formats the experiments read, and random experiment settings."""
import json
import math
from uuid import UUID

import pc
import yaml
from tspwplib import Generation, GraphName, LondonaqGraphName
from tspwplib.types import EdgeWeightType


def write_londonaq(root, name, g, depot):
    """One London air quality graph: adjacency lists of edges and weights, demands as prizes."""
    d = root / name.value
    d.mkdir(parents=True, exist_ok=True)
    data, weight = {}, {}
    for a, b, k in g.edges(data=True):
        data.setdefault(a, []).append(b)
        weight.setdefault(a, {})[b] = k["cost"]
    doc = {"capacity": None, "comment": "synthetic", "demands": {v: g.nodes[v]["prize"] for v in g}, "depots": [depot], "dimension": len(g),
           "display_data": None, "display_data_type": "NO_DISPLAY", "edge_data": {v: data.get(v, []) for v in g}, "edge_data_format": "EDGE_LIST",
           "edge_weight_format": "FULL_MATRIX", "edge_weight_type": "EXPLICIT", "edge_weights": {v: weight.get(v, {}) for v in g}, "fixed_edges": {},
           "name": name.value, "node_coords": {}, "node_coord_type": "NO_COORDS", "problem_type": "PCTSP", "tours": None}
    (d / (name.value + ".yaml")).write_text(yaml.dump(doc))


def write_oplib(root, gen, name, pts, scores, depot):
    """One OPLib instance with Euclidean distances (rounded up when read)."""
    d = root / "instances" / gen.value
    d.mkdir(parents=True, exist_ok=True)
    s = "NAME : %s\nCOMMENT : synthetic\nTYPE : OP\nDIMENSION : %d\nCOST_LIMIT : 100\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n" % (name.value, len(pts))
    s += "".join("%d %s %s\n" % (i + 1, x, y) for i, (x, y) in enumerate(pts))
    s += "NODE_SCORE_SECTION\n" + "".join("%d %d\n" % (i + 1, p) for i, p in enumerate(scores)) + "DEPOT_SECTION\n%d\n-1\nEOF\n" % depot
    (d / ("%s-%s-50.oplib" % (name.value, gen.value))).write_text(s)


def points(rng, n):
    out = []
    while len(out) < n:
        p = (rng.randint(0, 40), rng.randint(0, 40))
        if p not in out:
            out.append(p)
    return out


class World:
    """Both data sets in a directory, with what the files say."""

    def __init__(self, base, rng, laq=(), op=(), lo=4, hi=8):
        self.laq_root, self.op_root = base / "laq", base / "op"
        self.laq_root.mkdir()
        self.op_root.mkdir()
        self.laq, self.op = {}, {}
        for name in laq:
            inst = connected(rng, lo, hi)
            self.laq[name] = inst
            write_londonaq(self.laq_root, name, inst.g, inst.root)
        for gen, name in op:
            n = rng.randint(lo, min(hi, 8))
            pts, sc, dep = points(rng, n), [rng.randint(0, 9) for _ in range(n)], rng.randint(1, n)
            self.op[gen, name] = (pts, sc, dep)
            write_oplib(self.op_root, gen, name, pts, sc, dep)

    def total(self, key):
        if key in self.laq:
            return self.laq[key].prize(self.laq[key].g)
        return sum(self.op[key][1])

    def euclid(self, gen, name):
        """The complete Euclidean graph of an OPLib instance (distances rounded up)."""
        pts, sc, dep = self.op[gen, name]
        g = pc.nx.Graph()
        for i, p in enumerate(pts, 1):
            g.add_node(i, prize=sc[i - 1])
        for i, a in enumerate(pts, 1):
            for j, b in enumerate(pts, 1):
                if i < j:
                    g.add_edge(i, j, cost=math.ceil(math.hypot(a[0] - b[0], a[1] - b[1])))
        return g, dep


def connected(rng, lo, hi):
    """A connected instance whose root is on a cycle."""
    while True:
        inst = pc.instance(rng, lo, hi, isolated=False, zero_cost=.05)
        if len(inst.cycles(2000)) and pc.nx.is_connected(inst.g):
            return inst


ALL_OP = [(gen, name) for gen in Generation for name in (GraphName.st70, GraphName.eil76)]
