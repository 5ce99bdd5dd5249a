"""Graph algorithms of the Python package: Y01-Y08. Oracles are written from the definitions
(augmenting-path flow, cycle enumeration, degree peeling), independent of the package and of tspwplib."""
import copy
import json
import os
import random
import subprocess
import sys

import networkx as nx

import pc
from rt import prop
from tspwplib import asymmetric_from_undirected, biggest_vertex_id_from_graph, split_head
from pctsp.preprocessing import (degree_without_self_loops, remove_components_disconnected_from_vertex, remove_leaves,
                                 remove_one_connected_components, undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map)
from pctsp.suurballe import (adjust_edge_cost, adjust_edge_cost_for_graph, edge_disjoint_path_cost, extract_suurballe_edge_disjoint_paths,
                             find_parents_in_shortest_path_tree, is_ancestor, postorder, preorder, suurballe_shortest_vertex_disjoint_paths)
from pctsp.constants import NULL_VERTEX
if pc.LIBDIR:
    from pctsp.algorithms import (find_cycle_from_bfs, random_tour_complete_graph, random_tour_from_disjoint_paths_map, suurballes_heuristic,
                                  suurballes_tour_initialization, tour_from_vertex_disjoint_paths)

INF = float("inf")


# ---------------------------------------------------------------- oracles
def two_units(arcs, s, t):
    """Least cost of sending two units from s to t over unit capacity arcs [(u, v, cost)], or None.
    Two Bellman-Ford augmentations."""
    res = []  # [u, v, cost, free]
    for u, v, c in arcs:
        res.append([u, v, c, True])
        res.append([v, u, -c, False])
    out = {}
    for i, r in enumerate(res):
        out.setdefault(r[0], []).append(i)
    total = 0
    for _ in range(2):
        dist, via, todo, on = {s: 0}, {}, [s], {s}
        while todo:
            nxt = []
            for u in todo:
                on.discard(u)
                for i in out.get(u, ()):
                    _, v, c, free = res[i]
                    if free and dist[u] + c < dist.get(v, INF):
                        dist[v], via[v] = dist[u] + c, i
                        if v not in on:
                            on.add(v)
                            nxt.append(v)
            todo = nxt
        if t not in dist or t == s:
            return None
        total += dist[t]
        v = t
        while v != s:
            i = via[v]
            res[i][3] = False
            res[i ^ 1][3] = True
            v = res[i][0]
    return total


def vertex_disjoint(g, s, t, weight="cost"):
    arcs = [((v, 0), (v, 1), 0) for v in g if v not in (s, t)]
    for a, b, d in g.edges(data=True):
        if a != b:
            for u, v in ((a, b), (b, a)):
                arcs.append(((u, 1) if u not in (s, t) else u, (v, 0) if v not in (s, t) else v, d[weight]))
    return two_units(arcs, s, t)


def big_graph(rng):
    """A larger sparse graph; sometimes with very deep shortest path trees."""
    k = rng.random()
    if k < .25:
        n = rng.randint(20, 60)
        g = nx.gnp_random_graph(n, rng.choice([2.2, 3, 5]) / n, seed=rng.randint(0, 10**9))
    elif k < .5:
        a = rng.randint(3, 6)
        g = nx.convert_node_labels_to_integers(nx.grid_2d_graph(a, rng.randint(3, 9)))
        for e in list(g.edges):
            if rng.random() < .12:
                g.remove_edge(*e)
    elif k < .75:
        g = pc.topology(rng, rng.choice(["cactus", "pendant", "ring", "clusters", "ladder"]), rng.randint(15, 40))
    else:
        n = rng.randint(20, 50)
        g = nx.random_labeled_tree(n, seed=rng.randint(0, 10**9)) if hasattr(nx, "random_labeled_tree") else nx.random_tree(n, seed=rng.randint(0, 10**9))
        for _ in range(rng.randint(2, n)):
            a, b = rng.sample(range(n), 2)
            g.add_edge(a, b)
    m = dict(zip(g, rng.sample(range(0, 3 * len(g)), len(g))))
    g = nx.relabel_nodes(g, m)
    hi = rng.choice([1, 3, 20, 1000])
    for a, b in g.edges:
        g[a][b]["cost"] = rng.randint(0 if rng.random() < .1 else 1, hi)
    for v in g:
        g.nodes[v]["prize"] = rng.randint(0, 9)
    if rng.random() < .3:
        g.add_edges_from(((v, v) for v in list(g)), cost=0)
    return g


def dump(g, **k):
    return dict(k, vertices=[(v, dict(d)) for v, d in g.nodes(data=True)], edges=[(u, v, dict(d)) for u, v, d in g.edges(data=True)])


def snapshot(g):
    return (type(g), {v: dict(d) for v, d in g.nodes(data=True)}, {(u, v): dict(d) for u, v, d in g.edges(data=True)}, list(g), dict(g.graph))


def maps(c, g, root):
    """What the experiments do: split graph, Suurballe, cost and path maps."""
    big = biggest_vertex_id_from_graph(g)
    tree = c.call("Suurballe's algorithm", suurballe_shortest_vertex_disjoint_paths, asymmetric_from_undirected(g), split_head(big, root), weight="cost")
    return (c.call("the cost map", vertex_disjoint_cost_map, tree, big), c.call("the paths map", undirected_vertex_disjoint_paths_map, tree, big))


SCALES = [.25, .5, 10 ** 7, 2 ** 33, 3 * 10 ** 12]  # exact in floating point, so that sums can be compared


def branches(rng):
    """Dense or sparse parts hanging off the root by a path each, at most two of which are joined, by one edge."""
    g, root, parts, n = nx.Graph(), 0, [], 1
    large = rng.random() < .3  # vertices with many neighbours
    for _ in range(2 if large else rng.randint(2, 4)):
        at = 0
        for _ in range(rng.randint(1, 4)):
            g.add_edge(at, n)
            at, n = n, n + 1
        k = rng.randint(12, 22) if large else rng.randint(2, 9)
        part = [at] + list(range(n, n + k))
        n += k
        dense = rng.choice([0, .3, 1])
        g.add_edges_from((rng.choice(part[:i]), part[i]) for i in range(1, len(part)))
        g.add_edges_from((a, b) for i, a in enumerate(part) for b in part[:i] if rng.random() < dense)
        parts.append(part)
    if rng.random() < .75:
        a, b = rng.sample(parts, 2)
        g.add_edge(rng.choice(a[-2:]), rng.choice(b))
    name = rng.sample(range(rng.choice([n, 3 * n, 10**4])), n)
    h = nx.Graph()
    es = list(g.edges)
    rng.shuffle(es)
    scale = rng.choice([1, 10, 1000])
    h.add_nodes_from(name[v] for v in rng.sample(range(n), n))
    h.add_edges_from((name[a], name[b], {"cost": scale * rng.randint(1, 20)}) for a, b in es)
    for v in h:
        h.nodes[v]["prize"] = rng.randint(0, 30)
    return h, name[root]


def star(rng):
    """A root with many branches, few of which are joined."""
    g, root = nx.Graph(), 0
    n = rng.randint(18, 90) if rng.random() < .8 else rng.randint(257, 400)
    g.add_edges_from((root, v) for v in range(1, n + 1))
    for v in range(n + 1, n + rng.randint(1, 20)):
        g.add_edge(rng.randint(1, v - 1), v)
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        g.add_edge(*rng.sample(range(1, len(g)), 2))
    names = rng.sample(range(3 * len(g)), len(g))
    g = nx.relabel_nodes(g, dict(zip(g, names)))
    for v in g:
        g.nodes[v]["prize"] = rng.randint(0, 9)
    for u, v in g.edges:
        g[u][v]["cost"] = rng.randint(1, 9)
    return g, names[0]


def wide_graph(c):
    """Vertices with many neighbours and many vertices in all."""
    rng = c.rng
    g, root = star(rng)
    vs = list(g)
    hubs = rng.sample(vs, rng.randint(1, 3))
    for v in vs:
        for u in rng.sample(hubs, rng.randint(0, len(hubs))) + rng.sample(vs, rng.choice([0, 0, 1, 2])):
            if u != v:
                g.add_edge(u, v, cost=rng.randint(1, 9))
    if rng.random() < .5:
        for _, w in g[root].items():
            w["cost"] += rng.choice([0, 10, 50])
    c.event("wide")
    return g, root if rng.random() < .5 else rng.choice(vs)


def workload(c, small=.75):
    rng = c.rng
    if rng.random() < .07:
        c.event("branches_off_the_root")
        g, root = branches(rng)
    elif rng.random() < small:
        inst = pc.instance(rng, 3, 10, isolated=rng.random() < .3, loops=.3, zero_cost=.15)
        g, root = inst.g, inst.root
    else:
        g = big_graph(rng)
        root = rng.choice(list(g))
    if rng.random() < .12:
        k = rng.choice(SCALES)
        for u, v in g.edges:
            g[u][v]["cost"] *= k
        c.event("costs_scaled")
    return g, root


# ---------------------------------------------------------------- Y01
@prop("Y01", 12000, 96000, min_distinct=800, rule="distinct (graph, root) pairs whose disjoint path costs were compared with minimum cost flows for every vertex")
def y01(c):
    """The cost map is the cheapest pair of vertex-disjoint paths."""
    wide = c.rng.random() < .008
    g, root = wide_graph(c) if wide else workload(c)
    before = snapshot(g)
    cost, paths = maps(c, g, root)
    c.check(snapshot(g) == before, "the input graph was changed", lambda: dump(g, root=root))
    data = lambda: dump(g, root=root, cost=cost)
    c.check(set(cost) - {root} == set(paths) - {root}, "the cost map and the path map cover different vertices", data)
    c.check(set(cost) <= set(g), "a vertex that is not in the graph has a cost", data)
    for v in c.rng.sample(list(g), 12) if wide else g:
        if v == root:
            continue
        want = vertex_disjoint(g, root, v)
        if want is None:
            c.event("no_pair")
            c.check(v not in cost, lambda: "vertex %r has a disjoint path cost %r although there are no two disjoint paths from %r" % (v, cost.get(v), root), data)
        else:
            c.event("pair")
            c.check(v in cost and cost[v] == want, lambda: "the cheapest two disjoint paths from %r to %r cost %r, the map says %r" % (root, v, want, cost.get(v, "nothing")), data)
    if len(cost) > 1:
        c.distinct(tuple(sorted(map(tuple, (sorted((u, v)) + [d["cost"]] for u, v, d in g.edges(data=True))))), root)
        c.sample({"n": len(g), "m": g.number_of_edges(), "root": root, "labelled": len(cost)})
    if c.idx % 997 == 5:  # deep shortest path trees
        n = c.rng.randint(600, 1500)
        ring = nx.cycle_graph(n)
        nx.set_edge_attributes(ring, 1, "cost")
        cost, paths = maps(c, ring, 0)
        c.check(all(cost.get(v) == n for v in range(1, n)), "on a ring of %d vertices some disjoint path cost is not the length of the ring" % n)
        c.event("deep_rings")


# ---------------------------------------------------------------- Y02
def walk_ok(g, w, s, t):
    return len(w) >= 2 and w[0] == s and w[-1] == t and len(set(w)) == len(w) and all(g.has_edge(a, b) for a, b in zip(w, w[1:]))


@prop("Y02", 36000, 288000, min_distinct=800, rule="distinct (graph, root, vertex) triples whose extracted path pair was verified")
def y02(c):
    """The paths map contains real, disjoint paths of exactly the advertised cost."""
    g, root = wide_graph(c) if c.rng.random() < .008 else workload(c)
    cost, paths = maps(c, g, root)
    data = lambda: dump(g, root=root, cost=cost, paths=paths)
    key = hash(tuple(sorted(map(repr, g.edges(data=True)))))
    for v, pair in paths.items():
        if v == root:
            continue
        p, q = list(pair[0]), list(pair[1])
        c.check(walk_ok(g, p, root, v) and walk_ok(g, q, root, v), lambda: "paths %r, %r of vertex %r are not simple paths of the graph from the root" % (p, q, v), data)
        c.check(not set(p[1:-1]) & set(q[1:-1]) and p != q, lambda: "paths %r and %r share a vertex" % (p, q), data)
        if walk_ok(g, p, root, v) and walk_ok(g, q, root, v):
            k = sum(g[a][b]["cost"] for w in (p, q) for a, b in zip(w, w[1:]))
            c.check(k == cost.get(v), lambda: "the paths of vertex %r cost %r, the cost map says %r" % (v, k, cost.get(v)), data)
        c.event("pairs")
        if min(len(p), len(q)) > 2:
            c.event("pairs_of_long_paths")
        c.distinct(key, root, v)
        c.sample({"root": root, "vertex": v, "paths": [p, q], "cost": cost.get(v)})


# ---------------------------------------------------------------- Y03
def digraph(rng):
    n = rng.randint(3, 14)
    D = nx.DiGraph()
    D.add_nodes_from(rng.sample(range(3 * n), n))
    vs = list(D)
    dense = rng.choice([1.2, 2, 3, n / 2])
    back = rng.choice([0.0, .2, .5])
    hi = rng.choice([1, 2, 9, 50])
    z = rng.random() < .15
    want = int(dense * n)
    for _ in range(want):
        i, j = sorted(rng.sample(range(n), 2))
        if rng.random() < back:
            i, j = j, i
        u, v = vs[i], vs[j]
        if not D.has_edge(u, v) and not D.has_edge(v, u):
            D.add_edge(u, v, **{"w": rng.randint(0 if z else 1, hi)})
    if rng.random() < .1:
        k = rng.choice(SCALES)
        for u, v in D.edges:
            D[u][v]["w"] *= k
    return D, vs[0] if rng.random() < .7 else rng.choice(vs)


@prop("Y03", 120000, 960000, min_distinct=1500, rule="distinct (directed graph, source) pairs with at least one vertex that has two edge-disjoint paths")
def y03(c):
    """Edge-disjoint paths in a directed graph without antiparallel arcs."""
    rng = c.rng
    D, s = digraph(rng)
    before = snapshot(D)
    T = c.call("Suurballe's algorithm", suurballe_shortest_vertex_disjoint_paths, D, s, weight="w")
    c.check(snapshot(D) == before, "the input graph was changed", lambda: dump(D, source=s))
    dist = nx.single_source_dijkstra_path_length(D, s, weight="w")
    data = lambda: dump(D, source=s)
    c.check(set(T) == set(dist), "the result does not cover exactly the vertices reachable from the source", data)
    c.check(all(T.distance_from_source[v] == k for v, k in dist.items()), "a shortest path distance is wrong", data)
    arcs = [(u, v, d["w"]) for u, v, d in D.edges(data=True)]
    n = 0
    for v in dist:
        if v == s:
            c.check(extract_suurballe_edge_disjoint_paths(T, s, s) == ([s], []), "paths from the source to itself are not ([source], [])", data)
            continue
        want = two_units(arcs, s, v)
        got = c.call("edge_disjoint_path_cost", edge_disjoint_path_cost, T, v)
        pair = c.call("extracting the paths of vertex %r" % v, extract_suurballe_edge_disjoint_paths, T, s, v)
        if want is None:
            c.event("no_pair")
            c.check(got == sys.maxsize and not T.labeled[v], lambda: "vertex %r has no two edge-disjoint paths but is labelled or has cost %r" % (v, got), data)
            c.check(tuple(map(list, pair)) == ([], []), lambda: "paths %r were returned for vertex %r, which has none" % (pair, v), data)
            continue
        n += 1
        c.event("pair")
        c.check(got == want and T.labeled[v], lambda: "vertex %r: cheapest pair costs %r, reported %r (labelled: %r)" % (v, want, got, T.labeled[v]), data)
        used, k, ok = [], 0, True
        for w in pair:
            ok = ok and len(w) >= 2 and w[0] == s and w[-1] == v and all(D.has_edge(a, b) for a, b in zip(w, w[1:]))
            if ok:
                used += list(zip(w, w[1:]))
        c.check(ok, lambda: "%r are not paths from %r to %r" % (pair, s, v), data)
        if ok:
            k = sum(D[a][b]["w"] for a, b in used)
            c.check(len(set(used)) == len(used), lambda: "paths %r share an edge" % (pair,), data)
            c.check(k == want, lambda: "the paths of vertex %r cost %r, the cheapest pair costs %r" % (v, k, want), data)
    if n:
        c.distinct(sorted(arcs), s)
        c.sample({"n": len(D), "m": D.number_of_edges(), "source": s, "vertices_with_pairs": n})


# ---------------------------------------------------------------- Y04
def adj(g):
    return {v: {w for w in g[v] if w != v} for v in g}


def core2(g):
    a = adj(g)
    todo = [v for v in a if len(a[v]) <= 1]
    while todo:
        v = todo.pop()
        if v in a:
            for w in a.pop(v):
                if w in a:
                    a[w].discard(v)
                    if len(a[w]) <= 1:
                        todo.append(w)
    return set(a)


def reach(g, s):
    a, seen, todo = adj(g), {s}, [s]
    while todo:
        for w in a[todo.pop()]:
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def on_cycle_with(g, root):
    """root and every vertex in a block with root and at least one other vertex on a cycle through it
    (block membership via reachability after removing a cut vertex)."""
    out = {root}
    a = adj(g)

    def comp(start, removed):
        seen, todo = {start}, [start]
        while todo:
            for w in a[todo.pop()]:
                if w not in seen and w != removed:
                    seen.add(w)
                    todo.append(w)
        return seen
    # v shares a block (>= 3 vertices) with root iff no single other vertex separates them and they are not joined by a mere bridge
    r = comp(root, None)
    for v in r - {root}:
        if two_units([((x, 0), (x, 1), 0) for x in r if x not in (root, v)] +
                     [((x, 1) if x not in (root, v) else x, (y, 0) if y not in (root, v) else y, 0) for x in r for y in a[x]], root, v) is not None:
            out.add(v)
    return out


def same_induced(g, h, keep):
    """Is h the subgraph of g induced by keep, with all vertex and edge data?"""
    if set(h) != keep:
        return "kept vertices %r, expected %r" % (sorted(h), sorted(keep))
    if {v: dict(d) for v, d in h.nodes(data=True)} != {v: dict(g.nodes[v]) for v in keep}:
        return "vertex data changed"
    e = lambda x: {frozenset((u, v)): dict(d) for u, v, d in x.edges(data=True)}
    if e(h) != e(g.subgraph(keep)):
        return "edges or edge data changed"
    return None


@prop("Y04", 16000, 128000, lib=None, min_distinct=1000, rule="distinct (graph, root) pairs on which at least one preprocessing step removed vertices")
def y04(c):
    """Preprocessing removes exactly what cannot be on a tour and changes nothing else."""
    rng = c.rng
    g, root = workload(c, .85)
    if rng.random() < .3:  # a second component and isolated vertices
        b = max(g) + 1
        h = pc.topology(rng, rng.choice(["ring", "pendant", "gnp"]), rng.randint(3, 6))
        g.add_nodes_from(((v + b, {"prize": rng.randint(0, 9)}) for v in h))
        g.add_edges_from(((u + b, v + b, {"cost": rng.randint(1, 9)}) for u, v in h.edges))
    if rng.random() < .2:  # only some vertices have self loops
        g.add_edges_from(((v, v) for v in rng.sample(list(g), len(g) // 2)), cost=0)
    before = snapshot(g)
    data = lambda: dump(g, root=root)
    for v in rng.sample(list(g), min(4, len(g))):
        c.check(degree_without_self_loops(g, v) == len(adj(g)[v]), "wrong degree without self loops of %r" % v, data)
    want = {"disconnected": reach(g, root), "leaves": core2(g), "one_connected": on_cycle_with(g, root)}
    fn = {"disconnected": lambda x: remove_components_disconnected_from_vertex(x, root), "leaves": remove_leaves,
          "one_connected": lambda x: remove_one_connected_components(x, root)}
    for k in want:
        h = c.call("preprocessing step " + k, fn[k], g)
        why = same_induced(g, h, want[k])
        c.check(why is None, lambda: "%s: %s" % (k, why), data)
        c.check(snapshot(g) == before, "%s changed its input" % k, data)
        if len(h) < len(g):
            c.event("removed_" + k)
            c.distinct(before[2].keys(), root)
        if k == "one_connected":
            c.check(not nx.is_frozen(h), "the result cannot be modified", data)
            for u, v in list(h.edges)[:1]:
                h[u][v]["cost"] = -77
            for v in list(h)[:1]:
                h.nodes[v]["prize"] = -77
            c.check(snapshot(g) == before, "changing the result of %s changes the input graph" % k, data)
    # any sequence of steps keeps every tour through the root
    order = rng.sample(list(fn), rng.randint(1, 3)) + ([rng.choice(list(fn))] if rng.random() < .3 else [])
    h = g
    for k in order:
        if root not in h:
            break
        h = c.call("preprocessing step " + k, fn[k], h)
    c.event("sequences")
    full = on_cycle_with(g, root)
    if root in h:
        c.check(full - {root} == on_cycle_with(h, root) - {root} and nx.utils.edges_equal(list(g.subgraph(full - {root}).edges(data=True)), list(h.subgraph(full - {root}).edges(data=True))),
                lambda: "after %r some tour through the root is lost" % (order,), data)
    else:
        c.check(full == {root}, lambda: "after %r the root is gone although it is on a cycle" % (order,), data)
    c.sample({"n": len(g), "order": order, "kept": len(h)})
    if c.idx % 999 == 7:
        n = 1300
        p = nx.path_graph(n)
        p.add_edge(n - 1, n - 3)
        h = c.call("removing leaves of a long path", remove_leaves, p)
        c.check(set(h) == {n - 1, n - 2, n - 3}, "a long path with a triangle at its end does not reduce to the triangle")
        c.event("deep_paths")


# ---------------------------------------------------------------- Y05
def tour_of(pair):
    return list(pair[0]) + list(pair[1])[-2::-1]


@prop("Y05", 32000, 256000, lib="plain", min_distinct=1000, rule="distinct (graph, root, quota) triples with at least one candidate tour from disjoint paths")
def y05(c):
    """Tours made from pairs of disjoint paths: cheapest feasible one, or the one with most prize."""
    rng = c.rng
    g, root = workload(c, .9)
    if rng.random() < .1:
        nx.set_node_attributes(g, rng.choice([0, 1]), "prize")
    prize = dict(g.nodes(data="prize"))
    if rng.random() < .6:
        cost, paths = maps(c, g, root)
        if rng.random() < .3:
            keep = rng.sample(list(paths), rng.randint(0, len(paths)))
            paths = {v: paths[v] for v in paths if v in keep}
    else:  # other disjoint path pairs, not the cheapest
        cyc = pc.simple_cycles(g, root, 200)
        paths, cost = {}, {}
        for v in rng.sample(list(g), len(g)):
            cs = [k for k in cyc if v in k and v != root]
            if cs:
                k = rng.choice(cs)
                i = k.index(v)
                paths[v] = (k[:i + 1], [root] + k[:i - 1:-1])
                cost[v] = sum(g[a][b]["cost"] for a, b in pc.cyc_edges(k))
    if rng.random() < .15 and max(cost.values(), default=0) < 2 ** 20:  # amounts beyond 32 bits
        k = rng.choice([10 ** 6, 10 ** 10, 2 ** 40])
        cost = {v: x * k for v, x in cost.items()}
        if rng.random() < .5:
            prize = {v: x * k for v, x in prize.items()}
    frozen = copy.deepcopy((prize, cost, paths))
    tot = sum(prize.values())
    quota = rng.choice([0, 1, rng.randint(0, tot + 2), rng.randint(0, tot // 2 + 1), tot])
    tours = {v: tour_of(p) for v, p in paths.items()}
    simple = {v: t for v, t in tours.items() if len(set(t)) == len(t) - 1 >= 3 and t[0] == t[-1] == root}
    val = {v: sum(prize[x] for x in t[:-1]) for v, t in simple.items()}
    feas = {v for v in simple if val[v] >= quota}
    data = lambda: dump(g, root=root, quota=quota, paths=paths, cost=cost)
    for v, p in paths.items():
        got = c.call("tour_from_vertex_disjoint_paths", tour_from_vertex_disjoint_paths, p)
        c.check(got == tours[v], lambda: "the tour of paths %r is %r, expected %r" % (p, got, tours[v]), data)
    h = c.call("Suurballe's heuristic", suurballes_heuristic, prize, quota, cost, paths)
    i = c.call("tour initialisation", suurballes_tour_initialization, prize, quota, cost, paths)
    c.check((prize, cost, paths) == frozen, "the maps were changed", data)
    if feas:
        best = min(cost[v] for v in feas)
        ok = [simple[v] for v in feas if cost[v] == best]
        c.check(h in ok, lambda: "Suurballe's heuristic returned %r; the cheapest feasible tours are %r (cost %r)" % (h, ok, best), data)
        c.check(i in ok, lambda: "the initial tour %r is not a cheapest feasible one %r" % (i, ok), data)
        c.event("feasible")
    else:
        c.check(h == [], lambda: "Suurballe's heuristic returned %r although no tour from the disjoint paths is feasible" % (h,), data)
        most = max(val.values(), default=0)
        ok = [simple[v] for v in simple if val[v] == most]
        c.check(i in ok or most == 0 and i == [], lambda: "no tour is feasible: initial tour %r is not one of most prize %r" % (i, ok), data)
        c.event("infeasible")
    if simple:
        c.distinct(sorted(tours.items()), quota, tot)
        c.sample({"quota": quota, "candidates": len(simple), "feasible": len(feas), "chosen": h})
    # malformed pairs are refused
    a, b = [root, -1, -2], [root, -3, -2]
    for bad in (([], b), (a, []), ([root], b), (a, [root]), ([-5] + a[1:], b), (a[:-1] + [-6], b), (a, b[:-1] + [-6])):
        try:
            t = tour_from_vertex_disjoint_paths(bad)
            c.check(False, "paths %r were accepted as tour %r" % (bad, t))
        except ValueError:
            c.event("refused")
            c.acc["evals"] += 1


# ---------------------------------------------------------------- Y06
@prop("Y06", 24000, 192000, lib="plain", min_distinct=1500, rule="distinct (graph, root) pairs whose root is on a cycle")
def y06(c):
    """A cycle through the root is found exactly when there is one."""
    if c.rng.random() < .03:
        g, root = star(c.rng)
        c.event("many_branches")
    else:
        g, root = workload(c, .8)
    before = snapshot(g)
    t = c.call("find_cycle_from_bfs", find_cycle_from_bfs, g, root)
    data = lambda: dump(g, root=root, got=t)
    c.check(snapshot(g) == before, "the graph was changed", data)
    full = on_cycle_with(g, root)
    if len(full) == 1:
        c.check(t == [], lambda: "the root is on no cycle but %r was returned" % (t,), data)
        c.event("acyclic")
        return
    c.event("cyclic")
    ok = len(t) >= 4 and t[0] == t[-1] == root and len(set(t)) == len(t) - 1 and all(g.has_edge(a, b) for a, b in zip(t, t[1:]))
    c.check(ok, lambda: "%r is not a simple cycle from the root" % (t,), data)
    c.distinct(tuple(before[2]), root)
    c.sample({"n": len(g), "root": root, "cycle": t})


# ---------------------------------------------------------------- Y07
OTHER = """
import json, random, sys
import pc
import networkx as nx
from pctsp.algorithms import random_tour_complete_graph, random_tour_from_disjoint_paths_map
d = json.load(open(sys.argv[1]))
g = nx.Graph()
for v, p in d["nodes"]:
    g.add_node(v, prize=p)
g.add_edges_from(d["edges"])
paths = {v: (a, b) for v, a, b in d["paths"]}
print(json.dumps([[random_tour_complete_graph(g, d["root"], d["quota"], seed=s), random_tour_from_disjoint_paths_map(paths, d["r"], seed=s)] for s in d["seeds"]]))
"""


def other_process(c, g, root, quota, h, r, paths, seed, data):
    """The same seeds in a new process, whose hashes of strings are different ones."""
    seeds = [seed] + list(range(12))
    here = [[random_tour_complete_graph(g, root, quota, seed=s), random_tour_from_disjoint_paths_map(paths, r, seed=s)] for s in seeds]
    f, script = c.tmp / "instance.json", c.tmp / "other.py"
    f.write_text(json.dumps({"nodes": [[v, g.nodes[v]["prize"]] for v in g], "edges": list(g.edges), "root": root, "quota": quota, "r": r, "seeds": seeds, "paths": [[v, *p] for v, p in paths.items()]}))
    script.write_text(OTHER)
    for salt in ("1", "23"):
        x = subprocess.run([sys.executable, "-B", str(script), str(f)], env=dict(os.environ, PYTHONHASHSEED=salt, PYTHONPATH=os.pathsep.join(sys.path)), capture_output=True, text=True)
        if x.returncode:
            raise RuntimeError("the other process failed: " + x.stderr[-500:])
        there = json.loads(x.stdout.splitlines()[-1])
        c.check(there == here, lambda: "the same seeds give %r in another process" % (there,), lambda: dict(data(), here=here))
        c.event("other_processes")


@prop("Y07", 32000, 256000, lib="plain", min_distinct=1000, rule="distinct (instance, seed) pairs that gave a random tour")
def y07(c):
    """Random starting tours."""
    rng = c.rng
    n = rng.randint(1, 12)
    vs = rng.sample(range(40), n)
    g = nx.Graph()
    hi = rng.choice([1, 9, 30])
    for v in vs:
        g.add_node(v, prize=rng.randint(0, hi))
    for i, u in enumerate(vs):
        for v in vs[i:]:
            if u != v or c.idx % 2:
                g.add_edge(u, v, cost=0 if u == v else rng.randint(1, 9))
    root = rng.choice(vs)
    tot = sum(dict(g.nodes(data="prize")).values())
    quota = rng.choice([0, 1, rng.randint(0, tot + 2), rng.randint(0, tot // 2 + 1), tot, tot + 1])
    k = rng.random()
    seed = 0 if k < .15 else rng.randint(1, 3) if k < .3 else rng.randint(0, 10**6)
    kw = {} if not seed and rng.random() < .5 else {"seed": seed}
    random.seed(rng.random())
    before = snapshot(g)
    t = c.call("random tour", random_tour_complete_graph, g, root, quota, **kw)
    random.seed(rng.random())
    again = random_tour_complete_graph(g, root, quota, **kw)
    data = lambda: dump(g, root=root, quota=quota, seed=seed, got=t)
    c.check(t == again, "the same seed gives two different tours", data)
    c.check(snapshot(g) == before, "the graph was changed", data)
    body = t[:-1]
    pz = lambda w: sum(g.nodes[v]["prize"] for v in w)
    c.check(t[0] == t[-1] == root and len(t) >= 2 and len(set(body)) == len(body) and set(body) <= set(vs), "not a closed walk from the root without repeats", data)
    c.check(len(body) == n or pz(body) >= quota and len(body) >= 3, "the tour stops before it is feasible", data)
    c.check(len(body) <= 3 or pz(body[:-1]) < quota, "the tour continues although it was feasible already", data)
    c.check(len(body) == min(3, n) or pz(body[:-1]) < quota, "the tour is too short or too long", data)
    c.event("complete_graph_tours")
    if n >= 5 and quota <= tot // 3:
        some = {tuple(random_tour_complete_graph(g, root, quota, seed=s)) for s in range(40)}
        c.check(len(some) > 3, "forty seeds give the same tour, or hardly two", data)
        c.event("seed_sweeps")
    c.distinct(sorted(g.nodes(data="prize")), root, quota, seed)
    # from disjoint paths
    h, r = workload(c, .95)
    _, paths = maps(c, h, r)
    if rng.random() < .3:
        paths = {v: p for v, p in paths.items() if rng.random() < .5 or v == r}
    long = [tour_of(p) for v, p in paths.items() if v != r and len(p[0]) + len(p[1]) >= 5]
    data = lambda: dump(h, root=r, seed=seed, paths=paths)
    frozen = copy.deepcopy(paths)
    random.seed(rng.random())
    try:
        t = random_tour_from_disjoint_paths_map(paths, r, **kw)
    except ValueError:
        c.check(not long, "no tour was returned although there are suitable paths", data)
        c.event("refused")
        return
    c.check(t in long, lambda: "%r is not the tour of a pair of paths that form a cycle" % (t,), data)
    random.seed(rng.random())
    c.check(t == random_tour_from_disjoint_paths_map(paths, r, **kw), "the same seed gives two different tours", data)
    c.check(paths == frozen, "the map was changed", data)
    if len({tuple(x) for x in long}) > 1 and c.idx % 5 == 0:
        got = {tuple(random_tour_from_disjoint_paths_map(paths, r, seed=s)) for s in range(60)}
        c.check(len(got) > 1 and got <= {tuple(x) for x in long}, "sixty seeds give the same tour or an unsuitable one", data)
        often = sorted([[tuple(x) for x in long].count(y) for y in {tuple(x) for x in long}])
        if 3 * sum(often[:-2]) >= len(long):  # the two most frequent tours leave at least a third of the choices to others
            c.check(len(got) > 2, "sixty seeds give two tours out of %d" % len(often), data)
            c.event("seed_sweeps_of_paths")
    c.event("disjoint_path_tours")
    if c.idx % 1300 == 5:
        other_process(c, g, root, quota, h, r, paths, seed, data)
    c.sample({"paths": len(paths), "tour": t})


# ---------------------------------------------------------------- Y08
@prop("Y08", 32000, 256000, lib=None, min_distinct=1500, rule="distinct (graph, source) pairs whose tree orders, ancestors, parents and reduced costs were compared with their definitions")
def y08(c):
    """Tree orders, ancestor test, parents and reduced edge costs."""
    rng = c.rng
    D, s = digraph(rng)
    T = nx.DiGraph()
    n = rng.randint(1, 15)
    names = rng.sample(range(50), n)
    T.add_node(names[0])
    par = {}
    for i in range(1, n):
        j = rng.choice([i - 1, rng.randrange(i)])
        par[names[i]] = names[j]
        T.add_edge(names[j], names[i])
    root = names[0]
    pre = c.call("preorder", preorder, T, root)
    post = c.call("postorder", postorder, T, root)
    data = lambda: {"tree": list(T.edges), "root": root, "pre": pre, "post": post}

    def anc(v):
        out = [v]
        while v in par:
            v = par[v]
            out.append(v)
        return out
    c.check(sorted(pre) == sorted(names) and sorted(post) == sorted(names), "an order does not list every vertex once", data)
    c.check(all(T.nodes[v]["pre"] == i for i, v in enumerate(pre)) and all(T.nodes[v]["post"] == i for i, v in enumerate(post)), "numbers and orders disagree", data)
    ip, io = {v: i for i, v in enumerate(pre)}, {v: i for i, v in enumerate(post)}
    sub = {v: {w for w in names if v in anc(w)} for v in names}
    for v in names:
        a = [ip[w] for w in sub[v]]
        c.check(ip[v] == min(a) and max(a) - min(a) == len(a) - 1, "the subtree of %r is not listed right after it in preorder" % v, data)
        a = [io[w] for w in sub[v]]
        c.check(io[v] == max(a) and max(a) - min(a) == len(a) - 1, "the subtree of %r is not listed right before it in postorder" % v, data)
        for w in names:
            c.check(bool(is_ancestor(T, v, w)) == (v in anc(w)), "is %r an ancestor of %r: wrong answer" % (v, w), data)
    c.check(all((ip[a] < ip[b]) == (io[a] < io[b]) for a in names for b in names if a not in anc(b) and b not in anc(a)), "siblings come in different orders", data)
    # parents and reduced costs on shortest paths
    dist, path = nx.single_source_dijkstra(D, s, weight="w")
    P = c.call("parents", find_parents_in_shortest_path_tree, path)
    data = lambda: dump(D, source=s)
    c.check(P == {v: (p[-2] if len(p) > 1 else NULL_VERTEX) for v, p in path.items()}, "wrong parents in the shortest path tree", data)
    H = D.subgraph(dist)
    A = c.call("adjust_edge_cost_for_graph", adjust_edge_cost_for_graph, H, dist, weight="w")
    for u, v, d in H.edges(data=True):
        want = d["w"] + dist[u] - dist[v]
        c.check(A[u][v] == want >= 0 and adjust_edge_cost(d["w"], dist[u], dist[v]) == want, "the reduced cost of %r is wrong" % ((u, v),), data)
        c.event("reduced_costs")
    c.distinct(sorted(T.edges), sorted(map(repr, D.edges(data=True))), s)
    c.sample({"tree_size": n, "digraph": len(D)})
    if rng.random() < .004:  # large trees, deep or wide
        n, shape = rng.randint(1050, 2600), rng.choice(["path", "star", "broom", "random"])
        off = rng.choice([0, 1, 10**6])
        up = [0] + [{"path": i - 1, "star": 0, "broom": i - 1 if i < n // 2 else n // 2 - 1, "random": rng.randrange(max(0, i - 5), i)}[shape] for i in range(1, n)]
        T = nx.DiGraph()
        T.add_node(off)
        T.add_edges_from((up[i] + off, i + off) for i in range(1, n))
        pre, post = c.call("preorder", preorder, T, off), c.call("postorder", postorder, T, off)
        data = lambda: {"shape": shape, "vertices": n, "first": off}
        c.check(len(pre) == len(post) == n and set(pre) == set(post) == set(T), "an order of a large tree does not list every vertex once", data)
        c.check(all(T.nodes[v]["pre"] == i for i, v in enumerate(pre)) and all(T.nodes[v]["post"] == i for i, v in enumerate(post)), "numbers and orders disagree on a large tree", data)
        for _ in range(60):
            b = rng.randrange(n)
            line = [b]
            while line[-1]:
                line.append(up[line[-1]])
            for a in [rng.choice(line), line[0], line[-1], rng.randrange(n)]:
                c.check(bool(is_ancestor(T, a + off, b + off)) == (a in line), "is %d an ancestor of %d: wrong answer" % (a + off, b + off), data)
        c.event("large_tree_" + shape)
