"""Tour heuristics: H01-H05. Real calls through the Python API; the oracles are the definition of a
tour and exact (rational) step-by-step references that follow every tie."""
import itertools
import logging
from fractions import Fraction as F

import pc
from rt import prop
if pc.LIBDIR:  # only in the workers
    from pctsp.algorithms import (collapse, extension_unitary_gain, extension_unitary_gain_collapse, extension_unitary_loss,
                                  extension_until_prize_feasible, path_collapse, path_extension, path_extension_collapse,
                                  path_extension_until_prize_feasible)

Q = dict(logging_level=logging.CRITICAL)
INF = float("inf")


def eared(c):
    """A cycle whose vertices are joined by long outer paths, and the closed tour around the cycle."""
    rng = c.rng
    k = rng.choice([3, 4, 5, 6, 6, 7, 8, 9, 11])
    long = rng.random() < .05
    if long:
        k = rng.randint(40, 90)
        c.event("long_tours")
    es, n = [(i, (i + 1) % k) for i in range(k)], k
    for _ in range(rng.choice([1, 1, 2, 3, 4]) + 6 * long):
        a, inner = rng.randrange(k), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11])
        b = (a + rng.choice([1, 1, 2, 3, 4, 5, 6])) % k
        if a != b:
            w = [a, *range(n, n + inner), b]
            es += zip(w, w[1:])
            n += inner
    name = rng.sample(range(rng.choice([n, 500])), n) if rng.random() < .6 else list(range(n))
    if name[0] >= n:
        name = [x + 1 for x in name]
    rng.shuffle(es)
    g = pc.nx.Graph()
    even = rng.random() < .3
    for a, b in es:
        g.add_edge(name[a], name[b], cost=2 if even else rng.randint(1, 12))
    rich = rng.random() < .7
    for i in range(n):
        g.nodes[name[i]]["prize"] = rng.randint(0, 2 if rich else 6) if i < k else rng.randint(1, 9)
    tot = sum(dict(g.nodes(data="prize")).values())
    own = sum(g.nodes[name[i]]["prize"] for i in range(k))
    inst = pc.Inst(g, name[0], rng.choice([tot, own + 1, rng.randint(own, tot), own, own // 2]), "ears")
    c.event("ears")
    t = [name[i] for i in range(k)]
    return inst, t + t[:1]


def crowded(c):
    """A triangle in a large complete graph that nearly every vertex has to join."""
    rng = c.rng
    n = rng.choice([12, 16, 20, 26, 32])
    g = pc.nx.complete_graph(n)
    for a, b in g.edges:
        g[a][b]["cost"] = rng.randint(10, 20)
    for v in g:
        g.nodes[v]["prize"] = rng.randint(1, 9)
    tot = sum(dict(g.nodes(data="prize")).values())
    inst = pc.Inst(g, rng.randrange(n), rng.choice([tot, tot, tot - 1, tot + 1, tot * 9 // 10]), "crowded")
    t = [inst.root] + rng.sample([v for v in g if v != inst.root], 2)
    c.event("crowded")
    return inst, t + t[:1]


def start(c, lo=4, hi=10, isolated=None):
    """An instance and a closed tour through its root (root first and last), or (inst, None)."""
    rng = c.rng
    k = rng.random()
    if k < .1:
        return eared(c)
    if k < .11 and hi >= 10:
        return crowded(c)
    large = hi >= 10 and rng.random() < .03
    if large:
        lo, hi = 14, rng.choice([20, 30, 45])
    inst = pc.instance(rng, lo, hi, fam=rng.choice(["gnp", "ring", "grid", "clusters", "wheel", "ladder", "metric", "pendant"]) if large else None, isolated=rng.random() < .2 if isolated is None else isolated, zero_cost=.05, loops=.15)
    c.event("large", large)
    if hi >= 10 and rng.random() < .1:  # too large for short floating point numbers
        for _, _, d in inst.g.edges(data=True):
            d["cost"] = rng.randint(1, 4) * 10**7 + rng.randint(0, 10)
    elif hi >= 10 and rng.random() < .03:  # as large as an int can hold
        pc.enlarge(inst, 10**8)
        c.event("huge_numbers")
    cyc = pc.simple_cycles(inst.g, inst.root, 3000)
    if not len(cyc):
        return inst, None
    k = rng.random()
    t = min(cyc, key=len) if k < .3 else max(cyc, key=len) if k < .45 else rng.choice(cyc)
    t = list(t)
    if rng.random() < .5:
        t = t[:1] + t[:0:-1]
    if rng.random() < .5:
        # a quota near the tour's own prize makes both sides of every comparison occur
        inst.quota = max(0, inst.prize(t) + rng.choice([-6, -3, -1, 0, 0, 1, 2, 5, 12]))
    return inst, t + [t[0]]


def bad_walk(inst, w, root):
    """Why the closed walk w is not a tour from root (None: it is)."""
    if len(w) < 4 or w[0] != root or w[-1] != root:
        return "does not start and end at the root with at least three vertices"
    if len(set(w[:-1])) != len(w) - 1:
        return "visits a vertex twice"
    for a, b in zip(w, w[1:]):
        if not inst.g.has_edge(a, b):
            return "uses %r which is not an edge" % ((a, b),)
    return None


def cost(inst, w):
    return sum(inst.g[a][b]["cost"] for a, b in zip(w, w[1:]))


def prize(inst, w):
    return inst.prize(w[:-1])


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def dump(inst, t, **k):
    return dict(inst.dump(), tour=t, **k)


def norm(w):
    return tuple(w)


# ---------------------------------------------------------------- H01
@prop("H01", 24000, 192000, lib="plain", min_distinct=500, rule="distinct (instance, tour, heuristic) for which the extended tour differs from the input")
def h01(c):
    rng = c.rng
    inst, t = start(c)
    if t is None:
        return
    g, r, q = inst.g, inst.root, inst.quota
    depth, step = rng.choice([2, 2, 3, 4, 5, 8, 12]), rng.choice([1, 1, 1, 2, 3, 4, 5, 6])
    runs = [("extension_unitary_gain", 1, lambda: extension_unitary_gain(g, list(t), **Q)),
            ("extension_unitary_loss", 1, lambda: extension_unitary_loss(g, list(t), r, **Q)),
            ("extension_until_prize_feasible", 1, lambda: extension_until_prize_feasible(g, list(t), q)),
            ("path_extension", step, lambda: path_extension(g, list(t), r, path_depth_limit=depth, step_size=step, **Q)),
            ("path_extension_until_prize_feasible", step, lambda: path_extension_until_prize_feasible(g, list(t), r, q, step_size=step, path_depth_limit=depth, **Q))]
    for name, st, fn in runs:
        w = c.call(name, fn)
        c.event(name)
        info = lambda: dump(inst, t, heuristic=name, result=w, depth=depth, step=step)
        bad = bad_walk(inst, w, r)
        if not c.check(bad is None, lambda: "%s: the result %s" % (name, bad), info):
            continue
        c.check(prize(inst, w) >= prize(inst, t), lambda: "%s: the prize fell" % name, info)
        if st == 1:
            c.check(subseq(t[:-1], w[:-1]), lambda: "%s: lost or reordered vertices of the tour" % name, info)
        if norm(w) != norm(t):
            c.event("extended_" + name)
            c.check(prize(inst, w) > prize(inst, t), lambda: "%s: changed the tour without gaining prize" % name, info)
            c.distinct(inst.sig(), t, name, depth, step)
            c.sample(info())


# ---------------------------------------------------------------- reference of the gain rules
def near(a, b):
    if a == b:
        return True
    if a in (INF,) or b in (INF,):
        return False
    return abs(float(a) - float(b)) <= 2e-6 * max(abs(float(a)), abs(float(b)), 1e-9)


def plain(xs):
    """Are these numbers, their sums and averages exact in single precision?"""
    return all(x != INF and x.denominator in (1, 2, 4, 8, 16) for x in map(lambda x: x if x == INF else F(x), xs)) and sum(abs(F(x)) for x in xs) < 2**14


def gains(inst, t, v):
    """[(gain, position)] of inserting v after position i, positive gains only."""
    g, out, p = inst.g, [], inst.g.nodes[v]["prize"]
    for i, (a, b) in enumerate(zip(t, t[1:])):
        if g.has_edge(a, v) and g.has_edge(v, b):
            d = g[a][v]["cost"] + g[v][b]["cost"] - g[a][b]["cost"]
            x = (INF if p > 0 else 0) if d == 0 else F(p, d)
            if x > 0:
                out.append((x, i))
    return out


def gain_outcomes(inst, t, quota=None, cap=4000):
    """All results the insertion rule allows from t: repeatedly insert the vertex of largest gain at a
    position of largest gain, while the gain exceeds the first round's average (quota None), or until
    the quota is met. None: too many ties to enumerate."""
    out, todo, seen = set(), [(tuple(t), None, False)], set()
    verts = [v for v in inst.g if inst.g.degree(v)]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > cap:
            return None
        w, avg, exact = s
        if quota is not None and prize(inst, w) >= quota:
            out.add(w)
            continue
        on = set(w)
        cand, total, cnt, tops = [], 0, 0, []
        for v in verts:
            if v in on:
                continue
            gs = gains(inst, w, v)
            cnt += 1
            if gs:
                tops.append(max(x for x, _ in gs))
                total += tops[-1]
                cand += [(x, i, v) for x, i in gs]
        if not cand:
            out.add(w)
            continue
        top = max(x for x, _, _ in cand)
        if quota is None:
            first = avg is None
            if first:
                avg = INF if total == INF else F(total) / cnt
                exact = plain(tops)
            if near(top, avg):
                # equal: stops; equal up to rounding: either
                out.add(w)
                if top == avg and (first and cnt == 1 or top == INF or exact and plain([top])):
                    continue
            elif not top > avg:
                out.add(w)
                continue
        for x, i, v in cand:
            if near(x, top):
                todo.append((w[:i + 1] + (v,) + w[i + 1:], avg, exact))
    return out


def hop_paths(inst, a, b, on, depth, cap=12):
    """The inner vertices of the paths from a to b off the tour that a breadth first search from a may find: for every
    last vertex u within depth - 1 hops, the paths to u with fewest edges. None: more than cap of them."""
    g, out, lay, dist = inst.g, [], [(a,)], {a: 0}
    d = 0
    while lay and d < depth - 1:
        nxt = []
        for p in lay:
            for u in g[p[-1]]:
                if u not in on and dist.get(u, d + 1) == d + 1:
                    dist[u] = d + 1
                    nxt.append(p + (u,))
        if len(nxt) > cap:
            return None
        out += [p[1:] for p in nxt if g.has_edge(p[-1], b)]
        lay, d = nxt, d + 1
    return out


def loss_round(inst, t, step, root, depth=2):
    """Per position of the closed tour: the outer paths that may replace the piece from there, grouped by their last vertex,
    [[(loss, inner vertices)]]; empty if the piece passes the root. None: too many to enumerate."""
    g, k, out = inst.g, len(t) - 1, []
    on = set(t)
    for i in range(k):
        j = (i + step) % k
        inner = [t[(i + d) % k] for d in range(1, step)]
        a, b = t[i], t[j]
        c = {}
        if root not in inner:
            ip = inst.prize(inner)
            ic = sum(g[t[(i + d) % k]][t[(i + d + 1) % k]]["cost"] for d in range(step))
            ps = hop_paths(inst, a, b, on, depth)
            if ps is None:
                return None
            for us in ps:
                dp = inst.prize(us) - ip
                w = (a,) + us + (b,)
                c.setdefault(us[-1], []).append((F(cost(inst, w) - ic, dp) if dp > 0 else None, us))
        out.append(c)
    return out


def loss_outcomes(inst, t, root, step=1, quota=None, depth=2, cap=3000):
    """As gain_outcomes for the unitary loss rule with outer paths of at most depth edges."""
    n = sum(1 for v in inst.g if inst.g.degree(v))
    out, todo, seen = set(), [(tuple(t), None, 0, False)], set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > cap:
            return None
        w, avg, rnd, exact = s
        if (quota is not None and prize(inst, w) >= quota) or step >= len(w) - 1 or rnd >= n:
            out.add(w)
            continue
        rs = loss_round(inst, w, step, root, depth)
        if rs is None or any(len(x) > 1 for c in rs for x in c.values()):
            return None  # which of several equally short paths is found is not defined
        rs = [[x[0] for x in c.values() if x[0][0] is not None] for c in rs]
        best = [(min(x for x, _ in c) if c else None) for c in rs]
        some = [b for b in best if b is not None]
        if not some:
            out.add(w)
            continue
        low = min(some)
        if quota is None:
            if avg is None:
                avg = F(sum(some)) / len(some)
                exact = plain(some)
            if not (len(some) == 1 and rnd == 0):
                if near(low, avg):
                    out.add(w)
                    if low == avg and exact and plain([low]):
                        continue
                elif not low < avg:
                    out.add(w)
                    continue
        k = len(w) - 1
        for i, c in enumerate(rs):
            for x, us in c:
                if near(x, low) or (low == 0 and x == 0):
                    a, e = i, i + step
                    if e <= k:
                        todo.append((w[:a + 1] + us + w[e:], avg, rnd + 1, exact))
    return out


# ---------------------------------------------------------------- H02
@prop("H02", 28000, 224000, lib="plain", min_distinct=500, rule="distinct (instance, tour, quota) on which a heuristic had to raise the prize or to leave a feasible tour alone")
def h02(c):
    """Until-prize-feasible: stops exactly at the quota or when nothing can be added."""
    rng = c.rng
    inst, t = start(c)
    if t is None:
        return
    g, r, q = inst.g, inst.root, inst.quota
    depth, step = rng.choice([2, 2, 3, 4, 6, 10]), rng.choice([1, 1, 1, 2, 3, 4, 5])
    runs = [("extension_until_prize_feasible", lambda: extension_until_prize_feasible(g, list(t), q), None),
            ("path_extension_until_prize_feasible", lambda: path_extension_until_prize_feasible(g, list(t), r, q, step_size=step, path_depth_limit=depth, **Q), (depth, step))]
    for name, fn, par in runs:
        w = c.call(name, fn)
        info = lambda: dump(inst, t, heuristic=name, result=w, depth=depth, step=step)
        if not c.check(bad_walk(inst, w, r) is None, lambda: "%s: the result %s" % (name, bad_walk(inst, w, r)), info):
            continue
        c.distinct(inst.sig(), t, name, par, prize(inst, t) >= q)
        if prize(inst, t) >= q:
            c.event("already_feasible")
            c.check(norm(w) == norm(t), lambda: "%s: changed a tour that already meets the quota" % name, info)
            continue
        c.event("reached" if prize(inst, w) >= q else "stuck")
        if par is None or par[1] == 1:
            new = [v for v in w if v not in t]
            if prize(inst, w) >= q and (par is None or depth == 2):
                c.check(any(prize(inst, w) - g.nodes[v]["prize"] < q for v in new), lambda: "%s: went on after the quota was met" % name, info)
            if prize(inst, w) < q:
                on = set(w)
                for a, b in zip(w, w[1:]):
                    for u in g:
                        if u not in on and g.has_edge(a, u) and g.has_edge(u, b) and g.nodes[u]["prize"] > 0:
                            better = par is not None or g[a][u]["cost"] + g[u][b]["cost"] >= g[a][b]["cost"]
                            c.check(not better, lambda: "%s: stopped below the quota although vertex %r fits between %r and %r" % (name, u, a, b), info)
                rs = loss_round(inst, w, 1, r, par[0]) if par else None
                for i, cand in enumerate(rs or []):
                    # every way to reach the last vertex collects more: whichever is found, the piece could be inserted
                    sure = [x for x in cand.values() if all(l is not None for l, _ in x)]
                    c.check(not sure, lambda: "%s: stopped below the quota although the path %r fits between %r and %r" % (name, sure[0][0][1], w[i], w[i + 1]), info)
                c.event("stuck_confirmed", bool(rs))
        c.sample(info())


# ---------------------------------------------------------------- H05
@prop("H05", 28000, 224000, lib="plain", min_distinct=400, rule="distinct (instance, tour, rule) whose result was looked up in the exact set of outcomes of the rule and differs from the input")
def h05(c):
    rng = c.rng
    inst, t = start(c, 4, 9)
    if t is None:
        return
    g, r, q = inst.g, inst.root, inst.quota
    step, depth = rng.choice([1, 1, 2, 3, 4, 5]), rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10])
    runs = [("extension_unitary_gain", lambda: extension_unitary_gain(g, list(t), **Q), lambda: gain_outcomes(inst, t)),
            ("extension_until_prize_feasible", lambda: extension_until_prize_feasible(g, list(t), q), lambda: gain_outcomes(inst, t, q)),
            ("extension_unitary_loss", lambda: extension_unitary_loss(g, list(t), r, **Q), lambda: loss_outcomes(inst, t, r)),
            ("path_extension", lambda: path_extension(g, list(t), r, path_depth_limit=depth, step_size=step, **Q), lambda: loss_outcomes(inst, t, r, step, None, depth)),
            ("path_extension_until_prize_feasible", lambda: path_extension_until_prize_feasible(g, list(t), r, q, step_size=step, path_depth_limit=depth, **Q), lambda: loss_outcomes(inst, t, r, step, q, depth))]
    for name, fn, ref in runs:
        ok = ref()
        if ok is None:
            c.event("too_many_ties")
            continue
        w = norm(c.call(name, fn))
        c.event(name)
        c.event("unique_outcome" if len(ok) == 1 else "tied_outcomes")
        if name.startswith("path") and depth > 2 and w != norm(t):
            c.event("long_pieces", any(len(list(k)) > 1 for on, k in itertools.groupby(w, lambda v: v not in t) if on))
        info = lambda: dump(inst, t, heuristic=name, result=list(w), step=step, depth=depth, allowed=sorted(map(list, ok))[:6])
        c.check(w in ok, lambda: "%s: the result is not what its insertion rule gives" % name, info)
        if w != norm(t):
            c.distinct(inst.sig(), t, name, step, depth)
            c.sample(info())


# ---------------------------------------------------------------- H03
def collapse_bounds(inst, t, q, root, shortest):
    """(lower, upper) bounds on the cost of the collapsed tour: equal unless shortest paths tie."""
    g, k = inst.g, len(t) - 1
    lo = hi = cost(inst, t)
    P = lambda v: g.nodes[v]["prize"]
    for s in range(k):
        path, p, found = [t[s]], P(t[s]), False
        for d in range(1, k):
            if p >= q:
                break
            v = t[(s + d) % k]
            if p + P(v) >= q:
                found = True
                break
            p += P(v)
            path.append(v)
        if not found or root not in path:
            continue
        ic = cost(inst, path)
        a, b = path[-1], path[0]
        if a != b:
            for u in g[a]:
                if u not in path and g.has_edge(u, b) and p + P(u) >= q:
                    x = ic + g[a][u]["cost"] + g[u][b]["cost"]
                    lo, hi = min(lo, x), min(hi, x)
        if shortest and a != b:
            h = g.subgraph([v for v in g if v not in path[1:-1]])
            try:
                ps = list(pc.nx.all_shortest_paths(h, a, b, weight="cost"))
            except pc.nx.NetworkXNoPath:
                continue
            x = ic + cost(inst, ps[0])
            ok = [p + inst.prize(y[1:-1]) >= q for y in ps]
            zero = any(d["cost"] == 0 for _, _, d in h.edges(data=True))
            if any(ok):
                lo = min(lo, x)
            if all(ok) and not zero:
                hi = min(hi, x)
            if zero:
                lo = min(lo, x)
    return lo, hi


@prop("H03", 32000, 256000, lib="plain", min_distinct=300, rule="distinct (instance, tour, quota, variant) on which the collapse made the tour cheaper")
def h03(c):
    rng = c.rng
    inst, t = start(c, 4, 11)
    if t is None:
        return
    g, r, q = inst.g, inst.root, inst.quota
    if rng.random() < .5:
        q = inst.quota = rng.randint(max(0, prize(inst, t) // 3), prize(inst, t) + 1)
    for name, sp, fn in (("collapse", False, lambda: collapse(g, list(t), q, r, **Q)), ("path_collapse", True, lambda: path_collapse(g, list(t), q, r, **Q))):
        w = c.call(name, fn)
        info = lambda: dump(inst, t, heuristic=name, result=w)
        bad = bad_walk(inst, w, r)
        c.event(name)
        if not c.check(bad is None, lambda: "%s: the result %s" % (name, bad), info):
            continue
        c.check(cost(inst, w) <= cost(inst, t), lambda: "%s: the collapsed tour costs more (%d > %d)" % (name, cost(inst, w), cost(inst, t)), info)
        if prize(inst, t) >= q:
            c.check(prize(inst, w) >= q, lambda: "%s: the collapsed tour misses the quota" % name, info)
        else:
            c.check(sorted(w[:-1]) == sorted(t[:-1]), lambda: "%s: changed a tour that does not meet the quota" % name, info)
        lo, hi = collapse_bounds(inst, t, q, r, sp)
        c.check(lo <= cost(inst, w) <= hi, lambda: "%s: cost %d, but the cheapest short cut of the tour costs %s" % (name, cost(inst, w), lo if lo == hi else (lo, hi)), info)
        c.event("exact_bound" if lo == hi else "tied_bound")
        if cost(inst, w) < cost(inst, t):
            c.event("collapsed_" + name)
            c.distinct(inst.sig(), t, q, name)
            c.sample(info())


# ---------------------------------------------------------------- H04
@prop("H04", 24000, 192000, lib="plain", min_distinct=400, rule="distinct (instance, tour, parameters) for which a combined heuristic returned a tour")
def h04(c):
    rng = c.rng
    inst, t = start(c, 4, 10)
    if t is None:
        return
    g, r, q = inst.g, inst.root, inst.quota
    depth, step, sp = rng.choice([2, 2, 3, 4, 5, 7, 10]), rng.choice([1, 1, 2, 3, 4, 5, 6]), rng.random() < .5
    w = c.call("path_extension_collapse", path_extension_collapse, g, list(t), r, q, collapse_shortest_paths=sp, path_depth_limit=depth, step_size=step, **Q)
    info = lambda: dump(inst, t, depth=depth, step=step, shortest=sp, result=w)
    fold = path_collapse if sp else collapse
    # composition of the parts
    x, feas = list(t), prize(inst, t) >= q
    for s in range(1, step + 1):
        if feas:
            break
        x = c.call("path_extension_until_prize_feasible", path_extension_until_prize_feasible, g, x, r, q, step_size=s, path_depth_limit=depth, **Q)
        feas = prize(inst, x) >= q
    c.check(bool(w) == feas, lambda: "path_extension_collapse returned %s although extending the tour %s the quota" % ("a tour" if w else "no tour", "reaches" if feas else "does not reach"), info)
    if w:
        bad = bad_walk(inst, w, r)
        if c.check(bad is None, lambda: "path_extension_collapse: the result %s" % bad, info):
            c.check(prize(inst, w) >= q, "path_extension_collapse: the result misses the quota", info)
            best = c.call("collapse", fold, g, x, q, r, **Q)
            c.check(cost(inst, w) <= cost(inst, best), lambda: "path_extension_collapse: costs %d, collapsing alone gives %d" % (cost(inst, w), cost(inst, best)), info)
            if prize(inst, t) >= q:
                c.check(cost(inst, w) <= cost(inst, t), "path_extension_collapse: dearer than the feasible input", info)
            for s in range(1, step + 1):
                y = c.call("path_extension", path_extension, g, best, r, path_depth_limit=depth, step_size=s, **Q)
                y = c.call("collapse", fold, g, y, q, r, **Q)
                if cost(inst, y) < cost(inst, best):
                    best = y
                    c.event("improved_by_extension")
            c.check(cost(inst, w) == cost(inst, best), lambda: "path_extension_collapse: costs %d, its parts in turn give %d" % (cost(inst, w), cost(inst, best)), info)
        c.event("pec_tour")
        c.distinct(inst.sig(), t, depth, step, sp)
        c.sample(info())
    else:
        c.event("pec_empty")
    y = c.call("extension_unitary_gain_collapse", extension_unitary_gain_collapse, g, list(t), q, r, **Q)
    e = c.call("extension_unitary_gain", extension_unitary_gain, g, list(t), **Q)
    bad = bad_walk(inst, y, r)
    if c.check(bad is None, lambda: "extension_unitary_gain_collapse: the result %s" % bad, info):
        c.check(prize(inst, y) >= min(q, prize(inst, e)), "extension_unitary_gain_collapse: the result misses the quota", lambda: dict(info(), extended=e, collapsed=y))
        f = c.call("collapse", collapse, g, e, q, r, **Q)
        c.check(cost(inst, y) == cost(inst, f), lambda: "extension_unitary_gain_collapse: cost %d, extension then collapse cost %d" % (cost(inst, y), cost(inst, f)), info)
        c.event("gain_collapse")
