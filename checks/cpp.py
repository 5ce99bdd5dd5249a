"""G properties: the public C++ functions below the solver, driven through small harness programs
(/verif/harness) built with the sanitizers; every answer is judged against the definition."""
import collections
import datetime
import os
import subprocess
import tempfile

import networkx as nx

import build
from rt import Stop, prop, summarise

ASAN = "detect_leaks=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000"
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=99"


def need(name):
    def prep():
        path, gone = build.harness(name, "san")
        os.environ["VERIF_HARNESS"], os.environ["VERIF_ABSENT"] = str(path), " ".join(gone)
    return prep


class Answer(dict):
    """The fields of an answer; one of a section that was left out ends the case."""
    case = None

    def __missing__(self, key):
        if not os.environ.get("VERIF_ABSENT"):
            raise KeyError(key)
        self.case.event("absent_" + key)
        raise Stop()


class Driver:
    """One running harness program; a death of the process is a violation with the sanitizer's report."""

    def __init__(self, env=None):
        self.err = tempfile.TemporaryFile(mode="w+", errors="replace")
        e = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, **(env or {}))
        e.pop("LD_PRELOAD", None)
        self.p = subprocess.Popen([os.environ["VERIF_HARNESS"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=e)
        self.noise = []

    def ask(self, c, op, *args):
        line = op + " " + " ".join(map(str, args))
        self.noise = []
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        while True:
            out = self.p.stdout.readline()
            if not out:
                rc = self.p.wait()
                self.err.seek(0)
                text = self.err.read()
                self.close()
                DRIVERS.clear()
                if rc == 77:
                    raise RuntimeError("harness misuse: %s: %s" % (line, text[-500:]))
                c.acc["evals"] += 1
                c.violate("the library died (status %s): %s" % (rc, summarise(text)), {"request": line, "report": text[-3000:]})
                raise Stop()
            if out.startswith("="):
                break
            self.noise.append(out)
        res = Answer()
        res.case = c
        for f in out[1:].rstrip("\n").split(";"):
            if f:
                k, _, v = f.partition(":")
                res[k] = v
        if "absent" in res and os.environ.get("VERIF_ABSENT"):
            c.event("absent_" + op)
            raise Stop()
        return res

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()


DRIVERS = {}


def driver():
    if "d" not in DRIVERS:
        DRIVERS["d"] = Driver()
    return DRIVERS["d"]


def ints(s):
    return [int(x) for x in s.split()]


def prs(s):
    v = ints(s)
    return list(zip(v[::2], v[1::2]))


def lists(s):
    return [ints(x) for x in s.split("/")[:-1]]


def vec(v):
    v = list(v)
    return [len(v), *v]


def pvec(v):
    v = list(v)
    return [len(v), *[x for p in v for x in p]]


def und(pairs):
    return sorted(tuple(sorted(p)) for p in pairs)


def rgraph(rng, nmax=12, loops=False, big=False, nmin=1):
    """A random simple graph in random edge order and orientation: (n, [(u, v, cost)])."""
    n = rng.choice([nmin, rng.randint(nmin, 4), rng.randint(nmin, nmax), rng.randint(nmin, nmax)])
    p = rng.choice([0, .1, .25, .5, .8, 1])
    large = big and rng.random() < .06
    if large:
        n, p = rng.randint(15, 90), rng.choice([0, .01, .02, .05, .3])
    es = [(u, v) for u in range(n) for v in range(u) if rng.random() < p]
    if large:  # long paths, trees and stars
        o = rng.sample(range(n), n)
        k = rng.choice([1, 1, 2, n])
        es = list({tuple(sorted(e)) for e in es} | {tuple(sorted((o[i], o[rng.randint(max(0, i - k), i - 1)]))) for i in range(1, n) if rng.random() < .98})
    if rng.random() < .2 and n > 2:
        o = rng.sample(range(n), rng.randint(3, n)) if n >= 3 else []
        es = list({tuple(sorted(e)) for e in es} | {tuple(sorted(e)) for e in zip(o, o[1:] + o[:1])})
    if loops:
        es += [(v, v) for v in range(n) if rng.random() < loops]
    rng.shuffle(es)
    hi = rng.choice([1, 5, 20, 1000, 10**6])
    return n, [(*(e if rng.random() < .5 else e[::-1]), rng.randint(0, hi)) for e in es]


def garg(g):
    return [g[0], len(g[1]), *[x for e in g[1] for x in e]]


def adj(g):
    a = {v: set() for v in range(g[0])}
    for u, v, _ in g[1]:
        a[u].add(v); a[v].add(u)
    return a


def cost_of(g):
    d = {}
    for u, v, w in g[1]:
        d[u, v] = d[v, u] = w
    return d


# --- G01 the logger -------------------------------------------------------------------------
PY = {50: 5, 40: 4, 30: 3, 20: 2, 10: 1, 0: 0}
NAMES = ["trace", "debug", "info", "warning", "error", "fatal"]


@prop("G01", 1000, 8000, min_distinct=100, prep=need("logs"), rule="distinct sequences of level settings and emitted records")
def g01(c):
    rng = c.rng
    d = Driver()
    try:
        sink = rng.random() < .7
        if sink:
            d.ask(c, "sink")
        level, stamped, hist = -10**9, False, [sink]
        for _ in range(rng.randint(1, 12)):
            k = rng.random()
            if k < .35:
                x = rng.choice([50, 40, 30, 20, 10, 0, rng.randint(-5, 60), rng.choice([-1, 1, 5, 9, 11, 15, 25, 49, 51, 60, 100, 500, 2**31 - 1, -2**31])])
                got = int(d.ask(c, "level", x)["level"])
                c.event("level_named" if x in PY else "level_other")
                c.check(got == PY.get(x, 2), "level %d became %d, not %d" % (x, got, PY.get(x, 2)))
                if x in PY and rng.random() < .7:
                    d.ask(c, "init", got)
                    level, stamped = got, True
                    c.event("set_from_python_level")
                hist.append(("level", x))
            elif k < .55:
                x = rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, 6), rng.choice([-1, 6, 10, 100])])
                d.ask(c, "init", x)
                level, stamped = x, True
                hist.append(("init", x))
                c.event("set_level")
            elif k < .92 or not sink:
                sevs = [rng.randrange(6) for _ in range(rng.randint(0, 12))] if rng.random() < .7 else list(range(6))
                own = int(rng.random() < .4)
                r = d.ask(c, "emit", *vec(sevs), own)
                want = [(s, "m%d" % i) for i, s in enumerate(sevs) if s >= level]
                hist.append(("emit", tuple(sevs), own))
                if sink:
                    t = r["seen"].split()
                    got = [(int(a), b) for a, b in zip(t[::3], t[1::3])]
                    c.check(got == want, lambda: "records %r passed the level %d, expected %r" % (got, level, want), hist)
                    if stamped:
                        c.check(all(x == "1" for x in t[2::3]), "a record lacks its time stamp", hist)
                else:
                    got = []
                    for l in d.noise:
                        b = l.split()
                        if b and b[-1].startswith("m") and b[-1][1:].isdigit():
                            got.append((next((NAMES.index(x[1:-1]) for x in b if x[1:-1] in NAMES), -1), b[-1]))
                    c.check(got == want, lambda: "printed %r at level %d, expected %r" % (got, level, want), hist)
                    c.event("printed", len(want))
                c.event("records_passed", len(want))
                c.event("records_filtered", len(sevs) - len(want))
            else:
                n, m = rng.randint(2, 6), rng.randint(1, 30)
                t = d.ask(c, "threads", n, m)["seen"].split()
                got = collections.defaultdict(list)
                for a, b in zip(t[::3], t[1::3]):
                    th, _, i = b.partition(".")
                    got[int(th)].append((int(a), int(i)))
                want = {th: [((th + i) % 6, i) for i in range(m) if (th + i) % 6 >= level] for th in range(n)}
                c.check(dict(got) == {k: v for k, v in want.items() if v}, lambda: "records of concurrent threads lost, repeated or out of order at level %d" % level, hist)
                c.event("concurrent_records", n * m)
                hist.append(("threads", n, m))
        c.distinct(hist)
        c.sample({"history": hist})
    finally:
        if not d.p.stdin.closed:
            d.close()


# --- G02 graph building blocks -----------------------------------------------------------------
def is_cycle(edges):
    """edges: list of pairs of a simple graph; one simple cycle of at least three vertices."""
    if len(edges) < 3 or any(u == v for u, v in edges) or len(set(und(edges))) != len(edges):
        return False
    g = nx.Graph(edges)
    return all(k == 2 for _, k in g.degree()) and nx.is_connected(g)


@prop("G02", 32000, 256000, min_distinct=3000, prep=need("api"), rule="distinct (operation, graph, arguments)")
def g02(c):
    rng = c.rng
    d = driver()
    k = rng.randrange(7)
    info = None
    if k == 0:
        g = rgraph(rng, 14, loops=rng.choice([0, 0, .5, 1]), big=True)
        r = d.ask(c, "components", *garg(g))
        info = (g,)
        a = adj(g)
        comp = sorted(sorted(x) for x in nx.connected_components(nx.Graph({v: list(s) for v, s in a.items()}))) if g[0] else []
        c.check(sorted(map(sorted, lists(r["all"]))) == comp, lambda: "components %r, expected %r" % (r["all"], comp), {"graph": g})
        ns = [x for x in comp if len(x) > 1]
        for key in ("ns1", "ns2"):
            c.check(sorted(map(sorted, lists(r[key]))) == ns, lambda: "components of two or more vertices %r, expected %r" % (r[key], ns), {"graph": g})
        c.event("components_%s" % ("none_single" if len(ns) == len(comp) else "mixed"))
    elif k == 1:
        n = rng.randint(3, 9) if rng.random() < .95 else rng.randint(10, 40)
        es = [(u, v) for u in range(n) for v in range(u)] if rng.random() < .6 else [e[:2] for e in rgraph(rng, 9, nmin=3)[1]]
        if rng.random() < .2:
            es += [(v, v) for v in range(n)]
        es = [e for e in es if max(e) < n]
        pos = {tuple(sorted(e)): i for i, e in enumerate(es)}
        mode = rng.randrange(4)
        if mode == 0:
            o = rng.sample(range(n), rng.randint(3, n))
            want = list(zip(o, o[1:] + o[:1]))
        elif mode == 1:  # two disjoint cycles, or a cycle and a chord
            o = rng.sample(range(n), n)
            cut = rng.randint(3, n)
            want = list(zip(o[:cut], o[1:cut] + o[:1]))
            rest = o[cut:]
            want += list(zip(rest, rest[1:] + rest[:1])) if len(rest) > 2 else []
            if rng.random() < .3:
                want.append((o[0], o[2]))
        elif mode == 2:
            o = rng.sample(range(n), rng.randint(2, n))
            want = list(zip(o, o[1:]))
        else:
            want = rng.sample(es, rng.randint(0, len(es)))
        sub = sorted({pos[tuple(sorted(e))] for e in want if tuple(sorted(e)) in pos})
        rng.shuffle(sub)
        g = (n, [(*e, 1) for e in es])
        if rng.random() < .5:  # flip the orientation of the stored edges
            g = (n, [(v, u, w) for u, v, w in g[1]])
        r = d.ask(c, "cycle", *garg(g), *vec(sub))
        info = (g, tuple(sub))
        se = [es[i] for i in sub]
        truth = is_cycle(se)
        data = {"n": n, "edges": se}
        c.check(int(r["simple"]) == truth, lambda: "isSimpleCycle says %s of %r" % (r["simple"], se), data)
        c.check(int(r["graph"]) == (truth and len(sub) == n), lambda: "isGraphSimpleCycle says %s of %r on %d vertices" % (r["graph"], se, n), data)
        whole = is_cycle(es) and len(es) == n
        c.check(int(r["graph_all"]) == whole, lambda: "isGraphSimpleCycle says %s of %r" % (r["graph_all"], es), data)
        c.event("cycle" if truth else "not_cycle")
    elif k == 2:
        g = rgraph(rng, 12, loops=rng.choice([0, .3, 1]), big=True)
        vs = rng.sample(range(g[0]), rng.randint(0, g[0]))
        r = d.ask(c, "induced", *garg(g), *vec(vs))
        info = (g, tuple(vs))
        E, S = und(e[:2] for e in g[1]), set(vs)
        data = {"graph": g, "vertices": vs}
        want = [e for e in E if e[0] != e[1] and S >= set(e)]
        c.check(und(prs(r["edges"])) == want, lambda: "induced edges %r, expected %r" % (r["edges"], want), data)
        if all((v, v) in E for v in vs):
            c.check(prs(r.get("loops", "-1 -1")) == [(v, v) for v in vs], lambda: "self loops of %r are %r" % (vs, r), data)
            c.event("loops_found")
        else:
            c.check("noloop" in r, "a missing self loop is not reported", data)
            c.event("loop_missing")
        c.check(und(prs(r["fe"])) == [e for e in E if S >= set(e)] and sorted(ints(r["fv"])) == sorted(S), lambda: "marked subgraph %r %r" % (r["fe"], r["fv"]), data)
        c.check(int(r["npos"]) == sum(w > 0 for *_, w in g[1]), lambda: "%s edges counted in the filtered graph" % r["npos"], data)
    elif k == 3:
        g = rgraph(rng, 12, loops=rng.choice([0, .3]), big=True)
        E = [e[:2] for e in g[1]]
        pairs = [e if rng.random() < .5 else e[::-1] for e in rng.sample(E, rng.randint(0, len(E)))]
        if rng.random() < .3:
            pairs.insert(rng.randint(0, len(pairs)), (rng.randrange(g[0]), rng.randrange(g[0])))
        idx = [rng.randrange(len(E)) for _ in range(rng.randint(0, len(E)))] if E else []
        r = d.ask(c, "edges", *garg(g), *pvec(pairs), *vec(idx))
        info = (g, tuple(pairs), tuple(idx))
        data = {"graph": g, "pairs": pairs, "subset": idx}
        S = set(und(E))
        missing = next((p for p in pairs if tuple(sorted(p)) not in S), None)
        if missing is None:
            c.check([tuple(sorted(p)) for p in prs(r.get("found", "-1 -1"))] == [tuple(sorted(p)) for p in pairs], lambda: "edges of pairs %r: %r" % (pairs, r), data)
            c.event("pairs_found")
        else:
            c.check("missing" in r and str(missing[0]) in r["missing"] and str(missing[1]) in r["missing"], lambda: "missing edge %r not reported: %r" % (missing, r), data)
            c.event("pair_missing")
        c.check(prs(r["all"]) == E, lambda: "edges of the graph %r, expected %r" % (r["all"], E), data)
        c.check([tuple(sorted(p)) for p in prs(r["sub"])] == [tuple(sorted(E[i])) for i in idx], lambda: "vertex pairs %r" % r["sub"], data)
        c.check(sorted(ints(r["verts"])) == sorted({v for i in idx for v in E[i]}), lambda: "vertices of edges %r" % r["verts"], data)
        c.check(prs(r["copy"]) == E, lambda: "edges added to a graph %r, expected %r" % (r["copy"], E), data)
    elif k == 4:
        g = rgraph(rng, 10, loops=rng.choice([0, 0, .5, 1]), big=True)
        prize = [rng.randint(0, rng.choice([1, 9, 10**6])) for _ in range(g[0])]
        r = d.ask(c, "loops", *garg(g), *vec(prize))
        info = (g, tuple(prize))
        data = {"graph": g, "prize": prize}
        L = {u for u, v, _ in g[1] if u == v}
        c.check(int(r["has0"]) == (len(L) == g[0]), lambda: "hasSelfLoopsOnAllVertices says %s" % r["has0"], data)
        c.check(ints(r["c0"]) == [0 if u == v else w for u, v, w in g[1]], lambda: "costs after zeroing self loops %r" % r["c0"], data)
        c.check(int(r["has1"]) == 1, "not every vertex has a self loop after adding them", data)
        al = prs(r["all"])
        c.check(und(e for e in al if e[0] != e[1]) == und(e[:2] for e in g[1] if e[0] != e[1]), "adding self loops changed other edges", data)
        c.check({u for u, v in al if u == v} == set(range(g[0])), "self loops missing", data)
        c.check(len(al) == len(g[1]) + g[0] - len(L), "self loops were added twice", data)
        if not L:
            c.check(ints(r["w"]) == [prize[u] if u == v else 0 for u, v in al], lambda: "prizes on the edges %r" % r["w"], data)
        c.event("self_loops")
    elif k == 5:
        g = rgraph(rng, 12, big=True)
        z = rng.choice([0, .3, .6])
        g = (g[0], [(u, v, 0 if rng.random() < z else w) for u, v, w in g[1]])
        s = rng.randrange(g[0])
        r = d.ask(c, "reach", *garg(g), s)
        info = (g, s)
        h = nx.Graph()
        h.add_nodes_from(range(g[0]))
        h.add_edges_from((u, v) for u, v, w in g[1] if w > 0)
        yes = sorted(nx.node_connected_component(h, s))
        data = {"graph": g, "source": s}
        c.check(sorted(ints(r["yes"])) == yes, lambda: "reachable through positive capacity: %r, expected %r" % (r["yes"], yes), data)
        c.check(sorted(ints(r["no"])) == sorted(set(range(g[0])) - set(yes)), lambda: "unreachable: %r" % r["no"], data)
        c.event("reach_all" if len(yes) == g[0] else "reach_part")
    else:
        g = rgraph(rng, 12, nmin=2, big=True)
        u, v = rng.sample(range(g[0]), 2)
        r = d.ask(c, "common", *garg(g), u, v)
        info = (g, u, v)
        a = adj(g)
        c.check(sorted(ints(r["common"])) == sorted(a[u] & a[v]), lambda: "common neighbours of %d and %d: %r" % (u, v, r["common"]), {"graph": g})
        c.event("common_neighbours")
    c.distinct(k, info)
    c.sample({"operation": k, "input": info})


# --- G03 walks, tours and paths ----------------------------------------------------------------
@prop("G03", 64000, 512000, min_distinct=3000, prep=need("api"), rule="distinct (operation, graph, walk or source, arguments)")
def g03(c):
    rng = c.rng
    d = driver()
    k = rng.randrange(5)
    if k == 0:
        g = rgraph(rng, 10, nmin=2, loops=rng.choice([0, 0, 1]), big=True)
        if rng.random() < .15:  # too large for short floating point numbers
            g = (g[0], [(u, v, rng.randint(10**7, 15 * 10**7)) for u, v, _ in g[1]])
        prize = [rng.randint(0, rng.choice([1, 9, 10**6])) for _ in range(g[0])]
        a = adj(g)
        w = []
        if rng.random() < .95:
            w = [rng.randrange(g[0])]
            for _ in range(rng.randint(0, 12) if rng.random() < .9 or max([x for *_, x in g[1]], default=0) > 10**6 else rng.randint(12, 120)):
                if rng.random() < .03 or not a[w[-1]]:
                    if rng.random() < .3:
                        w.append(rng.randrange(g[0]))
                    break
                w.append(rng.choice(sorted(a[w[-1]])))
        quota = rng.choice([0, sum(prize[v] for v in w), sum(prize[v] for v in w) + 1, rng.randint(0, 50)])
        r = d.ask(c, "walk", *garg(g), *vec(prize), *vec(w), quota)
        info = (g, tuple(prize), tuple(w), quota)
        data = {"graph": g, "prize": prize, "walk": w, "quota": quota}
        cs = cost_of(g)
        steps = list(zip(w, w[1:]))
        bad = next((s for s in steps if s not in cs), None)
        if bad is None:
            tot = sum(cs[s] for s in steps)
            c.check([tuple(sorted(p)) for p in prs(r.get("edges", "-1 -1"))] == [tuple(sorted(p)) for p in steps], lambda: "edges of the walk %r" % r, data)
            for f in ("cv", "cl") if "edgecost" in os.environ.get("VERIF_ABSENT", "").split() else ("ce", "cle", "cv", "cl"):
                c.check(r.get(f) == str(tot), lambda: "cost of the walk is %s (%s), expected %d" % (r.get(f), f, tot), data)
            c.event("walk_ok")
        else:
            c.check("missing" in r and str(bad[0]) in r["missing"] and str(bad[1]) in r["missing"], lambda: "missing edge %r not reported: %r" % (bad, r), data)
            c.check(r["cv"] == "missing" and r["cl"] == "missing", "a walk over a missing edge has a cost", data)
            c.event("walk_missing_edge")
        p = sum(prize[v] for v in w)
        c.check(int(r["pv"]) == p and int(r["pl"]) == p, lambda: "prize %s / %s, expected %d" % (r["pv"], r["pl"], p), data)
        if w:
            c.check(int(r["pt"]) == p - prize[w[-1]], lambda: "prize of the tour %s" % r["pt"], data)
        c.check(int(r["pg"]) == sum(prize), lambda: "prize of the graph %s" % r["pg"], data)
        c.check(int(r["feas"]) == (p >= quota), lambda: "prize %d against quota %d: %s" % (p, quota, r["feas"]), data)
        c.check(ints(r["str"].replace(",", " ")) == w, lambda: "walk as text: %r" % r["str"], data)
        if len(w) >= 2:
            c.check(ints(r["internal"]) == [int(v in w[1:-1]) for v in range(g[0])], lambda: "internal vertices %r" % r["internal"], data)
    elif k == 1:
        n = rng.randint(1, 12) if rng.random() < .93 else rng.randint(13, 80)
        w = rng.sample(range(max(20, n + 9)), n)
        w.append(w[0])
        L = len(w)
        root = rng.choice(w)
        i, j = rng.randrange(L), rng.randrange(L)
        r = d.ask(c, "tour", *vec(w), root, i, j)
        info = (tuple(w), root, i, j)
        data = {"tour": w, "root": root, "from": i, "to": j}
        p = w.index(root)
        want = w[p:-1] + w[:p] + [root]
        c.check(ints(r["reordered"]) == want, lambda: "tour from the root %r, expected %r" % (r["reordered"], want), data)
        sub = w[i:j + 1] if j >= i else w[i:] + w[1:j + 1]
        c.check(ints(r["sub"]) == sub, lambda: "part of the tour %r, expected %r" % (r["sub"], sub), data)
        c.check(ints(r["unchanged"]) == w, "the given tour was changed", data)
        c.event("part_wraps" if j < i else "part_plain")
    elif k == 2:
        n = rng.randint(3, 10) if rng.random() < .93 else rng.randint(11, 30)
        w = rng.sample(range(30), n)
        w.append(w[0])
        L = len(w)
        new = [x for x in rng.sample(range(30, 50), rng.randint(0, 4))]
        if rng.random() < .5:
            i = rng.randrange(L - 1)
            j = rng.randint(i + 1, L - 1)
            path = [w[i], *new, w[j]]
            want = w[:i] + path + w[j + 1:]
            closed = True
            c.event("swap_plain")
        else:
            j = rng.randint(0, L - 2)
            i = rng.randint(j, L - 1)
            if i == j:
                i += 1
            # the replaced part runs over the closing vertex of the tour; the new path visits it too
            new.insert(rng.randint(0, len(new)), w[0])
            path = ([w[i]] if i < L - 1 else []) + new + ([w[j]] if j > 0 else [])
            if i == L - 1 and j == 0:
                path = new
            cut = path.index(w[0])
            want = path[cut:] + w[j + 1:i] + path[:cut + 1]
            c.event("swap_wraps")
        r = d.ask(c, "swap", *vec(w), *vec(path), i, j)
        info = (tuple(w), tuple(path), i, j)
        c.check(ints(r["tour"]) == want, lambda: "tour with the part %d-%d replaced by %r is %r, expected %r" % (i, j, path, r["tour"], want), {"tour": w})
        c.check(ints(r["path"]) == path, "the given path was changed", {"tour": w, "path": path})
    elif k == 3:
        g = rgraph(rng, 12, big=True)
        n = g[0]
        s = rng.randrange(n)
        pre = [v for v in range(n) if v != s and rng.random() < rng.choice([0, 0, .2, .5])]
        depth = rng.choice([0, 1, 2, 3, rng.randint(0, n), n, n + 5])
        r = d.ask(c, "search", *garg(g), s, *vec(pre), depth)
        info = (g, s, tuple(pre), depth)
        data = {"graph": g, "source": s, "marked": pre, "depth": depth}
        a = adj(g)
        dist, front = {s: 0}, [s]
        while front:
            nxt = []
            for u in front:
                for v in sorted(a[u]):
                    if v not in dist and v not in pre:
                        dist[v] = dist[u] + 1
                        nxt.append(v)
            front = nxt
        for kind in "db":
            mk, par, paths = ints(r[kind + "mark"]), ints(r[kind + "par"]), lists(r[kind + "path"])
            got = {v for v in range(n) if mk[v]} - set(pre)
            ball = {v for v in dist if dist[v] <= depth}
            if kind == "b" or depth >= n - 1:
                c.check(got == ball, lambda: "%sfs to depth %d marks %r, expected %r" % (kind, depth, sorted(got), sorted(ball)), data)
            else:
                c.check(s in got and got <= ball and got >= {v for v in dist if dist[v] <= min(depth, 1)}, lambda: "dfs to depth %d marks %r" % (depth, sorted(got)), data)
            for v in got:
                p = paths[v]
                ok = p[0] == s and p[-1] == v and len(set(p)) == len(p) and all(y in a[x] and y not in pre for x, y in zip(p, p[1:])) and len(p) - 1 <= depth
                if kind == "b":
                    ok = ok and len(p) - 1 == dist[v]
                c.check(ok, lambda: "%sfs path to %d is %r" % (kind, v, p), data)
            c.check(all(par[v] == v for v in range(n) if v not in got), lambda: "%sfs gave an unreached vertex a parent" % kind, data)
        c.event("search_blocked" if pre else "search_open")
    else:
        g = rgraph(rng, 12, big=True)
        if rng.random() < .1 and g[0] < 14:
            g = (g[0], [(u, v, rng.randint(10**7, 15 * 10**7)) for u, v, _ in g[1]])
        n = g[0]
        s, t = rng.randrange(n), rng.randrange(n)
        pre = [v for v in range(n) if v not in (s, t) and rng.random() < rng.choice([0, .2, .5])]
        r = d.ask(c, "dijkstra", *garg(g), s, t, *vec(pre))
        info = (g, s, t, tuple(pre))
        data = {"graph": g, "source": s, "target": t, "avoid": pre}
        h = nx.Graph()
        h.add_nodes_from(range(n))
        h.add_weighted_edges_from(g[1])
        h.remove_nodes_from(pre)
        try:
            best = nx.dijkstra_path_length(h, s, t)
        except nx.NetworkXNoPath:
            best = None
        c.check((best is not None) == (r["found"] == "1"), lambda: "target found: %s, expected %r" % (r["found"], best), data)
        if best is not None and r["found"] == "1":
            p, cs = ints(r["path"]), cost_of(g)
            ok = p[0] == s and p[-1] == t and not set(p) & set(pre) and all(e in cs for e in zip(p, p[1:])) and sum(cs[e] for e in zip(p, p[1:])) == best
            c.check(int(r["dist"]) == best and ok, lambda: "shortest path %r of length %s, expected length %d" % (p, r["dist"], best), data)
        c.event("path_found" if best is not None else "path_blocked")
    c.distinct(k, info)
    c.sample({"operation": k, "input": info})


# --- G04 renaming ------------------------------------------------------------------------------
@prop("G04", 40000, 320000, min_distinct=2000, prep=need("api"), rule="distinct (edge list, cost map, prize map, looked up names)")
def g04(c):
    rng = c.rng
    d = driver()
    g = rgraph(rng, 10, loops=rng.choice([0, 0, .5]))
    pool = rng.choice([range(g[0]), range(40), range(10**9)])
    names = rng.sample(pool, g[0])
    edges = [(names[u], names[v]) for u, v, _ in g[1]]
    costs = [w for *_, w in g[1]]
    seen = list(dict.fromkeys(v for e in edges for v in e))
    pv = [v for v in names if rng.random() < .9] + [x for x in rng.sample(range(10**9, 10**9 + 50), rng.randint(0, 2))]
    rng.shuffle(pv)
    pp = [rng.randint(0, 100) for _ in pv]
    more = []
    if rng.random() < .4 and len(seen) > 1:
        more = [tuple(rng.sample(seen, 2))] if rng.random() < .6 else [(rng.choice(seen), 2 * 10**9)]
    ask = [rng.choice(seen) if seen and rng.random() < .5 else rng.randint(0, 50) for _ in range(rng.randint(0, 5))]
    r = d.ask(c, "rename", *pvec(edges), *vec(costs), *vec(pv), *vec(pp), *pvec(more), *vec(ask))
    data = {"edges": edges, "costs": costs, "prizes": list(zip(pv, pp)), "more": more, "ask": ask}
    m = {v: i for i, v in enumerate(seen)}
    c.check(prs(r["new"]) == [(m[u], m[v]) for u, v in edges], lambda: "renamed edges %r" % r["new"], data)
    c.check(int(r["size"]) == len(seen) and ints(r["names"]) == seen, lambda: "names %r, expected %r" % (r["names"], seen), data)
    c.check(prs(r["old"]) == edges and prs(r["again"]) == prs(r["new"]), "renaming back and forth does not give the edges back", data)
    c.check(ints(r["back"]) == list(range(len(seen))) and ints(r["names2"]) == seen, "renaming vertices back and forth does not give them back", data)
    want = []
    for v in ask:
        want += [str(m.get(v, "missing")), str(seen[v] if v < len(seen) else "missing")]
    c.check(r["asked"].split() == want, lambda: "looked up %r: %r, expected %r" % (ask, r["asked"], want), data)
    c.check(ints(r["costs"]) == costs, lambda: "renamed costs %r, expected %r" % (r["costs"], costs), data)
    pm = dict(zip(pv, pp))
    c.check(ints(r["prizes"]) == [pm.get(v, 0) for v in seen], lambda: "renamed prizes %r" % r["prizes"], data)
    E = {tuple(sorted(e)) for e in edges}
    exp = "ok" if not more or tuple(sorted(more[0])) in E else "vertex" if more[0][1] == 2 * 10**9 else "edge"
    c.check(r["more"] == exp, lambda: "a cost of %r gave %s, expected %s" % (more, r["more"], exp), data)
    c.check(ints(r["vnames"]) == list(dict.fromkeys(pv)), lambda: "names of vertices %r" % r["vnames"], data)
    c.event("cost_" + exp)
    c.event("isolated_vertices" if set(pv) - set(seen) else "all_connected")
    c.distinct(data)
    c.sample(data)


# --- G05 statistics files -----------------------------------------------------------------------
FIELDS = ["status", "lower_bound", "upper_bound", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths",
          "nconss_presolve_shortest_paths", "num_cycle_cover", "num_nodes", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]


def real(rng):
    return rng.choice([0.0, 1.0, float(rng.randint(0, 10**6)), rng.random() * 1e6, rng.random(), -rng.random() * 100, 1e20, -1e20, rng.randint(1, 10**9) + 1 / 3])


def count(rng):
    return rng.choice([0, 1, rng.randint(0, 9), rng.randint(0, 10**6), 2**32 - 1])


def close6(text, x):
    """text is x to at least six significant digits"""
    y = float(text)
    return y == x or abs(y - x) <= 5.1e-6 * abs(x)


@prop("G05", 24000, 192000, min_distinct=1500, prep=need("stats"), rule="distinct written statistics")
def g05(c):
    rng = c.rng
    tz = rng.choice(["UTC", "America/New_York", "Asia/Kolkata", "XYZ-5:45", "ABC8"])
    if tz not in DRIVERS:
        DRIVERS[tz] = Driver({"TZ": tz})
    d = DRIVERS[tz]
    import csv
    import yaml
    where = c.tmp / rng.choice(["a.yaml", "b_1.csv", "x"])
    gone = rng.random() < .1
    if gone:
        where = c.tmp / "missing" / "a"
    k = rng.randrange(3)
    if k == 0:
        s = {f: count(rng) for f in FIELDS}
        s.update(status=rng.randint(0, 12), lower_bound=real(rng), upper_bound=real(rng), num_nodes=rng.choice([0, 1, rng.randint(0, 10**6), 2**40, 2**62]))
        if rng.random() < .3 and not gone:
            where.write_text("status: 1\nrubbish: " + "x" * rng.randint(0, 5000) + "\n")
        before = d.ask(c, "read", c.tmp / "nothing_here")
        c.check("File does not exist" in before.get("missing", "") and "nothing_here" in before["missing"], lambda: "reading a file that does not exist gave %r" % before)
        r = d.ask(c, "write", where, *[s[f] if f not in ("lower_bound", "upper_bound") else repr(s[f]) for f in FIELDS])
        info = tuple(s.items())
        c.check(int(r["exists"]) == (not gone), "file written: %s" % r["exists"], s)
        back = d.ask(c, "read", where)
        if gone:
            c.check("missing" in back, "a file that could not be written can be read", s)
            c.event("directory_missing")
        else:
            got = {f: (float if "bound" in f else int)(back[f]) for f in FIELDS if f in back}
            c.check(got == s, lambda: "read back %r, written %r" % (got, s), s)
            y = yaml.safe_load(where.read_text())
            c.check(set(y) == set(FIELDS) and all(float(y[f]) == s[f] if "bound" in f else y[f] == s[f] for f in FIELDS), lambda: "the file says %r, written %r" % (y, s), s)
            c.event("summary_round_trip")
    elif k == 1:
        rows = [[repr(real(rng)), count(rng), *[rng.randint(0, 10**6) if rng.random() < .9 else 0 for _ in range(5)], count(rng), repr(real(rng))] for _ in range(rng.randint(0, 6))]
        r = d.ask(c, "nodes", where, len(rows), *[x for row in rows for x in row])
        info = tuple(map(tuple, rows))
        c.check(int(r["dt"]) == sum(x[2] for x in rows) and int(r["mm"]) == sum(x[3] for x in rows), lambda: "totals %r" % r, rows)
        c.check(int(r["exists"]) == (not gone), "file written: %s" % r["exists"], rows)
        if not gone:
            t = list(csv.DictReader(open(where)))
            cols = ["lower_bound", "node_id", "num_sec_disjoint_tour", "num_sec_maxflow_mincut", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths",
                    "num_cost_cover_steiner_tree", "parent_id", "upper_bound"]
            ok = len(t) == len(rows) and all(None not in x and set(x) == set(cols) for x in t)
            c.check(ok and all(close6(x[f], float(y)) if "bound" in f else int(x[f]) == y for x, row in zip(t, rows) for f, y in zip(cols, row)),
                    lambda: "node statistics %r were written as %r" % (rows, where.read_text()), rows)
            c.event("node_rows", len(rows))
    else:
        rows = []
        for _ in range(rng.randint(0, 5)):
            a = rng.randint(0, 4 * 10**12) if rng.random() < .7 else rng.randint(0, 10**9) * 1000 + rng.choice([0, 1, 5, 10, 99, 100, 999])
            rows.append([a, a + rng.choice([0, 1, 10, 1000, rng.randint(0, 10**7)]), repr(real(rng)), repr(real(rng)), count(rng)])
        r = d.ask(c, "bounds", where, len(rows), *[x for row in rows for x in row])
        info = (tz, tuple(map(tuple, rows)))
        c.check(int(r["exists"]) == (not gone), "file written: %s" % r["exists"], rows)
        if not gone:
            t = list(csv.DictReader(open(where)))
            cols = ["start_timestamp", "end_timestamp", "lower_bound", "upper_bound", "node_id"]
            c.check(len(t) == len(rows) and all(None not in x and set(x) == set(cols) for x in t), "rows or columns differ", rows)
            for x, row in zip(t, rows):
                for f, y in zip(cols, row):
                    if "time" in f:
                        try:
                            ms = round((datetime.datetime.fromisoformat(x[f]) - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) / datetime.timedelta(milliseconds=1))
                        except (ValueError, TypeError):
                            ms = None
                        c.check(ms == y, lambda: "the moment %d ms was written as %s (time zone %s)" % (y, x[f], tz), rows)
                        c.event("time_stamps")
                    else:
                        c.check(close6(x[f], float(y)) if "bound" in f else int(x[f]) == y, lambda: "%s %s was written as %s" % (f, y, x[f]), rows)
            c.event("bound_rows", len(rows))
    c.distinct(k, info, gone)
    c.sample({"kind": k, "input": info})


# --- G06 small decision rules -------------------------------------------------------------------
@prop("G06", 32000, 256000, min_distinct=1200, prep=need("api"), rule="distinct (rule, numbers)")
def g06(c):
    rng = c.rng
    d = driver()
    if rng.random() < .5:
        n = rng.randint(0, 12)
        gaps = [rng.choice([1.0, 0.5, rng.randint(0, 20) / 4, rng.random()]) for _ in range(n)]
        if rng.random() < .6:
            gaps.sort(reverse=True)
        thr, mx = rng.choice([0.0, .25, .5, 1e-3, -1.0, 100.0]), rng.choice([-1, 0, 1, 2, 3, 5, rng.randint(1, 14)])
        r = d.ask(c, "tailing", n, *map(repr, gaps), repr(thr), mx)
        info = (tuple(gaps), thr, mx)
        want = []
        for i in range(n):
            w = gaps[max(0, i + 1 - mx):i + 1] if mx >= 1 else []
            want.append(int(mx >= 2 and len(w) == mx and w[0] - w[-1] < thr))
        c.check(ints(r["verdicts"]) == want, lambda: "tailing off verdicts %r, expected %r" % (r["verdicts"], want), info)
        c.check(ints(r["sizes"]) == [min(i + 1, max(mx, 0)) for i in range(n)], lambda: "lengths of the history %r" % r["sizes"], info)
        c.event("tailing_yes" if any(want) else "tailing_no")
    else:
        hi = rng.choice([5, 50, 10**6])
        p, uw, uv, vw = [rng.randint(0, hi) for _ in range(4)]
        if uv + vw == uw:
            vw += 1
        ip, ic = rng.randint(0, hi), rng.randint(0, hi)
        if ip == p:
            ip += 1
        n = rng.randint(0, 8)
        loss = [rng.randint(-9, 9) for _ in range(n)]
        ok = [int(rng.random() < .6) for _ in range(n)]
        r = d.ask(c, "gain", p, uw, uv, vw, ip, ic, *vec(loss), *vec(ok))
        info = (p, uw, uv, vw, ip, ic, tuple(loss), tuple(ok))

        def near(x, y):
            return abs(float(x) - y) <= 1e-5 * max(1e-3, abs(y))
        c.check(near(r["gain"], p / (uv + vw - uw)), lambda: "unitary gain %s" % r["gain"], info)
        c.check(near(r["loss"], (uw - ic) / (p - ip)), lambda: "unitary loss %s" % r["loss"], info)
        f = [x for x, y in zip(loss, ok) if y]
        c.check(int(r["nfeas"]) == len(f), lambda: "%s feasible extensions" % r["nfeas"], info)
        b = int(r["best"])
        c.check(b == -1 if not f else 0 <= b < n and ok[b] and loss[b] == min(f), lambda: "smallest loss at %d" % b, info)
        if f:
            c.check(near(r["avg"], sum(f) / len(f)) or abs(float(r["avg"]) - sum(f) / len(f)) < 1e-5, lambda: "average loss %s" % r["avg"], info)
        c.event("rule_none" if not f else "rule_some")
    c.distinct(info)
    c.sample(info)
