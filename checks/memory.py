"""M01: the compiled code under AddressSanitizer and UndefinedBehaviorSanitizer (all reports fatal),
driven through the Python API by the solver and heuristic workloads; the oracle is the sanitizer."""
import logging

import pc
from rt import prop
if pc.LIBDIR:
    from pctsp.algorithms import (collapse, extension_unitary_gain, extension_unitary_gain_collapse, extension_unitary_loss,
                                  extension_until_prize_feasible, path_collapse, path_extension, path_extension_collapse,
                                  path_extension_until_prize_feasible)

Q = dict(logging_level=logging.CRITICAL)


@prop("M01", 2100, 16800, lib="san", min_distinct=200,
      rule="distinct (instance, entry point, parameters) executed to the end under the sanitizers",
      assumptions=["the SCIP library itself is not instrumented", "leaks are not looked for"])
def m01(c):
    rng = c.rng
    c.acc["evals"] += 1
    if rng.random() < .6:
        big = rng.random() < .1
        inst = pc.instance(rng, 3, 25 if big else 9, isolated=rng.random() < .5)
        if rng.random() < .2:
            pc.enlarge(inst)
            c.event("huge_numbers")
        feas = pc.simple_cycles(inst.g, inst.root, 300)
        opts = pc.options(rng, inst)
        heur = ()
        if len(feas) and rng.random() < .5:
            heur = pc.cyc_edges(rng.choice(feas))
        if big:
            opts["time_limit"] = rng.choice([1, 5])
        if rng.random() < .1:
            opts["time_limit"] = 0
        limits = pc.limits(rng) if rng.random() < .2 else None
        if not big and inst.g.degree(inst.root) and rng.random() < .3:
            b = pc.basic(c, inst, heur, limits, gaps=rng.random() < .2)
            c.event("basic_" + b.status)
        r = pc.solve(c, inst, heur, opts, limits=limits)
        c.event("solved_" + r.status)
        c.distinct(inst.sig(), opts)
        c.sample({"instance": inst.dump(), "status": r.status})
        return
    inst = pc.instance(rng, 4, 14, isolated=rng.random() < .5)
    if rng.random() < .2:
        pc.enlarge(inst)
        c.event("huge_numbers")
    cyc = pc.simple_cycles(inst.g, inst.root, 1000)
    if len(cyc) and rng.random() < .9:
        t = list(rng.choice(cyc))
        t.append(t[0])
    else:
        t = []
    g, root, q = inst.g, inst.root, rng.choice([inst.quota, 0, inst.prize(t[:-1]), 10**6])
    for _ in range(6):
        d, s, sp = rng.randint(2, 6), rng.randint(1, len(t) + 1), rng.random() < .5
        k = rng.randrange(9)
        fn = [lambda: collapse(g, t, q, root, **Q), lambda: path_collapse(g, t, q, root, **Q), lambda: extension_unitary_gain(g, t, **Q),
              lambda: extension_unitary_loss(g, t, root, **Q), lambda: extension_until_prize_feasible(g, t, q),
              lambda: extension_unitary_gain_collapse(g, t, q, root, **Q), lambda: path_extension(g, t, root, d, s, **Q),
              lambda: path_extension_collapse(g, t, root, q, sp, d, s, **Q), lambda: path_extension_until_prize_feasible(g, t, root, q, s, d, **Q)][k]
        w = c.call("heuristic %d" % k, fn)
        if not t:
            c.event("empty_tour")
            c.check(w == [], "heuristic %d made a tour from nothing" % k, lambda: {"instance": inst.dump(), "result": w})
        c.event("heuristic_%d" % k)
        c.distinct(inst.sig(), t, k, d, s, sp, q)
        c.acc["evals"] += 1
