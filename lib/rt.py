"""Check runner: runs the cases of one property in worker processes, watches them
(crash, sanitizer report, missing progress), collects what the monitors observed,
writes the evidence file and prints the verdict."""
import argparse
import collections
import errno
import concurrent.futures as cf
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/vp/venv/bin/python"
REG = {}
REPO = os.environ.get("VERIF_REPO", "/repo")
STALL = 90.0


class Prop:
    def __init__(self, fn, pid, quick, thorough, lib, min_distinct, rule, prep, assumptions, workers):
        self.fn, self.pid, self.quick, self.thorough, self.lib = fn, pid, quick, thorough, lib
        self.min_distinct, self.rule, self.prep, self.assumptions, self.workers = min_distinct, rule, prep, assumptions, workers


def prop(pid, quick, thorough, lib=None, min_distinct=10, rule="", prep=None, assumptions=(), workers=8):
    """lib: None (no compiled code), 'plain' or 'san' (libpypctsp built from /repo in that mode)."""
    def deco(fn):
        REG[pid] = Prop(fn, pid, quick, thorough, lib, min_distinct, rule, prep, list(assumptions), workers)
        return fn
    return deco


class Stop(Exception):
    pass


class Case:
    def __init__(self, pid, idx, seed, tier, acc):
        self.pid, self.idx, self.tier, self.acc = pid, idx, tier, acc
        self.rng = random.Random("%s/%s/%d" % (seed, pid, idx))
        self.thorough = tier == "thorough"
        self._tmp = None

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = Path(tempfile.mkdtemp(prefix="vc_"))
        return self._tmp

    def clean(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def event(self, name, n=1):
        self.acc["events"][name] += n

    def distinct(self, *sig):
        """Counts this execution as a distinct non-trivial one, identified by sig."""
        self.acc["sigs"].add(hash(repr(sig)) & 0xFFFFFFFFFFFF)

    def sample(self, obj):
        if len(self.acc["samples"]) < 3:
            self.acc["samples"].append(obj)

    def violate(self, msg, data=None, key=None):
        if key is not None and any(v["key"] == key for v in self.acc["violations"]):
            return  # one report per recorded finding is enough
        self.acc["violations"].append({"idx": self.idx, "msg": msg[:3000], "data": data, "key": key})

    def check(self, cond, msg, data=None, key=None):
        self.acc["evals"] += 1
        if not cond:
            self.violate(msg() if callable(msg) else msg, data() if callable(data) else data, key)
        return cond

    def call(self, what, fn, *a, **k):
        """Runs code under test: an exception out of it is a violation and ends the case."""
        try:
            return fn(*a, **k)
        except Exception as e:  # noqa
            self.acc["evals"] += 1
            self.violate("%s raised %r\n%s" % (what, e, traceback.format_exc()[-1500:]))
            raise Stop()


def worker_main(argv):
    mod, pid, seed, tier, lo, hi, progress, out = argv
    lo, hi = int(lo), int(hi)
    acc = {"events": collections.Counter(), "sigs": set(), "samples": [], "violations": [], "evals": 0, "cases": 0, "error": None}
    pf = open(progress, "w")

    def dump():
        d = dict(acc)
        d["sigs"] = sorted(acc["sigs"])
        d["events"] = dict(acc["events"])
        with open(out + ".tmp", "w") as f:
            json.dump(d, f, default=str)
        os.replace(out + ".tmp", out)
    try:
        pf.write("init"); pf.flush()
        sys.path.insert(0, str(VERIF / "lib"))
        m = importlib.import_module("checks." + mod)
        p = REG[pid]
        known = load_known().get(pid, {})
        last = time.time()
        for i in range(lo, hi):
            pf.seek(0); pf.write("%d\n" % i); pf.flush()
            c = Case(pid, i, seed, tier, acc)
            try:
                p.fn(c)
            except Stop:
                pass
            except Exception as e:
                if isinstance(e, MemoryError) or isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EIO, errno.EDQUOT):
                    raise  # the machine's trouble, not a verdict
                # an exception that comes out of the code under test is its misbehaviour; so is a result of a shape
                # the judging code cannot read. A broken harness (missing import, unknown name) gives no verdict.
                inside = any(f.filename.startswith(REPO + "/") for f in traceback.extract_tb(e.__traceback__))
                unread = isinstance(e, (LookupError, TypeError, AttributeError, ValueError, AssertionError, ArithmeticError)) and not isinstance(getattr(e, "obj", None), types.ModuleType)
                if not inside and not unread:
                    raise
                acc["evals"] += 1
                c.violate("%s %r\n%s" % ("the code under test raised" if inside else "what the code under test returned or wrote could not be read:", e, traceback.format_exc()[-1500:]))
            finally:
                c.clean()
            acc["cases"] += 1
            if sum(v["key"] not in known for v in acc["violations"]) >= 4:
                break
            if time.time() - last > 1.0:
                dump(); last = time.time()
    except Exception:
        acc["error"] = traceback.format_exc()[-4000:]
    dump()
    pf.seek(0); pf.write("done\n"); pf.flush()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(3 if acc["error"] else 0)


def child_env(p, mode):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env["MPLBACKEND"] = "Agg"
    env["MALLOC_PERTURB_"] = "165"  # fresh and freed memory holds garbage, so reading it shows
    env["PYTHONPATH"] = str(VERIF)
    if mode:
        env["VERIF_PYLIB"] = mode[1]
        if mode[0] == "san":
            f = lambda n: subprocess.check_output(["gcc", "-print-file-name=" + n], text=True).strip()
            env["LD_PRELOAD"] = f("libasan.so") + " " + f("libubsan.so") + " " + f("libstdc++.so.6")
            env["PYTHONMALLOC"] = "malloc"  # objects of the interpreter are watched too
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_free_fill_size=4096:free_fill_byte=165:max_malloc_fill_size=65536:malloc_fill_byte=165"
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    return env


def prove_stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


class Runner:
    def __init__(self, mod, pid, seed, tier, env, workdir):
        self.mod, self.pid, self.seed, self.tier, self.env, self.wd = mod, pid, seed, tier, env, workdir
        self.total = {"events": collections.Counter(), "sigs": set(), "samples": [], "violations": [], "evals": 0, "cases": 0}
        self.errors, self.lock, self.n, self.crashes, self.stop = [], threading.Lock(), 0, 0, False

    def one(self, lo, hi):
        """One worker process over [lo,hi): returns (status, idx, text)."""
        with self.lock:
            self.n += 1
            base = os.path.join(self.wd, "w%d" % self.n)
        prog, out, err = base + ".p", base + ".o", base + ".e"
        open(prog, "w").close()
        with open(err, "w") as ef:
            p = subprocess.Popen([PY, "-B", "-c", "import sys; sys.path.insert(0,%r); import rt; sys.modules['rt']=rt; rt.worker_main(sys.argv[1:])" % str(VERIF / "lib"),
                                  self.mod, self.pid, str(self.seed), self.tier, str(lo), str(hi), prog, out],
                                 stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=self.env, start_new_session=True, cwd=self.wd)
        last, lastv = time.time(), ""
        stalled = False
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            v = open(prog).read()
            if v != lastv:
                last, lastv = time.time(), v
            elif time.time() - last > STALL:
                stalled = True
                prove_stop(p)
                break
        prove_stop(p)
        if os.path.exists(out):
            self.merge(json.load(open(out)))
        text = open(err, errors="replace").read()
        cur = open(prog).read().strip()
        if stalled:
            return "stall", cur, text
        if p.returncode == 0:
            return "ok", cur, text
        if p.returncode == 3:
            return "error", cur, text
        return "crash", cur, "exit status %s\n%s" % (p.returncode, text)

    def merge(self, d):
        with self.lock:
            t = self.total
            t["events"].update(d["events"]); t["sigs"].update(d["sigs"]); t["evals"] += d["evals"]; t["cases"] += d["cases"]
            t["samples"] = (t["samples"] + d["samples"])[:5]
            t["violations"] += d["violations"]
            if d.get("error"):
                self.errors.append(d["error"])

    def span(self, lo, hi):
        while lo < hi and not self.stop:
            st, cur, text = self.one(lo, hi)
            if st in ("ok",):
                return
            if st == "error":
                if not self.errors:
                    self.errors.append(text[-3000:])
                return
            if not cur.isdigit():
                self.errors.append("worker failed before its first case (%s %s): %s" % (st, cur, text[-3000:]))
                self.stop = True
                return
            i = int(cur)
            # one confirmation run: a stall or an outside kill under load proves nothing
            st2, _, text2 = self.one(i, i + 1)
            if st2 == st:
                what = "no progress for %d s, twice (does not terminate)" % STALL if st == "stall" else "process died: " + summarise(text2)
                with self.lock:
                    self.total["violations"].append({"idx": i, "msg": what, "data": text2[-6000:], "key": None})
                    self.total["evals"] += 1
                    self.crashes += 1
                    if self.crashes >= 4 or st == "stall":
                        self.stop = True
            elif st2 == "error":
                return
            else:
                self.total["events"]["inconclusive_" + st] += 1
            lo = i + 1


def summarise(text):
    for pat in (r"(ERROR: AddressSanitizer[^\n]*)", r"([^\n]*runtime error:[^\n]*)", r"(terminate called[^\n]*\n[^\n]*)"):
        m = re.search(pat, text)
        if m:
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*" + re.escape(REPO) + r"/[^\n]*)", text)
            return m.group(1) + (" at " + fr[0] if fr else "")
    return text[:300]


def load_known():
    known = collections.defaultdict(dict)
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[m.group(1)][m.group(2)] = m.group(3)
    return known


def main(mod_of):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, str(VERIF)); sys.path.insert(0, str(VERIF / "lib"))
    sys.modules.setdefault("rt", sys.modules[__name__])
    mod = mod_of(a.id)
    importlib.import_module("checks." + mod)
    p = REG[a.id]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    lo = 0
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, tier, lo = r["seed"], r["tier"], r["idx"]
        n = lo + 1
    else:
        n = a.cases or (p.quick if tier == "quick" else p.thorough)
    import build
    mode = None
    try:
        if p.prep:
            p.prep()
        if p.lib:
            mode = (p.lib, str(build.pylib(p.lib)))
    except build.BuildError as e:
        print("BUILD FAILED (no verdict): %s" % e)
        sys.exit(2)
    wd = tempfile.mkdtemp(prefix="vr_")
    try:
        r = Runner(mod, a.id, a.seed, tier, child_env(p, mode), wd)
        w = min(p.workers, os.cpu_count() or 4)
        chunk = max(1, min(-(-(n - lo) // w), 4000))
        spans = [(i, min(i + chunk, n)) for i in range(lo, n, chunk)]
        with cf.ThreadPoolExecutor(w) as ex:
            list(ex.map(lambda s: r.span(*s), spans))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    t = r.total
    known = load_known().get(a.id, {})
    seen_known, viol = {}, []
    for v in t["violations"]:
        if v["key"] and v["key"] in known:
            seen_known[v["key"]] = v
        else:
            viol.append(v)
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "replay").mkdir(exist_ok=True)
    paths = []
    for v in viol[:5]:
        f = VERIF / "replay" / ("%s-%d.json" % (a.id, v["idx"]))
        f.write_text(json.dumps({"property": a.id, "seed": a.seed, "tier": tier, "idx": v["idx"], "message": v["msg"], "data": v["data"],
                                 "rerun": "python3 /verif/check.py %s --replay %s" % (a.id, f)}, indent=1, default=str))
        paths.append((f, v))
    ev = {"property": a.id, "tier": tier, "seed": int(a.seed) if str(a.seed).isdigit() else 0, "level": "exploration",
          "coverage": {"evaluations": t["evals"], "distinct_nontrivial": len(t["sigs"]), "rule": p.rule, "cases_run": t["cases"],
                       "monitor_events": dict(sorted(t["events"].items())), "samples": t["samples"] or ["-"]},
          "assumptions": p.assumptions, "violations": len(viol), "known_findings_seen": sorted(seen_known), "wall_s": round(time.time() - t0, 2)}
    if not a.replay:
        (VERIF / "evidence" / (a.id + ".json")).write_text(json.dumps(ev, indent=1, default=str) + "\n")
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (a.id, known[k]))
    for f, v in paths:
        print("VIOLATION property=%s replay=%s" % (a.id, f))
        print("  case %d: %s" % (v["idx"], v["msg"][:1500]))
    print("%s %s: %d cases, %d evaluations, %d distinct, events %s, %.1f s" % (a.id, tier, t["cases"], t["evals"], len(t["sigs"]), dict(t["events"].most_common(14)), time.time() - t0))
    if viol:
        sys.exit(1)
    if r.errors:
        print("CHECK ERROR (no verdict):\n" + r.errors[0])
        sys.exit(2)
    if not a.replay and not a.cases and (t["evals"] == 0 or len(t["sigs"]) < p.min_distinct):
        print("CHECK ERROR (no verdict): the monitors observed too little (%d evaluations, %d distinct)" % (t["evals"], len(t["sigs"])))
        sys.exit(2)
    sys.exit(0)

