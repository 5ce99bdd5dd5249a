"""Builds the code under test from /repo's working tree (never writes in /repo).

Every object is cached under /verif/build by a hash of the compiler flags, all
headers and its own source, so a change anywhere in /repo's C++ is rebuilt."""
import concurrent.futures as cf
import fcntl
import functools
import hashlib
import os
import re
import subprocess
import sys
import sysconfig
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
SHIM = VERIF / "shim"
HARNESS = VERIF / "harness"
PY = "/opt/vp/venv/bin/python"
SITE = Path("/opt/vp/venv/lib/python3.12/site-packages")
SCIPDIR = SITE / "pyscipopt.libs"
PYINC = "/usr/include/python3.12"
LIBSRC = ["algorithms", "branching", "data_structures", "cost_cover", "cycle_cover", "event_handlers", "graph",
          "heuristic", "knapsack", "logger", "node_selection", "preprocessing", "sciputils", "separation",
          "solution", "stats", "subtour_elimination"]
MODES = {
    "san": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "plain": ["-O0", "-g0", "-ftrivial-auto-var-init=pattern"],
    "vg": ["-O1", "-g1"],
}
WRAPS = ["SCIPaddRow", "SCIPaddCons", "SCIPaddSolFree", "SCIPsolve", "SCIPisCutEfficacious"]


class BuildError(Exception):
    pass


def scip_lib():
    libs = sorted(SCIPDIR.glob("libscip-*.so*"))
    if not libs:
        raise BuildError("libscip not found in " + str(SCIPDIR))
    return libs[0]


_hdr = {}


@functools.lru_cache(None)
def checked_includes():
    """Directory with a copy of the library's vector<bool> header whose operator[] asserts its
    index when _GLIBCXX_ASSERTIONS is on (this release checks vector<T> but not vector<bool>)."""
    ver = subprocess.run(["g++", "-dumpversion"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    src = Path("/usr/include/c++") / ver / "bits" / "stl_bvector.h"
    if not src.exists():
        return None
    text = src.read_text()
    for ret in ("const_reference", "reference"):
        text = re.sub(r"(\n\s+(?:_GLIBCXX_NODISCARD _GLIBCXX20_CONSTEXPR\s+)?%s\s+operator\[\]\(size_type __n\)(?: const)?\s*(?:_GLIBCXX_NOEXCEPT)?\s*\{)" % ret,
                      r"\1 __glibcxx_assert(__n < this->size());", text)
    d = BUILD / ("inc-" + hashlib.sha256(text.encode()).hexdigest()[:16])
    f = d / "bits" / "stl_bvector.h"
    if not f.exists():
        f.parent.mkdir(parents=True, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=d)  # compiler threads may get here at the same time
        os.write(fd, text.encode())
        os.close(fd)
        os.chmod(tmp, 0o644)
        os.replace(tmp, f)
    return d


def headers_hash():
    if "h" not in _hdr:
        h = hashlib.sha256()
        for root in (REPO / "include", SHIM / "include"):
            for f in sorted(root.rglob("*")):
                if f.suffix in (".hh", ".h", ".hpp") and f.is_file():
                    h.update(str(f.relative_to(root)).encode() + b"\0" + f.read_bytes() + b"\0")
        _hdr["h"] = h.hexdigest()
    return _hdr["h"]


def cflags(mode):
    inc = checked_includes() if mode == "san" else None
    return ["-std=c++17", "-w", *(["-I" + str(inc)] if inc else []), "-fPIC", *MODES[mode], "-DBOOST_LOG_DYN_LINK", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS",
            "-I" + str(SHIM / "include"), "-I" + str(REPO / "include"), "-I" + str(VERIF / "harness"), "-I" + PYINC]


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, "\n".join(l for l in p.stdout.splitlines() if re.match(r"\S+: |\S+:\d+", l))[:20000] + p.stdout[-4000:]))


def sections(src):
    """(name, first line, last line) of the parts of a harness source that can be left out."""
    out, open_ = [], []
    for i, l in enumerate(Path(src).read_text().splitlines(), 1):
        if l.startswith("#if"):
            open_.append((l.split("WITHOUT_")[1].strip() if "WITHOUT_" in l else None, i))
        elif l.startswith("#endif"):
            n, k = open_.pop()
            if n:
                out.append((n, k, i))
    return out


def compile_harness(mode, src):
    """The object of a harness and the sections left out of it: those that use a function the library no longer has."""
    gone = set()
    while True:
        try:
            return compile_obj(mode, src, ["-DWITHOUT_" + n for n in sorted(gone)]), sorted(gone)
        except BuildError as e:
            hit = set()
            for l in map(int, re.findall(re.escape(Path(src).name) + r":(\d+):", str(e))):
                inside = [(last - first, n) for n, first, last in sections(src) if first < l < last]
                if inside:
                    hit.add(min(inside)[1])
            if not hit - gone:
                raise
            gone |= hit


def compile_obj(mode, src, defines=()):
    flags = cflags(mode) + list(defines)
    own = b"".join(f.read_bytes() for f in sorted(HARNESS.glob("*.hpp"))) if Path(src).parent == HARNESS else b""
    key = hashlib.sha256(("\0".join(flags) + headers_hash() + str(src)).encode() + own + Path(src).read_bytes()).hexdigest()[:24]
    out = BUILD / mode / ("%s-%s.o" % (Path(src).stem, key))
    if not out.exists():
        out.parent.mkdir(parents=True, exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=out.parent)
        os.close(fd)
        try:
            run(["g++", *flags, "-c", str(src), "-o", tmp], "compiling %s" % src)
            os.replace(tmp, out)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
    return out


NEEDS = {"logs": ["logger"]}  # library sources a harness needs, where that is not all of them


def objs(mode, extra, lib=LIBSRC):
    srcs = [REPO / "src" / (s + ".cpp") for s in lib] + list(extra)
    if lib is LIBSRC:
        srcs += [SHIM / "src" / "objadapter.cpp", SHIM / "src" / "wraps.cpp"]
    srcs = [s for s in srcs if Path(s).exists()]
    # sources the repository may add next to the known ones
    known = {s + ".cpp" for s in LIBSRC} | {"pygraph.cpp"}
    srcs += [s for s in sorted((REPO / "src").glob("*.cpp")) if s.name not in known]
    srcs.sort(key=lambda s: -Path(s).stat().st_size)
    cflags(mode)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(lambda s: compile_obj(mode, s), srcs))


def link(mode, objects, out_stem, shared, scip=True):
    key = hashlib.sha256("\0".join(sorted(o.name for o in objects)).encode()).hexdigest()[:24]
    d = BUILD / mode / key
    out = d / out_stem
    if not out.exists():
        d.mkdir(parents=True, exist_ok=True)
        tmp = str(out) + ".tmp%d" % os.getpid()
        cmd = ["g++", *[f for f in MODES[mode] if f.startswith("-f")], *(["-shared"] if shared else []), *map(str, objects), "-o", tmp,
               *(["-Wl,--wrap=" + ",--wrap=".join(WRAPS), str(scip_lib()), "-Wl,-rpath," + str(SCIPDIR), "-Wl,--allow-shlib-undefined"] if scip else []),
               "-lboost_log", "-lboost_thread", "-lboost_filesystem", "-lyaml-cpp", "-lpthread"]
        run(cmd, "linking " + out_stem)
        os.replace(tmp, out)
    return out


def _locked(f):
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return f()


def harness(name, mode="san"):
    """Path of the built harness program /verif/harness/<name>.cpp and the sections left out of it."""
    def go():
        src = HARNESS / (name + ".cpp")
        own, gone = compile_harness(mode, src)
        return link(mode, [own] + objs(mode, [], NEEDS.get(name, LIBSRC)), name, False, name not in NEEDS), gone
    return _locked(go)


def pylib(mode="plain"):
    """Directory holding libpypctsp.so, built from /repo/pctsp/pypctsp.cpp."""
    return _locked(lambda: link(mode, objs(mode, [REPO / "pctsp" / "pypctsp.cpp", SHIM / "src" / "eventlog.cpp"]), "libpypctsp.so", True)).parent


if __name__ == "__main__":
    import time
    t = time.time()
    for a in sys.argv[1:]:
        if a.startswith("py:"):
            print(pylib(a[3:]), "%.1fs" % (time.time() - t))
        else:
            n, _, m = a.partition(":")
            print(*harness(n, m or "san"), "%.1fs" % (time.time() - t))
