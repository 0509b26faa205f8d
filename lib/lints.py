"""Checks that are not comparisons with a reference: each returns a Result."""
import glob
import json
import multiprocessing
import os
import re
import signal
import subprocess
import sys
import time

import catalog
import driver
import interp


class Result:
    def __init__(self):
        self.discharged = []
        self.undecided = []  # (key, why)
        self.functions = set()  # (function, file, line)
        self.bad = []  # (key, text, [(function, file, line)])


X = {}


def rel(p):
    return os.path.normpath(p).replace(os.path.normpath(driver.REPO) + "/", "")


# ---------------------------------------------------------------- OpenMP
OMP = ("-fopenmp", "-DEIGEN_DONT_PARALLELIZE")  # parsed only, not run
PARALLEL = ("vector", "free", "vectorpartitioned", "vectortyings", "matrix", "matrixpartitioned", "matrixtyings", "diagonal",
            "diagonalpartitioned", "quad4", "planar", "axisym", "hex8", "usertri3", "meshutil", "periodic", "shapes")


def has_omp(x):
    if isinstance(x, dict):
        return x.get("k") == "omp" or any(has_omp(v) for v in x.values())
    return isinstance(x, list) and any(has_omp(v) for v in x)


def _omp_export(name):
    return driver.export_file(name, OMP)


class Late(Exception):
    pass


def _late(*a):
    raise Late()


def _omp_one(job):
    mod, name = job
    import races
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(120)
    sys.setrecursionlimit(20000)
    x = X[mod]
    g = x["entry"][name]
    h = x["entry"].get(name.split("__")[0], {})
    pre = g.get("pre") or h.get("pre") or x["entry"].get("common", {}).get("pre")
    opt = dict(catalog.options(mod, name))
    r = races.Races()

    def hook(eng):
        if opt.get("hooks"):
            opt["hooks"](eng)
        eng.races = r

    try:
        driver.run(x, g["entry"], pre, opt.get("uf", ()), hook)
    except driver.Unmodelled:
        pass
    except Late:
        pass
    except (RecursionError, MemoryError, driver.AnalysisError):
        pass
    except Exception:
        if os.environ.get("GF_DEBUG"):
            raise
    finally:
        signal.alarm(0)
    return [(k, mod + "/" + name, v) for k, v in r.found.items()]


def openmp(tier, only=None):
    res = Result()
    mods = [m for m in PARALLEL if not only or m in only]
    with multiprocessing.Pool(8) as pool:
        paths = pool.map(_omp_export, mods, chunksize=1)
    jobs = []
    for mod, path, err in paths:
        if err:
            res.undecided.append((mod, err[:500]))
            continue
        x = X[mod] = driver.load(path)
        if any(has_omp(f.get("body")) for f in x["functions"]):
            jobs += [(mod, n) for n, b in driver.variants(x)]
    found = {}
    with multiprocessing.Pool(8, maxtasksperchild=20) as pool:
        for r in pool.imap_unordered(_omp_one, jobs, chunksize=1):
            for (file, line), at, v in r:
                found.setdefault((rel(file), line), []).extend((st, q, text, at) for st, q, text in v)
    # every directive in the sources
    sites = {}
    for f in sorted(glob.glob(driver.REPO + "/include/GooseFEM/*.h*")):
        with open(f) as fh:
            for n, line in enumerate(fh, 1):
                if re.match(r"\s*#\s*pragma\s+omp\s+.*\bfor\b", line):
                    sites[(rel(f), n)] = line.strip()
    for key in sorted(set(found) | set(sites)):
        file, line = key
        v = found.get(key, [])
        q = next((q for st, q, text, at in v), "")
        where = "%s %s" % (file.split("/")[-1], q.replace("GooseFEM::", "")) if q else "%s:%s" % (file.split("/")[-1], line)
        if q:
            res.functions.add((q, file, line))
        n = sum(k < line for f, k in sites if f == file and any(z[1] == q for z in found.get((f, k), ())))
        where += " #%d" % n if q else ""
        races_ = [(text, at) for st, q_, text, at in v if st == "race"]
        if races_:
            res.bad.append((where, "parallel loop at %s:%s: %s (reached from %s)" % (file, line, races_[0][0], races_[0][1]), [(q, file, line)]))
        elif not v:
            res.undecided.append((where, "not reached by the drivers: " + sites[key]))
        elif any(st == "ok" for st, *_ in v):
            res.discharged.append(where)
        else:
            res.undecided.append((where, v[0][2]))
    return res


# ---------------------------------------------------------------- facts about declarations
HEADERS = ("Allocate Element ElementQuad4 ElementHex8 ElementQuad4Axisymmetric ElementQuad4Planar Iterate Vector Matrix MatrixDiagonal "
           "VectorPartitioned MatrixPartitioned MatrixDiagonalPartitioned VectorPartitionedTyings MatrixPartitionedTyings Mesh MeshHex8 MeshQuad4 "
           "MeshTri3 TyingsPeriodic version assertions config detail GooseFEM").split()


def headers():
    """All headers, in an order in which they can be included."""
    there = {os.path.basename(f)[:-2] for f in glob.glob(driver.REPO + "/include/GooseFEM/*.h")}
    return [h for h in HEADERS if h in there] + sorted(there - set(HEADERS))


def compile_(args, text):
    os.makedirs(driver.ROOT + "/build", exist_ok=True)
    src = "%s/build/lint.%d.cpp" % (driver.ROOT, os.getpid())
    with open(src, "w") as f:
        f.write(text)
    try:
        return subprocess.run([a if a != "SRC" else src for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        os.remove(src)


def facts(text, root, extra=()):
    tool = driver.build_tool("gflint")
    out = "%s/build/lint.%d.json" % (driver.ROOT, os.getpid())
    r = compile_([tool, out, root, "SRC", *driver.flags(extra), "-w"], text)
    if not os.path.exists(out):
        raise driver.AnalysisError("the sources do not compile:\n" + r.stdout[-3000:])
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    return d


def short(b):
    return "%s:%s" % (rel(b["file"]), b["ln"])


# ---------------------------------------------------------------- Python interface
def bindings(tier):
    """Every binding calls the operation of its name, with the arguments in the same order and the same defaults."""
    res = Result()
    py = driver.REPO + "/python"
    d = facts('#include "%s/main.cpp"\n' % py, py + "/", ("-I" + driver.ROOT + "/stubs", "-I" + py))
    # the path of each module variable, followed through calls
    subs = {x["var"]: x for x in d["submodules"]}
    paths = {}  # (function, variable) -> {path}
    for x in d["submodules"]:
        def path(v):
            return path(subs[v]["of"]) + (subs[v]["name"],) if v in subs else ()
        paths[("", x["var"])] = {path(x["var"])}
    top = {c["in"] for c in d["calls"]} - {c["fn"] for c in d["calls"]}
    changed = True
    while changed:
        changed = False
        for c in d["calls"]:
            for a, p in zip(c["args"], c["params"]):
                src = paths.get(("", a)) or paths.get((c["in"], a)) or ({()} if c["in"] in top else set())
                t = paths.setdefault((c["fn"], p), set())
                if not src <= t:
                    t |= src
                    changed = True
    count = {}
    for b in d["bindings"]:
        cls = b["cls"].replace("GooseFEM::", "", 1)
        name = b.get("name") or "__init__"
        base = ".".join(x for x in (cls.replace("::", "."), name if b["kind"] != "class" else "") if x) or name
        count[base] = count.get(base, 0) + 1
        key = "%s %s #%d" % (b["kind"], base, count[base])
        res.functions.add((base, b["file"], b["ln"]))
        bad = None
        t = b.get("targets", [])
        mods = paths.get((b["in"], b["module"]), set())
        if b["kind"] == "class":
            q = re.sub(r"<.*>", "", b["cls"]).split("::")
            want = {("GooseFEM",) + m + (b["name"],) for m in mods}
            if mods and tuple(q) not in want:
                bad = "class %s is exposed as %s" % (b["cls"], ", ".join(".".join(w) for w in sorted(want)))
            elif not mods:
                res.undecided.append((key, "module not determined"))
                continue
        elif name.startswith("__") and name != "__init__":
            pass
        else:
            if b["kind"] not in ("init",):
                names = {x["name"] for x in t}
                if names and name not in names:
                    if b["has"]:
                        bad = "%s calls %s, not the operation of that name" % (name, ", ".join(sorted(x["q"] for x in t)))
                    elif b.get("doc") and "`" in b["doc"] and not any(n in b["doc"] for n in names):
                        bad = "%s calls %s, not the operation it refers to (%s)" % (name, ", ".join(sorted(names)), b["doc"])
                if not b["cls"] and mods and t and not b["lambda"]:
                    q = t[0]["q"].split("::")[1:-1]
                    if tuple(q) not in mods:
                        bad = "%s is exposed in module %s" % (t[0]["q"], ", ".join(".".join(("GooseFEM",) + m) for m in sorted(mods)))
            if not bad and t and not b["lambda"]:
                ps = t[0]["params"]
                names = [p["name"] for p in ps]
                for k, (p, a) in enumerate(zip(ps, b.get("args", []))):
                    if a["name"] != p["name"] and a["name"] in names:
                        bad = "argument %d of %s is called %s, but is parameter %s of %s" % (k + 1, name, a["name"], p["name"], t[0]["q"])
                    elif a.get("hasdefault") and p["hasdefault"] and a.get("default") and p["default"] and float(a["default"]) != float(p["default"]):
                        bad = "the default of argument %s of %s is %g instead of %g" % (a["name"], name, float(a["default"]), float(p["default"]))
            if not bad and b["lambda"] and any(u != sorted(u) and len(set(u)) == len(u) for u in b.get("uses", ())):
                bad = "the arguments of %s are used in a different order" % name
        if bad:
            res.bad.append((key, "%s: %s" % (short(b), bad), [(base, b["file"], b["ln"])]))
        else:
            res.discharged.append(key)
    return res


# ---------------------------------------------------------------- several translation units
def everything(twice=False):
    inc = "".join("#include <GooseFEM/%s.h>\n" % h for h in headers())
    return "#include <Eigen/Eigen>\n" + inc + (inc if twice else "")


def several(tier):
    """Every definition in the headers may occur in more than one translation unit."""
    res = Result()
    root = driver.REPO + "/include/GooseFEM/"
    cc = ["clang++-18", "-fsyntax-only", "SRC", *driver.flags(), "-w"]
    for h in headers():
        key = "include guard " + h + ".h"
        with open(root + h + ".h") as f:
            guarded = f.read()
        # a guard cannot be seen from the syntax tree: the header is parsed twice
        if re.search(r"^\s*#\s*pragma\s+once", guarded, re.M) or re.search(r"^\s*#\s*ifndef\s+(\w+)\s*\n\s*#\s*define\s+\1\b", guarded, re.M):
            res.discharged.append(key)
        else:
            res.undecided.append((key, "no guard recognised"))
    if res.undecided:
        r = compile_(cc, everything(True))
        if r.returncode:
            e = next((x for x in r.stdout.splitlines() if " error: " in x), "")
            m = re.match(r"(.*?/GooseFEM/(\w+)\.h):(\d+)", e)
            k = "include guard " + (m.group(2) if m else "?") + ".h"
            res.undecided = [u for u in res.undecided if u[0] != k]
            res.bad.append((k, "a header cannot be included twice: " + rel(e)[:300], [(k, m.group(1) if m else "", int(m.group(3)) if m else 0)]))
        else:
            res.discharged += [u[0] for u in res.undecided]
            res.undecided = []
    try:
        d = facts(everything(), root)
    except driver.AnalysisError:
        if res.bad:  # reported: the headers cannot be parsed together
            return res
        raise
    count = {}
    for f in d["functions"]:
        if f["instance"]:
            continue
        q = f["q"].replace("GooseFEM::", "", 1)
        count[q] = count.get(q, 0) + 1
        key = "function %s #%d" % (q, count[q])
        res.functions.add((f["q"], f["file"], f["ln"]))
        if f["template"] or f["inline"] or not f["external"]:
            res.discharged.append(key)
        else:
            res.bad.append((key, "%s: %s is defined in a header, but is neither inline nor a template: two sources that include it do not link" % (short(f), f["q"]), [(f["q"], f["file"], f["ln"])]))
    for v in d["variables"]:
        q = v["q"].replace("GooseFEM::", "", 1)
        if v["local"]:
            if v["const"] or not v["fninternal"]:
                continue
            res.bad.append(("variable %s in %s" % (q, v["in"]), "%s: every source that includes the header has its own copy of the static variable %s" % (short(v), q), [(v["in"], v["file"], v["ln"])]))
            continue
        count[q] = count.get(q, 0) + 1
        key = "variable %s #%d" % (q, count[q])
        res.functions.add((v["q"], v["file"], v["ln"]))
        if v["template"] or v["inline"]:
            res.discharged.append(key)
        elif v["external"]:
            res.bad.append((key, "%s: variable %s is defined in a header, but not inline: two sources that include it do not link" % (short(v), v["q"]), [(v["q"], v["file"], v["ln"])]))
        elif v["const"]:
            res.discharged.append(key)
        else:
            res.bad.append((key, "%s: every source that includes the header has its own copy of variable %s" % (short(v), v["q"]), [(v["q"], v["file"], v["ln"])]))
    return res


if __name__ == "__main__":
    t0 = time.time()
    r = globals()[sys.argv[1]]("quick", *([sys.argv[2:]] if len(sys.argv) > 2 else []))
    for k in r.discharged:
        print("ok       ", k)
    for k, w in r.undecided:
        print("undecided", k, ":", w[:200])
    for k, t, w in r.bad:
        print("BAD      ", k, ":", t[:300])
    print("%d ok, %d undecided, %d bad, %.1f s" % (len(r.discharged), len(r.undecided), len(r.bad), time.time() - t0))
