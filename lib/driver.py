"""Runs the exporter on a driver and compares the summaries of entry::f and spec::f."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("GF_REPO", "/repo")
sys.path.insert(0, HERE)
from terms import *
import terms as T
import engine as E
import interp
from engine import Engine, Unmodelled, Cell, Arr, Fn, View, Obj, Lst, Opq, freeze, isarr


class AnalysisError(Exception):
    pass


def flags(extra=()):
    return ["-std=c++17", "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3",
            "-DGOOSEFEM_ENABLE_ASSERT", '-DGOOSEFEM_VERSION="0.0"', "-I" + ROOT + "/props", *extra]


def build_tool(name="gfx"):
    tool = ROOT + "/build/" + name
    src = ROOT + "/tool/" + name + ".cpp"
    if os.path.exists(tool) and os.path.getmtime(tool) >= os.path.getmtime(src):
        return tool
    r = subprocess.run(["bash", ROOT + "/tool/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(tool):
        raise AnalysisError("cannot build the exporter:\n" + r.stdout[-2000:])
    return tool


def export_file(name, extra=(), env=None, src=None):
    """(name, path of the exported program, None) or (name, None, error)"""
    tool = build_tool()
    os.makedirs(ROOT + "/build", exist_ok=True)
    out = "%s/build/%s.%d.json" % (ROOT, name, os.getpid())
    src = src or "%s/props/%s.cpp" % (ROOT, name)
    with open(src) as f:
        line = f.readline()
    if line.startswith("// flags: "):  # for the analysis only
        extra = (*extra, *line[10:].split())
    r = subprocess.run([tool, out, src, *flags(extra)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env={**os.environ, **(env or {})})
    if not os.path.exists(out):
        return name, None, "the driver does not compile against the tree:\n" + r.stdout[-3000:]
    return name, out, None


def load(path):
    with open(path) as f:
        d = json.load(f)
    os.remove(path)
    d["checks"] = os.path.basename(path).startswith("checks_")
    return index(d)


def export(name, extra=(), env=None, src=None):
    name, out, err = export_file(name, extra, env, src)
    if err:
        raise AnalysisError(err)
    return load(out)


def index(d):
    d["byid"] = {f["id"]: f for f in d["functions"]}
    d["recs"] = {r["id"]: r for r in d["records"]}
    d["rec_by_ty"] = {}
    for r in d["records"]:
        if not r["dependent"]:
            d["rec_by_ty"][d["types"][r["ty"]]] = r
    d["globals"] = {g["id"]: g for g in d["globals"]}
    d["entry"] = {}
    for f in d["functions"]:
        for ns in ("entry", "spec", "pre"):
            if f["q"] == ns + "::" + f["name"]:
                d["entry"].setdefault(f["name"], {})[ns] = f
    return d


class Summary:
    def __init__(self):
        self.out = {}
        self.changed = {}  # inputs: (after, before)
        self.asserts = []
        self.requires = []
        self.trace = set()


def run(x, f, pre, uf=(), hooks=None, inputs=0):
    eng = Engine(x, uf)
    if hooks:
        hooks(eng)
    types = x["types"]
    cells = {}
    for p in f["params"]:
        t = types[p["ty"]]
        cells[p["name"]] = Cell(eng.sym(p["name"], t), p["name"], t)
    for q in ([pre] if pre is not None else []):
        pcells = []
        for p in q["params"]:
            c = cells.get(p["name"])
            if c is None:
                c = Cell(eng.sym(p["name"], types[p["ty"]]), p["name"], types[p["ty"]])
            elif types[p["ty"]].rstrip("&") != types[next(z for z in f["params"] if z["name"] == p["name"])["ty"]].rstrip("&"):
                c = Cell(eng.sym(p["name"], types[p["ty"]]), p["name"], types[p["ty"]])
            pcells.append(c)
        eng.enter(q, pcells, None)
        eng.run(q["body"])
        eng.leave()
        eng.asserts.clear()
        eng.trace.clear()
        for c in cells.values():
            if isinstance(c.v, Arr):
                c.v.nfix = len(c.v.regs)
    if inputs:
        eng.inputs = cells
        eng.last = inputs == 2
    given = {p["name"]: content(eng, cells[p["name"]]) for p in f["params"] if p["constref"]}
    ret = eng.call(f, [cells[p["name"]] for p in f["params"]])
    s = Summary()
    for k, v in given.items():
        w = content(eng, cells[k])
        if v is not None and w is not None:
            v = since(eng, cells[k], v)
            if w != v:
                s.changed[k] = (w, v)
    for p in f["params"]:
        if p["isref"] and not p["constref"]:
            s.out[p["name"]] = result(eng, cells[p["name"]])
    if types[f["ret"]] != "void":
        s.out["return"] = result(eng, ret)
    s.asserts = eng.asserts
    s.requires = eng.requires
    s.trace = eng.trace
    s.shapes = eng.symshape
    s.assumed = eng.assumed
    return s


def since(eng, x, v):
    """'v', the content of x before, with what has been used since then of symbolic objects."""
    o = eng.rv(x) if not isinstance(x, View) else x
    if not isinstance(o, Obj):
        return v
    known = {f[0]: f[1] for f in v[2:]}
    return v[:2] + tuple((c.name, since(eng, c, known[c.name] if c.name in known else result(eng, eng.first.get((o.sym, c.name), c))))
                         for k, c in sorted(o.fields.items()))


def content(eng, x):
    try:
        return result(eng, x)
    except Unmodelled:
        return None


def result(eng, x):
    v = eng.rv(x) if not isinstance(x, View) else x
    if isinstance(v, Poly) or E.isbool(v):
        return v
    if isarr(v):
        n = freeze(v)
        if v.shape is None:
            return (n,)
        return (tuple(v.shape), n)
    if isinstance(v, eng.models.Mat):
        return eng.models.mat_node(v)
    if isinstance(v, Lst):
        return tuple(result(eng, i) for i in v.items)
    if isinstance(v, Obj):
        return ("obj", v.cls) + tuple((c.name, result(eng, c)) for k, c in sorted(v.fields.items()))
    if v is None:
        return None
    raise Unmodelled("result of type %s" % type(v).__name__)


def variants(x):
    """(entry name, base name): entry::f and entry::f__variant are compared with spec::f."""
    for name, g in x["entry"].items():
        if "entry" in g and not name.startswith("reading"):
            yield name, name.split("__")[0]


def compare(x, name, uf=(), hooks=None, ref=None, free=()):
    """('ok' | 'undecided' | 'diff' | 'none', detail, summary)"""
    if ref is not None:
        return same(x, ref, name, uf, hooks)
    base = name.split("__")[0]
    g = x["entry"][name]
    h = x["entry"].get(base, {})
    if x.get("checks"):
        return checks(x, name, g, h, uf, hooks)
    if "entry" not in g or "spec" not in h:
        raise AnalysisError("driver: %s has no entry or no spec" % name)
    pre = g.get("pre") or h.get("pre") or x["entry"].get("common", {}).get("pre")
    try:
        b = run(x, h["spec"], pre, uf, hooks)
    except Unmodelled as u:
        raise AnalysisError("reference semantics of %s: %s" % (name, u))
    try:
        a = run(x, g["entry"], pre, uf, hooks)
    except Unmodelled as u:
        return "undecided", str(u), None, b
    r = judge(a, b, name)
    if r[0] != "diff" and base not in free:
        d = rejected(a, b)
        if d:
            return "diff", d, a, b
    return r


def checks(x, name, g, h, uf, hooks):
    """The inputs that the code rejects have to be those that the reference rejects. Nothing is known about the inputs."""
    pre = g.get("pre") or h.get("pre") or x["entry"].get("common", {}).get("pre")
    try:
        b = run(x, h["spec"], pre, uf, hooks)
    except Unmodelled as u:
        raise AnalysisError("reference semantics of %s: %s" % (name, u))
    try:
        try:
            a = run(x, g["entry"], pre, uf, hooks, 1)
        except Unmodelled:
            # the equations, solved the other way around
            a = run(x, g["entry"], pre, uf, hooks, 2)
    except Unmodelled as u:
        return "undecided", str(u), None, b
    code = list(interp.clauses(a.asserts))
    need = [(c, "") for r, _ in b.requires for c in interp.split(r)]
    shapes = {**b.shapes, **a.shapes}
    given = a.assumed + b.assumed
    had, want = {c for c, _ in code}, {c for c, _ in need}
    opaque = [w for _, c, w, _ in a.asserts if c is None]
    open_ = []
    rows = interp.linear(had)
    missing = [c for c in dict.fromkeys(c for c, _ in need) if c not in had and not interp.implied(c, rows, had)]
    if missing and not opaque:
        i, k, v = interp.counterexample([c for c, _ in code], missing, shapes, given)
        if i is not None:
            return "diff", ("inputs that are inconsistent are accepted, not checked: %s (valuation %d: %s)" % (cut(T.show(missing[i])), k, interp.sizes(v)), []), a, b
        open_.append("%d conditions are not compared" % len(missing))
    elif missing:
        open_.append("a check is not modelled: %s" % (opaque[0],))
    rows = interp.linear(want)
    extra = [(c, w) for c, w in code if c not in want and not interp.implied(c, rows, want)]
    if extra:
        i, k, v = interp.counterexample([c for c, _ in need], [c for c, _ in extra], shapes, given)
        if i is not None:
            return "diff", ("inputs that are consistent are rejected by %s:%s, which checks: %s (valuation %d: %s)"
                            % (extra[i][1][0], extra[i][1][1], cut(T.show(extra[i][0])), k, interp.sizes(v)), []), a, b
        open_.append("%d checks are not compared" % len(extra))
    if open_:
        return "undecided", "; ".join(open_), a, b
    return "ok", None, a, b


def rejected(a, b):
    """A valid input that the code rejects."""
    code = [(c, w) for c, w in interp.clauses(a.asserts) if "GooseFEM" in w[0]]
    if not code:
        return None
    i, k, v = interp.counterexample([], [c for c, _ in code], {**b.shapes, **a.shapes}, a.assumed + b.assumed, wild=False, trials=60, limit=3)
    if i is None:
        return None
    return "valid input is rejected by %s:%s, which checks: %s (valuation %d: %s)" % (code[i][1][0], code[i][1][1], cut(T.show(code[i][0])), k, interp.sizes(v)), []


def same(x, ref, name, uf, hooks):
    """entry::f of two drivers"""
    try:
        a, b = [run(y, y["entry"][name]["entry"], y["entry"][name].get("pre") or y["entry"].get(name.split("__")[0], {}).get("pre")
                    or y["entry"].get("common", {}).get("pre"), uf, hooks) for y in (x, ref)]
    except Unmodelled as u:
        return "undecided", str(u), None, None
    if not any(t[0].split("::")[-1].startswith("reading") for t in a.trace):
        return "none", None, a, b
    for k, (after, before) in b.changed.items():
        a.out["argument " + k], b.out["argument " + k] = after, before
    return judge(a, b, name)


def judge(a, b, name):
    if set(a.out) != set(b.out):
        raise AnalysisError("driver: %s: outputs of entry and spec differ" % name)
    diffs = []
    for k in b.out:
        if a.out[k] != b.out[k]:
            if T.norm(a.out[k]) == T.norm(b.out[k]):
                continue
            diffs.append((k, a.out[k], b.out[k]))
    if not diffs:
        return "ok", None, a, b
    st, why = interp.witness(diffs, {**b.shapes, **a.shapes}, a.assumed + b.assumed, a.asserts + b.asserts)
    if st == "differ":
        return "diff", (why, diffs), a, b
    if st == "agree":
        return "undecided", "normal forms differ, but no interpretation out of %d tells them apart" % why, a, b
    return "undecided", "normal forms differ; not interpreted: %s" % why, a, b


def describe(d):
    why, d = d
    out = ["  " + why]
    for k, a, b in d:
        out.append("  %s: code: %s" % (k, cut(T.show(a))))
        out.append("  %s: spec: %s" % (" " * len(k), cut(T.show(b))))
    return "\n".join(out)


def cut(s, n=int(os.environ.get("GF_CUT", "300"))):
    return s if len(s) <= n else s[:n] + "..."


if __name__ == "__main__":
    t0 = time.time()
    import catalog
    mod = sys.argv[1]
    x = export(mod)
    y = export(catalog.base(mod)) if catalog.base(mod) else None
    print("export %.1f s" % (time.time() - t0))
    pick = sys.argv[2:]
    for name, base in variants(x):
        if pick and name not in pick:
            continue
        t1 = time.time()
        try:
            st, d, a, b = compare(x, name, ref=y, **catalog.options(mod, name))
        except AnalysisError as u:
            print("%-30s ERROR %s" % (name, u))
            continue
        print("%-30s %s %.2f s" % (name, st, time.time() - t1), "" if st == "ok" else ("\n" + describe(d) if st == "diff" else d))
