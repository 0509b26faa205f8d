#!/usr/bin/env python3
"""python3 check.py <property> [--thorough]: decide one property on the current tree of /repo."""
import json
import multiprocessing
import os
import re
import signal
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + "/lib")
import driver
import catalog

LIMIT = 400
TOTAL = 800
START = time.time()
X = {}


class Late(Exception):
    pass


def late(*a):
    raise Late()


def lemmas(summaries):
    fs = set()
    for s in summaries:
        if s is not None:
            fs |= set(s.trace)
    return fs


def one(job):
    mod, name = job
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, int(min(LIMIT, TOTAL - (time.time() - START)))))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        st, d, a, b = driver.compare(X[mod], name, ref=X.get(catalog.base(mod)), **catalog.options(mod, name))
        text = driver.describe(d) if st == "diff" else d
        tr = sorted(lemmas([a]))
        where = [t for t in tr if "GooseFEM" in t[0]] or tr
        return mod, name, st, text, where, time.time() - t0
    except driver.AnalysisError as e:
        return mod, name, "undecided", str(e), [], time.time() - t0
    except Late:
        return mod, name, "undecided", "out of time", [], time.time() - t0
    except (RecursionError, MemoryError) as e:
        return mod, name, "undecided", type(e).__name__, [], time.time() - t0
    except Exception as e:
        if os.environ.get("GF_DEBUG"):
            raise
        return mod, name, "undecided", "%s: %s" % (type(e).__name__, e), [], time.time() - t0
    finally:
        signal.alarm(0)


def rel(p):
    return p.replace(driver.REPO + "/", "")


def known():
    out = []
    with open(ROOT + "/known_findings.txt") as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) at=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier == "thorough":
        driver.interp.TRIALS, driver.interp.WANT, driver.interp.LIMIT = 2400, 96, 4 * driver.interp.LIMIT
    driver.interp.SEED = seed
    spec = catalog.PROPS[pid]
    t0 = time.time()
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    os.makedirs(ROOT + "/build", exist_ok=True)
    for f in os.listdir(ROOT + "/evidence"):
        if f.startswith(pid + "."):
            os.remove(ROOT + "/evidence/" + f)
    driver.build_tool()
    mods = {m for m, _ in spec.get("equiv", ())}
    mods = sorted(mods | {catalog.base(m) for m in mods if catalog.base(m)})
    undecided, discharged, bad, functions, samples = [], [], [], set(), []
    jobs = []
    notbuilt = []
    if mods:
        with multiprocessing.Pool(min(8, len(mods))) as pool:
            paths = pool.map(driver.export_file, mods)
        for mod, path, err in paths:
            if err:
                notbuilt.append(mod)
                undecided.append({"obligation": mod, "why": err[:1500]})
            else:
                X[mod] = driver.load(path)
        for m, rx in spec["equiv"]:
            if m in X and (not catalog.base(m) or catalog.base(m) in X):
                names = [n for n, _ in driver.variants(X[m]) if re.fullmatch(rx, n)]
                if not names:
                    sys.exit("catalog: %s matches nothing in %s" % (rx, m))
                jobs += [(m, n) for n in names if (m, n) not in jobs]
        with multiprocessing.Pool(8, maxtasksperchild=20) as pool:
            for mod, name, st, text, where, dt in pool.imap_unordered(one, jobs, chunksize=1):
                o = mod + "/" + name
                functions |= {(q, rel(f), n) for q, f, n in where}
                if st == "ok":
                    discharged.append(o)
                elif st == "none":
                    pass
                elif st == "undecided":
                    undecided.append({"obligation": o, "why": text[:600]})
                else:
                    bad.append((o, text, [(q, rel(f), n) for q, f, n in where]))
    for lint in spec.get("lints", ()):
        import lints
        r = getattr(lints, lint)(tier)
        discharged += ["%s: %s" % (lint, k) for k in r.discharged]
        undecided += [{"obligation": "%s: %s" % (lint, k), "why": w} for k, w in r.undecided]
        functions |= {(q, rel(f), n) for q, f, n in r.functions}
        bad += [("%s/%s" % (lint, k), t, [(q, rel(f), n) for q, f, n in w]) for k, t, w in r.bad]
    if not discharged and not bad and not undecided:
        sys.exit("no obligation at all")
    discharged.sort()
    bad.sort()
    undecided.sort(key=lambda u: u["obligation"])
    kf = {at: what for p, at, what in known() if p == pid}
    new = []
    for o, text, where in bad:
        if o in kf:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, o, kf[o]))
        else:
            new.append((o, text, where))
    for k, (o, text, where) in enumerate(new):
        path = "%s/evidence/%s.%d.txt" % (ROOT, pid, k)
        with open(path, "w") as f:
            f.write("property %s: %s\nobligation: %s\nconstructs analysed:\n" % (pid, spec["title"], o))
            for q, fl, n in where:
                f.write("  %s (%s:%s)\n" % (q, fl, n))
            f.write("%s\n%s\n" % ("violated:" if ": " in o.split("/")[0] or o.split("/")[0] in spec.get("lints", ()) else
                                 "the summary derived from the code differs from the specified one:", text))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s" % o)
        print("\n".join("  " + t for t in text.split("\n")[:12]))
    for u in undecided:
        print("UNDECIDED property=%s %s: %s" % (pid, u["obligation"], u["why"].split("\n")[0][:200]))
    n = len(discharged) + len(undecided) + len(bad)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": spec["how"],
            "obligations": n, "discharged": len(discharged), "undecided": undecided,
            "discharged_obligations": discharged,
            "violated_obligations": [o for o, _, _ in bad],
            "functions_analysed": sorted("%s (%s:%s)" % x for x in functions),
            "drivers": mods,
        },
        "assumptions": catalog.ASSUMPTIONS + spec.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open("%s/evidence/%s.json" % (ROOT, pid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("property %s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)"
          % (pid, n, len(discharged), len(undecided), len(bad), time.time() - t0))
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
