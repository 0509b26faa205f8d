"""Writes props/mesh_hex8.cpp: every accessor of the regular hexahedral mesh, against its position."""
import itertools
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AX = {"Left": ("x", 0), "Right": ("x", 1), "Bottom": ("y", 0), "Top": ("y", 1), "Front": ("z", 0), "Back": ("z", 1)}
RANK = {"z": 0, "y": 1, "x": 2}  # Front/Back first, then Bottom/Top, then Left/Right
HDR = open("/repo/include/GooseFEM/Mesh.h").read()
P = "size_t nx, size_t ny, size_t nz, double h"
NAME = {"x": "i", "y": "j", "z": "k"}


def canonical(words):
    return "".join(sorted(words, key=lambda w: RANK[AX[w][0]]))


def node(fix, off):
    """Node number; free directions are counters (shifted by off)."""
    c = {}
    for a in "xyz":
        if a in fix:
            c[a] = ["0", "n" + a][fix[a]]
        else:
            c[a] = "(%s + 1)" % NAME[a] if off else NAME[a]
    return "(%s * (ny + 1) + %s) * (nx + 1) + %s" % (c["z"], c["y"], c["x"])


def sets():
    """(name, canonical name) of all node sets of the interface."""
    out = []
    for n in range(1, 4):
        for ws in itertools.permutations(AX, n):
            if len({AX[w][0] for w in ws}) != n:
                continue
            for suffix in {1: ["", "Face"], 2: ["Edge", "OpenEdge"], 3: ["Corner"]}[n]:
                out.append(("nodes" + "".join(ws) + suffix, "nodes" + canonical(ws) + suffix, ws, suffix))
    return out


def main():
    e, s = [], []
    done = set()
    for name, can, ws, suffix in sorted(sets(), key=lambda t: (t[1], t[0] != t[1], t[0])):
        if not re.search(r"auto %s\(\) const" % name, HDR):
            raise SystemExit("not in the interface: " + name)
        t = "size_t" if suffix == "Corner" else "I1"
        e.append("%s %s(%s) { MADE; return m.%s(); }" % (t, can if name == can else can + "__" + name, P, name))
        if can in done:
            continue
        done.add(can)
        fix = {AX[w][0]: AX[w][1] for w in ws}
        off = suffix in ("Face", "OpenEdge")
        free = [a for a in "zyx" if a not in fix]
        n = {a: "(n%s - 1)" % a if off else "(n%s + 1)" % a for a in free}
        if not free:
            s.append("size_t %s(%s) { return %s; }" % (can, P, node(fix, off)))
            continue
        pos = NAME[free[0]] if len(free) == 1 else "%s * %s + %s" % (NAME[free[0]], n[free[1]], NAME[free[1]])
        s.append("I1 %s(%s)\n{\n    I1 r;\n    vf::shape(r, %s);\n    %s r(%s) = %s;\n    return r;\n}" % (
            can, P, " * ".join(n[a] for a in free), " ".join("FOR(%s, %s)" % (NAME[a], n[a]) for a in free), pos, node(fix, off)))
    have = set(re.findall(r"auto (nodes\w+)\(\) const", HDR[HDR.index("class RegularBase3d"):HDR.index("overlapping nodes")]))
    rest = have - {x[0] for x in sets()} - {"nodesPeriodic_impl", "nodesOrigin_impl"}
    if rest:
        raise SystemExit("not covered: %s" % sorted(rest))
    # periodic pairs
    per = []
    o = "FrontBottomLeftCorner"
    for c in ["FrontBottomRight", "BackBottomRight", "BackBottomLeft", "FrontTopLeft", "FrontTopRight", "BackTopRight", "BackTopLeft"]:
        per.append((o, c + "Corner"))
    edges = [("FrontBottom", ["BackBottom", "BackTop", "FrontTop"]), ("BottomLeft", ["BottomRight", "TopRight", "TopLeft"]),
             ("FrontLeft", ["FrontRight", "BackRight", "BackLeft"])]
    faces = [("Front", "Back"), ("Left", "Right"), ("Bottom", "Top")]

    def code(words):
        ws = re.findall("[A-Z][a-z]+", words)
        return {AX[w][0]: AX[w][1] for w in ws}
    L = []
    for n, (a, b) in enumerate(per):
        L.append("    r(%d, 0) = 0;" % n)
        L.append("    r(%d, 1) = %s;" % (n, node(code(b[:-6]), True)))
    start = "7"
    groups = [(a, b) for a, bs in edges for b in bs] + faces
    L.append("    size_t at = 7;")
    for a, b in groups:
        fa, fb = code(a), code(b)
        free = [x for x in "zyx" if x not in fa]
        n = {x: "(n%s - 1)" % x for x in free}
        pos = NAME[free[0]] if len(free) == 1 else "%s * %s + %s" % (NAME[free[0]], n[free[1]], NAME[free[1]])
        # counted along the set, as nodes are looked up in the list of the set
        L.append("    {\n        I1 a = nodes%s%s(nx, ny, nz, h);\n        I1 b = nodes%s%s(nx, ny, nz, h);" % (
            a, "OpenEdge" if len(fa) == 2 else "Face", b, "OpenEdge" if len(fa) == 2 else "Face"))
        cnt = " * ".join(n[x] for x in free)
        L.append("        FOR(q, %s)\n        {\n            r(at + q, 0) = a(q);\n            r(at + q, 1) = b(q);\n        }" % cnt)
        L.append("        at += %s;\n    }" % cnt)
    total = "7 + 3 * (nx - 1) + 3 * (ny - 1) + 3 * (nz - 1) + (nx - 1) * (ny - 1) + (nx - 1) * (nz - 1) + (ny - 1) * (nz - 1)"
    s.append("I2 nodesPeriodic(%s)\n{\n    I2 r;\n    vf::shape(r, %s, 2);\n%s\n    return r;\n}" % (P, total, "\n".join(L)))
    out = open(os.path.join(ROOT, "tool", "mesh_hex8.in")).read()
    out = out.replace("@ENTRY@", "\n".join(e)).replace("@SPEC@", "\n".join(s))
    with open(os.path.join(ROOT, "props", "mesh_hex8.cpp"), "w") as f:
        f.write(out)


main()
