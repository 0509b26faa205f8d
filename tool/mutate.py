#!/usr/bin/env python3
"""mutate.py <file> <n> [seed]: small random changes of a header (in a scratch copy), and which of them the drivers do not see."""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

R = "/repo"
D = {
    "Vector.h": ["vector", "checks_vector"],
    "VectorPartitioned.h": ["vectorpartitioned", "checks_vectorpartitioned"],
    "VectorPartitionedTyings.h": ["vectortyings", "checks_vectortyings"],
    "Matrix.h": ["matrix", "checks_matrix"],
    "MatrixPartitioned.h": ["matrixpartitioned", "checks_matrixpartitioned"],
    "MatrixPartitionedTyings.h": ["matrixtyings", "checks_matrixtyings"],
    "MatrixDiagonal.h": ["diagonal", "checks_diagonal"],
    "MatrixDiagonalPartitioned.h": ["diagonalpartitioned", "checks_diagonalpartitioned"],
    "TyingsPeriodic.h": ["periodic", "checks_periodic"],
    "Element.h": ["shapes", "hex8", "quad4", "axisym", "free", "usertri3", "checks_hex8", "checks_axisym"],
    "ElementQuad4.h": ["tables", "quad4", "checks_quad4"],
    "ElementQuad4Planar.h": ["planar", "checks_planar"],
    "ElementQuad4Axisymmetric.h": ["axisym", "checks_axisym"],
    "ElementHex8.h": ["tables", "hex8", "checks_hex8"],
    "Allocate.h": ["shapes", "meshutil", "matrix", "quad4", "axisym", "free"],
    "Iterate.h": ["stoplist"],
    "Mesh.h": ["meshutil", "stitch", "mesh_quad4", "mesh_hex8", "free", "checks_mesh", "checks_stitch"],
    "MeshTri3.h": ["mesh_tri3", "meshutil", "checks_mesh"],
    "MeshQuad4.h": ["mesh_quad4", "finelayer", "layers", "refine", "fine2regular", "fine2regular_data", "checks_mesh"],
    "MeshHex8.h": ["mesh_hex8", "finelayer3", "layers3", "checks_mesh"],
    "detail.h": ["hex8", "quad4", "axisym", "free"],
}
RULES = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" == ", " != "), (r" \+= ", " = "), (r" = ", " += "),
    (r" \* ", " + "), (r" / ", " * "), (r"m_nelx", "m_nely"), (r"m_nely", "m_nelx"), (r"m_nelz", "m_nely"), (r"m_nnu\b", "m_nnp"), (r"m_nnp\b", "m_nnu"), (r"m_nni\b", "m_nnd"), (r"m_iiu\b", "m_iip"),
    (r"m_iip\b", "m_iiu"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"&&", "||"), (r"\|\|", "&&"), (r"\(0\)", "(1)"), (r"\b0, ", "1, "), (r", 0\b", ", 1"), (r", 1\b", ", 0"), (r", 2\b", ", 1"), (r", 3\b", ", 2"),
    (r"size_t (\w+) = 0;", r"size_t \1 = 1;"), (r"0\.5", "1.0"), (r"\b1\.0", "2.0"), (r"\(i, j\)", "(j, i)"), (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"m_nnode", "m_nelem"), (r"m_nelem", "m_nnode"), (r"m_ndim", "m_nne"),
    (r"\bx_u\b", "x_p"), (r"\bb_u\b", "b_p"), (r"m_T(\w)(\w)\b", r"m_T\2\1"), (r"m_A(\w)(\w)\b", r"m_A\2\1"), (r"\bmin\b", "max"), (r"amax", "amin"), (r"^( *)[\w(,. :)<>&*+-]+ \+?= .*;$", ""), (r"^( *)[\w.]+\([^{}]*\);$", ""),
    (r"^( *)[\w.:\->]+(push_back|fill|clear|reserve)\(.*\);$", ""), (r"^#pragma omp.*$", ""), (r"^( *)continue;$", r"\1break;"), (r"shape\(0\)", "shape(1)"), (r"shape\(1\)", "shape(0)"), (r"xt::range\((\w+), ", r"xt::range(\1 + 1, "),
]


def candidates(lines):
    out = []
    block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            block = True
        if block:
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "#include", "#define", "#if", "#end", "template", "namespace", "using", "GOOSEFEM_WIP", "return;", "throw")):
            continue
        code = l.split("//")[0].rstrip("\n").rstrip()
        for k, (a, b) in enumerate(RULES):
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code:
                    out.append((i, n + "\n", k))
    return out


def one(job):
    f, i, new, work = job
    d = "/tmp/mutant%s" % work
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(R + "/include", d + "/include")
    p = d + "/include/GooseFEM/" + f
    lines = open(p).read().splitlines(True)
    old = lines[i]
    lines[i] = new
    open(p, "w").writelines(lines)
    und = []
    try:
        for drv in D[f]:
            try:
                r = subprocess.run([sys.executable, "lib/driver.py", drv], cwd="/verif", env=dict(os.environ, GF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                und.append(drv + " timeout")
                continue
            if "does not compile" in r.stdout:
                return "nocompile", f, i, old, new, ""
            ks = [l.split() for l in r.stdout.splitlines() if re.match(r"\w+ +(ok|diff|undecided|none) ", l)]
            b = [k[0] for k in ks if k[1] == "diff"]
            if b:
                return "caught", f, i, old, new, drv + "/" + b[0]
            u = [k[0] for k in ks if k[1] == "undecided"]
            if u:
                und.append(drv + ":" + ",".join(u)[:80])
            if not ks:
                und.append(drv + " " + r.stdout[-100:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "undecided" if und else "survived", f, i, old, new, "; ".join(und)[:300]


if __name__ == "__main__":
    f, n = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(sys.argv[3] if len(sys.argv) > 3 else "1")
    lines = open(R + "/include/GooseFEM/" + f).read().splitlines(True)
    c = candidates(lines)
    # spread over rules and lines
    rnd.shuffle(c)
    seen, pick = {}, []
    for t in sorted(c, key=lambda t: rnd.random()):
        if len(pick) < n and not any(t[0] == x[0] for x in pick) and seen.get(t[2], 0) < max(2, n // 8):
            seen[t[2]] = seen.get(t[2], 0) + 1
            pick.append(t)
    count = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for r in ex.map(one, [(f, i, new, "%s%d" % (f.split(".")[0], k)) for k, (i, new, _) in enumerate(pick)]):
            count[r[0]] = count.get(r[0], 0) + 1
            if r[0] in ("survived", "undecided"):
                print("%s %s:%d\n    - %s\n    + %s\n    %s" % (r[0], r[1], r[2] + 1, r[3].strip(), r[4].strip(), r[5]), flush=True)
    print(f, count)
