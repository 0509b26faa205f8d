"""Which obligations decide which property. Texts of the properties: properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "exact arithmetic: sums of floating-point numbers are taken as sums of reals (order of summation is not observed)",
    "sizes fit their integer type (no wrap-around except where the code subtracts)",
    "xtensor, Eigen and the C++ library behave as documented (they are modelled, not analysed)",
    "the documented preconditions of each call (array shapes) hold; what the code asserts is assumed to be checked",
]

VALUE = (
    "Symbolic value numbering over the type-checked AST: the client of the public API (driver '%s') is abstractly "
    "evaluated through the headers, with every size and every array content symbolic; loops become array-region effects. "
    "The normal form of each output is compared with that of the reference semantics. Nothing of the program is executed. "
    "If normal forms differ, a distinguishing valuation of the two formulas is searched; only then it is a violation."
)

RACES = (
    "Effect analysis of parallel loops: one iteration of every OpenMP loop that the drivers reach is abstractly evaluated with its "
    "counter symbolic; its writes to storage shared by the iterations, and its reads of storage that is written, become array regions. "
    "Discharged if along one axis each iteration has its own position (the counter, a block of it, or a list without duplicates); "
    "violated if a valuation of the inputs shows two iterations that meet."
)

SEVERAL = (
    "Lint over the type-checked AST of all headers: each function and variable defined at namespace or class scope must be a template, "
    "inline, or of internal linkage and constant; each header is guarded against a second inclusion (decided by parsing it twice "
    "if no guard is recognised). Anything else is a violation."
)

BINDINGS = (
    "Lint over the type-checked AST of python/main.cpp (parsed with declarations of pybind11 and xtensor-python that carry the types only): "
    "for each binding the C++ operation it resolves to (overloads, casts, lambdas), the class or module path followed through the calls of "
    "the binding functions, the names and order of the arguments and the defaults are compared with the declaration in the header."
)

READING = (
    "Value-flow comparison of the code with itself: each operation is abstractly evaluated on an object (symbolic sizes and contents), and "
    "again on an object of which everything has been read before (every query, conversion, product, integral and node set, on inputs "
    "about which nothing is known; mutable members, static variables and casts included). The normal forms have to be the same: "
    "%s. Nothing of the program is executed. If they differ, a distinguishing valuation is searched; only then it is a violation."
)

OWNING = (
    "Value-flow comparison of the code with itself: each operation is abstractly evaluated on an object (symbolic sizes and contents), and "
    "again on an object made of arrays and matrices that are overwritten after it has been made (references that a member binds are "
    "followed to what they refer to). The normal forms have to be the same: %s. Nothing of the program is executed. If they differ, "
    "a distinguishing valuation is searched; only then it is a violation."
)

CHECKING = (
    "Static analysis of the assertions: each constructor or method is called (per obligation of the drivers %s) with arguments about which nothing is known. The conditions that the code checks, with "
    "assertions enabled, are collected from the type-checked syntax tree by value-flow analysis, as conditions on the sizes and values of the arguments. They are compared, clause by clause, with the "
    "conditions that the reference requires: each has to be implied by the others (identical normal form, or linear combination of equations, or identical modulo equations). A condition "
    "that is missing (inconsistent arguments are accepted) or additional (consistent arguments are rejected) is a violation once a valuation of the sizes separates the two. Nothing of the program is executed."
)

OWN = ("vector", "vectorpartitioned", "vectortyings", "matrix", "matrixpartitioned", "matrixtyings", "diagonal", "diagonalpartitioned", "periodic",
       "quad4", "planar", "axisym", "hex8", "stitch", "fine2regular")

CHECKED = ("vector", "vectorpartitioned", "vectortyings", "matrix", "matrixpartitioned", "matrixtyings", "diagonal", "diagonalpartitioned", "periodic",
           "quad4", "planar", "axisym", "hex8", "mesh", "stitch")

READ = ("vector", "vectorpartitioned", "vectortyings", "matrix", "matrixpartitioned", "matrixtyings", "diagonal", "diagonalpartitioned", "periodic",
        "quad4", "planar", "axisym", "hex8", "mesh_quad4", "mesh_tri3", "mesh_hex8", "finelayer", "finelayer3", "refine", "fine2regular",
        "fine2regular_data", "stitch", "meshutil", "stoplist")

ELEMENTS = ("hex8", "axisym", "planar", "quad4", "usertri3")

MESHES = ("mesh_hex8", "mesh_tri3", "mesh_quad4")

# id -> equiv: [(driver, regular expression of obligation names)], lints: [function of lints.py]
CHECKS = {
    "C01": {"equiv": [("vector", "(assemble|asElement|export).*"), ("free", "as.*")]},
    "C02": {"equiv": [("vector", "(as|copy).*")]},
    "C03": {"equiv": [("vectorpartitioned", ".*")]},
    "C05": {"equiv": [("matrix", "(?!h_|solve).*")]},
    "C06": {"equiv": [("matrixpartitioned", "(?!h_|solve|dot|reac).*")]},
    "C07": {"equiv": [("matrixpartitioned", "(dot|reac|asm).*")]},
    "C08": {"equiv": [("matrix", "h_.*"), ("matrixpartitioned", "h_.*"), ("matrixtyings", "h_.*")]},
    "C04": {"equiv": [("vectortyings", ".*")]},
    "C10": {"equiv": [("matrixtyings", "(?!h_).*")]},
    "C11": {"equiv": [("periodic", ".*")]},
    "C12": {"equiv": [("diagonal", ".*")]},
    "C13": {"equiv": [("diagonalpartitioned", ".*")]},
    "C14": {"equiv": [("tables", ".*")] + [(d, "interp.*|gradients.*") for d in ELEMENTS]},
    "C15": {"equiv": [(d, "nelem|nne|ndim|tdim|nip|dV.*|gradients.*") for d in ELEMENTS]},
    "C16": {"equiv": [(d, "interp.*|gradN.*|symGradN.*") for d in ELEMENTS]},
    "C17": {"equiv": [(d, "int_.*") for d in ELEMENTS]},
    "C18": {"equiv": [("shapes", ".*")]},
    "C19": {"equiv": [(m, "n(elem|node|ne|dim|elx|ely|elz)|h|elementType|coor|conn|dofs|elementgrid") for m in MESHES]},
    "C20": {"equiv": [(m, "nodes(?!Periodic).*") for m in MESHES]},
    "C21": {"equiv": [(m, "nodesPeriodic|dofsPeriodic") for m in MESHES]},
    "C23": {"equiv": [("stitch", ".*")]},
    "C24": {"equiv": [("meshutil", "renumber.*|reorder.*|dofs"), ("free", "isSequential")]},
    "C25": {"equiv": [("meshutil", "coordination|edgesize.*|centers.*|nodal_mass.*|gravity.*|nodemap.*|type|elem2node.*|node2dof.*|nodaltyings")]},
    "C26": {"equiv": [("refine", ".*"), ("fine2regular", ".*"), ("fine2regular_data", ".*")]},
    "C22": {"equiv": [("finelayer", ".*"), ("layers", ".*"), ("finelayer3", ".*"), ("layers3", ".*")]},
    "C27": {"equiv": [("stoplist", ".*")]},
    "C28": {"lints": ["openmp"], "how": RACES},
    "C29": {"equiv": [("checks_" + d, ".*") for d in CHECKED], "how": CHECKING % ", ".join("checks_" + d for d in CHECKED)},
    "C30": {"lints": ["several"], "how": SEVERAL},
    "C31": {"equiv": [("reading_" + d, ".*") for d in READ], "how": READING % ", ".join(READ)},
    "C38": {"equiv": [("owning_" + d, "(?!.*(__inplace|__update)).*") for d in OWN], "how": OWNING % ", ".join(OWN)},
    "C33": {"lints": ["bindings"], "how": BINDINGS},
    "C32": {"equiv": [("meshutil", "orient.*")]},
    "C09": {"equiv": [("matrix", "solve.*"), ("matrixpartitioned", "solve.*")]},
}


def base(mod):
    """Drivers "reading_x" and "owning_x" are compared with driver "x": the same code, without what READ adds."""
    kind, _, x = mod.partition("_")
    return x if kind in ("reading", "owning") else None


def options(mod, name):
    return OPTIONS.get(base(mod) or mod, {})


def ieee(eng):
    eng.ieee = True


def pairs(eng):
    """Mesh::overlapping: two rows"""
    import terms as T
    eng.uf_shape = lambda f, args, node, r: (T.num(2), T.fn("dim1", node, isint=True, nonneg=True))


def coarsening(eng):
    """FineLayer::init: at least one layer; sizes for which the mesh is coarsened"""
    import random
    import interp
    eng.atleast = {"nely": 1}
    eng.symshape["# nelx"] = lambda v: random.Random(interp.h(v.seed, "nelx")).choice([1, 2, 3, 6, 9, 9, 18, 27, 27, 54])
    eng.symshape["# nelz"] = lambda v: random.Random(interp.h(v.seed, "nelz")).choice([1, 2, 3, 6, 9, 9, 18, 27])
    eng.symshape["# nely"] = lambda v: 1 + interp.h(v.seed, "nely") % 45
    eng.symshape["# nfine"] = lambda v: interp.h(v.seed, "nfine") % 12


# stoplist: residuals may be NaN
# free: what the code checks is not a matter of the shape or range of one input, it is assumed
OPTIONS = {"finelayer": {"free": ("around", "leftright")}, "meshutil": {"free": ("nodaltyings", "elem2node_ties", "elem2node_ties_unsorted")}, "layers": {"hooks": coarsening}, "layers3": {"hooks": coarsening}, "stoplist": {"hooks": ieee}, "stitch": {"hooks": pairs, "uf": ("GooseFEM::Mesh::overlapping",)}}
OPTIONS["checks_stitch"] = OPTIONS["stitch"]


def load():
    props = {}
    with open(ROOT + "/properties.jsonl") as f:
        for line in f:
            p = json.loads(line)
            if p["id"] in CHECKS:
                c = dict(CHECKS[p["id"]])
                c["title"] = p["title"]
                c["how"] = c.get("how") or VALUE % ", ".join(sorted({m for m, _ in c.get("equiv", ())}))
                props[p["id"]] = c
    return props


PROPS = load()

NOTE = (
    "Each obligation holds for all inputs (symbolic sizes and contents) in exact arithmetic, given models of xtensor and Eigen "
    "and the documented preconditions. Obligations whose normal forms cannot be compared are reported as undecided, never as a violation."
)
