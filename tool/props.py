#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one source of the texts)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, na=None, note=None, tech=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  na=na, note=note, tech=tech, state=state))


I = "include/GooseFEM/"
INP = ["inputs"]

prop("C01", "Assembly sums every contribution exactly once",
     "Assembling a nodal or element vector into a DOF or nodal vector gives at every DOF (node) exactly the sum of all entries "
     "that the DOF numbering and the connectivity route there, and zero elsewhere. "
     "Distributing nodal or DOF values over the elements gives each element the value of its own nodes. "
     "This does not depend on earlier content of an output passed by the caller.",
     INP, "every connectivity, every DOF numbering (also with shared DOFs), every input, fixed and run-time rank",
     "the tests use one or two small regular meshes with one periodic DOF numbering",
     [I + "Vector.h"], [("assembly and distribution loops", I + "Vector.h: class Vector")])
prop("C02", "Conversions between DOF, nodal and element vectors",
     "Converting a vector between storage per DOF, per node and per element reproduces at each destination entry the value "
     "of the source entry with the same DOF or node. "
     "Entries that nothing maps to are zero, and earlier content of an output passed by the caller is irrelevant.",
     INP, "every connectivity and DOF numbering, every input, fixed and run-time rank",
     "the tests compare round trips on one mesh with one numbering",
     [I + "Vector.h"], [("conversion loops", I + "Vector.h: class Vector")])
prop("C03", "Routing between prescribed and unknown DOFs",
     "For a system with prescribed DOFs, the lists and masks of unknown and prescribed DOFs complement each other; extracting the "
     "unknown or prescribed part of a vector, combining both parts, and copying only one part of a nodal vector take and place "
     "the value of exactly the matching DOF. Entries outside the addressed part are left alone.",
     INP, "every connectivity, DOF numbering and set of prescribed DOFs, every input and storage (DOF, node, element)",
     "the tests use one mesh with one numbering and one set of prescribed DOFs",
     [I + "VectorPartitioned.h"], [("partitioned conversions", I + "VectorPartitioned.h: class VectorPartitioned"),
                                   ("reordering", I + "Mesh.h: class Reorder")])
prop("C04", "Routing of vectors with tied DOFs",
     "With DOFs tied to others by linear equations, unknown, prescribed, independent and dependent parts of a vector are taken "
     "and placed consistently with the numbering of the tyings. The condensed load on the independent DOFs is the load on "
     "them plus the transpose of the tyings applied to the load on the dependent DOFs.",
     INP, "every connectivity, numbering and set of tyings, every input",
     "there is no test of this class in the C++ suite",
     [I + "VectorPartitionedTyings.h"], [("conversions", I + "VectorPartitionedTyings.h: class VectorPartitionedTyings")])
prop("C05", "Global matrix: assembly, access and product",
     "The global matrix has at each pair of DOFs exactly the sum of the element-matrix entries that connectivity and DOF numbering "
     "route there; setting replaces the matrix by the given block, adding adds it, at exactly the addressed entries; the dense form and the product with "
     "a nodal or DOF vector are those of that matrix. Sizes and numbering are reported as given.",
     INP, "every connectivity and DOF numbering, all element matrices, rows, columns and vectors",
     "the tests use one mesh and one matrix, and compare with the same assembly",
     [I + "Matrix.h"], [("assembly, set, add, dot, todense", I + "Matrix.h: classes MatrixBase, Matrix")])
prop("C06", "Partitioned matrix: four blocks of the one matrix",
     "A matrix partitioned in unknown and prescribed DOFs holds each entry of the assembled matrix in exactly one of its four "
     "blocks, at the position of its DOFs in the lists of unknown and prescribed DOFs; setting, adding and the dense form "
     "address the same entries as for the matrix that is not partitioned.",
     INP, "every connectivity, DOF numbering, set of prescribed DOFs, all element matrices, rows and columns",
     "the tests only look at the matrix through one solve",
     [I + "MatrixPartitioned.h"], [("assembly to four blocks", I + "MatrixPartitioned.h: class MatrixPartitioned")])
prop("C07", "Partitioned matrix: product and reaction forces",
     "The product of a partitioned matrix with a vector is the product of the whole matrix with it. The reaction forces replace "
     "only the prescribed entries of the external force, by the product restricted to the prescribed DOFs; the other entries are kept.",
     INP, "every connectivity, DOF numbering, set of prescribed DOFs, matrix and vector, nodal and DOF storage",
     "the tests look at one mesh and one loading",
     [I + "MatrixPartitioned.h", I + "Matrix.h"], [("dot, reaction", I + "MatrixPartitioned.h; " + I + "Matrix.h: MatrixPartitionedBase")])
prop("C08", "A solver never uses an outdated factorization",
     "A solve uses the content the matrix has at that moment: after any history of assembling, setting, adding, solving, copying "
     "or replacing matrices, with any number of solvers and matrices, the result is that of a new solver on an equal matrix.",
     ["histories"], "histories of up to four steps of assemble, set, add, solve with one or two matrices and one or two solvers (enumerated), symbolic content",
     "the tests solve once per matrix",
     [I + "Matrix.h", I + "MatrixPartitioned.h", I + "MatrixPartitionedTyings.h"],
     [("change stamps", I + "Matrix.h: MatrixSolverBase and friends")],
     state=[("change flag / stamp", "which content a factorization belongs to", I + "Matrix.h")])
prop("C09", "Solving keeps prescribed values and solves for the unknown ones",
     "Solving a (partitioned) system returns the prescribed entries as given and, at the unknown DOFs, the solution of the block of the "
     "unknown DOFs for the load minus the contribution of the prescribed values; this holds for nodal, DOF and separate-part input.",
     INP, "every connectivity, DOF numbering, set of prescribed DOFs, matrix, load and prescribed values (for an exact linear solver)",
     "the tests solve two systems",
     [I + "Matrix.h", I + "MatrixPartitioned.h"], [("solve", I + "MatrixPartitioned.h: class MatrixPartitionedSolver")])
prop("C10", "Systems with tied DOFs are condensed exactly",
     "For a system with tyings, every entry of the assembled matrix is in exactly one of its nine blocks; a solve returns "
     "prescribed values as given, dependent values by the tyings, and unknown values by the condensed system: matrix and "
     "load with the dependent DOFs eliminated.",
     INP, "every connectivity, numbering, tyings, element matrices, load and prescribed values",
     "there is no test of this class in the C++ suite",
     [I + "MatrixPartitionedTyings.h"], [("condensation", I + "MatrixPartitionedTyings.h")])
prop("C11", "Periodic tyings express the affine periodicity",
     "The tyings of a periodic mesh make, for each pair of nodes and each direction, the dependent DOF equal to the independent DOF plus the "
     "control DOFs weighted with the difference in position of the pair. The renumbered DOFs list unknown, prescribed and dependent DOFs "
     "contiguously in that order, and control nodes get new nodes and DOFs after the existing ones.",
     INP, "every set of node pairs, coordinates, DOF numbering, control DOFs and prescribed DOFs",
     "there is no test of this class in the C++ suite",
     [I + "TyingsPeriodic.h"], [("tyings", I + "TyingsPeriodic.h: classes Periodic, Control")])
prop("C12", "Diagonal matrix",
     "Assembling element matrices into a diagonal matrix sums the diagonal entries per DOF and rejects element matrices with other "
     "entries; product and solution multiply or divide by that diagonal per DOF; the inverse used always belongs to the current content.",
     ["inputs", "histories"], "every connectivity and numbering, all element matrices; histories of assemble, set and solve",
     "the tests use one mesh and one matrix",
     [I + "MatrixDiagonal.h", I + "Element.h"], [("assembly, dot, solve", I + "MatrixDiagonal.h")])
prop("C13", "Diagonal matrix with prescribed DOFs",
     "For a diagonal matrix with prescribed DOFs, product, solution and reaction forces equal those of the whole diagonal matrix restricted to "
     "unknown and prescribed DOFs; prescribed values are returned as given.",
     ["inputs", "histories"], "every connectivity, numbering, set of prescribed DOFs, all element matrices and vectors; histories of assemble and solve",
     "the tests use one mesh and one matrix",
     [I + "MatrixDiagonalPartitioned.h"], [("dot, solve, reaction", I + "MatrixDiagonalPartitioned.h")])
prop("C14", "Quadrature rules and shape functions",
     "The predefined quadrature rules have the documented points and weights (integrating the unit cell exactly), and at each "
     "integration point the shape functions and their local gradients are those of the bi-/trilinear element, for predefined and custom points.",
     INP, "all element types, all predefined rules, arbitrary custom points and weights",
     "the tests only integrate on two meshes with undistorted elements",
     [I + "ElementQuad4.h", I + "ElementHex8.h", I + "ElementQuad4Planar.h", I + "ElementQuad4Axisymmetric.h"],
     [("tables", I + "ElementQuad4.h, " + I + "ElementHex8.h: namespaces Gauss, Nodal, MidPoint; class Quadrature")])
prop("C15", "Shape function gradients and integration volume",
     "For arbitrarily shaped elements, the shape function gradients at each integration point are the local gradients times the inverse Jacobian, and the "
     "integration volume is weight times Jacobian determinant (times thickness, or circumference if axisymmetric). "
     "After an update of the nodal positions, both belong to the new positions.",
     ["inputs", "histories"], "all element types, nodal positions and quadrature points; construct and update histories",
     "the tests use axis-aligned elements only and never update the positions",
     [I + "Element.h", I + "ElementQuad4.h", I + "ElementHex8.h", I + "ElementQuad4Planar.h", I + "ElementQuad4Axisymmetric.h"],
     [("gradients and volume", I + "Element.h: QuadratureBaseCartesian::compute_dN_impl and overrides"), ("update", "update_x")])
prop("C16", "Gradients and interpolation of nodal fields",
     "The gradient of a nodal field at an integration point is the sum over the nodes of shape function gradient times nodal value; its transpose and "
     "symmetrized forms are the transpose and symmetric part of it; interpolation is the sum of shape function times nodal value. "
     "Gradients in the 3-d frame of planar and axisymmetric elements have the documented extra components.",
     INP, "all element types, positions, quadrature points and nodal fields",
     "the tests use one affine field on undistorted elements",
     [I + "Element.h", I + "ElementQuad4.h", I + "ElementHex8.h", I + "ElementQuad4Planar.h", I + "ElementQuad4Axisymmetric.h"],
     [("gradient operators", I + "Element.h: gradN_vector, symGradN_vector, interpQuad_vector")])
prop("C17", "Element integrals",
     "The element vectors and matrices of the integral operators are exactly the quadrature sums of the documented integrands: shape function "
     "times vector, product of shape functions times scalar, gradient times second-order tensor, and gradient times fourth-order tensor times gradient.",
     INP, "all element types, positions, quadrature points and integrands",
     "the tests use homogeneous integrands on undistorted elements",
     [I + "Element.h", I + "ElementQuad4.h", I + "ElementHex8.h", I + "ElementQuad4Planar.h", I + "ElementQuad4Axisymmetric.h"],
     [("integral operators", I + "Element.h: int_N_vector_dV, int_N_scalar_NT_dV, int_gradN_dot_tensor2_dV, int_gradN_dot_tensor4_dot_gradNT_dV")])
prop("C18", "Shapes of allocated quantities",
     "Reported sizes and shapes, and arrays allocated by vectors and quadratures, have the documented dimensions and, if a value is given, that value everywhere. "
     "Converting a scalar per integration point to a tensor repeats the scalar in every component.",
     INP, "all numbers of elements, nodes and integration points, tensor ranks 0 to 4",
     "the tests check one size",
     [I + "Allocate.h", I + "Element.h", I + "Vector.h"], [("allocation", I + "Allocate.h, " + I + "Element.h: QuadratureBase, " + I + "Vector.h")])
prop("C19", "Regular meshes: nodes, elements and sizes",
     "A regular mesh of quadrilaterals, triangles or hexahedra has its nodes on the regular grid (x fastest), each element refers to the nodes of its own cell in "
     "the documented orientation, the reported counts match the arrays, and DOFs are numbered node by node.",
     INP, "all mesh sizes and element sizes",
     "the tests construct a few sizes",
     [I + "Mesh.h", I + "MeshQuad4.h", I + "MeshTri3.h", I + "MeshHex8.h"], [("coor_impl, conn_impl", I + "MeshQuad4.h, MeshTri3.h, MeshHex8.h")])
prop("C20", "Boundary node sets of regular meshes",
     "Each node set of a regular mesh (side, face, edge, corner; with or without end points) lists exactly the nodes on that part of the boundary, in order of position, and "
     "every alternative name returns the same set.",
     INP, "all mesh sizes, all named node sets in two and three dimensions",
     "the tests check one size",
     [I + "Mesh.h", I + "MeshQuad4.h", I + "MeshTri3.h", I + "MeshHex8.h"], [("nodes*_impl", I + "MeshQuad4.h, MeshTri3.h, MeshHex8.h")])
prop("C21", "Periodic node pairs and DOFs of regular meshes",
     "The periodic pairs of a regular mesh tie every node of a right/top/back boundary part to exactly the node opposite to it, each node being dependent once, and the "
     "periodic DOF numbering gives tied nodes the same DOFs and is otherwise gap-free.",
     INP, "all mesh sizes in two and three dimensions",
     "the tests check one size",
     [I + "Mesh.h", I + "MeshHex8.h"], [("nodesPeriodic, dofsPeriodic", I + "Mesh.h: RegularBase2d, RegularBase3d")])
prop("C22", "Layered refined mesh",
     "The layers of a mesh with refined layers are chosen by the documented rule (a coarser layer is added only while its blocks fit and stay smaller than the distance to the middle layer, symmetrically about it), and "
     "numbers of elements and nodes, node and element numbering, coordinates, connectivity, element queries (of a layer, in a region, around an element) and boundary node sets all agree with that layer table; "
     "boundary sets list each node of that boundary once. In two and in three dimensions.",
     INP, "all requested sizes for the choice of layers; all layer tables (number of layers, elements per layer and refinement symbolic) for what follows from it",
     "the tests check two sizes",
     [I + "MeshQuad4.h", I + "MeshHex8.h"], [("layer tables", I + "MeshQuad4.h: class FineLayer; MeshHex8.h: class FineLayer")])
prop("C23", "Stitching meshes",
     "Stitching concatenates the meshes, removes exactly the overlapping nodes of the later mesh, and keeps geometry: every element of the stitched mesh has the node positions it had in its own mesh "
     "(shifted if stacked). Node, element and set maps of each part refer to the same entities before and after.",
     INP, "any number of meshes, all connectivities, coordinates and overlapping sets",
     "the tests stitch two or three small regular meshes",
     [I + "Mesh.h"], [("stitching", I + "Mesh.h: ManualStitch, Stitch, Vstack")])
prop("C24", "Renumbering of DOFs",
     "Renumbering maps the DOFs to consecutive numbers keeping their order; reordering puts the given lists of DOFs first to last in the given order. Both apply the same map to every "
     "occurrence, and equal numbers stay equal and different ones different. Whether a numbering is gap-free is reported truthfully.",
     INP, "all DOF arrays and lists of DOFs",
     "the tests use one example",
     [I + "Mesh.h"], [("renumbering", I + "Mesh.h: classes Renumber, Reorder, namespace detail")])
prop("C25", "Mesh queries follow the connectivity",
     "Element edge lengths, element centres, coordination numbers, element lists per node (without ties), nodal mass, centre of gravity, node ties, and maps from element to nodal numbering follow from connectivity and "
     "coordinates exactly as documented, for every mesh.",
     INP, "all connectivities, coordinates and DOF numberings",
     "the tests use a few regular meshes",
     [I + "Mesh.h"], [("mesh utilities", I + "Mesh.h: elem2node, coordination, edgesize, centers, nodal_mass, ...")])
prop("C26", "Maps between coarse and refined meshes",
     "Refining a regular mesh gives a mesh with the product number of elements whose map lists for each coarse element exactly its own fine cells, in row-major order; mapping data to fine copies the value of the "
     "containing coarse element, and averaging back takes the mean over exactly these cells. The map from a mesh with refined layers to the regular mesh of its finest elements lists for every element the cells it "
     "covers, with fraction one half for the cells its slanted edges cut; mapping data accumulates fraction times value in every listed cell.",
     INP, "all mesh sizes, refinement factors, layer tables and data",
     "the tests check one size",
     [I + "MeshQuad4.h"], [("maps", I + "MeshQuad4.h: namespace Map")])
prop("C27", "Stop criterion over the last residuals",
     "The residual list holds the last n residuals in order of insertion (initially and after a reset: infinity); it reports descending if and only if no residual exceeds the one before, "
     "and all-below if and only if every one of the n is below the limit (so never if one of them is NaN).",
     ["histories", "inputs"], "all list lengths, contents and insertions",
     "the tests insert a few values",
     [I + "Iterate.h"], [("list", I + "Iterate.h: class StopList")])
prop("C28", "Thread-count independence",
     "The result of every operation that uses OpenMP is the same for every number of threads and every schedule: no two iterations of a parallel loop touch the same memory location "
     "unless both read it.",
     ["schedules"], "every number of threads, schedule and input",
     "the tests run without OpenMP",
     [I + "Element.h", I + "ElementQuad4.h", I + "ElementHex8.h", I + "ElementQuad4Axisymmetric.h", I + "ElementQuad4Planar.h"],
     [("parallel loops", "every '#pragma omp parallel for' under " + I)])
prop("C29", "Input shapes and ranges are checked",
     "With assertions enabled, constructors and methods reject arguments whose shape or range is inconsistent with the mesh (number of nodes, DOFs, elements, dimensions), and accept "
     "every argument that is consistent.",
     INP, "all shapes of all arguments of constructors and public methods",
     "the tests hardly provoke an assertion",
     [I + "Vector.h", I + "VectorPartitioned.h", I + "Matrix.h", I + "Element.h", I + "Mesh.h"], [("assertions", "GOOSEFEM_ASSERT")])
prop("C30", "The library can be used from several translation units",
     "Every header defines only entities that may be defined in more than one translation unit (inline, templates, class members, constants with internal linkage), so that a program including the library in "
     "several source files links and behaves as one.",
     ["programs"], "every function and variable defined by the headers",
     "each test executable includes the library in one file per test, mostly linked alone",
     [I + "Element.h", I + "Mesh.h", I + "Allocate.h", I + "Iterate.h", I + "version.h"], [("inline", "every namespace-scope definition")])
prop("C31", "Reading operations leave the object and the arguments unchanged",
     "Queries, conversions, products and integrals change neither the object they are called on (apart from caches that do not affect results) nor arguments that are inputs, so that "
     "calls can be repeated and ordered freely.",
     ["histories"], "every pair of calls of reading operations",
     "the tests call each operation once",
     [I + "Vector.h", I + "Matrix.h", I + "Element.h", I + "Mesh.h"], [("constness", "const methods; mutable members")])
prop("C32", "Orientation of triangles",
     "The orientation of a triangle is -1 if its nodes are in counter-clockwise order and +1 otherwise; setting an orientation exchanges the last two nodes of exactly those triangles that have the other one.",
     INP, "all coordinates and connectivities",
     "the tests use one mesh",
     [I + "MeshTri3.h"], [("orientation", I + "MeshTri3.h: getOrientation, setOrientation")])
prop("C33", "The Python interface exposes the operation of the same name",
     "Each name of the Python interface is found in the class or module of its C++ counterpart and calls the C++ operation of that name of that class, with the arguments in the same order, called the same, and with the same default values.",
     ["programs"], "every binding",
     "the Python tests cannot be built everywhere and call few of the bindings",
     ["python/main.cpp", "python/Vector.hpp", "python/Mesh.hpp", "python/Element.hpp"], [("bindings", "python/*.hpp")])
prop("C34", "Convergence of the discretization",
     "For a well-posed problem the numerical solution converges to the exact one under refinement, and linear fields are reproduced to machine precision (patch test).",
     INP, "all meshes, boundary conditions and materials", "the tests contain no boundary value problem with a known solution",
     [I + "Element.h", I + "Matrix.h"], [("finite element operators", I + "Element.h")],
     na="a statement about limits and rounding of a numerical method; no static argument over the source bounds it (the operators it is built from are decided by C01-C17)")
prop("C35", "Rounding and conditioning of solutions",
     "The relative residual of a solve is of the order of the machine precision times the condition number.",
     INP, "all matrices and loads", "the tests compare two small systems with tolerances",
     [I + "Matrix.h"], [("Eigen solver", I + "Matrix.h: MatrixSolver")],
     na="rounding error inside Eigen's factorization, code outside this repository; a quantitative bound is not statically derivable here")
prop("C36", "Detecting overlapping nodes by tolerance",
     "Nodes of two meshes are matched if and only if their distance is below the tolerance.",
     INP, "all coordinates and tolerances", "the tests match two regular meshes",
     [I + "Mesh.h"], [("overlapping", I + "Mesh.h: overlapping")],
     na="the result is a data-dependent list of matches of rounded distances, ambiguous when several nodes are within the tolerance; a static value-flow argument has no reference for it")
prop("C37", "Geometric conformity of the layered refined mesh",
     "For every size the mesh with refined layers fills the rectangle without gaps, overlaps or hanging nodes, with element sizes that are powers of three of the finest.",
     INP, "all numbers of elements and finest layers", "the tests check two sizes",
     [I + "MeshQuad4.h"], [("layer generation", I + "MeshQuad4.h: FineLayer::init")],
     na="conformity quantifies over the run-time outcome of the loops that choose the layers (division and remainder of sizes until one fits) and relates it to geometry by number-theoretic invariants no value-flow argument in reach infers; that these loops, and what follows from the table they give, are as documented is C22")

prop("C38", "Objects own their data",
     "An object is unaffected by what happens, after it has been made, to the arrays, matrices and meshes it was made of: its operations give the same as if those were left untouched.",
     ["histories"], "all arguments of constructors, changed in any way before the operations",
     "the tests leave the arguments of constructors alone",
     [I + "Vector.h", I + "VectorPartitioned.h", I + "Matrix.h", I + "MatrixPartitioned.h", I + "Element.h", I + "Mesh.h", I + "TyingsPeriodic.h"],
     [("members", "members are copies, not references or views")])


def main():
    sys.path.insert(0, ROOT + "/lib")
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps(d) + "\n")
    import catalog
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in catalog.CHECKS and not p["na"]:
            lints = catalog.CHECKS[i].get("lints")
            eq = catalog.CHECKS[i].get("equiv")
            tech = p["tech"] or " and ".join(
                (["static value-flow analysis: symbolic value numbering of the type-checked AST against reference semantics"] if eq else [])
                + (["effect/typestate rules over the type-checked AST"] if lints else []))
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                           "technique": tech, "level": "other", "level_note": p["note"] or catalog.NOTE})
        else:
            na.append({"property": i, "reason": p["na"] or "no check is built yet"})
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na,
                   "notes": "Static analysis only; see DESIGN.md. No hooks in /repo."}, f, indent=1)
        f.write("\n")


main()
