#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
L = "src/lib/"

prop("C01", "Concurrent readers of shared objects are race-free and see the same values",
 "Any number of threads may read one shared, unmodified object at the same time - matrices (sparse, dense, fixed) through element access, iteration, products, reductions, factorisation and solving; vectors; meshes; simplices; quadrature rules; shape functions - without any data race. Every thread gets exactly the result a lone caller would get, under every interleaving, and the shared object is unchanged afterwards.",
 ["schedules", "programs"], "all interleavings of 2-4 threads running arbitrary lists of read-only calls on shared objects",
 "Every existing test is single-threaded; a race or a hidden write in a const path needs a particular interleaving and is invisible to value assertions.",
 [L+"matrix/SparseMatrix.inl", L+"matrix/BaseMatrix.inl", L+"Vector.inl", L+"mesh/Mesh.inl", L+"Simplex.inl", L+"quadrature/Quadrature.inl", L+"sf/PolyShapeFunction.inl", L+"LU.inl", L+"CG.inl", L+"Iterative.inl"],
 [("const member functions write nothing, not even a cache; the shared 'empty' entry is only ever read", L+"matrix/SparseMatrix.inl"), ("quadrature tables are filled in the constructor and only read later", L+"quadrature/GaussLegendreQuadratureFactory.inl")],
 [("mEmpty", "per-object zero handed out by reference for absent entries", L+"matrix/SparseMatrix.h")],
 ["results returned by each reader", "the object compared with its value before the readers started"])

prop("C02", "Threads working on separate objects never influence each other",
 "Threads that each use only their own objects - building and updating matrices and vectors, factorising and solving, generating, loading, numbering and exporting meshes, integrating - never race and each obtains exactly the result it would obtain running alone. No part of the library keeps hidden shared state that couples independent callers.",
 ["schedules", "programs"], "all interleavings of 2-4 threads running arbitrary mixes of library calls on disjoint objects",
 "Tests run one thread; a function-local static buffer, shared cache or global counter passes them all and corrupts results only when two calls overlap.",
 [L+"matrix/SparseMatrix.inl", L+"matrix/DenseMatrix.inl", L+"matrix/MatrixOperations.inl", L+"matrix/MatrixOrder.inl", L+"LU.inl", L+"CG.inl", L+"Iterative.inl", L+"mesh/Mesh.inl", L+"mesh/HyperCube.inl", L+"loader/MeshTriangleLoader.inl", "src/objloader/external/tiny_obj_loader.h", L+"export/VTKExporter.inl", L+"sf/PolyShapeFunction.inl", L+"quadrature/Quadrature.inl"],
 [("all algorithm state lives in locals or in the caller's objects", L+"LU.inl, CG.inl, Iterative.inl, MatrixOrder.inl"), ("parsers keep their state in the stream and in locals", "src/objloader/external/tiny_obj_loader.h")],
 None, ["result digests of each thread compared with a solo run of the same program"])

prop("C03", "A mesh lives exactly as long as its last handle, across copies and threads",
 "Handles to a mesh may be copied, moved, assigned (including to themselves), swapped and destroyed in any order, by any threads each owning their handles; all handles to one mesh see the same vertices, elements and edges. The mesh stays intact while any handle to it exists, and is released completely - vertices, elements and edges, each exactly once - when the last one goes, or by an explicit clear, which leaves an empty reusable mesh.",
 ["schedules", "histories"], "all histories of handle operations over a few handles and meshes, and all interleavings of 2-4 threads running such histories on handles that share meshes",
 "The tests never copy a mesh handle in two threads nor look at what is released; a lost reference-count update or a leaked edge changes no asserted value.",
 [L+"mesh/Mesh.h", L+"mesh/Mesh.inl"],
 [("reference count in the shared representation", L+"mesh/Mesh.h"), ("copy/move/assign/destroy adjust the count and release at zero; clear frees the contents", L+"mesh/Mesh.inl")],
 [("Refs", "number of live handles", L+"mesh/Mesh.h"), ("Vertices, Elements, Edges", "owned objects", L+"mesh/Mesh.h")],
 ["vertices(), elements(), edges() through every handle", "live allocations after the last handle is gone"])

prop("C04", "A sparse matrix equals a plain table of numbers after any history",
 "After any sequence of element, linear and iterator updates and erasures, sums, differences, scalar and element-wise products, transposes, matrix and vector products, copies and swaps, a sparse matrix reads exactly like the rectangular table of numbers the same operations produce: element access, presence, all three iterations, counts, sums, extremes, trace and equality agree, and only non-zero entries are stored. If memory runs out inside an operation, a single-entry update has either fully happened or not at all, every other operation leaves each entry at its old or new value, and the matrix stays fully usable.",
 ["histories", "fault_sequences"], "all operation histories (several matrices, several shapes, real and complex) with an allocation failure at any point of any operation",
 "Tests fix a handful of small matrices, never interleave erase, iteration and arithmetic on one object, and never fail an allocation; the compressed representation has to stay consistent for every history.",
 [L+"matrix/SparseMatrix.h", L+"matrix/SparseMatrix.inl"],
 [("insert/erase keep values, column indices and row starts in step", L+"matrix/SparseMatrix.inl"), ("iterator erase returns the successor", L+"matrix/SparseMatrix.inl")],
 [("mValues, mColumnPtr, mRowPtr, mColumnCount", "compressed rows", L+"matrix/SparseMatrix.h")],
 ["public reads of the matrix after every step"])

prop("C05", "Vectors and dense matrices equal their model, and failed calls change nothing",
 "After any sequence of operations a dynamic or fixed vector or dense matrix reads exactly like the list or table of numbers the same operations produce. A call that cannot be carried out - sizes that do not fit, or memory running out - says so with an exception and leaves every operand, including the target of a compound assignment or resize, exactly as it was.",
 ["histories", "fault_sequences"], "all histories over a pool of vectors and dense/fixed matrices of mixed sizes, including ill-sized operands and an allocation failure at any point",
 "Tests apply each operator once to well-sized operands; they never look at the operands after a rejected or failed call nor compose long histories.",
 [L+"CountableSet.inl", L+"Vector.inl", L+"matrix/BaseMatrix.inl", L+"matrix/DenseMatrix.inl", L+"matrix/FixedMatrix.inl"],
 [("size check before the first write", L+"Vector.inl, "+L+"matrix/DenseMatrix.inl"), ("copy, then compound-assign, for binary operators", L+"Vector.inl")],
 None, ["element reads of every live object after every step"])

prop("C06", "No library call leaks memory, whether it succeeds or fails",
 "Whatever the library acquires during a call is either owned by an object the caller can see or released before the call returns. This holds for every call that completes and for every call that ends in an exception: running out of memory at any allocation, singular or ill-sized input, malformed mesh files, I/O errors, and exceptions thrown by caller-supplied functions.",
 ["fault_sequences", "inputs", "crash_points"], "every allocation made inside every kind of library call fails once, crossed with rejected inputs and broken files",
 "No test fails an allocation, most never take an error path, and nothing counts what stays allocated afterwards.",
 [L+"LU.inl", L+"mesh/Mesh.inl", L+"mesh/HyperCube.inl", L+"loader/MeshTriangleLoader.inl", "src/objloader/loader/MeshObjLoader.inl", "src/objloader/external/tiny_obj_loader.h", L+"sf/PolyShapeFunction.inl", L+"export/VTKExporter.inl"],
 [("owning containers and scoped owners on every path that can throw", L+"LU.inl, mesh/*.inl, loader/*.inl")],
 None, ["live allocations attributed to library calls after all objects are destroyed"])

prop("C07", "Building a mesh either completes with a correct topology or fails cleanly",
 "Generating a grid, adding vertices and triangles in any order, linking neighbours, marking boundaries, and adding higher-order nodes yields a mesh whose indices, vertex-triangle relations, edges (one per distinct side, with the one or two triangles that share it), boundary marks and node lists match the triangulation, and which passes its own validation. If memory runs out at any point the call throws, nothing is released twice or lost, and the mesh can still be inspected, cleared, rebuilt and destroyed.",
 ["histories", "fault_sequences", "inputs"], "all grid sizes and random triangulations in any insertion order, with an allocation failure at any point of any construction step, followed by continued use",
 "The tests build two or three meshes and check counts; they neither recompute the adjacency independently nor interrupt construction.",
 [L+"mesh/Mesh.inl", L+"mesh/HyperCube.inl", L+"sf/PolyShapeFunction.inl"],
 [("addVertex/addElement take ownership and index", L+"mesh/Mesh.inl"), ("setupNeighbors derives one edge per side", L+"mesh/Mesh.inl"), ("prepareMesh adds mid-side nodes once per edge", L+"sf/PolyShapeFunction.inl")],
 [("Neighbors, Elements, DOFVertices, Flags, GlobalIndex", "topology", L+"mesh/Mesh.h")],
 ["vertices(), elements(), edges(), validate()"])

prop("C08", "Loading a mesh file does not depend on how the bytes are delivered",
 "Loading a well-formed triangle (.node/.ele) or OBJ mesh yields exactly the vertices and triangles the file describes. The result is the same whether it comes from a string, a regular file or a pipe, and however the operating system delivers the bytes: short reads, interrupted reads, any block boundary, LF or CRLF line ends, comments, blank lines, and numbering from zero or one.",
 ["schedules", "inputs", "fault_sequences"], "all well-formed files in the supported layouts and all read-delivery schedules",
 "Tests load one embedded string; no test reads from a file or splits the delivery, and no independent parser checks the outcome.",
 [L+"loader/MeshTriangleLoader.inl", "src/objloader/loader/MeshObjLoader.inl", "src/objloader/external/tiny_obj_loader.h"],
 [("whole file is read before parsing", L+"loader/MeshTriangleLoader.inl"), ("line-wise parsing over a buffered stream", "src/objloader/external/tiny_obj_loader.h")],
 None, ["vertices and triangles of the loaded mesh"])

prop("C09", "A mesh file that cannot be read completely is reported, never half-loaded",
 "When a mesh file is missing, cannot be opened, fails with a read error part-way, or ends before the vertices and triangles it announces, the load throws instead of returning a mesh. A load that returns a mesh returns all the announced content, and after a failed load the same call succeeds once the fault is gone.",
 ["fault_sequences", "crash_points"], "open failures, read errors at every offset, and truncation at every byte of both files",
 "No test passes a missing, unreadable or truncated file.",
 [L+"loader/MeshTriangleLoader.inl", "src/objloader/loader/MeshObjLoader.inl", "src/objloader/external/tiny_obj_loader.h"],
 [("stream state and announced counts are checked", L+"loader/MeshTriangleLoader.inl"), ("LoadObj's result is turned into an exception", "src/objloader/loader/MeshObjLoader.inl")],
 None, ["exception or mesh returned by loadFile"])

prop("C10", "Corrupted mesh files never corrupt the process",
 "Whatever bytes a mesh file contains - flipped, dropped, duplicated or spliced bytes, absurd counts, out-of-range or missing indices, over-long lines - loading it ends within bounded work either in an exception or in a mesh whose every triangle refers to vertices of that mesh. It never reads or writes outside its memory, aborts, or loops.",
 ["inputs", "fault_sequences"], "all byte strings, explored as stored-byte corruptions of well-formed files plus hostile fragments",
 "Tests only load well-formed input; memory-safety under corruption is a statement over all byte strings.",
 [L+"loader/MeshTriangleLoader.inl", "src/objloader/loader/MeshObjLoader.inl", "src/objloader/external/tiny_obj_loader.h"],
 [("range checks on indices and counts before use", L+"loader/MeshTriangleLoader.inl, src/objloader/loader/MeshObjLoader.inl"), ("bounded token copies", "src/objloader/external/tiny_obj_loader.h")],
 None, ["exception or mesh; memory accesses; work performed"])

prop("C11", "An export that did not reach the disk is reported",
 "If the VTK export returns normally, the file holds the complete document. If the file cannot be created, or any write or the final close fails - disk full, I/O error, at any byte - the export throws, and exporting again after the fault is gone produces the complete document.",
 ["fault_sequences", "crash_points"], "open failures and write/close errors at every byte offset of the output",
 "No test exports a file, let alone to a failing disk.",
 [L+"export/VTKExporter.h", L+"export/VTKExporter.inl"],
 [("stream state checked after open and close", L+"export/VTKExporter.inl")],
 None, ["exception or normal return, and the bytes in the file"])

prop("C12", "An exported VTK file describes exactly the mesh and data it was given",
 "The exported document, read back, has the mesh's vertices, triangles with their nodes, offsets and cell types in order, and every point and cell array under its name with its values, plus exactly the optional arrays that were requested; counts in the header match the content. This holds for any mesh, first- or second-order nodes, any number of arrays including none, and any pattern of partial or interrupted writes by the operating system.",
 ["inputs", "schedules", "configurations"], "all meshes, data sets and option masks, under all short-write and interruption schedules",
 "The exporter has no test at all; faithfulness is a statement over every mesh, option mask and write schedule.",
 [L+"export/VTKExporter.inl"],
 [("one pass over mesh and data writing each section", L+"export/VTKExporter.inl")],
 None, ["the file contents parsed by an independent reader"])

prop("C13", "Jacobi and SOR: correct sweeps that may be interrupted and resumed anywhere",
 "Each sweep of the Jacobi and SOR solvers applies the textbook update to the current iterate, so running k sweeps and then continuing from the result with m more gives exactly what k+m sweeps in one call give, for sparse and dense matrices alike. A run that reports fewer sweeps than its budget has stopped because the last change was within the tolerance; inputs are never modified; a matrix with a zero on its diagonal, ill-sized input or a failing allocation ends in an exception, after which the call can be repeated.",
 ["histories", "crash_points", "fault_sequences", "inputs"], "all systems, start vectors, tolerances and budgets, all points of interruption, and allocation failures or operator exceptions at any point",
 "Tests run each solver once from zero to convergence on one 3x3 system; they cannot see a wrong first sweep, a wrong count, or state lost across an interruption.",
 [L+"Iterative.h", L+"Iterative.inl"],
 [("previous and next iterate kept separately; start vector seeds the first sweep", L+"Iterative.inl"), ("convergence test on the squared change", L+"Iterative.inl")],
 None, ["returned iterate, reported sweep count, unchanged inputs"])

prop("C14", "CG and PCG: budgeted, restartable solves whose claims can be trusted",
 "On a symmetric positive definite system conjugate gradients, plain or preconditioned, returns after its iteration budget the exact-arithmetic iterate up to rounding: errors never grow from step to step, and stopping before the budget means the true residual is within tolerance. Restarting from any returned iterate, however often and with whatever budgets, reaches the solution; starting at the solution returns it; inputs are never modified and a failing allocation or a throwing matrix leaves the call repeatable.",
 ["histories", "crash_points", "fault_sequences", "inputs"], "all small SPD systems, start vectors, tolerances and budgets, all interruption/restart patterns, allocation failures and operator exceptions at any point",
 "Tests solve one fixed system from zero and compare to a few digits; they never restart, start at the solution, limit the budget or check the reported count.",
 [L+"CG.h", L+"CG.inl"],
 [("residual recurrence with early stop", L+"CG.inl"), ("Jacobi preconditioner", L+"CG.inl")],
 None, ["returned iterate, reported iteration count, true residual, unchanged inputs"])

prop("C15", "Direct factorisations are correct whatever happened to their outputs before",
 "A completed LU, Cholesky or incomplete LU factorisation gives triangular factors whose product is the (row-permuted) matrix - for the incomplete one, on its sparsity pattern - and solving or inverting with them solves the system, no matter what the output matrices held before: earlier results, a factorisation aborted by a singular matrix, or one cut off by memory exhaustion. A singular, indefinite or ill-sized input ends in the documented exception, and inputs are never modified.",
 ["histories", "fault_sequences", "inputs"], "all sequences of factorisations reusing the same output matrices, with singular inputs and allocation failures interleaved, dense, fixed and sparse",
 "Tests factorise each matrix once into fresh zero outputs; stale outputs and aborted factorisations are never exercised.",
 [L+"LU.inl", L+"matrix/MatrixOperations.inl"],
 [("outputs are fully (re)written", L+"LU.inl"), ("row table scoped to the call", L+"LU.inl")],
 None, ["products of the factors, residuals of solves and inverses, exception types"])

prop("C16", "The Poisson program never claims success for results it did not deliver",
 "The finite-element Poisson program, run on a valid mesh, ends successfully only if every result file is complete on disk and the nodal solution in it solves the Poisson problem to discretisation accuracy; the files agree with one another. A missing or broken mesh, a full or failing disk, or exhausted memory at any point makes it end with a failure status or an error, and its results depend on neither the wall clock nor how the file system splits its reads and writes.",
 ["fault_sequences", "crash_points", "configurations", "schedules"], "all solver/order/mesh combinations at small size, with disk faults at every offset, memory exhaustion, clock jumps and I/O fragmentation",
 "The program is built but never run by the test suite.",
 ["examples/poisson/fem.cpp", L+"mesh/HyperCube.inl", L+"loader/MeshTriangleLoader.inl", L+"sf/PolyShapeFunction.inl", L+"quadrature/Quadrature.inl", L+"CG.inl", L+"Iterative.inl", L+"export/VTKExporter.inl"],
 [("assembly, solve, output sections of main", "examples/poisson/fem.cpp"), ("exit status", "examples/poisson/fem.cpp")],
 None, ["exit status", "poisson_fem_*.dat and poisson_fem.vtu"])

prop("C17", "Quadrature calls back once per node, re-entrantly, and survives callback failure",
 "Evaluating a quadrature rule invokes the caller's function exactly once per node, in the order of their indices, and returns the start value plus the weighted sum - also when that function itself evaluates quadratures (the same rule or others), runs from several threads, or throws. An exception from the function reaches the caller unchanged and leaves the rule fully usable.",
 ["histories", "schedules", "fault_sequences"], "all nestings of rules and orders to a small depth, exceptions at every callback, and all interleavings of threads sharing rules",
 "Tests integrate a few polynomials without nesting, failing or sharing.",
 [L+"quadrature/Quadrature.h", L+"quadrature/Quadrature.inl", L+"quadrature/GaussLegendreQuadratureFactory.inl"],
 [("accumulation in a local, tables only read", L+"quadrature/Quadrature.inl")],
 None, ["sequence of callback invocations", "returned value or exception"])

prop("C18", "Reordering, converting and classifying matrices follow their entries",
 "Whatever updates, erasures, conversions or failed operations produced a matrix, everything derived from it agrees with its table of entries: dense and sparse conversions, diagonals, triangles, identity and Hilbert matrices, classification (orthogonal, unitary, projection, symmetric, Hermitian and the skew kinds), determinants, norms and the printed text. Cuthill-McKee numbers every row once, breadth first, lowest degree first, the reverse ordering mirrors it, and permuting a matrix or vector and permuting back restores it. Ill-sized arguments end in an exception, running out of memory changes no operand, and the call can be repeated.",
 ["histories", "fault_sequences", "inputs"], "all update histories of sparse and dense matrices up to a small order, real and complex, all permutations and sparsity patterns, with allocation failures at any point",
 "Tests use a handful of fixed matrices freshly built; stored zeros, erased rows, empty rows, disconnected patterns, failed earlier calls and the converters (which no test compiles) are never exercised.",
 [L+"matrix/MatrixConverter.inl", L+"matrix/MatrixConstructor.inl", L+"matrix/MatrixCheck.inl", L+"matrix/MatrixOrder.inl", L+"matrix/MatrixOperations.inl", L+"OutputStream.h"],
 [("breadth-first numbering", L+"matrix/MatrixOrder.inl"), ("only non-zero entries are transferred", L+"matrix/MatrixConverter.inl"), ("direct formulas", L+"matrix/MatrixConstructor.inl")],
 None, ["entries of the results", "orderings and permutations", "the operands after each call", "exception types"])

prop("C19", "Element geometry follows its vertices through every update",
 "After preparing a non-degenerate triangle its affine map and inverse, determinant, volume, gradients, local and global coordinates (inverse to each other), circumscribed circle, diameter, face centres and outer unit normals belong to the vertices it has now, however often it was moved, copied, swapped, was degenerate or was prepared before, clockwise or not. The same holds for every element of a mesh that was built under memory exhaustion, copied, refined or deformed and prepared again: volumes add up to the domain and neighbours see opposite normals on a shared side.",
 ["histories", "fault_sequences", "inputs"], "all update histories of triangles in float and double and of small meshes, with allocation failures at any point",
 "Tests prepare a few triangles once each; stale state after a move, a copy, a degenerate intermediate or a failed call never occurs in them, and the circumcentre is tested with one right triangle at the origin.",
 [L+"Simplex.h", L+"Simplex.inl", L+"Normal.h", L+"mesh/Mesh.inl"],
 [("affine map recomputed in prepare", L+"Simplex.inl"), ("Mesh::prepare prepares every element", L+"mesh/Mesh.inl")],
 None, ["matrix(), inverseMatrix(), determinant(), volume(), gradient(), toLocal(), toGlobal(), center(), outerRadius(), diameter(), faceCenter(), faceNormal()"])

prop("C20", "Validation accepts exactly the meshes whose structure is sound",
 "However a mesh was produced, shared and changed, validating it through any of its handles succeeds if its structure is sound and throws if it is not: a vertex misnumbered or in no triangle, a vertex and triangle (or node) that do not know each other, a missing corner, an unlinked side, a corner away from its vertex, or a triangle without area. Validation changes nothing, so undoing the damage makes the same mesh valid again.",
 ["histories", "fault_sequences", "inputs"], "all sequences of structural damage and repair on grids, loaded and random meshes, with and without placed nodes",
 "Tests validate two sound meshes; no test damages one.",
 [L+"mesh/Mesh.inl"],
 [("Mesh::validate", L+"mesh/Mesh.inl")],
 None, ["outcome of validate()"])

prop("C21", "Finite-element quantities are exact in any order and after any interruption",
 "Stiffness and mass matrices and load vectors assembled from the library's shape functions, quadrature rules, element geometry and matrices equal the exact integrals for every polynomial the elements represent, in whatever order elements and updates come and wherever an assembly was interrupted by exhausted memory and resumed. Interpolation reproduces those polynomials and their gradients, and each solves its own Poisson problem. Shape functions of every dimension and order are one at their own node, zero at the others, sum to one, and their (weighted) derivatives match their values.",
 ["histories", "fault_sequences", "inputs", "schedules"], "all triangulations of small size, element and update orders, interruption points, polynomials, and points of the reference elements",
 "Tests evaluate linear and quadratic triangle functions at some nodes; nothing assembles or checks integrals, other dimensions and third order are never evaluated.",
 [L+"sf/PolyShapeFunction.h", L+"sf/PolyShapeFunction.inl", L+"quadrature/GaussLegendreQuadratureFactory.inl", L+"Simplex.inl", L+"matrix/SparseMatrix.inl"],
 [("values and derivatives", L+"sf/PolyShapeFunction.inl"), ("node placement and numbering", L+"sf/PolyShapeFunction.inl"), ("node and weight tables", L+"quadrature/GaussLegendreQuadratureFactory.inl")],
 None, ["entries of assembled matrices and vectors", "interpolated values and gradients", "discrete solutions", "values and derivatives of shape functions"])

prop("C22", "The OBJ reader delivers the whole document",
 "Reading a well-formed OBJ document yields one shape per group or object that has faces, in order, with its name, tags and every face: its corners' positions, texture coordinates and normals, its vertex count (polygons whole or as a triangle fan, as asked for; one with more corners than can be counted is refused) and the material selected at that line, wherever material changes and libraries stand. A corner used again in its group shares its vertex, also across a material change. Every library's materials arrive in order with their parameters. This holds for files, streams and pipes however bytes are delivered; an unreadable document is an error, an unreadable library a warning plus a default material.",
 ["inputs", "schedules", "fault_sequences"], "all well-formed documents of the supported statements, all read deliveries, read failures and failing allocations",
 "Tests read one document with one group and no materials.",
 ["src/objloader/external/tiny_obj_loader.h"],
 [("statement loop and group/material flushing", "src/objloader/external/tiny_obj_loader.h"), ("face export with vertex sharing", "src/objloader/external/tiny_obj_loader.h"), ("material library parser", "src/objloader/external/tiny_obj_loader.h")],
 None, ["shapes, materials, message and result of LoadObj"])

# ---- properties of pure functions: stated, not claimed (not a simulation target)
prop("N01", "Quadrature rules integrate polynomials up to their degree exactly",
 "For every supported dimension and order, the weighted sum over the nodes equals the integral over the unit simplex for every polynomial up to the rule's degree of exactness.",
 ["inputs", "configurations"], "all polynomials up to the degree, all supported rules", "Tests integrate a few polynomials; exactness is over a linear space.",
 [L+"quadrature/GaussLegendreQuadratureFactory.inl"], [("node and weight tables", L+"quadrature/GaussLegendreQuadratureFactory.inl")])
prop("N06", "Combinatorial helpers equal their exact values while representable",
 "Factorial, binomial and sign helpers return the exact mathematical value whenever it is representable in the argument type.",
 ["inputs"], "all representable arguments", "Tests use a few arguments.", [L+"Utils.h"], [("recursive and product formulas", L+"Utils.h")])

with open(OUT, 'w') as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
