"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/dxss/space_time.py"
P = "src/dxss/precomp_time_int.py"
G = "src/dxss/gmres.py"
MS = "src/dxss/meshes.py"
D1, D2, D3 = (f"src/dxss/solve_{d}d.py" for d in (1, 2, 3))

FEM = ("The finite element back end (dolfinx/ufl), PETSc, gmsh and matplotlib are replaced by contracts whose "
       "results are arbitrary symbolic values; time arithmetic, indexing, assembly order and control flow "
       "are the code's own.")


def p(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))


NOT_RUN = ("The existing tests of this part need dolfinx and run one discretisation on one mesh, comparing "
           "one error level; ")

PROPS = [
    p("C01", "Time basis functions are nodal and their derivatives are derivatives",
      "For every polynomial degree in time, the basis functions used to evaluate discrete solutions are one "
      "at their own node and zero at the other equidistant nodes of the slab, and they sum to one at every time. "
      "The tabulated derivatives are the time derivatives of the tabulated functions at every time.",
      ["inputs", "configurations"], "every degree 0..3 and every real time in the slab",
      "No test evaluates the tables; a sampled time cannot settle an identity for all times.",
      [P], [("phi_dt_trial / d_phi_dt tables", P)]),
    p("C02", "Time matrices are the exact integrals of products of basis functions",
      "For every pair of degrees of trial and test functions in time, the precomputed matrices equal the "
      "exact integrals over the unit slab of products of the basis functions and of their derivatives, with rows "
      "belonging to test and columns to trial functions.",
      ["inputs", "configurations"], "all pairs of degrees (0..3) and all coefficient vectors",
      "One test compares a few tabulated entries of one pair of degrees.",
      [P], [("get_elmat_time", P)]),
    p("C03", "Quadrature rules lie in the interval and are exact to their order",
      "For every interval, every available quadrature rule has its points inside the interval, positive weights "
      "that sum to the length of the interval, and integrates every polynomial up to the degree of the rule.",
      ["inputs", "configurations"], "every rule, every interval, every polynomial up to the rule's degree",
      "Tests use one rule on one interval through the whole solver; a wrong weight is hidden by the error level.",
      [P], [("QuadRule", P)]),
    p("C04", "The lifting polynomial joins slab solutions continuously",
      "The function that lifts the jump of a discrete solution at the start of a slab is one at the start and zero "
      "at the end of the slab, and is the quadratic polynomial that also vanishes in the middle. Subtracting the lifted "
      "jump therefore removes the jump and keeps the end value, and the tabulated derivative of the lifting is "
      "its derivative at every time.",
      ["inputs"], "every reference time and every jump",
      "No test looks at the lifting; it only enters reported errors.",
      [P, S], [("theta_ref, d_theta_ref", P)]),
    p("C05", "GMRES returns a solution exactly when the iteration converged",
      "A solve returns a solution only if the iterative method met its stopping criterion, and then returns the "
      "vector that the method produced; whenever the method gives up (iteration limit, breakdown, divergence, "
      "not-a-number) the caller gets an error instead of a vector. This holds for every call independently of "
      "earlier calls.",
      ["inputs", "histories"], "every outcome of the iterative method, every system up to the size bound, two calls",
      "Tests solve a handful of well-conditioned systems, which always converge.",
      [G], [("get_gmres_solution", G)]),
    p("C06", "GMRES solves the requested system with the requested settings",
      "The system solved is the given operator, preconditioner and right-hand side, from a zero initial guess, "
      "with the tolerances, iteration limit and restart length that the caller gave, the documented defaults where "
      "none was given, and run-time options taking precedence. The returned residual is the right-hand side minus the "
      "operator applied to the returned solution, inputs are not modified, and convergence rates are "
      "printed exactly when requested.",
      ["inputs", "configurations", "histories"],
      "every system up to the size bound, every tolerance and limit, every combination of given settings",
      "Tests use two settings on one matrix; ignoring a setting still converges.",
      [G], [("get_gmres_solution, convergence_monitor", G)]),
    p("C07", "The space-time unknowns are laid out without loss or overlap",
      "The index maps between the global space-time vector, the slabs, the time nodes and the four fields "
      "cover every unknown exactly once, slab by slab, and the extraction of one time node of one field followed "
      "by the insertion of it is the identity. This holds for every combination of degrees and number of slabs.",
      ["inputs", "configurations"], "all degrees up to the bound, any number of slabs up to the bound, every vector",
      NOT_RUN + "a swapped pair of unknowns with equal degrees is invisible there.",
      [S], [("setup_spacetime_finite_elements", S)]),
    p("C08", "The assembled matrix is the stabilised space-time formulation",
      "The assembled space-time matrix equals the published bilinear form: wave operator tested by dual variables, "
      "dual stabilisation, data term restricted to the data domain, primal stabilisation with boundary and facet terms, "
      "and jump terms between consecutive slabs, each with its parameter and power of the slab length. "
      "The variant for preconditioning differs only in testing jumps from one side.",
      ["inputs", "configurations"],
      "all degrees and slab numbers up to the bound, every final time, stabilisation parameter, indicator and mesh pairing",
      NOT_RUN + "wrong stabilisation factors or missing couplings change the solution within the tolerated error.",
      [S], [("setup_spacetime_matrix", S)]),
    p("C09", "Slab matrices are the diagonal blocks of the formulation",
      "The matrix of a general slab and the matrix of the first slab equal the contributions of one slab to the "
      "formulation, with and without the outgoing jump terms, irrespective of the order in which they are requested. ",
      ["inputs", "configurations", "histories"],
      "all degrees up to the bound, every parameter, indicator and pairing, every order of requests",
      NOT_RUN + "a wrong slab matrix only makes the iteration slower.",
      [S], [("setup_slab_matrix", S)]),
    p("C10", "The matrix-free operator equals the assembled matrix",
      "Applying the space-time operator without assembling it gives the same vector as the assembled space-time matrix, "
      "for every input vector and both settings of the initial data, and overwrites the output whatever it held before.",
      ["inputs", "configurations", "histories"],
      "every vector, all degrees and slab numbers up to the bound, every parameter",
      NOT_RUN + "the iteration then solves a different system without any error being raised.",
      [S], [("apply_spacetime_matrix", S), ("SpaceTimePETScMatrixWrapper.mult", S)]),
    p("C11", "Time-marching preconditioners solve the one-sided jump system",
      "Applying a time-marching preconditioner returns the exact solution of the space-time system whose jumps are "
      "tested from the later slab only, for every right-hand side, leaves the right-hand side unchanged, and gives "
      "the same result when applied again.",
      ["inputs", "configurations", "histories"],
      "every right-hand side, degrees and slab numbers up to the bound, repeated applications",
      NOT_RUN + "a wrong preconditioner only changes iteration counts.",
      [S], [("pre_time_marching, pre_time_marching_improved", S), ("SpaceTimePETScPreconditionerWrapper.apply", S)]),
    p("C12", "The right-hand side carries the measured and the initial data",
      "The right-hand side is the data parameter times the space-time integral over the data domain of the measured "
      "solution against the test functions, plus the weighted initial data on the first slab exactly when they are "
      "prescribed, and nothing else.",
      ["inputs", "configurations"],
      "all degrees and slab numbers up to the bound, every final time, parameter, indicator, data and initial data",
      NOT_RUN + "with data on a standing wave some time-quadrature errors cancel.",
      [S], [("setup_rhs", S)]),
    p("C13", "Measured data enter through the caller's data domain only",
      "The measured data are weighted by the caller's indicator of the data domain, interpolated on the mesh of the "
      "problem when the mesh is fitted to the domain and used as given otherwise. Using one data domain description for "
      "several problems on different meshes gives each the same result as a fresh description, and never "
      "changes the caller's object.",
      ["inputs", "configurations", "histories"],
      "every indicator (callable, function, expression), up to three problems on two meshes",
      "Every test builds one problem from one data domain on one mesh.",
      [S], [("SpaceTime.__init__, DataDomain", S)]),
    p("C14", "Results do not depend on what was requested before",
      "Matrices, forms, right-hand side, operator and preconditioner are the same whatever sequence of requests, "
      "error measurements, exports and applications preceded them, and those never change the initial data.",
      ["histories", "inputs"], "every sequence of requests up to the length bound, arbitrary values",
      "Each test makes one fixed sequence of calls.",
      [S], [("get_spacetime_matrix, prepare_precondition_gmres and the other getters", S)]),
    p("C15", "Reported errors are the errors of the continuous reconstruction",
      "The reported errors are, in the L2 norm in space (summed over all processes): the error of the discrete solution at the final time, the largest "
      "errors of value and velocity over the sampled times, and the square root of the time integral of the squared velocity "
      "error. Values and velocities are those of the reconstruction in which the jump at the start of each later slab is "
      "lifted. Measuring changes neither the solution nor the initial data.",
      ["inputs", "configurations"], "every discrete and exact solution, degrees and slab numbers up to the bound, sampled times",
      "Tests compare reported errors to loose thresholds on one solution.",
      [S], [("measured_errors", S)]),
    p("C16", "Two-grid operators restrict, correct and prolong consistently",
      "Restriction and prolongation interpolate each time node of each field between the grids, the coarse correction "
      "solves the problem of the coarse grid exactly, and the two-level preconditioner is the coarse correction followed by "
      "the time-marching preconditioner of the remaining residual.",
      ["inputs", "configurations", "histories"],
      "every vector, interpolation and pairing; degrees (equal or different for both variables) and slab numbers up to the bound",
      "No test uses a coarse grid.",
      [S], [("prepare_coarse_grid_correction, prolongation, restriction, q_op, pre_twolvl", S)]),
    p("C17", "The sample problems have exact solutions of the wave equation",
      "In each of the three sample problems the given exact solution satisfies the homogeneous wave equation at every time and point, "
      "vanishes on the whole boundary, and the given velocity is its time derivative.",
      ["inputs"], "every time and every point of the unit interval, square or cube",
      "The errors that tests compare are measured against these very functions; an identity for all points is not settled by samples.",
      [D1, D2, D3], [("sample_sol, dt_sample_sol", "all three drivers")]),
    p("C18", "The sample problems measure data exactly where they say",
      "In each sample problem the data indicator is one on the data domain (1d: within 0.2 of the left, or of both ends for the convex variant; "
      "2d: within 0.2 of the boundary; 3d: within 0.25 of the boundary, or of the side x=0 without the geometric control condition) "
      "and zero elsewhere, for every refinement level. "
      "Whenever the data domain is declared as fitted, no cell of the mesh is cut by its boundary.",
      ["inputs", "configurations"], "every point, pairs of points of one cell, every refinement level and variant",
      "Tests run one level of one variant and never evaluate the indicator.",
      [D1, D2, D3], [("omega_ind functions and DataDomain(fitted=...)", "all three drivers")]),
    p("C19", "The sample problems solve their space-time system and report on it",
      "With each available linear solver the solution that is reported on solves the assembled space-time system: "
      "the direct solver solves it exactly, the iterative one is run with its matrix, right-hand side and the time-marching "
      "preconditioner down to a tolerance of 1e-7. A failed iteration is an error and nothing is reported. "
      "All reports are about one and the same solution, and errors are measured once when asked for.",
      ["inputs", "configurations", "fault_sequences"],
      "every outcome of the iteration, every solver, levels and orders up to the bound",
      NOT_RUN + "only one of the solvers is installed, and the iteration converges.",
      [D1, D2, D3], [("solve_problem, get_lu_solver, PySolver", "all three drivers")]),
    p("C20", "Meshes fill the domain and are fitted to the interfaces",
      "Every generated mesh fills exactly its domain (unit square or cube, or the square of half-width 1.5), without gaps "
      "or overlaps, with the requested mesh size. Cells never cross the boundary of the data domain, of the "
      "target domain or of the inclusion, nor the material interface, wherever in its range the interface is.",
      ["inputs", "configurations"],
      "every mesh, every interface position in its range, every mesh size, every point of space",
      "No test generates a mesh; the fit depends on the interface position, a real number.",
      [MS], [("rectangles and boolean operations of each mesh function", MS)]),
    p("C21", "Mesh files mark every part of the domain and the boundary",
      "In the meshes that are read back from mesh files, every part of the domain carries exactly one marker: the documented one "
      "for its location (data domain 1, rest of the target domain 2, remainder 3) where markers are documented, else "
      "one of its own. Facets marked as boundary are exactly those on the boundary of the unit square.",
      ["inputs", "configurations"], "every such mesh, every interface position and mesh size, every point",
      "No test reads a mesh file.",
      [MS], [("addPhysicalGroup calls", MS)]),
    p("C22", "Meshes consist of the nodes and cells that gmsh made",
      "Whatever order and numbering gmsh uses, every mesh has the coordinates of gmsh's nodes, and "
      "cells that connect the same nodes in the order that the finite element library expects, with the requested degree of the geometry. "
      "Node numbers with gaps are refused with an error, and files contain the same nodes, cells and markers.",
      ["inputs", "histories"], "every numbering and order of nodes up to the bound, every coordinate, two calls in a row",
      "No test generates a mesh; gmsh happens to number nodes in order in simple cases.",
      [MS], [("getNodes/getElements to create_mesh; create_mesh of meshio", MS)]),
    p("C23", "Mesh hierarchies are nested and have the requested length",
      "A hierarchy with n refinements has n+1 meshes, each the uniform refinement of the one before, with any supported release "
      "of the finite element library, and every call makes new meshes from the file it wrote itself. "
      "Every process takes part: only the first one writes files, and gmsh is closed again on all of them.",
      ["configurations", "histories"], "every mesh, refinement number up to the bound, release, process, two calls in a row",
      "No test refines a mesh or runs on more than one process.",
      [MS], [("refinement loops, gmsh.initialize/finalize", MS)]),
    p("C24", "Plots and exported fields show the computed solution",
      "The pictures show the solution, its velocity, or the absolute errors at the times and points on their axes, evaluated from the "
      "discrete solution of the slab that contains the time; exported fields are the nodal errors at the final time. "
      "Neither changes the solution or the problem.",
      ["inputs", "configurations"], "every discrete solution, exact solution, final time; degrees, slab numbers, resolutions up to the bound",
      "No test looks at plots.",
      [S], [("plot, plot_error, plot_para_view", S)]),
    p("C25", "Converting an assembled matrix to a sparse matrix loses nothing",
      "The sparse matrix handed to direct solvers has the same shape and the same entries as the assembled matrix, "
      "whatever its sparsity pattern.",
      ["inputs"], "every pattern and every value for matrices up to the size bound",
      "Tests convert matrices whose last row and column are never empty.",
      [S], [("get_sparse_matrix", S)]),
]

PROPS.append(
    p("C26", "Problems that live side by side do not influence each other",
      "Two space-time problems in one program, with different or equal degrees, flags, final times, parameters, data, data "
      "domains and meshes, each have the matrices, right-hand side, operator and preconditioner that they would have alone, "
      "whatever was requested from either of them before. The stabilisation parameters that the caller handed in "
      "and the initial data of each problem are not changed.",
      ["histories", "configurations", "inputs"],
      "every choice of requests before and after the second problem is made, for several pairs of problems, arbitrary values",
      "Every test module builds one problem at a time and looks at one error level.",
      [S, P], [("SpaceTime.__init__, default parameters, module-level tables", S)]))

PROPS.sort(key=lambda d: d["id"])
NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in PROPS:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for d in PROPS:
        if not os.path.exists(os.path.join(HERE, "checks", d["id"].lower() + ".py")):
            continue
        checks.append(dict(
            property=d["id"],
            quick_cmd=f"/opt/venv/bin/python run.py {d['id']} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python run.py {d['id']} --tier thorough",
            technique="symbolic execution of the real Python source, obligations discharged by z3",
            level="other",
            level_note="Bounded symbolic execution: z3 shows every obligation for all values within the stated "
                       "bounds, on every feasible path. " + FEM + " Real arithmetic with a stated coefficient "
                       "tolerance; counterexamples are replayed on the real code."))
    m = dict(version=1,
             setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode=True; "
                       "from symx import core; print('z3', core.z3.get_version_string())\"",
             checks=checks, not_applicable=NA,
             notes="run.py re-reads /repo/src/dxss on every run; nothing is built.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
