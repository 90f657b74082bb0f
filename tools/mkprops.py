#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is
claimed when its check (checks/cNN.py) exists and is listed in BUILT."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BUILT = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"]
AM = "include/mfmg/common/amge.templates.hpp"
AH = "include/mfmg/dealii/amge_host.templates.hpp"
HI = "include/mfmg/common/hierarchy.hpp"
HH = "source/dealii/dealii_hierarchy_helpers.cc"
MH = "source/dealii/dealii_matrix_free_hierarchy_helpers.cc"
LZ = "include/mfmg/common/lanczos.templates.hpp"
LD = "include/mfmg/common/lanczos_deflatedop.templates.hpp"
UT = "include/mfmg/common/utils.hpp"
UC = "source/common/utils.cc"
MV = "include/mfmg/dealii/multivector.hpp"
AT = "include/mfmg/dealii/anasazi_traits.hpp"
TO = "source/dealii/dealii_trilinos_matrix_operator.cc"
MO = "source/dealii/dealii_matrix_operator.cc"
FO = "source/dealii/dealii_matrix_free_operator.cc"
DU = "source/dealii/dealii_utils.cc"
DUH = "include/mfmg/dealii/dealii_utils.hpp"
SM = "source/dealii/dealii_smoother.cc"
FS = "source/dealii/dealii_matrix_free_smoother.cc"
SO = "source/dealii/dealii_solver.cc"
ME = "source/dealii/dealii_mesh_evaluator.cc"

P = []
def prop(id, title, statement, over, text, why, files, mech, spec, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, spec=spec, note=note,
                  state=list(state), observe=list(observe)))

prop("C01", "Agglomerates partition each processor's cells",
     "On every processor, building agglomerates (block, zoltan, metis) gives every locally owned active cell a number between 1 and the returned count, every number from 1 to the count is used by at least one cell, and ghost and artificial cells get the number 0.",
     ["inputs", "configurations"],
     "2D and 3D meshes of any shape (boxes, L, balls, shells, crosses, disconnected, adaptively refined for the graph partitioners), any block size or requested number of agglomerates (more than there are cells included), any number of processors, processors without cells included",
     "The tests compare hard-coded lists for one refined cube, one block size and 1, 2 or 4 processors.",
     [AM], [("build_agglomerates", AM), ("build_agglomerates_block", AM), ("build_agglomerates_partitioner", AM)],
     "Agglomerate.tla / AggTrace.tla",
     "TLC checks the block machine on every view of up to 3 cells (any neighbour relation, any ownership, any leftovers) and every recorded agglomeration of the real code against IsPartition.",
     [("user index", "the number of a cell's agglomerate", AM)], ["cell->user_index() on every rank after build_agglomerates"])
prop("C02", "Block agglomerates are blocks of the requested size",
     "Block agglomerate number k starts at the first locally owned cell in mesh order that is in no earlier agglomerate, and holds exactly the locally owned cells, not in an earlier agglomerate, of the nx x ny (x nz) block reached from it by going in z, then y, then x direction, a walk ending at the domain boundary and at cells of other processors. On one processor and a box mesh in line with the axes the agglomerates tile the box with nx x ny (x nz) blocks.",
     ["inputs", "configurations"],
     "all conforming meshes (box, L, ball, shell, cross, disconnected; coordinate directions of neighbours in line or not), block sizes smaller, equal to and larger than the mesh, 2D/3D, any number of processors; the partitioner's name in any case",
     "The tests fix one block size (2x3x4) on one cube.",
     [AM], [("build_agglomerates_block", AM)], "Agglomerate.tla / AggTrace.tla",
     "TLC computes the blocks itself from the recorded neighbour relation and compares number by number.")
prop("C03", "Agglomeration does not depend on the mesh's history",
     "Building agglomerates with given parameters gives the same numbers and count as on a fresh mesh, whatever agglomerations with other parameters, refinement or user-set cell indices came before on the same mesh and however often it is repeated.",
     ["histories"], "histories of agglomerations (block, zoltan, metis, any order), user indices left on cells (ghosts included), new agglomeration objects, global refinement between them; any number of processors",
     "The tests agglomerate every mesh once.", [AM], [("build_agglomerates", AM), ("Zoltan_Srand", AM)],
     "Agglomerate.tla / AggTrace.tla", "TLC remembers what a fresh mesh gives for the same parameters and compares every later agglomeration in the history with it.")
prop("C04", "Boundary agglomerates: exactly the cells across shared vertices",
     "For every agglomerate, the interior boundary list holds exactly its cells that share a vertex with a cell outside the agglomerate, and the halo list exactly the outside cells (other agglomerates' and other processors') that share a vertex with one of its cells; both are in ascending cell order, one entry per agglomerate, and the agglomerates themselves are not changed.",
     ["inputs", "configurations"], "every agglomeration of C01, uniform and adaptive, 2D/3D, any number of processors",
     "The tests check one cube with one block size.", [AM], [("build_boundary_agglomerates", AM)],
     "Agglomerate.tla / AggTrace.tla", "TLC computes both sets from the recorded vertices of every cell.")
prop("C05", "An agglomerate's patch is a faithful copy of its cells",
     "The triangulation built for an agglomerate, or for a list of cells, has exactly one cell per selected cell with the same vertices in the same order, faces shared by two selected cells stay interior, faces on the domain boundary keep their boundary id and cut faces have id 0. The index map sends every degree of freedom of the patch to the degree of freedom of the same cell and local position in the global numbering, injectively. An empty selection gives an empty patch.",
     ["inputs", "configurations"], "2D/3D conforming meshes with and without per-face boundary ids, agglomerates of any shape (disconnected, single cells, halos with ghost cells), FE_Q of degree 1 to 3, any number of processors",
     "The tests build patches of a few agglomerates and never look at the cells.", [AM], [("build_agglomerate_triangulation", AM), ("compute_dof_index_map", AM)],
     "Patch.tla", "TLC compares cells, vertices, faces and every dof of the recorded patch with the recorded mesh.")
prop("C06", "The restriction matrix places weighted eigenvectors row by row",
     "The restriction matrix has one row per local eigenvector, the rows of a processor being consecutive, processors in rank order, agglomerates and their eigenvectors in order; row entry at a degree of freedom is (local diagonal / global diagonal) times the eigenvector's entry there and zero outside the agglomerate. When the eigenvector and delta matrices are built along with it, the first holds the plain eigenvector entries at the same positions and the second restriction minus eigenvector matrix.",
     ["inputs", "configurations"], "any number of eigenvectors per agglomerate (different ones for different agglomerates), zero entries, any agglomeration, any number of processors with processors that own nothing",
     "The tests use one or a few fixed configurations and check them against the same formula on few processors.", [AM], [("compute_restriction_sparse_matrix", AM), ("compute_restriction_sparsity_pattern", AM)],
     "Restriction.tla", "TLC assembles the matrix itself from exact integer inputs and compares every entry on every processor.")
prop("C07", "Restriction weights are a partition of unity",
     "For an evaluator whose agglomerate matrices add up to the global matrix, the weights (restriction entry divided by eigenvector entry) of all agglomerates on all processors add up to 1 at every degree of freedom that they cover, every agglomerate's weight being its own diagonal over the global diagonal.",
     ["inputs", "configurations"], "meshes, agglomerations, coefficients and numbers of processors; restriction set up by the library from agglomeration to matrix",
     "The consistency check in the code is compiled in debug builds only and sees only what a test runs.", [AH, AM, ME, UT], [("setup_restrictor", AH), ("get_diagonal", ME)],
     "Restriction.tla", "TLC adds up the recorded entries of the real restriction set-up.")
prop("C08", "One application is one V-cycle of the configured hierarchy",
     "Applying the hierarchy performs, per level, the configured number of pre-smoothing steps, restriction of the residual, the recursive coarse correction starting from zero, subtraction or addition of the prolonged correction, and the same number of post-smoothing steps, with the coarse solver on the last level; the result is exactly the textbook V-cycle's. In preconditioner mode the incoming vector does not influence the result; otherwise it is the initial guess; the right-hand side is never changed and repeated applications are independent.",
     ["inputs", "histories", "configurations"], "1 to 6 levels, 0 to 5 smoothing steps, both modes, any operators, smoothers, restrictors and coarse solvers, sequences of applications, with and without a timer",
     "The tests run two levels with one smoother and look at convergence rates.", [HI], [("Hierarchy::apply", HI), ("Hierarchy::vmult", HI)],
     "VCycle.tla", "TLC explores the V-cycle machine and replays every call the real hierarchy makes on exact integer operators.")
prop("C09", "Hierarchy set-up builds Galerkin operators with the documented defaults",
     "Setting up a hierarchy uses the finest operator on level 0, and on every coarser level the product of the restrictor, the finer operator and the restrictor's transpose; each smoother and the coarse solver get exactly their own level's operator. Missing parameters mean two levels, one smoothing step, preconditioner mode and no fast product; with one level the coarse solver alone is built on the finest operator.",
     ["configurations", "inputs"], "every combination of given and missing parameters, levels, fast product on and off, any operators",
     "The tests use one configuration file with few variations and never look at the coarse operators.", [HI, HH, TO], [("Hierarchy::Hierarchy", HI)],
     "VCycle.tla / Galerkin.tla", "TLC computes the Galerkin products itself, for generated integer hierarchies and for restrictors of the real library.")
prop("C10", "The fast product equals operator times transposed restriction",
     "With the fast product enabled, and an evaluator whose patch matrices hold the same cell contributions and constraints as the global matrix, the operator delivered for a restrictor equals the global operator multiplied by the transpose of that restrictor, entry by entry up to round-off and eigensolver accuracy, for the matrix-based and the matrix-free path, on every number of processors.",
     ["inputs", "configurations"], "uniform 2D/3D meshes, block and graph agglomerates (touching, isolated, single-cell, covering the whole domain), one or several eigenvectors, all eigensolvers, any number of processors including idle ones",
     "The tests compare convergence rates of fast and plain products for one mesh.", [HH, MH, AM, AH], [("build_restrictor", HH), ("build_restrictor", MH), ("fast_multiply_transpose", HH)],
     "FastProduct.tla / Galerkin.tla", "TLC explores every schedule of the pipeline on every chain of 4 cells, and multiplies the recorded global operator by the recorded restriction matrix and compares with the recorded fast product.")
prop("C11", "Matrix operators: products, transposes and vectors are exact",
     "For matrix operators, applying in either mode is multiplication by the matrix or its transpose, transposing, multiplying and multiplying by a transpose give the operators whose matrix is the mathematical result, for any shapes, and none of these changes its operands. Vectors built for an operator have its domain's and range's size and distribution.",
     ["inputs", "configurations", "programs"], "rectangular and square sparse matrices (empty rows and columns included), programs of operator calls, any distribution of rows over processors",
     "The tests apply a few operators of one size.", [TO, MO], [("DealIITrilinosMatrixOperator", TO), ("DealIIMatrixOperator", MO)],
     "OpAlg.tla", "TLC evaluates every program of operator calls on exact integer matrices.")
prop("C12", "Matrix-free product with a transposed matrix is exact",
     "The operator obtained by multiplying a matrix-free operator with the transpose of a sparse matrix equals the mathematical product (entries of magnitude below 1e-14 may be dropped), whatever the distribution of rows and columns, and extracting a row of a distributed matrix gives exactly that row, zero elsewhere, on every processor.",
     ["inputs", "configurations"], "matrices with rows stored on any processor, empty rows, columns owned elsewhere; positive, negative and tiny entries",
     "The tests use it inside one hierarchy only.", [DU, DUH, FO], [("matrix_transpose_matrix_multiply", DUH), ("extract_row", DU)],
     "OpAlg.tla", "TLC multiplies exact integer matrices and compares.")
prop("C13", "Smoothers make one affine correction step",
     "One smoothing step replaces x by x + B(b - Ax), with B the method that was configured (Jacobi, Gauss-Seidel, symmetric Gauss-Seidel, ILU, Chebyshev) for the given operator, its name being case-insensitive and symmetric Gauss-Seidel (matrix) and Chebyshev (matrix-free) the default. The exact solution is left unchanged and b is not modified.",
     ["inputs", "configurations", "histories"], "diagonally dominant and other matrices, right-hand sides, iterates, repeated steps, names in any case, absent type",
     "The tests smooth inside one hierarchy.", [SM, FS], [("DealIISmoother::apply", SM), ("DealIIMatrixFreeSmoother::apply", FS)],
     "Smoother.tla", "TLC performs the sweeps itself on exact numbers and compares every iterate.")
prop("C14", "The coarse solver solves the coarsest system",
     "With the direct coarse solver, or none specified, applying it gives the solution of the coarsest system for every right-hand side, independent of the incoming vector and of earlier solves; the names are case-insensitive. The right-hand side is not modified.",
     ["inputs", "configurations", "histories"], "nonsingular matrices (symmetric or not), sequences of right-hand sides, any incoming vector, any number of processors",
     "The tests solve one system.", [SO], [("DealIISolver::apply", SO)], "Smoother.tla",
     "TLC multiplies the returned solution by the matrix and compares with the right-hand side.")
prop("C15", "Unsupported configurations are rejected, never run silently",
     "An unknown partitioner, smoother, coarse solver or eigensolver name, an eigensolver, smoother or coarse solver that is not available for the kind of mesh evaluator, a missing or malformed required section or parameter, fewer than one or more than two levels, an unknown mesh evaluator type, and operations or operands that an object does not support all end in an exception; nothing is returned as if it had worked, and nothing crashes. Every other configuration of known names, in any case where names are case-insensitive, sets up and applies, and what a configuration does not use is not looked at.",
     ["configurations"], "every configuration with at most two deviations from a valid one, over all keys and values, both evaluator families, 2D and 3D; every operation of every operator and evaluator class",
     "The tests use valid configurations.", [AM, AH, SM, FS, SO, HI, FO], [("ASSERT_THROW", "include/mfmg/common/exceptions.hpp"), ("Hierarchy::Hierarchy", HI), ("DealIISolver", SO)],
     "Config.tla", "TLC enumerates the configuration space of the specification and the enumerated configurations are run on the real code.")
prop("C16", "Parameter trees are converted faithfully",
     "Converting a configuration tree into a solver parameter list gives the same nesting, and every leaf appears under its own name with the type its text has (int, double, bool, otherwise string) and exactly its value, whatever characters names and values contain; parameters already in the list are kept or overwritten by name, and the tree is not changed.",
     ["inputs", "histories"], "trees of any depth, names and values with any printable characters, numbers at the limits of their types, blanks, several trees converted into one list",
     "The tests convert one tree.", [UC], [("ptree2plist", UC)], "Ptree.tla",
     "TLC parses the texts itself and compares value by value.")
prop("C17", "Sorting permutations sort and permute exactly",
     "The sorting permutation of two companion arrays is a permutation that orders the pairs lexicographically, and applying a permutation in place moves every element exactly where it says, for every permutation.",
     ["inputs"], "arrays with ties, empty and single arrays, all permutations of up to 7 elements",
     "The tests use two arrays.", [UT], [("sort_permutation", UT), ("apply_permutation_in_place", UT)], "Perm.tla",
     "TLC checks the cycle walk on every permutation of up to 5 positions and every recorded call of the real functions.")
prop("C18", "Multivector operations follow the block-vector contract",
     "Blocks of vectors behave as the eigensolver library requires: copies are deep, views alias the selected columns in the given order, and the update, scaling, product, norm, assignment, random and initialisation operations give the mathematical result on exactly the selected columns, also when the result is one of the operands.",
     ["programs", "histories"], "programs of operations over several blocks, index lists in any order, views of views, aliasing results",
     "The tests use them only through one eigensolver run.", [MV, AT, "include/mfmg/dealii/belos_traits.hpp"], [("MultiVecTraits", AT), ("MultiVector", MV)],
     "MultiVec.tla", "TLC runs a heap model of blocks and views over every generated program and compares every column after every call.")
prop("C19", "Lanczos returns ordered, accurate eigenpairs of the operator",
     "For a symmetric operator the Lanczos solver returns the requested number of pairs with eigenvalues in ascending order, unit eigenvectors with residual within the tolerance when it converged, and values that are the smallest eigenvalues the starting vector reaches; with deflation, multiple eigenvalues are found with orthogonal vectors; a request it cannot serve ends in an error, never in wrong pairs. The initial guess passed in is not modified and equal inputs give equal results.",
     ["inputs", "configurations"], "operators with separated, clustered and multiple eigenvalues, starting vectors with and without components in some eigenspaces, iteration limits, overshoot settings, deflation cycles, n equal to the dimension",
     "The tests use one operator and one setting each.", [LZ, LD], [("Lanczos::solve", LZ), ("DeflatedOperator", LD)],
     "Eigen.tla", "TLC checks values, order, residual and orthogonality in fixed-point arithmetic against the operator's exactly known spectrum.")
prop("C21", "Set-up does not depend on threads or timing",
     "Setting up the restriction (and the fast product) with the direct eigensolvers gives the same matrices, row for row, with any number of threads and any timing of the agglomerate evaluations, as with one thread.",
     ["schedules"], "2 to 16 threads, agglomerate evaluations delayed in any pattern, more agglomerates than threads and fewer, empty boundary patches in between",
     "The tests run with one thread.", [AH, HH, MH], [("WorkStream worker/copier", AH)], "FastProduct.tla / GalerkinTrace.tla",
     "TLC explores every schedule of the worker/copier pipeline in the model; recorded worker/copier histories of the real set-up under forced delays are checked against it.")
prop("C22", "Processors agree, and idle processors take part",
     "Setting up and applying a hierarchy ends on every processor, also when some own no cells or agglomerates, with consistent sizes and distributions, and with one global operator and result that match the serial computation of the same agglomerates.",
     ["configurations"], "meshes with fewer cells than processors, uneven distributions, 1 to 8 processors",
     "The tests run on 1, 2 and 4 processors that all own cells.", [AM, AH, HH, TO], [("compute_restriction_sparsity_pattern", AM)], "Galerkin.tla",
     "TLC joins the records of all processors, checks row ownership and the global products, and compares applications on one and on several processors place by place.")
prop("C23", "The parallel output record lists every processor's piece",
     "Writing agglomerates to file leaves one piece file per processor and one record file, the record listing each of the pieces exactly once, and the agglomerates unchanged.",
     ["configurations", "histories"], "any number of processors, processors without cells, before and after agglomeration, any base name",
     "No test reads the files.", [AM], [("output", AM)], "AggTrace.tla",
     "TLC compares the recorded directory and the pieces named in the record with the set of processors.")
prop("C24", "Initial guesses and global diagonals are what they say",
     "The initial guess for the eigensolver is zero exactly at constrained degrees of freedom and in (0,1) elsewhere, reproducible for the same size; the global diagonal holds the system matrix's diagonal at every owned and ghost degree of freedom.",
     ["inputs", "configurations"], "any set of constrained degrees of freedom, any size, diagonals with any values, any distribution",
     "The tests use unconstrained agglomerates and never look at it.", [ME], [("set_initial_guess", ME), ("get_diagonal", ME)], "Evaluator.tla",
     "TLC checks recorded guesses and diagonals against the constraints and matrices given.")
prop("C25", "Local eigenpairs are the smallest of the agglomerate operator",
     "For every agglomerate the set-up uses the requested number of eigenpairs of smallest eigenvalue of the (unshifted) agglomerate operator, in ascending order, with orthonormal eigenvectors that vanish at constrained degrees of freedom, for each of the available eigensolvers, as far as there are that many (Krylov solvers may miss copies of a multiple eigenvalue); where a solver cannot find them, it ends in an error.",
     ["inputs", "configurations"], "agglomerate matrices with known spectra (diagonal, Laplace), with and without constrained degrees of freedom, every eigensolver, several eigenvectors",
     "The tests check one 2D Laplace agglomerate.", [AH], [("compute_local_eigenvectors", AH)], "Eigen.tla",
     "TLC checks recorded pairs in fixed-point arithmetic against the exactly known operator.")
prop("C26", "The preconditioner is linear and a stationary iteration never diverges",
     "For a symmetric positive definite, diagonally dominant problem with nonpositive off-diagonal entries and an invertible coarse operator, applying the set-up hierarchy is linear in the right-hand side and symmetric when the smoother is, the exact solution is a fixed point in standalone mode, and the energy norm of the error never increases from one application to the next.",
     ["inputs", "configurations", "histories"], "Laplace problems with constant and jumping coefficients, uniform meshes 2D/3D, agglomerations, eigensolvers, smoothers, numbers of processors, right-hand sides, starting vectors",
     "The tests look at one convergence rate per configuration.", [HI, HH, AH, AM, SM, SO, TO], [("Hierarchy", HI)], "Converge.tla",
     "TLC checks the argument exactly on every small 2 x 2 problem and recorded applications of the real hierarchy in fixed-point arithmetic.")
prop("C27", "Output files hold exactly the object that was written",
     "A matrix (of either kind) or vector written to a file is there in Matrix Market format with its sizes and every nonzero entry, to the last bit, exactly once at its position, on any number of processors; writing to a file again replaces it, and no other file changes.",
     ["inputs", "histories", "configurations"], "rectangular, empty, serial and distributed matrices, vectors, values with full mantissas and extreme exponents, processors without rows, sequences of outputs to the same and to other files",
     "No test writes a file.", [DU], [("matrix_market_output_file", DU)], "MatrixMarket.tla",
     "TLC checks the gather-and-write machine for all small objects and every file the real library wrote, read back after each output.")
prop("C28", "A timer only observes",
     "A hierarchy does exactly the same with and without a timer; each set-up, application and phase of them is counted once and its work is done inside its own section, and every section entered is left again when the set-up or application is over, whether it succeeded or ended in an exception.",
     ["histories", "configurations", "fault_sequences"], "sequences of set-ups and applications of hierarchies of 1 to 6 levels sharing one timer, a failure in any of the calls",
     "The tests time a set-up that succeeds and do not look at the sections.", [HI], [("Hierarchy", HI), ("Hierarchy::vmult", HI)], "Timing.tla",
     "TLC explores the timer's stack under every failure and replays recorded lives of real hierarchies with failing parts.")
prop("C30", "Device (CUDA) implementations match the host ones",
     "Agglomeration set-up, operators, smoothers and solvers on the device give the same results as on the host.",
     ["inputs", "configurations"], "all of the above on a CUDA device", "No device test runs here.",
     ["source/cuda", "include/mfmg/cuda"], [("AMGe_device", "include/mfmg/cuda/amge_device.templates.cuh")], "", "")

NA = {"C30": "The CUDA sources are not compiled here: there is neither a CUDA compiler nor a device in the sandbox, so no specification can be bound to that code."}
TECH = "TLA+ specification (%s) checked with TLC; traces of the real code validated against it"

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
         "notes": "Specifications are TLA+ (spec/), checked with TLC; see DESIGN.md."}
    for p in P:
        if p["id"] in BUILT:
            m["checks"].append({
                "property": p["id"], "quick_cmd": "./run.py " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./run.py " + p["id"],
                "technique": TECH % p["spec"], "level": "model_checking",
                "level_note": p["note"] + " Assumes that the harness records faithfully, and deal.II, Trilinos, LAPACK and MPI as installed; scenarios are finite samples (bounds in DESIGN.md)."})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": NA.get(
                p["id"], "No check yet: being built.")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
