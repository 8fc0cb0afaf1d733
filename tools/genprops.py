#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b) for a, b in state],
                     mechanism=mechanism, observe_at=list(observe), hook_needed=hook)))

B = "src/base/"
prop("D01", "All processes agree on the classes of shared unknowns",
 """For every way unknowns can be shared between processes, all processes end up with the same family of sharing
 classes: a class carries the same global id and the same sorted process list on each of its members and on no other
 process, and exactly the unknowns shared by exactly these processes belong to it. The family contains the intersections
 needed to merge classes, and the order, merge and membership queries on it agree with set inclusion, union and
 membership of the process lists on every process that can ask.""",
 ["inputs", "schedules"], """all process counts up to 4 (the idle master included), all sets of sharing patterns of up to
 a few unknowns, and all MPI progress behaviours (buffered/rendezvous, completion order)""",
 """Tests run a handful of meshes under mpirun -np 1,2,5 with one partition each and only look at solver iterations;
 they never see most sharing patterns, nor any timing other than the one OpenMPI happened to produce.""",
 [B+"distributed/eqchierarchy.hpp", B+"distributed/eqchierarchy.cpp", B+"distributed/mpiwrap_extension.hpp"],
 ["construction of the class hierarchy from the dof-to-process table: gather of local classes, global id numbering, closure under intersection, merge table"],
 [("equivalence class", "set of processes that share an unknown, with a globally unique id"),
  ("merge table", "for two classes the smallest class that contains the union")],
 ["queries of the class hierarchy on each process"])

prop("D02", "Exchanging data on shared classes equals the sequential result",
 """Reducing, scattering or all-reducing data attached to sharing classes leaves on every member process of a class
 exactly the value a sequential evaluation over all members' contributions gives, for every class and every entry, and
 leaves data of classes a process does not share untouched. This holds for any admissible timing of the message passing.""",
 ["inputs", "schedules"], """all partitions of small node sets over up to 4 processes, row sizes including empty rows, all
 exchange primitives, all message completion orders and buffering behaviours""",
 """The tests only exercise the exchange indirectly, on meshes where every class is populated, and under the one timing MPI
 picked; empty rows, empty classes and late progress of sends never occur deterministically.""",
 [B+"distributed/reducetable.hpp", B+"distributed/eqchierarchy.hpp", B+"mesh/alg_mesh_nodes.hpp", B+"mesh/base_mesh.hpp"],
 ["per-class tables packed to one message per neighbour, reduced at the master of each class, scattered back"],
 [("class data", "one row of values per sharing class"), ("cumulation state", "whether values are full or partial sums")],
 ["result arrays on each process"])

prop("D03", "A distributed algebraic mesh is the same mesh on every process",
 """When a mesh is built from per-process vertices and edges, every vertex and edge shared by several processes appears on
 exactly these processes, in the same position of the same class everywhere, and edges that connect vertices of different classes
 land in the class shared by all processes that know both ends. Global counts equal the number of distinct vertices and edges, edges connect the
 vertices they were given with, and no edge is lost or duplicated.""",
 ["inputs", "schedules"], """all graphs on a few vertices, all assignments of elements (edges) to up to 3 working processes, all message orders""",
 """Tests use one partition per mesh and never look at the algebraic mesh; a wrong ordering in a rare class only degrades convergence.""",
 [B+"mesh/base_mesh.hpp", B+"mesh/base_mesh.cpp", B+"mesh/alg_mesh.hpp", B+"mesh/alg_mesh_nodes.hpp"],
 ["class-wise sorting of vertices and edges, exchange of edges spanning classes, global numbering and counts"],
 [("block mesh", "vertices and edges ordered by sharing class, with edges across classes kept per class")],
 ["vertex/edge tables, counts and numbering on each process"])

prop("D04", "Cumulating and distributing vectors conserves the global vector",
 """Each shared unknown has exactly one owner; turning a vector of partial values into full values yields on every process the sum
 of all partial values, and turning full values into partial ones keeps that sum. Any sequence of such conversions, started and finished
 in separate phases, represents the same global vector and never hangs or leaves a message behind.""",
 ["inputs", "histories", "schedules"], """all partitions of few unknowns over up to 3 working processes, block sizes 1 and more, all owner
 assignments the library offers, all conversion sequences up to a bound and all completion orders of the messages""",
 """Tests see it only through iteration counts of one partition per mesh; a lost contribution for one sharing pattern or one completion
 order merely changes convergence or hangs rarely.""",
 [B+"linalg/dcc_map.hpp", B+"linalg/dcc_map.cpp"],
 ["owner assignment per shared unknown, persistent send/receive pairs, buffering, start/apply/finish phases"],
 [("owner", "the process that holds the full value of an unknown in the concentrated state"),
  ("status", "distributed / concentrated / cumulated")],
 ["vector entries and owner masks on each process"])

prop("D05", "Splitting a distributed matrix into local and exchanged parts is exact",
 """The split of a parallel matrix into an owner-local part and the remainder represents the same global operator: applying the
 split matrix, or its transpose, with any scale factors gives the result of applying the original matrix, for
 every partition and every vector status, and the diagonal used for smoothing is built from the full global diagonal.""",
 ["inputs", "schedules"], """all small symmetric matrices over a graph/weight alphabet, all partitions over up to 3 working processes, block sizes 1 to 3, all
 message orders""",
 """Tests compare solver iteration counts only; an entry dropped for a rare combination of owners is invisible there.""",
 [B+"linalg/hybrid_matrix.hpp", B+"linalg/hybrid_matrix.cpp", B+"smoothers/hybrid_base_smoother.cpp"],
 ["exchange of matrix rows with the owner of a dof, local symmetric part M and remainder G"],
 [("M", "owner-owner block with full values"), ("G", "everything else, not exchanged")],
 ["Mult/MultAdd/MultTrans of original and split matrix"])

prop("S01", "Smoothers are consistent iterations and keep the residual honest",
 """One forward or backward smoothing step changes the iterate by exactly the correction of the advertised method (point or block
 Gauss-Seidel, Jacobi) for the current residual, leaves constrained unknowns untouched, and leaves a solution fixed. Whatever
 combination of hints the caller passes (residual already up to date, residual to be updated, zero initial guess) the iterate is the same, and
 an updated residual equals right-hand side minus matrix times iterate.""",
 ["inputs", "histories", "configurations"], """all small symmetric positive definite matrices over a graph/weight alphabet, all subsets of constrained unknowns, block sizes 1, 2 and 3, all
 smoother kinds and all hint combinations, all sequences of steps up to a bound""",
 """Tests only run complete solvers with the hint combinations the cycle happens to use on a handful of meshes, and accept any iteration count below a limit.""",
 [B+"smoothers/gssmoother.hpp", B+"smoothers/gssmoother.cpp", B+"smoothers/base_smoother.hpp", B+"smoothers/base_smoother.cpp", B+"smoothers/block_gssmoother.hpp", B+"smoothers/loc_block_gssmoother_impl.hpp", B+"smoothers/dyn_block_smoother.cpp"],
 ["row sweeps with precomputed (pseudo-)inverse diagonals and optional residual updates"],
 [("residual", "right-hand side minus matrix times iterate, valid if flagged"), ("free unknowns", "mask of unknowns the smoother may change")],
 ["iterate and residual after each call"])

prop("S02", "Forward and backward smoothing are adjoint and never increase the energy",
 """For a symmetric positive definite matrix the error operator of backward smoothing is the adjoint, in the energy inner product, of that of forward smoothing,
 and no smoothing step increases the energy norm of the error - on one process or on many, for every partition.""",
 ["inputs", "configurations", "schedules"], """all small SPD matrices over the alphabet, all smoother kinds and step counts, all partitions over up to 3 working processes""",
 """A preconditioner that is slightly unsymmetric or expands one error mode still converges within the tests' iteration limits.""",
 [B+"smoothers/hybrid_smoother.hpp", B+"smoothers/hybrid_smoother.cpp", B+"smoothers/hybrid_smoother_utils.hpp", B+"smoothers/hybrid_base_smoother.cpp", B+"smoothers/gssmoother.cpp"],
 ["reversed sweep order, modified diagonals that account for the exchanged part"],
 [("modified diagonal", "diagonal enlarged so that the additive treatment of the exchanged part stays stable")],
 ["error operator assembled column by column through the public smoothing calls"])

prop("S03", "Parallel smoothing does not depend on timing or on overlap options",
 """For a given partition, the result of smoothing with a distributed matrix is the same for every timing of messages and whether or not communication is
 overlapped with computation or done by a helper thread, and equals a sequential evaluation of the owner-wise method.
 It never hangs, also across repeated calls, and no process reads a buffer that is still being filled.""",
 ["schedules", "inputs", "configurations"], """all partitions of small matrices over up to 3 working processes, all overlap / helper-thread settings, all message completion
 orders, rendezvous and buffered sends""",
 """Timing under mpirun on one machine exercises one order; the overlap and thread settings are only run with their defaults in the tests.""",
 [B+"smoothers/hybrid_base_smoother.hpp", B+"smoothers/hybrid_base_smoother.cpp", B+"smoothers/hybrid_smoother.cpp", B+"linalg/dcc_map.cpp"],
 ["start/finish of distributed-to-concentrated-to-cumulated conversion around three smoothing stages"],
 [("stage splitting", "interior rows smoothed while messages are in flight")],
 ["iterate and residual on each process"])

prop("S04", "The communication helper thread executes each handed-over task exactly once",
 """Handing a task to the background communication thread and waiting for it returns only after that task has completely run, exactly once, with all its effects visible,
 for every interleaving of the two threads; shutting down always terminates.""",
 ["schedules", "histories"], """all interleavings at lock, wait and notify operations of the handing and the background thread, spurious wakeups included, for all task
 sequences up to a bound, followed by destruction""",
 """A lost wakeup needs a preemption of a few nanoseconds at one particular place; tests do not even switch the option on.""",
 [B+"smoothers/hybrid_base_smoother.hpp", B+"smoothers/hybrid_base_smoother.cpp"],
 ["mutex / condition-variable hand-over protocol between caller and helper thread"],
 [("hand-over flags", "task available / task done / shut down")],
 ["completion of tasks and of shutdown"])

prop("C01", "The multigrid cycle is one fixed, symmetric positive definite operator",
 """Applying the multigrid preconditioner is linear, gives the same result however often and in whatever order it and its additive variants are called before, does not
 change its input, and is symmetric positive definite on the free unknowns when the matrix is. It equals the textbook cycle of the selected type built from the
 same smoothers, transfer operators and coarsest-level solve, and approximates the inverse so that the preconditioned spectrum lies in (0,1] for V-cycles.""",
 ["inputs", "histories", "configurations"], """all small hierarchies (1 to 4 levels) over a matrix alphabet, all cycle types, smoothing step counts and coarsest-level options, all short call histories, with 1 to 3 working processes""",
 """Krylov tests pass with a slightly unsymmetric or history-dependent preconditioner; most cycle/coarse-level combinations are never run.""",
 [B+"solve/amg_matrix.hpp", B+"solve/amg_matrix.cpp"],
 ["recursive cycle on preallocated level vectors with residual-update shortcuts"],
 [("level vectors", "right-hand side, iterate and residual per level, reused between calls")],
 ["output vector of the preconditioner application"])

prop("C02", "Level transfer is adjoint, consistent and independent of how steps are merged",
 """Restriction is the transpose of prolongation for every map between levels, adding and overwriting variants agree, and transferring
 through a merged map equals transferring through its steps one after the other - for all step kinds, block sizes and partitions.""",
 ["inputs", "programs", "schedules"], """all short sequences of transfer steps of all kinds over small dimension and entry alphabets, all merge points, all partitions over up to 3 working processes""",
 """Tests only run the sequences the default settings produce; an inconsistent merge shows as a few more iterations.""",
 [B+"coarsening/dof_map.hpp", B+"coarsening/dof_map.cpp"],
 ["prolongation steps, contraction steps, permutation/embedding steps, concatenation"],
 [("transfer step", "one linear map between dof spaces of adjacent levels")],
 ["transferred vectors on each process"])

prop("C03", "Coarse-level matrices are exactly the Galerkin products",
 """On every level and for every partition, the coarse matrix represents prolongation-transpose times fine matrix times prolongation of the map actually used to transfer vectors
 between these levels, including levels that are redistributed to fewer processes, and stays symmetric for symmetric input. For elasticity, diagonal blocks that are singular
 may be completed in their null directions; nothing else is changed.""",
 ["inputs", "configurations", "schedules"], """all small weighted graphs, all constrained subsets, all prolongation kinds and coarsening algorithms, all partitions over up to 3 working processes""",
 """Tests never compare the coarse matrices with anything; a wrong entry only changes convergence.""",
 [B+"coarsening/dof_map.cpp", B+"linalg/utils_sparseMM.hpp", B+"factory/base_factory.cpp", B+"coarsening/grid_contract.cpp", B+"coarsening/dof_contract.cpp"],
 ["sparse triple products, merging of matrices when contracting"],
 [("level", "matrix, dofs and map to the next level")],
 ["level matrices and maps returned by the preconditioner"])

prop("C04", "A finished hierarchy reports the truth and can be reused as smoother or solver",
 """Every process is told the same, true number of levels, and for every level and process the true number of unknowns; the basis function of an unknown of a level (given by its global number
 or by process and local number) is the corresponding column of the composed prolongations, a request for one that does not exist is refused with a zero vector on every process; the coarse correction
 alone is prolongation times coarse solve times restriction. The hierarchy from any level on, used as a smoother (forward or backward, also with a single smoothing step on its first level), turns a guess x for
 right hand side b into x + C(b - Ax) with C the V-cycle from that level, and leaves the residual it promises. Used as a linear solver it iterates exactly that until the residual norm has dropped by the tolerance
 or the steps are used up, decides so alike on all processes, and reports convergence, number of steps and errors truthfully. None of this changes later applications of the preconditioner.""",
 ["inputs", "configurations", "histories", "schedules"], """all small weighted graphs and partitions, grids over up to 6 processes with repeated regrouping, scalar, vector valued and elasticity problems, every level, process and unknown, guesses and residual hints, step limits and tolerances""",
 """Tests look at iteration counts of the whole preconditioner only; levels that some processes have left, coarsest levels and refused requests never occur.""",
 [B+"solve/amg_matrix.cpp", B+"solve/LinearSolver.cpp", B+"coarsening/dof_map.cpp", B+"python/python_amg.hpp"],
 ["GetNLevels, GetNDof, GetBF, CINV", "AMGSmoother", "AMGAsLinearSolver"],
 [("hierarchy", "levels, unknowns of each process and level, operators between levels")],
 ["level matrices and maps returned by the preconditioner"])

prop("A01", "Coarsening partitions the free vertices into valid aggregates",
 """Every coarsening algorithm terminates on every input and maps every free vertex to exactly one coarse vertex, constrained vertices to none; a free vertex may be left out only by strongest-connection pairing, and only if it has no connection at all or its connection to ground exceeds the configured share;
 all processes that share a vertex map it to the same coarse vertex, every coarse vertex has at least one fine vertex, aggregates of more than one vertex are connected through edges, and the coarse mesh is
 strictly smaller whenever something was merged.""",
 ["inputs", "configurations", "schedules"], """all weighted graphs on few vertices, all constrained subsets, all partitions over up to 3 working processes, all coarsening algorithms and their round/size settings""",
 """Tests use a few regular meshes; isolated vertices, ties in edge strength, fully constrained patches or vertices whose neighbours all live on other processes do not occur.""",
 [B+"coarsening/agglomerator.hpp", B+"coarsening/agglomerator.cpp", B+"coarsening/spw_agg_impl.hpp", B+"coarsening/mis_agg_impl.hpp", B+"coarsening/agglomerate_map.hpp", B+"coarsening/agglomerate_map.cpp", B+"coarsening/plate_test_agg_impl.hpp"],
 ["pairwise matching in rounds / independent-set aggregation, with synchronisation of decisions at process boundaries"],
 [("aggregate", "set of fine vertices merged into one coarse vertex")],
 ["vertex map of the coarse map on each process"])

prop("A02", "The coarse mesh is the quotient graph with conserved weights",
 """Two coarse vertices are connected by an edge exactly when an edge connects their aggregates; a coarse edge's weight is the sum of the weights of the fine edges it replaces and a coarse vertex' weight the sum of its members' weights
 plus what they had towards constrained vertices (for elasticity: the energy of the coarse weights is the energy of the fine ones on the rigid-body continuation of the coarse values from the coarse vertices' positions). Counts, ordering and data agree on all processes.""",
 ["inputs", "schedules"], """all weighted graphs on few vertices, all constrained subsets, all partitions over up to 3 working processes, over several levels""",
 """Tests never look at the coarse mesh; wrong weights only change later aggregation decisions.""",
 [B+"coarsening/agglomerate_map.hpp", B+"coarsening/grid_map.hpp", "src/h1/h1_impl.hpp", B+"mesh/base_mesh.hpp"],
 ["mapping of vertices and edges through the vertex map, accumulation of attached data"],
 [("edge weight", "strength of a connection"), ("vertex weight", "strength to ground")],
 ["coarse mesh tables and attached data"])

prop("A03", "Prolongation reproduces the kernel of the problem",
 """Prolongating a constant (for H1-type problems) or a rigid body mode (for elasticity) from the coarse level gives exactly that constant or rigid body mode on all fine vertices not
 influenced by constrained ones, on every level, for every prolongation kind, and constrained vertices get zero.""",
 ["inputs", "configurations", "schedules"], """all weighted graphs on few vertices with all vertex positions from a small lattice, all constrained subsets, all prolongation kinds, all partitions over up to 3 working processes""",
 """Losing kernel preservation in one special situation costs iterations only; tests allow for them.""",
 [B+"factory/vertex_factory_impl.hpp", B+"factory/nodal_factory_impl.hpp", "src/h1/h1_energy_impl.hpp", "src/elasticity/elasticity_energy_impl.hpp", "src/elasticity/elasticity_impl.hpp", "src/elasticity/elasticity_pc_impl.hpp"],
 ["piecewise, smoothed and semi-smoothed prolongation from auxiliary edge matrices"],
 [("prolongation row", "weights with which a fine vertex interpolates from coarse ones")],
 ["prolongated vectors"])

prop("A04", "Moving a level to fewer processes loses nothing",
 """Redistributing a mesh, its unknowns and its matrix onto fewer processes keeps every vertex, edge, datum and matrix entry exactly once per process that now holds it, with sharing classes recomputed correctly;
 vectors transferred there and back represent the same global vector.""",
 ["inputs", "configurations", "schedules"], """all partitions of small meshes over up to 4 processes, all groupings of processes, all message orders and buffering behaviours""",
 """Only runs with many processes redistribute more than once; the tests use at most five processes and default grouping.""",
 [B+"coarsening/grid_contract.hpp", B+"coarsening/grid_contract.cpp", B+"coarsening/dof_contract.hpp", B+"coarsening/dof_contract.cpp", B+"distributed/mpiwrap_extension.hpp"],
 ["packing of mesh/matrix parts into messages to a group leader and merging them"],
 [("group", "set of processes whose parts are merged on one of them")],
 ["mesh, dofs and matrices after redistribution"])

prop("E01", "Constrained unknowns are ignored and never polluted",
 """The preconditioner's output is zero on constrained unknowns and does not depend on the input's values there, for every subset of constrained unknowns - including none, all, and whole processes.""",
 ["inputs", "configurations"], """all subsets of constrained unknowns on all small graphs, all coarsening/prolongation/smoother options, 1 to 3 working processes""",
 """Tests fix a boundary part of a mesh; isolated constrained dofs, fully constrained regions or unconstrained singular-free problems are not sampled.""",
 [B+"precond/amg_pc_vertex_impl.hpp", B+"precond/amg_pc.cpp", B+"solve/amg_matrix.cpp", B+"smoothers/gssmoother.cpp", B+"coarsening/agglomerate_map.cpp"],
 ["free-dof masks through smoothing, coarsening and prolongation"],
 [("free mask", "unknowns that may be changed")],
 ["preconditioner output"])

prop("E02", "Set-up and application complete on every admissible configuration",
 """Building the preconditioner from an assembled symmetric positive definite matrix and applying it completes without crash, hang, mismatched collective or left-over message for every combination of
 supported options, every partition (processes without unknowns included) and every message timing, and the result does not depend on that timing.""",
 ["inputs", "configurations", "schedules"], """all combinations of coarsening, prolongation, smoother, cycle, coarse-solve and redistribution options over small graphs and partitions, all message completion orders and buffering behaviours""",
 """The tests cover fewer than twenty option combinations on regular meshes; rare combinations, tiny or empty local parts and adverse timing are not run.""",
 [B+"precond/amg_pc.cpp", B+"precond/amg_pc_vertex_impl.hpp", B+"factory/base_factory.cpp", B+"smoothers/base_smoother.hpp", "src/h1/h1_dim1.cpp"],
 ["set-up loop coarsen / redistribute / embed, selection of smoothers and coarse solver"],
 [("options", "user flags with per-level overrides")],
 ["termination, error state, output"])

prop("U01", "Messages reproduce meshes, tables and matrices exactly",
 """Every object sent to another process or broadcast - arrays, tables, sparse matrices, meshes - arrives with identical content, for every size including empty ones, every number of such messages in flight and
 whether sends are buffered or not; the sender may continue as soon as the call's contract says so.""",
 ["inputs", "schedules", "histories"], """all objects up to a small size incl. empty rows/objects, all sequences of up to three transfers in flight, buffered and rendezvous sends, all completion orders""",
 """Small messages are always buffered by MPI on one machine, so reuse of a send buffer that is still pending never shows in tests.""",
 [B+"distributed/mpiwrap_extension.hpp"],
 ["size header followed by data, non-blocking sends of temporary buffers"],
 [("pending send", "non-blocking send whose buffer must stay alive and unchanged")],
 ["received objects"])

prop("U02", "Sparse and dense kernels agree with textbook linear algebra",
 """Sparse products, transposes, sums, compressions, restrictions, and the conversion of symbolic matrix expressions (products, sums, transposes, blocks, embeddings, identities) to sparse matrices give the results of
 their dense definitions, with sorted, duplicate-free rows, for every pattern and block size, also with empty rows, empty matrices and negative entries. So do the operations on sorted index arrays, the conversion to dynamic
 block sparse matrices, dense pseudo-inverses (also of singular, zero and badly scaled matrices) and the tests for (semi-)definiteness.""",
 ["inputs", "programs"], """all sparsity patterns up to 3x3 blocks (and larger ones for single operations), all block sizes in use, all expression trees of depth two, all symmetric matrices with small integer entries""",
 """Patterns with empty rows, rows of equal columns in different orders or rank-deficient blocks do not occur on the tests' meshes.""",
 [B+"linalg/utils_sparseLA.hpp", B+"linalg/utils_sparseLA.cpp", B+"linalg/utils_sparseMM.hpp", B+"utils/utils_denseLA.hpp", B+"linalg/dyn_block.hpp", B+"linalg/dyn_block.cpp"],
 ["row-wise merges and two-pass products"],
 [("row", "sorted column indices with values")],
 ["returned matrices"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
