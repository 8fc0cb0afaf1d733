# harness executables and which of them decide which property
HARNESS = {
 "pc": dict(src=["pc.cpp"], groups=["base","h1"]),
 "fes": dict(src=["fes.cpp"], groups=["base","h1","elast"]),
 "pce": dict(src=["pce.cpp"], groups=["base","h1","elast"]),
 "view": dict(src=["view.cpp"], groups=["base","h1","elast"]),
 "dist": dict(src=["dist.cpp"], groups=["base"]),
 "dcc": dict(src=["dcc.cpp"], groups=["base"]),
 "mesh": dict(src=["mesh.cpp"], groups=["base"]),
 "crs": dict(src=["crs.cpp"], groups=["base","h1","elast"]),
 "ctr": dict(src=["ctr.cpp"], groups=["base"]),
 "dofmap": dict(src=["dofmap.cpp"], groups=["base"]),
 "msg": dict(src=["msg.cpp"], groups=["base"]),
 "smooth": dict(src=["smooth.cpp"], groups=["base"]),
 "hybrid": dict(src=["hybrid.cpp"], groups=["base"]),
 "kern": dict(src=["kern.cpp"], groups=["base"]),
 "thread": dict(src=["thread.cpp"], groups=["base"], exclude=["hybrid_base_smoother"]),
}
SIM = ("stateless model checking of the real code: exhaustive enumeration of inputs and depth-first exploration of all choices of a "
       "simulated MPI under a controlled scheduler, against a sequential reference model")
TRUST = ("Trusted: the simulated MPI (sim/simmpi.cpp) follows the MPI standard; NGSolve/netgen libraries; the small reference model in the harness. "
         "Exhaustive within the stated bounds only.")
CHECKS = {
 "D01": dict(parts=[dict(harness="dist")], level="model_checking", technique=SIM,
   note="Every family of sharing patterns over up to 4 processes (bounded number of patterns), rank 0 idle or not, three ways of building the classes, all message timings. " + TRUST),
 "D02": dict(parts=[dict(harness="dist")], level="model_checking", technique=SIM,
   note="All small tables over all small families of classes, all exchange primitives, all message timings and completion orders. " + TRUST),
 "D04": dict(parts=[dict(harness="dcc")], level="model_checking", technique=SIM,
   note="All partitions of up to 3 unknowns over up to 3 processes, all operation sequences (split phases, late finishing, updates in flight, two vectors in flight) up to depth 3-4, three owner assignments, all message timings. " + TRUST),
 "D05": dict(parts=[dict(harness="dcc"), dict(harness="hybrid")], level="model_checking", technique=SIM,
   note="All partitions of up to 3-4 unknowns over up to 3 processes, all distributions of the matrix entries over the sharing processes, symmetric and non-symmetric values, block sizes 1-3 and dynamic blocks. " + TRUST),
 "S04": dict(parts=[dict(harness="thread")], level="model_checking",
   technique="stateless model checking of the real code under a controlled thread scheduler: exhaustive depth-first exploration of all interleavings up to a preemption bound",
   note="All programs of up to 6 operations of the calling thread against the real helper thread: all interleavings of the short ones, preemption bound 3-4 for the long ones, spurious wake-ups included. Unlocked memory accesses interleave at synchronisation operations only. " + TRUST),
 "S01": dict(parts=[dict(harness="smooth")], level="model_checking",
   technique="exhaustive enumeration of matrices, masks, block lists, hint combinations and operation sequences run through the real smoothers, against a dense reference model",
   note="All connected graphs of up to 3-4 rows with symmetric/indefinite/constrained values, all masks, all block lists (overlapping, not covering), all valid combinations of status hints and all call sequences up to depth 2-3, plus larger matrices beyond every unrolling width. " + TRUST),
 "S02": dict(parts=[dict(harness="smooth"), dict(harness="hybrid")], level="model_checking",
   technique="exhaustive enumeration of matrices, masks, block lists and partitions; the error operators of the real smoothers are extracted column by column and compared as matrices; simulated MPI explored for the distributed ones",
   note="Same space as S01 (sequential) and S03 (distributed). Adjointness and energy of the extracted operators; the energy claim for several processes covers scalar problems. " + TRUST),
 "S03": dict(parts=[dict(harness="hybrid")], level="model_checking",
   technique=SIM + "; bounded-preemption exploration of the interleavings of MPI ranks and communication helper threads",
   note="All partitions of small matrices over up to 3 processes, all entry distributions, overlap and helper-thread options, sequences of up to 3 steps in both directions with all hints, against an owner-wise reference written from the method's definition. " + TRUST),
 "D03": dict(parts=[dict(harness="mesh")], level="model_checking", technique=SIM,
   note="All partitions of up to 4 vertices over up to 4 processes with all edge sets and all choices of which process knows an edge (bounded as listed), grids cut into up to 4 pieces, all message timings; every class, edge, count, loop and nodal exchange compared with the global graph. " + TRUST),
 "U01": dict(parts=[dict(harness="msg")], level="model_checking", technique=SIM,
   note="All tables, arrays, sparse matrices and meshes up to a small size, all sequences of up to 3 transfers (blocking/non-blocking), buffered, rendezvous and size-dependent buffering; sources are overwritten as soon as the call permits. " + TRUST),
 "C02": dict(parts=[dict(harness="dofmap")], level="model_checking", technique=SIM,
   note="All prolongation patterns over all partitions of up to 3 fine and 2 coarse unknowns on up to 3 processes, all redistributions onto fewer processes (up to 4), all chains of 2-3 steps of all block sizes merged in ten ways, all status combinations, compared with the dense operator and its transpose; larger spaces beyond the bound of the exhaustive part. " + TRUST),
 "C03": dict(parts=[dict(harness="dofmap"), dict(harness="pc"), dict(harness="pce"), dict(harness="fes")], level="model_checking", technique=SIM,
   note="Same chains as C02, all small symmetric and non-symmetric matrices, all ways of merging; coarse matrices compared entry by entry with the dense product; plus complete hierarchies (scalar, vector valued, 2d and 3d elasticity) set up by the factory over all small problems, partitions and option sets, every level's matrix and transfer extracted column by column. The same on finite element spaces (scalar, vector valued, compound; order 1-3) with a bilinear form on small meshes: all assignments of up to 8 elements to 2-3 processes, all sets of Dirichlet boundaries, the options that need a space. " + TRUST),
 "C04": dict(parts=[dict(harness="view")], level="model_checking", technique=SIM,
   note="Complete hierarchies (scalar, vector valued, 2d and 3d elasticity) over all small graphs and partitions and grids over up to 6 processes regrouped several times; every level, process and unknown asked for, every sub-hierarchy extracted as an operator column by column, iterative solves for all step limits up to 3 and four tolerances; compared with the dense operators of the levels. " + TRUST),
 "A04": dict(parts=[dict(harness="ctr"), dict(harness="dofmap")], level="model_checking", technique=SIM,
   note="All meshes of up to 3 vertices over up to 3-4 processes, all ways of gathering the processes into groups, repeated redistribution of grids, the METIS grouping itself, cumulated and distributed weights, oriented maps; the redistributed mesh is compared with the global graph exactly as in D03. " + TRUST),
 "E01": dict(parts=[dict(harness="pc"), dict(harness="pce"), dict(harness="fes")], level="model_checking", technique=SIM,
   note="The complete preconditioner (scalar, vector valued, 2d and 3d elasticity problems) on all graphs of up to 4-5 unknowns, all sets of constrained unknowns, all partitions of up to 3-4 unknowns over up to 4 processes, and on grids beyond, for option sets covering every coarsening, prolongation, smoother and cycle; the operator is extracted column by column. The same on finite element spaces (scalar, vector valued, compound; order 1-3) with a bilinear form on small meshes: all assignments of up to 8 elements to 2-3 processes, all sets of Dirichlet boundaries, the options that need a space. " + TRUST),
 "E02": dict(parts=[dict(harness="pc"), dict(harness="pce"), dict(harness="fes")], level="model_checking", technique=SIM,
   note="Set-up and application of the complete preconditioner (scalar, vector valued, 2d and 3d elasticity problems) over all small problems, partitions (idle processes included) and masks, the full product of the main options, every other option one at a time on several levels, all message timings and completion orders for the smallest ones; the simulated MPI reports deadlocks, mismatched collectives, left-over messages and invalid buffer use. The same on finite element spaces (scalar, vector valued, compound; order 1-3) with a bilinear form on small meshes: all assignments of up to 8 elements to 2-3 processes, all sets of Dirichlet boundaries, the options that need a space. " + TRUST),
 "C01": dict(parts=[dict(harness="pc"), dict(harness="pce"), dict(harness="fes")], level="model_checking", technique=SIM,
   note="The operator of the complete preconditioner (scalar, vector valued, 2d and 3d elasticity problems) and of all its parts is extracted column by column on all small problems, partitions and masks and for the product of the main options; compared with the textbook cycle, for symmetry, and its spectrum is computed. The same on finite element spaces (scalar, vector valued, compound; order 1-3) with a bilinear form on small meshes: all assignments of up to 8 elements to 2-3 processes, all sets of Dirichlet boundaries, the options that need a space. " + TRUST),
 "A03": dict(parts=[dict(harness="pc"), dict(harness="pce"), dict(harness="fes")], level="model_checking", technique=SIM,
   note="Prolongations of all levels extracted from complete hierarchies of scalar, vector valued, 2d and 3d elasticity problems over all small problems, partitions and masks, the product of coarsening, prolongation and redistribution options and every other option one at a time on grids. The same on finite element spaces (scalar, vector valued, compound; order 1-3) with a bilinear form on small meshes: all assignments of up to 8 elements to 2-3 processes, all sets of Dirichlet boundaries, the options that need a space. " + TRUST),
 "A01": dict(parts=[dict(harness="crs")], level="model_checking", technique=SIM,
   note="All weighted graphs of up to 3-4 vertices, all constrained subsets, all partitions of them over up to 4 working processes, larger grids, for every coarsening algorithm and its round and size settings, scalar and elasticity meshes, two levels in a row, all message timings. " + TRUST),
 "A02": dict(parts=[dict(harness="crs")], level="model_checking", technique=SIM,
   note="Same space as A01; counts, classes, edges and data of every coarse mesh compared with the quotient of the global graph; cumulated and distributed weights. " + TRUST),
 "U02": dict(parts=[dict(harness="kern")], level="model_checking", technique="stateless model checking of the real code: exhaustive enumeration of all small operands and operation trees (patterns, values, block sizes), every result compared with a dense sequential reference model",
   note="All sparsity patterns up to 3x3 blocks (rows of up to 10 columns for wide ones), all compiled block sizes, all expression trees of depth two, all symmetric matrices with small integer entries up to 3x3 (4x4 thorough), low rank ones up to 6x6, Laplacians around the switch to Cholesky. Sequential. " + TRUST),
}
NA = {}   # property -> reason
