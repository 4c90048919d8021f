na("N01", "The solution does not depend on the number of processes, threads or domains",
   "For every input, the computed solution is the same (up to solver tolerance) for every number of MPI processes, threads, clusters and domains.",
   ["configurations", "schedules", "inputs"], "all decompositions and process counts", "Tests run a few fixed process counts.",
   ["src/mesh", "src/feti"], "Whole-program property over distributed executions, MPI and an iterative solver in floating point: no per-function contract expresses it, and the verifier has no model of MPI or threads. The sequential building blocks it rests on are claimed separately.")
na("N02", "FETI solvers converge to the solution of the assembled system",
   "For every solvable system the FETI solvers return a solution satisfying the assembled system within the requested tolerance.",
   ["inputs", "configurations"], "all solvable systems", "Tests sample few systems.",
   ["src/feti"], "Convergence and accuracy of Krylov iterations in floating point over third-party factorizations (MKL, SuiteSparse): outside what contracts on these functions can express or an SMT back end can decide.")
na("N03", "Distributed algorithms never deadlock and exchange complete data",
   "For every partition and message timing all processes terminate their exchanges and receive exactly the data addressed to them.",
   ["schedules"], "all message timings", "Tests see a few schedules.",
   ["src/wrappers/mpi", "src/basis/utilities/communication.cpp"], "Concurrency and liveness over MPI; contract-based sequential verification is silent on it.")
na("N04", "Parallel loops are free of data races",
   "For every thread count and schedule the threaded loops produce the sequential result.",
   ["schedules"], "all thread schedules", "Tests run with few threads.",
   ["src/mesh", "src/analysis"], "The verifier reasons about sequential semantics; OpenMP is not modelled.")
na("N05", "GPU paths compute the same results as CPU paths",
   "For every input the GPU implementations return the CPU result.",
   ["inputs", "configurations"], "all inputs and devices", "No GPU in the test environment.",
   ["src/gpu", "src/feti/dualoperator"], "CUDA/ROCm/oneAPI code cannot be compiled here and lies behind vendor libraries without contracts.")
na("N06", "Rounding errors stay within the stated solver precision",
   "For every input floating-point rounding in assembly and solution stays below the configured precision.",
   ["inputs"], "all inputs", "Tests compare few results.",
   ["src/analysis", "src/math"], "No installed back end bounds rounding through these computations; the contracts treat doubles as reals.")
