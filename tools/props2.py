SMT = "contract-based deductive verification (VCs from LLVM IR of the real code, inferred loop invariants, z3/cvc5)"
prop("C08", "Slice and block selections move exactly the selected values",
     "Copying or adding between a vector (or CSR matrix) and a strided selection of a larger one transfers, for every length, offset, block size and step, each selected value to its partner position and nowhere else. Adding accumulates the scaled value to what was there; entries outside the selection and the source operand are unchanged; every access stays inside the arrays. Copying and adding between dense and index-listed sparse vectors touches exactly the listed positions. The full (default) selection, which forwards to BLAS, is not included.",
     ["inputs"], "all lengths and values; strides offset:size:step used by the coupled and harmonic systems (0:1:2, 1:1:2, 1:2:3, 2:1:3, 3:3:6)",
     "Tests use the selections only inside whole harmonic solves on one mesh, with sizes and offsets that do not expose wrong partners at the end of a row, nor the variants that no solver calls yet.",
     ["src/analysis/math/math.physics.h", "src/analysis/math/selection.h"],
     [("math::copy/add(…, Selection)", "src/analysis/math/math.physics.h"), ("Selection", "src/analysis/math/selection.h")],
     "Loops are proved with inductive invariants for all lengths. Adding to two-column CSR blocks of a larger matrix is a bounded stand-in (native executions of generated inputs), not proved; the other CSR block shapes are. Doubles are exact reals; clang/opt translation and the VC generator are trusted.", SMT)
prop("C09", "Element kernels read and write exactly the data of the elements of their chunk",
     "A chunk of elements processed at once takes for each active lane and node the values of that node: coordinates, displacement, temperature and thickness are gathered from the node list of the right element, unused lanes and the data of elements behind the interval's end are not touched, and the kernel then stands at the next chunk. Written back nodal values (initial temperature, velocity, thickness) change only nodes of the active elements. Assembly adds every entry of the element matrix (full, upper or lower part) and right-hand side of each active element exactly once to its listed position and clears the buffers; boundary values are set only for the selected degrees of freedom. Averaged gradients and fluxes are stored to the elements of the interval and to no other element.",
     ["inputs"], "all meshes, element lists, interval boundaries and values; 1-8 nodes, 1-3 degrees of freedom per node",
     "Whether the last, partly filled chunk of an interval reads or writes a neighbour depends on how the decomposition splits intervals; the tests run a few meshes with fixed decompositions, where a wrong neighbour value is overwritten by the next interval.",
     ["src/analysis/assembler/general", "src/analysis/assembler/heattransfer", "src/analysis/assembler/structuralmechanics"],
     [("CoordinatesKernel", "src/analysis/assembler/general/op.coordinates.h"), ("TemperatureKernel, InitialTemperatureKernel", "src/analysis/assembler/general/op.temperature.h"), ("ThicknessFromNodes, ThicknessToNodes", "src/analysis/assembler/general/op.thickness.h"),
      ("DisplacementKernel", "src/analysis/assembler/structuralmechanics/op.displacement.h"), ("InitialVelocityKernel", "src/analysis/assembler/structuralmechanics/op.velocity.h"), ("MatrixFillerKernel, RHSFillerKernel, VectorSetterKernel", "src/analysis/assembler/general/filler.h"),
      ("TemperatureGradient", "src/analysis/assembler/heattransfer/op.gradient.h"), ("TemperatureFlux", "src/analysis/assembler/heattransfer/op.flux.h")],
     "Sequential semantics of one kernel call (the atomic updates are treated as plain ones). Doubles are exact reals; the mesh invariant 'node numbers are valid and element boundaries are multiples of the node count' is a precondition.", SMT)
prop("C10", "Element topology and generated block meshes are geometrically consistent",
     "For every element type the listed faces and edges are exactly those of the reference element, with the matching face or edge type, mid-side nodes after the corners they lie between, faces oriented outwards, and plane elements cut into non-overlapping triangles that cover them. A face or edge is found in its parent element for every node numbering, rotation and direction, and one with a foreign node is not found. Every generated cell of a block is filled by convex, positively oriented elements that share whole faces with each other and with the neighbouring cells; cell node numbers follow the block's node grid. Boundary faces, edges and nodes generated on a side of a block are the outward faces of the generated elements there. Intervals are clipped to a block correctly and select the side or edge they lie on.",
     ["inputs"], "all element types and generators; all node numbers, block sizes, cell positions and interval coordinates",
     "Tests generate a few blocks and compare solutions: a wrongly oriented face only matters for pressure-like loads on that side of that element type, a wrong mid node only for quadratic faces, and a wrong rotation only for neighbours with particular numbering.",
     ["src/mesh/element.cpp", "src/input/parsers/meshgenerator"],
     [("Element::init<*>, Element::getIndex", "src/mesh/element.cpp"), ("*Generator::pushElements/pushFace/pushEdge/pushNodes", "src/input/parsers/meshgenerator/elements"), ("BlockGenerator::forEachElement", "src/input/parsers/meshgenerator/primitives/block.cpp"),
      ("BlockBorder::intersect, dimension, getFace, getEdge", "src/input/parsers/meshgenerator/selection/blockborder.cpp")],
     "Cell numbering is proved for block node counts below 2^31. BlockGenerator::region (floating-point clipping of regions to nodes), process neighbours and curved projections are not covered. eslog::warning is a stub.", SMT)
prop("C11", "Offsets, permutations, distributions and packed buffers preserve their data",
     "Sizes are turned into running offsets with the total returned (for one list, and over the lists of several threads); a permutation moves every block of entries to its place; per-thread counts are joined to one increasing numbering; removing consecutive duplicates keeps one entry of every run in order and everything before the start; rounding up or down gives the nearest multiple on that side; distributing a range over threads gives consecutive ranges that start at zero, end at the size, respect the smallest chunk and never leave the first part smaller than the others. Whatever is packed to a buffer (numbers, vectors, nested vectors, strings, thread arrays of any alignment, several values through one Packer) uses exactly the announced number of bytes and is unpacked to the same values, whatever the target held before.",
     ["inputs"], "all lengths and values for offsets, permutation, duplicates and rounding; 1-3 threads (distribution up to 12); packing: all values for a range of lengths",
     "These utilities sit under mesh distribution, synchronization and checkpoint exchange: the tests reach them with a few lengths on one process, where most exchanged lists are empty and alignments are the default.",
     ["src/basis/utilities/utils.h", "src/basis/utilities/utils.hpp", "src/basis/utilities/packing.h", "src/basis/containers/packer.h", "src/basis/containers/tarray.hpp"],
     [("sizesToOffsets, permute, threadDistributionToFullDistribution, removeDuplicates, round_up, round_down", "src/basis/utilities/utils.hpp"), ("packedSize, pack, unpack", "src/basis/utilities/packing.h"), ("Packer", "src/basis/containers/packer.h"), ("tarray::distribute, pack, unpack", "src/basis/containers/tarray.hpp")],
     "Loops are proved with inductive invariants for all lengths; packing is proved for all values at fixed lengths (0-5 entries, strings up to 15 characters). OpenMP loops are executed sequentially (their iterations write disjoint entries).", SMT)
prop("C12", "Dense and sparse matrix operations give every entry its defined value",
     "The matrix operations of math/operations write, for every size, leading dimension, row- or column-major order and stored triangle, exactly the entries they are named after and leave the padding and the other triangle unchanged: fill, copy, alpha A + beta B (also in place, and with a sparse B), row/column permutation, extraction of a submatrix by index maps, assigning or adding into a supermatrix, expansion of a compressed matrix or of a window of it into a dense one (absent entries are zero), and sparse matrix times vector alpha A x + beta y. Reordering, transposing (also in place), completing a triangle and converting symmetric or Hermitian storage between orders and triangles give the entry of the represented matrix, with conjugation where the matrix is complex. No access leaves the matrices.",
     ["inputs"], "all sizes, leading dimensions, index maps, sparsity patterns and values; the reordering, transposing and converting operations: all values at fixed sizes",
     "Tests reach these operations through whole FETI solves with square, symmetric, densely packed matrices: padding, rectangular shapes, the other order, complex data and unused triangles are not exercised.",
     ["src/math/operations", "src/wrappers/blas/w.blas.cpp"],
     [("fill_dnx, copy_dnx, lincomb_matrix_dnx, permute_dnx_dnx, submatrix_dnx_dnx_noncontig, supermatrix_dnx_dnx_noncontig", "src/math/operations"), ("convert_csx_dny, submatrix_csx_dny, lincomb_dnx_csy, gemv_csx, lincomb_vector", "src/math/operations"),
      ("convert_dnx, convert_dnx_dny, complete_dnx_dnx, transpose_dnx_dnx", "src/math/operations"), ("blas::transpose, blas::transpose_inplace", "src/wrappers/blas/w.blas.cpp")],
     "Products with a leading dimension are an uninterpreted function with the ring facts used; index maps into a supermatrix are injective, compressed lines have distinct (for windows: ascending) indices. transposes are those of the BLAS wrapper (the MKL and GPU ones are external), proved at fixed sizes up to 67x2 and 66x66. stacktimer and eslog are stubs. Doubles are exact reals.", SMT)
prop("C13", "Sparse structure operations store exactly the entries of the result",
     "Copying, converting between row and column order, transposing, permuting (also symmetrically within a stored triangle), cutting out a window, splitting into four blocks, joining four blocks (each in any order, blocks may be missing), completing a symmetric or Hermitian matrix from its stored triangle, and removing empty rows or columns (to a sparse or a dense result) yield a compressed matrix whose line pointers, ascending indices and values are exactly those of the named matrix - no entry lost, duplicated, moved or left undefined, also with empty lines and empty matrices - and announce exactly the number of entries they store; repeated value updates through a stored map use the current values. First and last indices of lines, their forward and backward completion, the sets of non-empty lines and the sorting permutation (with its inverse) are those of the pattern.",
     ["inputs", "histories"], "sparse patterns, sizes, orders, windows, cuts, permutations and values",
     "Tests reach these operations through whole solves whose patterns have no empty lines and one storage order, so entries lost for unusual patterns stay unseen.",
     ["src/math/operations", "src/math/primitives_new/permutation_view_new.h"],
     [("copy_csx, convert_csx_csy, convert_csx_csy_map, transpose_csx_csx_map", "src/math/operations"), ("permute_csx_csx, permute_csx_csx_map", "src/math/operations"), ("submatrix_csx_csy, submatrix_csx_csy_map, quadrisect_csx_csy, concat_csx", "src/math/operations"),
      ("complete_csx_csy_map", "src/math/operations/complete_csx_csy_map.cpp"), ("pruning_subset_csx, prune_csx_matx", "src/math/operations"), ("pivots_trails_csx, sorting_permutation", "src/math/operations")],
     "Conversion and transposition (with and without map), permutation of the lines and windows in both orders are proved for every size and pattern (z3, counting-sort ghost functions); all operations are also proved for every value at fixed patterns (all 2x2 patterns and selected ones up to 4x4 / 2x5); larger patterns of the remaining operations are bounded native executions of the same contracts (labelled bounded).", SMT)
prop("C14", "FETI gluing, constraints and kernels match the decomposed problem",
     "EqualityConstrains (the equality multipliers of total FETI with the orthonormal-row option as coded here) glues every degree of freedom shared by m domains by m-1 multipliers: for k = 2..m one whose row has 1/sqrt(k(k-1)) at the first k-1 domains and -sqrt((k-1)/k) at the k-th; a Dirichlet degree of freedom has in each of its domains one multiplier of value 1 and right-hand side equal to the prescribed value, and no gluing. The local columns of a domain list exactly its multipliers (D2C), both sides agree on which domains share one (cmap), and enforcing sets just the prescribed values. Applying B or its transpose of a domain (plain, threaded, filtered to some domains, extracting or inserting the local part of a dual vector) is the sparse product with those rows. The dual map lists for each neighbouring process the shared multipliers in one common order; synchronizing adds the received contributions to exactly these entries, and a dot product counts every multiplier once. The kernel of the heat problem is the constant vector and its regularization a single positive diagonal entry; the kernel of elasticity consists of the translations and rotations at the node coordinates, and its regularization is the maximal stiffness entry times the projection to the rigid body modes of the fix points (at their displaced positions when a solution is given), stored in the upper triangle. Multipliers owned by a preceding process are counted as its halo.",
     ["inputs"], "any sparsity and values for the products with B; every Dirichlet value on fixed decompositions (1-4 domains, shared corners, 1-3 degrees of freedom per node), generated decompositions bounded",
     "Tests compare solutions of a few decompositions where most nodes are shared by two domains; the higher multiplicities, filters, unusual Dirichlet sets and the sign or scaling of rows cancel in the converged solution or are hidden by its tolerance.",
     ["src/feti/common", "src/analysis/linearsystem/constrains", "src/analysis/linearsystem/regularization"],
     [("EqualityConstrains::set, update, enforce", "src/analysis/linearsystem/constrains/equalityconstrains.cpp"), ("applyB, applyBt, applyB_threaded, extractDomain, insertDomains", "src/feti/common/applyB.h"),
      ("Dual_Map::set", "src/feti/common/dual_map.cpp"), ("Vector_Dual::synchronize, copyToWithoutHalo, dot", "src/feti/common/vector_dual.cpp"),
      ("RegularizationHeatTransfer::set, update", "src/analysis/linearsystem/regularization/regularization.heattransfer.cpp"), ("RegularizationElasticity::setR1, updateR1, setRegMat, updateRegMat", "src/analysis/linearsystem/regularization/regularization.elasticity.cpp")],
     "Message exchange, reductions and BLAS/LAPACK solves are replaced by stubs with their mathematical meaning (assumed contracts). The choice of fix points (METIS, corners, random) is not covered. Set-up of multipliers is proved for all values at fixed decompositions; generated larger ones are native executions (labelled bounded).", SMT)

prop("C15", "Linear systems: positions, Dirichlet conditions and exchanges match the mesh",
     "A distributed matrix (one block per node pair, 1-3 degrees of freedom, halo nodes of preceding processes first) has on every local line, the halo included, exactly the columns of the nodes connected by an element on any process, sorted and once each; the positions of element and boundary matrices (and of element, boundary and node vectors, per interval and per thread of the region) address for every degree of freedom of the element, component by component over its nodes, the entry of that degree of freedom. For FETI every degree of freedom maps to its domains in order, with dense indices in those of this process, and each domain has exactly the entries of its elements (upper triangle or full). Gathering adds the lines or values that succeeding processes hold for my degrees of freedom to mine, scattering sends my values to them, in any order of arrival. setDirichlet of the direct solver puts b_d = g_d, an identity line and zero column at each prescribed d and subtracts A_rd g_d from every other b_r once, also for entries held only by succeeding processes, and leaves the rest. The product with the distributed matrix and with the matrices of the domains is y = alpha A x + beta y. Between process and domain vectors: distributing copies each value to every domain of the degree of freedom, splitting divides it by the number of its domains, storing and adding take it once, sums run over all domains, averages divide them by the number of domains, and the norm counts every degree of freedom once over all processes. The sparse vector of prescribed degrees of freedom lists exactly these, ascending, and each region addresses them.",
     ["inputs", "schedules"], "every value of matrices, vectors, prescribed values and received messages on fixed distributed topologies (1-4 processes, shared degrees of freedom, random order of arrival); positions and patterns on generated meshes (bounded)",
     "The tests run a few regular grids with one partitioning; entries that exist only on another process, nodes shared by three or more processes or domains, several threads or intervals and an unusual order of messages are not distinguished, and a small error disappears in the tolerance.",
     ["src/analysis/pattern", "src/analysis/linearsystem", "src/analysis/math"],
     [("DirectLinearSystemSolver::setDirichlet", "src/analysis/linearsystem/directsolver.cpp"), ("MatrixUniformDirect::buildPattern, Sync, Apply", "src/analysis/pattern/matrix.uniform.direct.cpp"),
      ("MatrixUniformFETI::fillDecomposition, buildPattern, Apply", "src/analysis/pattern/matrix.uniform.feti.cpp"), ("VectorUniformDense::buildPattern, SyncVector, SyncMatrix", "src/analysis/pattern/vector.uniform.dense.cpp"), ("VectorUniformSparse::buildPattern", "src/analysis/pattern/vector.uniform.sparse.cpp"),
      ("Vector_FETI::copyTo, addTo, sumTo, averageTo, _dot, storeTo, setFrom", "src/analysis/math/vector_feti.h"), ("Vector_Distributed::copyTo, spliteTo, synchronize, scatter", "src/analysis/math/vector_distributed.h")],
     "Messages are given and recorded by stubs of MPI (assumed contract: messages arrive complete, in any order between processes), BLAS and sparse products are their mathematical meaning. The topologies of the proofs are fixed; mesh patterns are native executions on generated meshes, labelled bounded. Not covered: BEM surfaces, boundary positions of FETI matrices (unused), multiplicity other than one, matrices with several right-hand sides.", SMT)
