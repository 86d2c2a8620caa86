#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
CI = "src/C-interface/"
FM = ["dense", "ellpack", "ellblock", "csr"]
def fl(stem, fmts=FM, disp=True):
    return ([CI + "bml_%s.c" % stem] if disp else []) + [CI + "%s/bml_%s_%s_typed.c" % (f, stem, f) for f in fmts]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Reads return exactly what was last written, over every history of writes",
     "After any sequence of element, row and diagonal writes, clears, thresholds, transposes and scalings, every read of the matrix (single element, row, diagonal, row-major and column-major export, typed element getter) returns the value last written to that position, and zero where nothing was written or it was dropped. A write changes only the positions it names, and a row write replaces the whole row. This holds in every storage format and precision and whatever order the entries were inserted in.",
     ["inputs", "histories", "configurations"], "all write histories up to a depth, from every reachable storage layout, every format x precision x blocking",
     "Tests write one fixed matrix once, in row-major order, and read it back once; layouts reached by overwriting, clearing, explicit zeros or out-of-order insertion are never visited.",
     fl("setters") + fl("getters") + [CI + "bml_elemental.c"] + fl("allocate"),
     [("set_element / set_row / set_diagonal", CI + "*/bml_setters_*_typed.c"), ("get_element / get_row / get_diagonal", CI + "*/bml_getters_*_typed.c"), ("CSR row growth", CI + "csr/bml_setters_csr_typed.c")],
     ["bml_get_element", "bml_get_row", "bml_get_diagonal", "bml_export_to_dense"],
     [("row storage", "unordered (column,value) slots per row, may hold explicit zeros and stale slots beyond the count", CI + "ellpack/bml_types_ellpack.h")])
prop("C02", "Adding matrices and identities computes the exact linear combination",
     "Matrix addition leaves A = alpha*A + beta*B, identity addition A = A + beta*I and scaled identity addition A = alpha*A + beta*I, element for element, where with a positive threshold only results whose magnitude does not exceed it may be replaced by zero. The second operand is unchanged. This holds for all sparsity patterns, storage layouts, cancellations and scalar factors, in every format and precision.",
     ["inputs", "configurations"], "all pairs of sparsity patterns up to 3x3 (and structured families beyond), all construction histories, formats, precisions, blockings, alpha/beta/threshold grids",
     "Tests add two random full matrices with one alpha/beta and zero threshold; disjoint patterns, cancellations, explicit zeros, partial rows and complex or single precision factors are never hit.",
     fl("add"), [("row merge with index scratch", CI + "*/bml_add_*_typed.c")], ["bml_add", "bml_add_norm", "bml_add_identity", "bml_scale_add_identity"])
prop("C03", "Scaling multiplies every element by the factor, in place or into a copy",
     "Scaling a matrix by a factor of its own element type yields exactly factor times each element, whether done in place, into a newly returned matrix, or into an existing destination whatever that destination held before. The source is unchanged unless it is itself the destination.",
     ["inputs", "configurations"], "all patterns up to 3x3 and structured families, all source and destination layouts, real and complex factors incl. 0, formats x precisions",
     "Tests scale one random matrix by one factor into a fresh or identical destination.",
     fl("scale") + fl("copy"), [("scale into / in place", CI + "*/bml_scale_*_typed.c")], ["bml_scale", "bml_scale_new", "bml_scale_inplace"])
prop("C04", "Matrix products equal the mathematical product with alpha, beta and threshold",
     "The general product leaves C = alpha*A*B + beta*C, the plain and adaptive products C = A*B, and squaring X2 = X*X together with the traces of X and X*X, for any contents of A, B and of the previous C; a positive threshold may only replace entries of magnitude not exceeding it by zero (the adaptive variant may additionally raise it to fit the row capacity). Inputs that are not the output are unchanged.",
     ["inputs", "configurations"], "all pairs of patterns up to 2x2, a covering set of 3x3 pairs and structured families to N=13 (33), all layouts, previous contents of C, alpha/beta/threshold grids, formats x precisions x blockings",
     "Tests multiply dense random or banded matrices with a fixed alpha/beta and compare norms; empty rows, explicit zeros, cancellation, stale outputs and mixed blockings are not exercised.",
     fl("multiply"), [("Gustavson row merge", CI + "ellpack/bml_multiply_ellpack_typed.c"), ("block products", CI + "ellblock/bml_multiply_ellblock_typed.c"), ("dgemm call", CI + "dense/bml_multiply_dense_typed.c")],
     ["bml_multiply", "bml_multiply_x2", "bml_multiply_AB", "bml_multiply_adjust_AB"])
prop("C05", "Element-wise products equal the entry by entry product",
     "The element-wise product leaves C(i,j) = A(i,j)*B(i,j) for every i,j, whatever C held before; with a positive threshold only entries of magnitude not exceeding it may become zero, and A and B are unchanged.",
     ["inputs", "configurations"], "all pairs of patterns up to 2x2, covering 3x3 pairs, structured families, all layouts and previous contents, formats x precisions",
     "The test multiplies one random pair into one zero matrix.", fl("element_multiply"), [("element multiply", CI + "*/bml_element_multiply_*_typed.c")], ["bml_element_multiply_AB"])
prop("C06", "Thresholding keeps exactly the elements above the threshold",
     "Thresholding, in place or into a new matrix, keeps with its exact value every element whose magnitude is strictly greater than the threshold and turns every other element into zero; for complex elements the magnitude is the modulus. This holds element by element in every format, the block format included. The new-matrix form leaves its source unchanged.",
     ["inputs", "configurations"], "all patterns up to 3x3 and families up to N=33, thresholds below, equal to and above every magnitude, all layouts, formats x precisions",
     "The test thresholds one random matrix at one value that no element equals.", fl("threshold"), [("threshold filter", CI + "*/bml_threshold_*_typed.c"), ("magnitude test", "src/typed.h")], ["bml_threshold", "bml_threshold_new"])
prop("C07", "Transposition and triangle completion place every element exactly",
     "Transposing, in place or into a new matrix, moves element (i,j) to (j,i) unchanged, so transposing twice restores the matrix. Completing from the upper (or lower) triangle leaves that triangle and the diagonal unchanged and makes every element of the other triangle the complex conjugate (adjungate) or copy (transpose) of its mirror.",
     ["inputs", "configurations"], "all patterns up to 3x3, families to N=66, all layouts, both triangles, formats x precisions x blockings",
     "Tests use one full random matrix; asymmetric patterns, empty rows, entries already present in the target triangle and unequal blocks are not covered.",
     fl("transpose") + [CI + "dense/bml_adjungate_triangle_dense_typed.c", CI + "ellpack/bml_adjungate_triangle_ellpack_typed.c", CI + "dense/bml_transpose_triangle_dense_typed.c"],
     [("row-pair exchange under locks", CI + "ellpack/bml_transpose_ellpack_typed.c")], ["bml_transpose", "bml_transpose_new", "bml_adjungate_triangle", "bml_transpose_triangle"])
prop("C08", "Norms, inner products and traces equal their definitions",
     "The Frobenius norm, the norm of a difference, the sums of squared magnitudes (of a matrix, of alpha*A+beta*B, of the core rows and columns of a submatrix), the sum of alpha*A(i,j)*B(i,j), the trace, and the trace of a product A*B equal their mathematical definitions on the matrices' element values (real part for complex results). Where a threshold is given, terms whose magnitude does not exceed it are left out (in the block format of alpha*A+beta*B, whole blocks). They depend only on element values, not on storage order, stored zeros or row capacity, and change no operand.",
     ["inputs", "configurations"], "all pairs of patterns up to 2x2, covering 3x3 pairs, families, all layouts, formats x precisions x blockings",
     "Tests compare against random full real-valued symmetric matrices, where mis-indexing, sign loss, conjugation and missing entries cancel out.",
     fl("norm") + fl("trace"), [("reductions", CI + "*/bml_norm_*_typed.c"), ("trace", CI + "*/bml_trace_*_typed.c")], ["bml_sum_squares", "bml_sum_squares2", "bml_sum_AB", "bml_sum_squares_submatrix", "bml_fnorm", "bml_fnorm2", "bml_trace", "bml_trace_mult"])
prop("C09", "Import, export and format conversion preserve every element",
     "Importing a dense array (row- or column-major) and exporting it again yields the same array, apart from elements whose magnitude does not exceed the import threshold; both export orders describe the same matrix. Converting a matrix to any format and row capacity that can hold it yields a matrix of the requested format with the same elements, rounded to the requested precision, and leaves the source unchanged.",
     ["inputs", "configurations"], "all patterns up to 3x3, families to N=66, all ordered pairs of formats and of precisions, layouts, orders, thresholds",
     "Tests convert one random matrix between formats at one precision with threshold zero.", fl("import") + fl("export") + fl("convert"), [("dense scatter/gather", CI + "*/bml_export_*_typed.c")], ["bml_import_from_dense", "bml_export_to_dense", "bml_convert"])
prop("C10", "Copies are equal and independent, and every resource is released",
     "Copying a matrix, into a new one or over an existing one of the same size in any prior state, yields an element-wise equal matrix; later writes to, clearing of or deallocating either of the two never affects the other. Deallocating every matrix, domain and returned buffer releases all memory obtained since the first was created, with no double release.",
     ["inputs", "histories"], "all source/destination layouts for patterns up to 3x3 and families, followed by all single mutations and both deallocation orders",
     "Tests copy once and compare; they neither mutate afterwards, copy over used destinations, nor account for memory.", fl("copy") + fl("allocate"), [("deep copy", CI + "*/bml_copy_*_typed.c"), ("deallocation", CI + "*/bml_allocate_*.c")], ["bml_copy", "bml_copy_new", "bml_deallocate"])
prop("C11", "Files round-trip matrices; failed writes and damaged files are reported",
     "Writing a matrix to a file and reading it into a matrix of the same size reproduces every stored element to the printed precision (15 significant digits), whatever the matrix read into contained before. Reading a Matrix Market file stored as symmetric sets both positions of every entry. A file that cannot be opened, that ends before all announced entries are there, that holds the other kind of numbers (real or complex), other dimensions, a negative count, or indices outside the matrix, or that needs more room in a row than the matrix has, ends in a reported error, never in a silently different matrix or an invalid memory access. A write that cannot be completed is reported as an error.",
     ["inputs", "crash_points", "fault_sequences"], "all patterns up to 3x3 written and re-read in every format and precision over three previous contents, and across formats; every truncation point of written files; every byte at which the device refuses to store more; missing files, directories, and mutations of header, dimensions, counts and indices; every symmetric pattern up to 3x3",
     "The test writes and reads one matrix per run into a fresh destination; no damaged file is ever read and no write ever fails.", fl("utilities") + [CI + "bml_utilities.c"], [("Matrix Market text I/O", CI + "*/bml_utilities_*_typed.c")], ["bml_write_bml_matrix", "bml_read_bml_matrix"])
prop("C12", "Gershgorin bounds enclose the spectrum and normalization maps it as specified",
     "For every matrix the Gershgorin routine returns exactly the smallest value of (real diagonal - off-diagonal absolute row sum) and the largest value of (real diagonal + row sum), for the full matrix and for a leading block of rows, so all eigenvalues of a symmetric matrix lie inside. Normalization with those bounds replaces A by (maxeval*I - A)/(maxeval - mineval).",
     ["inputs", "configurations"], "all patterns and sign assignments up to 2x2, patterns up to 3x3, families, negative and positive definite shifts, layouts, formats x precisions",
     "Tests use one random or fixed matrix with positive bounds.", fl("normalize"), [("row sums and min/max reductions", CI + "*/bml_normalize_*_typed.c")], ["bml_gershgorin", "bml_gershgorin_partial", "bml_normalize"])
prop("C13", "Core-halo submatrices extract and reassemble without loss",
     "Given core rows, the computed core-halo index set lists each row at most once with core first, and contains exactly the core rows plus every column reachable from them in the selected graphs (and their neighbours when double jump is requested). Extracting on that set yields B(i,j) = A(index(i),index(j)), and writing back replaces exactly the core rows of the full matrix, so extraction over a partition followed by reassembly reproduces the matrix.",
     ["inputs", "configurations"], "all graphs up to 3 nodes and all core subsets (families beyond), layouts, precisions, jump flag, thresholds",
     "The test extracts one submatrix from one banded matrix.", [CI + "bml_submatrix.c", CI + "ellpack/bml_submatrix_ellpack_typed.c"], [("index expansion", CI + "ellpack/bml_submatrix_ellpack_typed.c"), ("assembly", CI + "ellpack/bml_submatrix_ellpack_typed.c")], ["bml_matrix2submatrix_index", "bml_matrix2submatrix_index_graph", "bml_matrix2submatrix", "bml_submatrix2matrix"])
prop("C14", "Block extraction and block assignment address exactly the requested block",
     "Extracting a square block at (row, col) yields a matrix whose element (i,j) is A(row+i, col+j), leaving A unchanged. Assigning a block overwrites exactly that region of the target with the block's elements, zeros included, and leaves every other element unchanged.",
     ["inputs", "configurations"], "every block position and size in matrices up to 4x4, patterns of both operands, layouts, formats x precisions",
     "The test extracts and re-assigns the quadrants of one matrix into an empty target.", fl("submatrix"), [("extract/assign", CI + "*/bml_submatrix_*_typed.c")], ["bml_extract_submatrix", "bml_assign_submatrix"])
prop("C15", "Adjacency lists and group graphs describe exactly the non-zero structure",
     "The adjacency arrays list, for each row, exactly the other rows it has an off-diagonal element with, in increasing order with consistent offsets and the requested index base. Restricted to a selected list of rows, they list by position in that list exactly the selected rows in whose column the row has an element. The group matrix has a unit diagonal and an entry between two different groups exactly when some element between their rows exceeds the threshold in magnitude.",
     ["inputs", "configurations"], "all graphs up to 3 nodes and covering sets at 4-6 nodes, all groupings into consecutive groups, layouts, base flag, thresholds, precisions",
     "The test checks one fixed matrix.", [CI + "ellpack/bml_submatrix_ellpack.c", CI + "ellpack/bml_submatrix_ellpack_typed.c"], [("adjacency build", CI + "ellpack/bml_submatrix_ellpack.c"), ("group matrix", CI + "ellpack/bml_submatrix_ellpack_typed.c")], ["bml_adjacency", "bml_adjacency_group", "bml_group_matrix"])
prop("C16", "Diagonalization returns the true eigenpairs",
     "For every symmetric or Hermitian matrix, diagonalization returns the eigenvalues in ascending order and a matrix whose columns are orthonormal eigenvectors, satisfying A*V = V*diag(eigenvalues) to working precision, and leaves A unchanged, in every format.",
     ["inputs", "configurations"], "all symmetric/Hermitian patterns up to 3x3 with distinct values, degenerate and family matrices, layouts, formats x precisions",
     "The test diagonalizes one random real symmetric matrix.", fl("diagonalize", ["ellpack", "ellblock", "csr"]) + [CI + "dense/bml_diagonalize_dense.c"], [("LAPACK call and eigenvector layout", CI + "dense/bml_diagonalize_dense.c")], ["bml_diagonalize"])
prop("C17", "The inverse of every well-conditioned matrix is its inverse",
     "For every invertible well-conditioned matrix, symmetric or not, the returned matrix times the original is the identity to working precision, and the original is unchanged, in every format. A matrix that is exactly singular because a row or column is zero ends in a reported error.",
     ["inputs", "configurations"], "all diagonally dominant patterns up to 3x3, permutations (pivoting), families, layouts, formats x precisions", "The test inverts one random matrix.", fl("inverse"), [("LU inverse", CI + "*/bml_inverse_*_typed.c")], ["bml_inverse"])
prop("C18", "Results that exceed a row's capacity are refused, never silently wrong",
     "When the capacity of a fixed-width sparse matrix (entries per row, or blocks per row) cannot hold the result of an operation, the operation ends in a reported error; it never writes outside the matrix, loses an entry or returns a different matrix. When the result fits, the operation succeeds.",
     ["inputs", "configurations"], "all patterns up to 3x3 for every capacity 1..N, every mutating operation, layouts, precisions",
     "Tests always allocate enough capacity, so the boundary is never reached.", fl("setters", ["ellpack", "ellblock"]) + fl("add", ["ellpack", "ellblock"], False) + fl("multiply", ["ellpack", "ellblock"], False), [("capacity checks", CI + "ellpack/*_typed.c")], ["bml_log error exit"])
prop("C19", "Every history of operations gives the same matrix in every format",
     "Applying the same sequence of operations to matrices of different storage formats gives element-wise the same matrix and the same scalar results as exact dense arithmetic at every step. At every step the stored structure is well-formed: no column stored twice in a row, indices in range, counts within capacity, no invalid memory access.",
     ["histories", "inputs", "configurations"], "breadth-first search over all operation sequences up to a depth from several start matrices, deduplicated on the concrete storage layout",
     "Each test applies one operation to a freshly built matrix; no test feeds the layout left by one operation to the next.", [CI + "dense", CI + "ellpack", CI + "ellblock", CI + "csr"], [("shared row storage conventions", CI + "*/")], ["bml_export_to_dense"],
     [("layout", "slot order, stored zeros, spare capacity, stale slots", CI + "*/bml_types_*.h")])
prop("C20", "Results do not depend on the number of threads or their schedule",
     "With any number of OpenMP threads and any interleaving of them, every operation terminates and returns the same matrix and the same scalar results as with one thread (floating-point sums up to rounding), and no two threads access the same memory without synchronization with one of them writing.",
     ["schedules", "inputs"], "all orders of lock, atomic and barrier operations of 2-4 threads (to a preemption bound where stated) with happens-before race detection on every memory access, per operation over small inputs",
     "Tests run with two threads under whatever schedule the machine produces, once.", [CI + "dense", CI + "ellpack", CI + "ellblock", CI + "csr"], [("OpenMP data sharing, reductions, locks", CI + "*/*_typed.c")], ["operation results", "memory accesses"])
prop("C21", "Matrices sent between ranks arrive intact under every message order",
     "A matrix sent, asynchronously received, or broadcast to other ranks arrives with exactly the same elements, whatever the receiver's matrix held before, whatever the order in which ranks run and messages complete; no message is left unreceived, truncated or mismatched, and no rank blocks forever. The sender's matrix is unchanged.",
     ["schedules", "inputs"], "all rank interleavings and message completion orders for 2-4 ranks, eager and synchronous sends, all patterns up to 2x2 and families, formats x precisions",
     "The test sends one full matrix with real MPI under one timing.", fl("parallel") , [("send/recv protocol per format", CI + "*/bml_parallel_*_typed.c")], ["bml_mpi_send", "bml_mpi_recv", "bml_mpi_irecv", "bml_mpi_bcast_matrix"])
prop("C22", "A 2D-distributed matrix behaves as the single global matrix",
     "Every operation supported on a 2D block-distributed matrix gives, when gathered, the same elements and the same scalar results on every rank as the same operation on one ordinary matrix, for every local format, precision and capacity; matrices converted to another format, precision or distribution, printed, written and read keep their elements. Every rank terminates and all communication resources are matched and released, under every interleaving of the ranks.",
     ["schedules", "inputs", "configurations"], "1, 4 (and 9) ranks on a controlled MPI, rank interleavings to a bound, covering patterns of global matrices, local formats x precisions",
     "The MPI tests run one random input per operation with the timing of one machine, mostly on symmetric or full matrices.", [CI + "distributed2d"], [("2D process grid and Cannon-style rotation", CI + "distributed2d/")], ["bml_export_to_dense on rank 0", "scalar results"])
prop("C23", "Row partitions cover the matrix and gathering assembles it",
     "The default row partition for any matrix size and number of ranks assigns every row to exactly one rank in order, with consistent extents, element counts and displacements; updating, saving, restoring and copying partitions preserve these consistencies. When each rank has updated only its own rows, gathering leaves the complete matrix on every rank, and the global sum, minimum and maximum give every rank the same true result.",
     ["inputs", "schedules", "configurations"], "all sizes up to 40 and rank counts up to 9; all rank interleavings of gathers and reductions on small matrices",
     "Tests run with one rank in row-distributed mode, where every partition is the trivial one.", [CI + "bml_allocate.c", CI + "bml_parallel.c", CI + "bml_copy.c"] + fl("parallel", ["dense", "ellpack", "csr"], False), [("default domain", CI + "bml_allocate.c"), ("allgatherv", CI + "*/bml_parallel_*_typed.c")], ["bml_default_domain", "bml_update_domain", "bml_allGatherVParallel", "bml_sumRealReduce"])
prop("C24", "The built-in GEMM equals the BLAS definition for every argument combination",
     "The library's own general matrix multiply computes C = alpha*op(A)*op(B) + beta*C for every combination of transposition options, dimensions and leading dimensions, in all four precisions, touching no element outside the described C and ignoring C's previous contents when beta is zero.",
     ["inputs"], "all transposition options, m,n,k in 0..4, leading dimensions exact and padded, alpha/beta in {0,1,general}, four precisions, column-major as in BLAS",
     "The test compares one size without transposition.", ["src/internal-blas/bml_gemm.c"], [("triple loops per option", "src/internal-blas/bml_gemm.c")], ["bml_gemm"])
prop("C25", "Constructors and introspection report the matrix as it is",
     "Zero, identity, banded, random, block and uninitialized constructors return matrices of the requested type, precision, size and capacity with the promised contents: no elements, unit diagonal, non-zeros exactly in the band of M columns around the diagonal, or random numbers in [0,1] with a stored diagonal and no more per row than the capacity. Introspection of type, precision, size, capacity, distribution mode, row bandwidth and bandwidth (stored entries per row) and sparsity (fraction of elements not above the threshold in magnitude) agrees with the matrix. Saving and restoring the row partition gives it back and leaves the elements alone, or is refused.",
     ["inputs", "configurations"], "all sizes 1..13, capacities, formats x precisions; all patterns up to 3x3 with every layout for the pattern-dependent queries",
     "Tests query one matrix of one size.", fl("allocate") + fl("introspection"), [("constructors", CI + "*/bml_allocate_*_typed.c"), ("introspection", CI + "*/bml_introspection_*_typed.c")], ["bml_get_*"])
prop("C26", "Reordering applies the permutation to rows and columns",
     "Reordering a matrix by a permutation moves element (i,j) to (perm(i),perm(j)), so that reordering by a permutation and then by its inverse restores the matrix; no element is lost or duplicated. In the block format the permutation is over blocks and moves whole blocks with their sizes.",
     ["inputs", "configurations"], "all permutations of up to 4 rows, all patterns up to 3x3 and families, layouts, formats x precisions", "No test calls it.", fl("copy"), [("reorder", CI + "*/bml_copy_*_typed.c")], ["bml_reorder"])
prop("C27", "The Fortran interface computes the same as the C interface",
     "Every Fortran entry point gives the result of the corresponding C operation: element indices shifted by exactly one, row and column order preserved, returned arrays complete, optional arguments defaulted as documented, in all precisions.",
     ["inputs", "configurations"], "all patterns up to 2x2 and families at 3..5, every exported procedure, formats x precisions", "Fortran tests use one random matrix each and mostly compare Fortran to Fortran.", ["src/Fortran-interface"], [("bind(C) wrappers", "src/Fortran-interface/*.F90")], ["Fortran API"])
prop("C28", "Misuse is reported as an error and never corrupts",
     "Row or column indices outside the matrix in any accessor, missing or uninitialized matrices, unknown formats, precisions or triangles, operations a format does not support, and copies between matrices of different format, precision or size end in a reported error; they never return a plausible value, access memory outside the matrix or change any matrix.",
     ["inputs"], "every accessor with every index in -2..N+1, every operation on missing and unknown matrices, every pair of kinds for copies; per format x precision", "Tests never misuse the API.", [CI + "bml_setters.c", CI + "bml_getters.c", CI + "bml_copy.c"], [("LOG_ERROR guards", CI + "*/*_typed.c")], ["process exit status"])
prop("C29", "Running out of memory ends in a reported error",
     "When any single memory allocation made by an operation fails, the operation ends in a reported error, or completes with the result it has without the failure; it never uses missing memory, crashes, hangs, or returns a wrong or missing result.",
     ["faults", "inputs", "configurations"], "every allocation of every operation fails in turn, for formats x precisions, small and row-growing sizes",
     "No test makes an allocation fail.", [CI + "bml_allocate.c", CI + "dense", CI + "ellpack", CI + "ellblock", CI + "csr"], [("allocation wrappers", CI + "bml_allocate.c"), ("work arrays", CI + "*/*_typed.c")], ["process exit status", "operation results"])
prop("C30", "Printing shows exactly the requested elements",
     "Printing rows i_l to i_u-1 and columns j_l to j_u-1 of a matrix, or of a dense array in row- or column-major order, writes one line per row with exactly those elements in column order, rounded to three decimals (complex numbers as real part, signed imaginary part and i), whatever the storage format; printing a vector writes its elements in one line. Nothing else is written and the printed matrix is unchanged.",
     ["inputs", "configurations"], "all matrices up to 2x2 and families to 17, every row and column window, formats x precisions and layouts, both dense orders",
     "Tests print but look at nothing.", [CI + "bml_utilities.c", CI + "dense/bml_utilities_dense_typed.c"], [("bml_print_bml_matrix, bml_print_dense_matrix", CI + "bml_utilities.c")], ["standard output"])
prop("C31", "Running out of memory on one rank ends the job in a reported error",
     "When any single memory allocation made by one rank during a communication, a distributed operation or a row-partition operation fails, that rank reports an error and ends, or every rank completes with the results it has without the failure; no rank uses missing memory, crashes, deadlocks, or returns a wrong or missing result.",
     ["faults", "schedules", "inputs"], "every allocation of ranks 0, 1 and the last of 4 fails in turn, in every program of sending, distributed and row-partitioned matrices, formats x precisions, two message timings",
     "No test makes an allocation fail, and none looks at what the other ranks do then.", [CI + "distributed2d", CI + "bml_parallel.c", CI + "bml_allocate.c"] + fl("parallel"), [("allocation wrappers", CI + "bml_allocate.c"), ("distributed temporaries and receive buffers", CI + "distributed2d/, " + CI + "*/bml_parallel_*_typed.c")], ["process exit status", "results on every rank"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
