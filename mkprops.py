#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept in git so that the text has one readable source)."""
import json, os
P = []
MECH = {
 "C01": [("tile loops over op(A), op(B) with per-tile beta on the first update", "compute/pzgemm.c"), ("per-tile transposed add kernels", "core_blas/core_ztradd.c")],
 "C02": [("tile substitution order per side/uplo/trans with alpha applied once", "compute/pztrsm.c"), ("in-place tile inversion order", "compute/pztrtri.c")],
 "C03": [("recursive multithreaded panel with barriers and max-reduction", "core_blas/core_zgetrf.c"), ("row exchanges split per tile column", "core_blas/core_zgeswp.c")],
 "C04": [("right/left-looking tile Cholesky per triangle", "compute/pzpotrf.c")],
 "C05": [("band tile descriptor with fill-in rows", "include/plasma_descriptor.h"), ("pivoted band solves applied tile column by tile column", "compute/pztbsm.c")],
 "C06": [("Aasen left-looking panel with symmetric swaps", "compute/pzhetrf_aasen.c")],
 "C07": [("flat tile QR/LQ and explicit tree operation list", "control/tree.c"), ("T factors stored in a descriptor twice as high for the tree", "control/descriptor.c")],
 "C08": [("factor, apply Q^H, triangular solve on views", "compute/zgels.c")],
 "C09": [("two-stage bidiagonal reduction with a static pipeline", "compute/pzgbbrd_static.c"), ("back-transformation", "compute/pzunmqr_blgtrd.c")],
 "C10": [("recursive Sturm-count bisection and inverse iteration", "compute/zlaebz2.c")],
 "C11": [("per-tile partial norms combined by a final task", "compute/pzlange.c"), ("scaled sums of squares", "core_blas/core_zgessq.c")],
 "C12": [("per-tile copy/set/scale tasks and pivoted swaps", "compute/pzlacpy.c")],
 "C13": [("iterative refinement with fallback", "compute/zcgesv.c")],
 "C14": [("triangle/band aware layout translation", "compute/pzdesc2tr.c")],
 "C15": [("argument checks and quick returns at each entry point", "compute/zgemm.c")],
 "C16": [("kernel info shifted by the tile offset and first failure kept", "compute/pzpotrf.c")],
 "C17": [("tuning tables and per-context parameters", "control/tuning.c")],
 "C18": [("OpenMP depend clauses per tile, fake dependencies for panels", "compute/pzgetrf.c"), ("spin barrier and static progress table", "control/barrier.c")],
 "C19": [("initialized flag and context record", "control/context.c"), ("Lua callbacks", "control/tuning.c")],
 "C20": [("sequence/request status", "control/async.c")],
 "C21": [("tile address arithmetic in four regions", "include/plasma_descriptor.h"), ("descriptor checks", "control/descriptor.c")],
 "C22": [("create/destroy pairs around every synchronous routine", "control/descriptor.c")],
 "C23": [("text substitution from the z templates", "tools/subs.py")],
 "C24": [("reflector kernels", "core_blas/core_zparfb.c"), ("plasma_tree_operations", "control/tree.c")],
 "C25": [("one-to-many translators", "control/constants.c"), ("indexed table of LAPACK names", "include/plasma_core_blas.h")],
}
def p(id, title, statement, over, text, why, files, symbols=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in MECH[id]]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

TST = ("The tester samples a few fixed shapes (150, 192, 201x97, 97x201) with nb=32, ib=8, 4 threads, "
       "random data and one leading-dimension padding; ")

p("C01", "Matrix multiply, rank-k and addition routines compute their formula",
  "gemm, gbmm, symm, hemm, syrk, herk, syr2k, her2k, trmm, geadd and tradd leave in their output matrix exactly the documented "
  "linear-algebra expression, within the rounding-error bound of conventional arithmetic (and exactly for small-integer data), for every "
  "transposition, side, triangle, diagonal kind, scalar and shape. Only the documented part of the output matrix changes, "
  "and the result depends only on the documented parts of the inputs (the imaginary parts of a Hermitian diagonal are ignored). "
  "As in BLAS, an output multiplied by zero need not be set: with beta = 0 (C of a product or rank-k update) or alpha = 0 (B of trmm and trsm) NaN in it does not reach the result.",
  ["inputs", "configurations"],
  "all m,n,k>=0, leading dimensions, option combinations, alpha/beta (0, 1, -1, general, complex), tile sizes and thread counts, four precisions",
  TST + "degenerate sizes, alpha/beta of 0 or 1, tile sizes that do not divide or that exceed the matrix, and unreferenced triangles are not sampled.",
  ["compute/zgemm.c", "compute/pzgemm.c", "compute/pzsymm.c", "compute/pzhemm.c", "compute/pzsyrk.c", "compute/pzherk.c",
   "compute/pzsyr2k.c", "compute/pzher2k.c", "compute/pztrmm.c", "compute/pzgeadd.c", "compute/pztradd.c", "compute/zgbmm.c", "core_blas/core_ztradd.c"])
p("C02", "Triangular solves, inverses and products are correct",
  "trsm returns X with op(A)X = alpha B (or X op(A) = alpha B), trtri returns the inverse of the stored triangle, lauum returns U U^H or L^H L, "
  "and getri_aux returns X solving X L = U-part, each within a small backward-error bound. Only the documented triangle or matrix is overwritten, and the other triangle "
  "(and a unit diagonal) is not written and has no influence on the result.",
  ["inputs", "configurations"],
  "all shapes, sides, triangles, transpositions, diagonal kinds, scalars, leading dimensions, tile sizes, thread counts, four precisions",
  TST + "unit diagonals, empty or one-row operands, alpha=0 and tile sizes above the order are not combined.",
  ["compute/ztrsm.c", "compute/pztrsm.c", "compute/ztrtri.c", "compute/pztrtri.c", "compute/zlauum.c", "compute/pzlauum.c", "compute/zgetri_aux.c", "compute/pzgetri_aux.c"])
p("C03", "LU factorization, solve and inverse are backward stable with valid pivots",
  "getrf returns a unit lower trapezoidal L, an upper trapezoidal U and 1-based pivots ipiv[i] in i..m with PA = LU and every multiplier bounded by one in pivot magnitude; "
  "getrs, gesv, getri and geinv then return op(A)^-1 B or A^-1 from it. All hold within a small backward-error bound, for every shape and every setting of the tile size, inner blocking and number of panel threads.",
  ["inputs", "configurations", "schedules"],
  "all m,n,nrhs, leading dimensions, trans, matrices (incl. ones that force row exchanges across tiles), nb, ib, panel threads, thread counts, four precisions",
  TST + "LU is run with one thread and one panel thread only, on square or one rectangular shape.",
  ["compute/zgetrf.c", "compute/pzgetrf.c", "core_blas/core_zgetrf.c", "compute/pzgeswp.c", "core_blas/core_zgeswp.c", "compute/zgetrs.c", "compute/zgesv.c", "compute/zgetri.c", "compute/zgeinv.c"])
p("C04", "Cholesky factorization, solve and inverse are correct for both triangles",
  "For every Hermitian positive definite matrix, potrf returns the triangular factor with positive real diagonal whose product reproduces A, potrs and posv return X with AX = B, and potri and poinv return the stored triangle of A^-1, within a small backward-error bound. "
  "The triangle that is not selected is not written and has no influence on the result; nor have the imaginary parts of the diagonal.",
  ["inputs", "configurations"],
  "all orders, nrhs, leading dimensions, uplo, positive definite matrices, tile sizes, thread counts, four precisions",
  TST + "no degenerate order, one matrix family.",
  ["compute/zpotrf.c", "compute/pzpotrf.c", "compute/zpotrs.c", "compute/zposv.c", "compute/zpotri.c", "compute/zpoinv.c", "core_blas/core_zpotrf.c"])
p("C05", "Band LU and band Cholesky factor and solve correctly in band storage",
  "gbtrf, gbtrs, gbsv, pbtrf, pbtrs and pbsv factor and solve systems given in LAPACK band storage for every bandwidth, returning factors and solutions that satisfy PA = LU, A = LL^H or U^H U, and op(A)X = B within a small backward-error bound. "
  "Storage positions outside the documented band are not changed to values that alter any documented result.",
  ["inputs", "configurations"],
  "all orders, 0<=kl,ku,kd<n, nrhs, leading dimensions, trans/uplo, tile sizes relative to the bandwidth, thread counts, four precisions",
  TST + "two bandwidth pairs are used, never bandwidth 0, one wider than a tile row, or close to the order.",
  ["compute/zgbtrf.c", "compute/pzgbtrf.c", "compute/zgbtrs.c", "compute/zgbsv.c", "compute/zpbtrf.c", "compute/pzpbtrf.c", "compute/zpbtrs.c", "compute/zpbsv.c", "compute/pztbsm.c", "compute/pzgb2desc.c", "compute/pzpb2desc.c", "compute/pzdesc2pb.c"])
p("C06", "Symmetric-indefinite (Aasen) factorization and solve are correct",
  "For every nonsingular symmetric/Hermitian indefinite matrix, hetrf returns pivots, a unit lower factor and a band matrix T with P A P^T = L T L^H, and hetrs and hesv return X with AX = B, within a normwise backward-error bound.",
  ["inputs", "configurations"],
  "all orders, nrhs, leading dimensions, indefinite matrices (zero diagonals included), tile sizes, panel threads, thread counts, four precisions",
  TST + "two orders, random data.",
  ["compute/zhetrf.c", "compute/pzhetrf_aasen.c", "compute/zhetrs.c", "compute/zhesv.c", "core_blas/core_zheswp.c"])
p("C07", "QR and LQ factor, generate and apply an orthogonal Q correctly",
  "After geqrf or gelqf the stored R or L, together with the Q that ungqr/unglq generates or unmqr/unmlq applies from either side and (conjugate-)transposed, satisfy A = QR or A = LQ with Q orthonormal to working precision; generating and applying describe the same Q. "
  "This holds for every shape, tile size and inner blocking, and for both the flat and the tree Householder reduction.",
  ["inputs", "configurations"],
  "all m,n,k, side, trans, leading dimensions, nb, ib, flat/tree, thread counts, four precisions",
  TST + "k<n in ungqr/unmqr, ib not dividing nb, single-column matrices and deep reduction trees are not sampled.",
  ["compute/zgeqrf.c", "compute/pzgeqrf.c", "compute/pzgeqrf_tree.c", "compute/zgelqf.c", "compute/pzgelqf.c", "compute/pzgelqf_tree.c", "compute/pzungqr.c", "compute/pzungqr_tree.c",
   "compute/pzunmqr.c", "compute/pzunmqr_tree.c", "compute/pzunmlq.c", "compute/pzunmlq_tree.c", "control/tree.c", "core_blas/core_ztsqrt.c", "core_blas/core_zttqrt.c", "core_blas/core_zparfb.c", "core_blas/core_zpamm.c"])
p("C08", "Least-squares drivers return the optimal solution",
  "gels returns the least-squares solution of an overdetermined full-rank system (residual orthogonal to the range of A) and the minimum-norm solution of an underdetermined one, within a small normwise bound; geqrs and gelqs return the same solutions from factors computed beforehand.",
  ["inputs", "configurations"],
  "all m,n,nrhs, leading dimensions, nb, ib, flat/tree, thread counts, full-rank matrices, four precisions",
  TST + "few shapes and one nrhs.",
  ["compute/zgels.c", "compute/zgeqrs.c", "compute/zgelqs.c"])
p("C09", "Singular value decomposition is accurate and orthogonal",
  "gesdd returns the singular values of A, non-negative and in descending order, to an absolute error of a small multiple of the machine precision times the norm of A; when vectors are requested, U and V^H are orthonormal and U S V^H reproduces A to the same accuracy.",
  ["inputs", "configurations", "schedules"],
  "all m,n, vector options, leading dimensions, nb, ib, flat/tree, thread counts (the static band-to-bidiagonal pipeline), four precisions",
  TST + "the bulge-chasing pipeline is only run on a handful of shapes with one thread interleaving each.",
  ["compute/zgesdd.c", "compute/pzgbbrd_static.c", "compute/pzge2gb.c", "compute/pzlarft_blgtrd.c", "compute/pzunmqr_blgtrd.c", "compute/pzgecpy_tile2lapack_band.c", "core_blas/core_zgbtype1cb.c", "core_blas/core_zgbtype2cb.c", "core_blas/core_zgbtype3cb.c"])
p("C10", "Symmetric tridiagonal eigenvalues and vectors are complete and accurate",
  "stevx2 returns, for every symmetric tridiagonal matrix and every index or value range, exactly the eigenvalues in that range counted with multiplicity, to an absolute error of a small multiple of machine precision times the norm, and, on request, matching vectors with small residual and mutual orthogonality. "
  "The count-only mode agrees with the number of eigenvalues the other modes return.",
  ["inputs", "configurations"],
  "all orders, tridiagonal matrices (random, clustered, decoupled, Toeplitz), ranges, job types, thread counts, real precisions",
  "Every stevx2 case of the single-precision tester fails at base and the double one samples one matrix per order.",
  ["compute/zstevx2.c", "compute/zlaebz2.c", "compute/zlaneg2.c"])
p("C11", "Norms and column/row maxima equal their mathematical definition",
  "lange, lansy, lanhe, lantr, langb and amax return the max, one, infinity or Frobenius norm (or the per-column/row largest |re|+|im|) of exactly the documented part of the matrix, within a relative rounding bound, for every shape, including data whose squares overflow or underflow (lanhe ignores the imaginary parts of the diagonal). A NaN or an infinity in that part shows as such in the norm, wherever it is. They do not change the matrix.",
  ["inputs", "configurations"],
  "all norms, uplo, diag, shapes, bandwidths, scales of the data, leading dimensions, tile sizes, thread counts, four precisions",
  TST + "no extreme scaling, no rectangular band, no empty matrices.",
  ["compute/zlange.c", "compute/pzlange.c", "compute/pzlansy.c", "compute/pzlanhe.c", "compute/pzlantr.c", "compute/pzlangb.c", "compute/pdzamax.c", "core_blas/core_zlange.c", "core_blas/core_zlantr.c", "core_blas/core_zgessq.c"])
p("C12", "Copy, set, scale and row/column-swap routines move exactly the right elements",
  "lacpy, laset, lascl and geswp produce bit-exact (lascl: correctly rounded up to a few ulps, without intermediate overflow or underflow) copies, fills, scalings and permutations of exactly the documented region, leaving every other element unchanged; gbset clears exactly the elements outside the band. "
  "Swapping with a pivot vector and then with the same vector reversed restores the matrix.",
  ["inputs", "configurations"],
  "all regions (upper, lower, general), transposition, shapes, values, pivot vectors, increments +-1, tile sizes, thread counts, four precisions",
  TST + "lacpy fails there for non-square and transposed inputs and the swaps are tried with one pivot distribution.",
  ["compute/zlacpy.c", "compute/pzlacpy.c", "compute/zlaset.c", "compute/pzlaset.c", "compute/zlascl.c", "compute/pzlascl.c", "compute/zgeswp.c", "compute/pzgeswp.c", "compute/zgbset.c", "core_blas/core_zlacpy.c", "core_blas/core_zlaset.c", "core_blas/core_zlascl.c", "core_blas/core_zgeswp.c"])
p("C13", "Mixed-precision solvers deliver working-precision accuracy or fall back",
  "cgesv/cposv/cgbsv-type drivers (ds and zc) return a solution with the accuracy of the high-precision solver, either through iterative refinement (iteration count >= 0) or after an announced fallback (negative count), whatever the conditioning. Refinement is what answers when the matrix is so well conditioned that it must converge, and needs no iteration when the low-precision solution is exact. "
  "Demotion rounds every element correctly, promotion is exact, and neither touches elements outside the documented region.",
  ["inputs", "configurations"],
  "all orders, nrhs, bandwidths, conditioning (well conditioned to beyond single precision), uplo, tile sizes, ds and zc",
  TST + "only well-conditioned matrices, so the fallback is never taken.",
  ["compute/zcgesv.c", "compute/zcposv.c", "compute/zcgbsv.c", "compute/zlag2c.c", "compute/clag2z.c", "core_blas/core_zlag2c.c", "core_blas/core_clag2z.c"])
p("C14", "Routines touch only the memory they document",
  "Every LAPACK-style routine writes only the documented elements of the caller's arrays, and its results depend only on documented elements: padding rows between m and the leading dimension, unselected triangles, unit diagonals, input-only arrays and memory beyond the arrays keep their bits, and NaNs stored in elements documented as not referenced never reach a documented output.",
  ["inputs", "configurations"],
  "every routine, option combination, shape, leading dimension and tile configuration, four precisions",
  "The tester checks results, not the surroundings; it never poisons unreferenced elements and runs without guard pages.",
  ["compute", "core_blas"])
p("C15", "Illegal arguments are reported and have no effect; empty problems succeed",
  "A call with one illegal argument returns minus the position of that argument (norms likewise as a value), leaves every caller array bit-identical, and leaves the library usable; a call before initialization returns the not-initialized error. "
  "A call whose dimensions make the problem empty returns success and changes nothing it is not documented to set.",
  ["inputs"],
  "every routine and argument position; illegal enums, negative dimensions, too small leading dimensions; zero-sized problems",
  "The tests never pass an illegal argument or an empty dimension.",
  ["compute/zgemm.c", "compute/zgetrf.c", "compute/zgesdd.c", "compute"])
p("C16", "Singular or non-definite input is reported with the right index",
  "When the input makes the factorization break down (exactly singular pivot, non-positive-definite leading minor, exactly singular triangle), the routine returns the positive index LAPACK specifies, finishes without hanging or crashing, and solution drivers do not report success. "
  "Inputs that are not singular are never reported as such.",
  ["inputs", "configurations"],
  "potrf/posv/poinv/pbtrf/pbsv, getrf/gesv/geinv/gbtrf/gbsv, trtri/potri; any failing index, tile size and thread count, four precisions",
  "The tester's zerocol cases cover three positions per routine and fail at base for getrf.",
  ["compute/pzpotrf.c", "compute/pzgetrf.c", "compute/pzpbtrf.c", "compute/pzgbtrf.c", "compute/pztrtri.c", "core_blas/core_zpotrf.c", "core_blas/core_zgetrf.c", "core_blas/core_ztrtri.c"])
p("C17", "Results do not depend on tile size, blocking or threading parameters",
  "For the same input, every routine gives the same result up to rounding (bit-identical for data movement and for small-integer data; identical pivots when the pivot choice is unambiguous) whatever the tile size, inner blocking, panel threads, Householder mode or thread count, and whether they are set by hand or picked by the tuning tables.",
  ["configurations", "inputs"],
  "pairs of configurations (nb from 1 to beyond the matrix, ib from 1 to nb, panel threads up to the thread count, flat/tree, threads 1..8, tuning on/off) over all routines and inputs",
  "The tests use one nb/ib/thread setting per routine.",
  ["control/tuning.c", "control/context.c", "control/descriptor.c", "compute"])
p("C18", "Results are independent of the task schedule and tasks never conflict",
  "For a fixed configuration every legal execution order and interleaving of the generated tasks terminates and yields bit-identical results, and no two tasks that may run concurrently access the same tile with at least one of them writing.",
  ["schedules", "inputs", "configurations"],
  "all task orders consistent with the declared dependencies, all interleavings at basic-block granularity, thread counts 1..8, all routines",
  "A test run observes one schedule chosen by the OpenMP runtime, nearly always close to creation order.",
  ["compute/pzgetrf.c", "compute/pzgetri_aux.c", "compute/pzhetrf_aasen.c", "compute/pzgeqrf.c", "compute/pztrsm.c", "core_blas/core_zgemm.c", "control/barrier.c", "compute/pzgbbrd_static.c", "compute"])
p("C19", "Library context follows its init/set/get/finalize protocol",
  "Over every sequence of init, finalize, set, get and routine calls, the library accepts exactly the calls its documented state allows, get returns the last value accepted by set, the last usable answer of the tuning script, or the default after init, rejected values change nothing, and each routine uses the parameters in force. "
  "A tuning script named in the environment when the library starts determines the parameters used while tuning is enabled; a missing or broken script, a missing function and an unusable answer leave the parameters as they were.",
  ["histories", "configurations"],
  "all call sequences over the control API with legal and illegal parameters and values, with and without tuning scripts (valid, throwing, non-numeric)",
  "The tester initializes once, sets once and finalizes once.",
  ["control/context.c", "control/tuning.c", "include/plasma_context.h"])
p("C20", "Asynchronous tile calls chain, report and propagate errors as documented",
  "A chain of tile-asynchronous calls in one parallel region gives bit-identical results to the same calls made one after another through the synchronous interface. An illegal argument or a numerical failure marks the call's request and its sequence, a call without a sequence or without a request is reported through the one it has, and neither an illegal call, nor a call before initialization, nor a call submitted to a failed sequence changes any data. Computations already in flight that wait for the result of a failed step change nothing either, and the failure does not reach other sequences. What an output-only workspace held before the call does not matter.",
  ["histories", "schedules", "inputs"],
  "all chains of tile calls over shared descriptors (including sub-matrix views), error positions, schedules and thread counts",
  "The tests issue single synchronous calls only.",
  ["control/async.c", "compute/zgemm.c", "compute/zpotrf.c", "compute/zgesv.c", "include/plasma_async.h"])
p("C21", "Tile storage is a bijection and layout translation round-trips",
  "For every general, band or triangular descriptor and every view of one, distinct tiles occupy disjoint memory inside the allocation, tile dimensions add up to the matrix, and translating LAPACK layout to tiles and back reproduces the matrix bit for bit without touching other memory. Inconsistent descriptors and view parameters are rejected.",
  ["inputs"],
  "all matrix sizes, tile sizes, offsets, sub-matrices, bandwidths, triangles, leading dimensions and precisions",
  "The tests exercise descriptors only indirectly with one tile size and never use views or malformed descriptors.",
  ["control/descriptor.c", "include/plasma_descriptor.h", "compute/pzge2desc.c", "compute/pzdesc2ge.c", "compute/pzgb2desc.c", "compute/pzpb2desc.c", "compute/pzdesc2pb.c", "compute/pztr2desc.c", "compute/pzdesc2tr.c"])
p("C22", "Memory is released, and allocation failure is reported cleanly",
  "Every call returns all memory it allocated except what it hands to the caller for release, whether it succeeds or fails, and init/finalize pairs leak nothing. When any single allocation inside a call fails, the call returns an error without crashing, leaking or corrupting caller memory, and the library works normally afterwards.",
  ["fault_sequences", "inputs", "histories"],
  "every routine, every position of a failing allocation, shapes and configurations",
  "Allocation never fails in the tests and leaks are not observed.",
  ["control/descriptor.c", "control/workspace.c", "control/context.c", "compute"])
p("C23", "The four precisions implement the same routine",
  "On data representable in all precisions, the s and d variants (and the c and z variants) of a routine agree to the lower precision, and a complex variant given real data agrees with the real variant and returns zero imaginary parts, in results, pivots and return codes; with an operand of a linear operation multiplied by the imaginary unit the complex variant returns the real result multiplied likewise.",
  ["inputs", "configurations"],
  "all routines present in two or more precisions, shapes, options and configurations",
  "The variants are generated by text substitution and each is tested only against its own LAPACK reference on a few shapes.",
  ["tools/subs.py", "tools/codegen.py", "compute", "core_blas"])
p("C24", "Tile kernels meet their contracts and elimination trees are valid",
  "Each exported tile kernel computes its documented local operation (triangle-on-square and triangle-on-triangle QR/LQ, their application from each side, block reflector application, tile multiplications, triangular solves, Cholesky and inverse steps, scaled sums of squares, triangular sums) for every admissible tile shape, inner blocking and offset, writing nothing else. "
  "The generated list of tree-reduction operations eliminates every sub-diagonal tile exactly once, using only tiles still alive, for every tile-grid shape.",
  ["inputs"],
  "all tile shapes, inner blockings, sides, transpositions, leading dimensions, four precisions; all tile grids up to a bound",
  "Kernels are only reached through whole algorithms with square nb=32 tiles and ib=8.",
  ["core_blas", "control/tree.c", "include/plasma_core_blas_z.h"])
p("C25", "Option characters and constants translate both ways",
  "plasma_diag_const, direct, norm, side, storev, trans, uplo, job and range map each documented LAPACK character, in either case, to its constant, and every other character to PlasmaInvalid (PlasmaGeneral for uplo). "
  "lapack_const maps every constant that has a LAPACK name back to its letter and any other number, inside or outside the table, to the empty name; plasma_element_size is the size of the data type.",
  ["inputs"],
  "all characters, all integers around and far from the table, all data types",
  "The tests translate the options they use; no other character, and not the inverse of every constant.",
  ["control/constants.c", "include/plasma_core_blas.h", "include/plasma_types.h", "include/plasma_descriptor.h"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
