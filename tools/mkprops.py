#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "src/graphblas/platforms/sequential/"
O = "src/graphblas/platforms/optimized_sequential/"
G = "src/graphblas/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

both = lambda n: [S + n, O + n]

prop("C01", "Matrix storage stays canonical under every history of operations",
  "After any sequence of public operations on a matrix, every stored element has an in-range row and column, no position is stored twice, elements of a row are visited in strictly increasing column order, and nvals() equals the number of stored elements. This holds whether the matrix was filled by construction, build, element updates, resize, clear, or as the output of an operation.",
  ["histories", "inputs"], "all histories of public matrix operations from any canonical state, all dimensions, all contents",
  "Tests compare a few final matrices of size <= 12; a history that leaves a stale count or an unsorted row only shows later, in a different operation.",
  both("LilSparseMatrix.hpp") + both("sparse_helpers.hpp"),
  [("row setters / clear / recomputeNvals / setElement / removeElement / build / resize", S + "LilSparseMatrix.hpp"),
   ("write_with_opt_mask family writes rows through setRow", S + "sparse_helpers.hpp")],
  [("m_data", "one sorted (column,value) list per row", S + "LilSparseMatrix.hpp"), ("m_nvals", "number of stored elements", S + "LilSparseMatrix.hpp")],
  ["Matrix::nvals", "Matrix::hasElement", "Matrix::extractTuples"])

prop("C02", "Vector storage stays canonical under every history of operations",
  "After any sequence of public operations on a vector, nvals() equals the number of positions below size() that hold a stored value. This holds whether the vector was filled by construction (including construction with a fill value or from a dense list), build, element updates, resize, clear, or as the output of an operation.",
  ["histories", "inputs"], "all histories of public vector operations from any canonical state, all sizes, all contents",
  "The count is maintained incrementally in a dozen places; the tests look at the count after a handful of fixed sequences.",
  both("BitmapSparseVector.hpp"),
  [("m_nvals updates in constructors, build, setElement, removeElement, resize, clear, setContents", S + "BitmapSparseVector.hpp")],
  [("m_bitmap", "which positions are stored", S + "BitmapSparseVector.hpp"), ("m_nvals", "number of set bits", S + "BitmapSparseVector.hpp")],
  ["Vector::nvals", "Vector::hasElement"])

prop("C03", "Element access on matrices and vectors behaves as a finite map",
  "Setting an element makes exactly that position read back as the given value; removing it makes exactly that position absent; every other position, and the dimensions, are unchanged. Reading an absent position reports a no-value error and any access outside the dimensions is rejected without changing the object.",
  ["inputs", "histories"], "all canonical objects, all positions, all values",
  "Needs every position relative to the existing elements (before, between, equal, after, empty row), not the sampled ones.",
  both("LilSparseMatrix.hpp") + both("BitmapSparseVector.hpp") + [G + "Matrix.hpp", G + "Vector.hpp"],
  [("setElement / removeElement / hasElement / extractElement", S + "LilSparseMatrix.hpp"), ("same for vectors", S + "BitmapSparseVector.hpp")],
  observe=["Matrix::extractElement", "Vector::extractElement"])

prop("C04", "build stores exactly the given tuples and extractTuples returns them",
  "Building an empty container from coordinate lists in any order stores exactly the listed positions, with the values given for one position combined by the duplicate operator in list order. extractTuples then lists every stored element exactly once in increasing order with its value. Coordinates outside the dimensions and lists of differing length are rejected with an error.",
  ["inputs"], "all coordinate/value lists (any order, any duplicates), all dimensions, all duplicate operators",
  "Order and multiplicity of the lists are unbounded; tests use a few sorted lists, and duplicates only a few times.",
  both("LilSparseMatrix.hpp") + both("BitmapSparseVector.hpp") + [G + "Matrix.hpp", G + "Vector.hpp"],
  [("build / extractTuples", S + "LilSparseMatrix.hpp"), ("build / extractTuples", S + "BitmapSparseVector.hpp")],
  observe=["Matrix::build", "Matrix::extractTuples", "Vector::build", "Vector::extractTuples"])

prop("C05", "clear and resize keep exactly the elements they should",
  "clear() removes every stored element and keeps the dimensions. resize() changes the dimensions to the requested ones, keeps every element whose position is still in range with its value, drops exactly the others, and growing again does not bring dropped elements back. Zero dimensions are rejected with an error that leaves the object unchanged.",
  ["inputs", "histories"], "all canonical objects, all old and new dimensions",
  "Shrinking in one dimension and growing in the other, with elements at the edges, is an unbounded family; the tests pick two or three.",
  both("LilSparseMatrix.hpp") + both("BitmapSparseVector.hpp"),
  [("clear / resize", S + "LilSparseMatrix.hpp"), ("clear / resize", S + "BitmapSparseVector.hpp")],
  observe=["Matrix::resize", "Vector::resize"])

prop("C06", "Matrix results obey the accumulate, mask, and replace/merge rules",
  "A matrix-valued operation that computed T leaves in its output Z = C accumulated with T (Z = T without accumulator) at every position the mask enables; positions the mask disables keep their old content when merging and are empty when replacing. The mask enables a position exactly when it holds a stored true value; for a structure mask when it holds any stored value; the complemented forms enable exactly the other positions.",
  ["inputs", "configurations"], "all matrices, masks of the five kinds, accumulators present or not, merge and replace",
  "The 5 mask kinds x accum x replace combine with every interleaving of the column patterns of C, T and the mask; the tests sample fixed 3x3..12x12 patterns.",
  both("sparse_helpers.hpp"),
  [("ewise_or_opt_accum, write_with_opt_mask, apply_with_mask, get_*_row", S + "sparse_helpers.hpp")],
  observe=["output of every matrix-valued operation"])

prop("C07", "Vector results obey the accumulate, mask, and replace/merge rules",
  "A vector-valued operation that computed t leaves in its output z = w accumulated with t (z = t without accumulator) at every position the mask enables; positions the mask disables keep their old content when merging and are empty when replacing. The mask enables a position exactly when it holds a stored true value; for a structure mask when it holds any stored value; the complemented forms enable exactly the other positions.",
  ["inputs", "configurations"], "all vectors, masks of the five kinds, accumulators present or not, merge and replace",
  "Same as for matrices: the combination space times the interleavings of three sparsity patterns is only sampled.",
  both("sparse_helpers.hpp"),
  [("ewise_or_opt_accum_1D, write_with_opt_mask_1D, get_*_contents", S + "sparse_helpers.hpp")],
  observe=["output of every vector-valued operation"])

prop("C08", "mxm computes the semiring matrix product for every transpose combination",
  "For A or A-transposed times B or B-transposed, on the reference backend, position (i,j) of the product exists exactly when some k has both factors stored, and its value is the semiring sum, over those k, of mult(left factor, right factor) with the operands in that order. The product is then written to the output under the accumulate and mask rules.",
  ["inputs", "configurations"], "all matrices, semirings (non-commutative multiply included), transposes, masks, accumulators, merge/replace",
  "Tests use commutative arithmetic multiply and small fixed matrices, so operand order and rare sparsity patterns are not observed.",
  [S + "sparse_mxm.hpp", S + "sparse_helpers.hpp", G + "operations.hpp"],
  [("four overloads by transpose", S + "sparse_mxm.hpp"), ("dot / axpy helpers", S + "sparse_helpers.hpp")],
  observe=["grb::mxm"])

prop("C09", "The optimized backend's mxm gives the same result as the definition",
  "On the optimized backend, mxm yields, for every combination of transposes, mask kind, accumulator and merge/replace, the semiring product written under the accumulate and mask rules, exactly as the definition and the reference backend give. This includes calls where the output is the same object as an input.",
  ["inputs", "configurations"], "all matrices, semirings, transposes, masks, accumulators, merge/replace, output aliasing an input",
  "Dozens of specialised kernels each hit by few fixed inputs; stale rows, masked merges and aliasing need particular patterns.",
  [O + "sparse_mxm.hpp", O + "sparse_mxm_AB.hpp", O + "sparse_mxm_ABT.hpp", O + "sparse_mxm_ATB.hpp", O + "sparse_mxm_ATBT.hpp", O + "sparse_helpers.hpp"],
  [("kernel per (transpose, mask, accum)", O + "sparse_mxm_AB.hpp"), ("masked_accum / masked_merge", O + "sparse_helpers.hpp")],
  observe=["grb::mxm with -DPLATFORM=optimized_sequential"])

prop("C10", "mxv and vxm compute the semiring matrix-vector products",
  "mxv gives w(i) = semiring sum over k of mult(A(i,k), u(k)) and vxm gives w(j) = semiring sum over k of mult(u(k), A(k,j)), over exactly the k where both are stored, with a position absent when there is no such k; a transposed matrix argument behaves as its transpose. The result is then written under the accumulate and mask rules.",
  ["inputs", "configurations"], "all matrices, vectors, semirings, transposes, masks, accumulators, merge/replace",
  "Tests use commutative multiply and a handful of vectors of size <= 9.",
  both("sparse_mxv.hpp") + both("sparse_vxm.hpp") + both("sparse_helpers.hpp"),
  [("dot / dot_rev / axpy loops", S + "sparse_mxv.hpp"), ("same", S + "sparse_vxm.hpp")],
  observe=["grb::mxv", "grb::vxm"])

prop("C11", "eWiseAdd is the element-wise union",
  "eWiseAdd of two matrices or two vectors stores op(a,b) where both operands hold a value and the single operand's value where only one does, and nothing elsewhere; transposed operands behave as their transposes and keep their own value type. The result is then written under the accumulate and mask rules.",
  ["inputs", "configurations"], "all operands, operators, transposes, masks, accumulators, merge/replace",
  "Union of two arbitrary sparsity patterns, operand order and mixed value types are only sampled.",
  both("sparse_ewiseadd.hpp") + both("sparse_helpers.hpp"),
  [("ewise_or merges", S + "sparse_helpers.hpp"), ("overloads by transpose", S + "sparse_ewiseadd.hpp")],
  observe=["grb::eWiseAdd"])

prop("C12", "eWiseMult is the element-wise intersection",
  "eWiseMult of two matrices or two vectors stores op(a,b) exactly where both operands hold a value; transposed operands behave as their transposes and keep their own value type. The result is then written under the accumulate and mask rules.",
  ["inputs", "configurations"], "all operands, operators, transposes, masks, accumulators, merge/replace",
  "Intersection of two arbitrary sparsity patterns, operand order and mixed value types are only sampled.",
  both("sparse_ewisemult.hpp") + both("sparse_helpers.hpp"),
  [("ewise_and merges", S + "sparse_helpers.hpp"), ("overloads by transpose", S + "sparse_ewisemult.hpp")],
  observe=["grb::eWiseMult"])

prop("C13", "apply maps every stored element and nothing else",
  "apply with a unary operator, or with a binary operator whose first or second operand is bound to a scalar, produces a result with exactly the input's stored positions, each holding the operator applied to that element with the operands in the stated order; a transposed input behaves as its transpose. The result is then written under the accumulate and mask rules.",
  ["inputs", "configurations"], "all inputs, operators, bound scalars, transposes, masks, accumulators, merge/replace",
  "Operand order and arbitrary patterns under masks are only sampled.",
  both("sparse_apply.hpp"), [("apply, apply_binop_1st, apply_binop_2nd", S + "sparse_apply.hpp")],
  observe=["grb::apply"])

prop("C14", "reduce folds exactly the stored elements",
  "Row reduction (or column reduction through a transposed view) gives, for each row, the monoid fold of its stored elements and no element for an empty row. Reducing a whole vector or matrix to a scalar folds every stored element exactly once, gives the monoid identity when nothing is stored, and combines with the old scalar through the accumulator if one is given.",
  ["inputs", "configurations"], "all inputs, monoids, masks, accumulators, merge/replace",
  "Arbitrary sparsity, empty rows and non-trivial monoids are only sampled.",
  both("sparse_reduce.hpp") + both("sparse_helpers.hpp"), [("reduction, opt_accum_scalar", S + "sparse_helpers.hpp")],
  observe=["grb::reduce"])

prop("C15", "transpose swaps rows and columns exactly",
  "transpose yields a result holding value v at (j,i) exactly when the input holds v at (i,j), so transposing twice restores the input; a transposed view as input is undone. The result is then written under the accumulate and mask rules.",
  ["inputs", "configurations"], "all matrices, masks, accumulators, merge/replace",
  "All shapes and patterns; tests use a few fixed ones.",
  both("sparse_transpose.hpp"), [("transpose overloads", S + "sparse_transpose.hpp")],
  observe=["grb::transpose"])

prop("C16", "kronecker computes the Kronecker product for every transpose combination",
  "The Kronecker product holds, at row i1*rows(B)+i2 and column j1*cols(B)+j2, the value op(A(i1,j1), B(i2,j2)) exactly when both factors are stored there, with transposed arguments behaving as their transposes. The result is then written under the accumulate and mask rules.",
  ["inputs", "configurations"], "all matrices, operators, transposes, masks, accumulators, merge/replace",
  "Index arithmetic over non-square, transposed arguments is only sampled.",
  both("sparse_kronecker.hpp"), [("four overloads by transpose", S + "sparse_kronecker.hpp")],
  observe=["grb::kronecker"])

prop("C17", "extract selects exactly the indexed elements",
  "Extracting with index lists (any order, repeated indices allowed, or all indices) yields a result whose position (i,j) holds the source element at (row_indices[i], col_indices[j]) exactly when that is stored; likewise for vectors and for a column of a matrix, and through a transposed view. The result is then written under the accumulate and mask rules.",
  ["inputs", "configurations"], "all sources, index lists in any order with repetitions, transposes, masks, accumulators, merge/replace",
  "Index lists in arbitrary order with repetition are unbounded; tests use a few.",
  both("sparse_extract.hpp") + both("sparse_helpers.hpp"), [("vectorExtract, matrixExtract, matrixColExtract variants", S + "sparse_extract.hpp")],
  observe=["grb::extract"])

prop("C18", "assign writes exactly the addressed region",
  "Assigning a matrix, vector, row, column or scalar to the region addressed by duplicate-free index lists in any order makes each addressed position take the assigned content (which is absent where the source is absent and there is no accumulator, and combined with the old value when there is one), and leaves all positions outside the region with their old content before masking. The result is then written under the mask rules of the operation.",
  ["inputs", "configurations"], "all targets, sources, duplicate-free index lists in any order, transposes, masks, accumulators, merge/replace",
  "Unsorted index lists combined with arbitrary patterns are only sampled; constant assignment is tested with sorted lists only.",
  both("sparse_assign.hpp") + both("sparse_helpers.hpp"), [("ewise_or_stencil family, assign_expand helpers", S + "sparse_helpers.hpp"), ("assign, assign_constant", S + "sparse_assign.hpp")],
  observe=["grb::assign"])

prop("C19", "Ill-shaped calls are rejected before anything is modified",
  "Every operation whose argument dimensions are incompatible, or whose index list has a wrong length or an out-of-range index, reports a dimension or index error, and the output and all inputs are then exactly as before the call. Calls with compatible arguments are never rejected.",
  ["inputs", "configurations"], "all operations, all argument shapes, all index lists",
  "Per operation there are five or more independent shape conditions; tests trip some of them, never checking that the output is untouched.",
  [G + "operations.hpp", G + "detail/checks.hpp"] + both("sparse_helpers.hpp"), [("check_* functions and their order before the backend call", G + "operations.hpp"), ("check_index_array_content", S + "sparse_helpers.hpp")],
  observe=["every grb:: operation"])

prop("C20", "Operations leave inputs alone and tolerate output aliasing an input",
  "An operation never changes its input matrices, vectors, masks or index lists. When the output object is also passed as an input or as the mask, the result is the same as if the inputs had been copied first.",
  ["inputs", "configurations"], "all operations, all aliasing patterns between output, inputs and mask",
  "Aliasing is tested for almost no operation; corrupting an input only shows if the test compares it afterwards.",
  both("sparse_mxm.hpp") + both("sparse_mxv.hpp") + both("sparse_vxm.hpp") + both("sparse_ewiseadd.hpp") + both("sparse_ewisemult.hpp") + both("sparse_apply.hpp") + both("sparse_extract.hpp") + both("sparse_assign.hpp"),
  [("results are built in temporaries before the output is written", S + "sparse_helpers.hpp")],
  observe=["every grb:: operation"])

prop("C21", "No operation reads or writes outside its containers",
  "For every call that passes the shape and index checks, no operation dereferences an end position, indexes a row or vector outside its bounds, or computes a negative size or offset. This holds for empty rows, empty operands, masks shorter than the row, and the last row and column.",
  ["inputs", "configurations"], "all valid calls of all operations",
  "Out-of-bounds reads of a vector are silent in the tests (no sanitizer), and boundary patterns are only sampled.",
  both("sparse_helpers.hpp") + both("LilSparseMatrix.hpp") + both("BitmapSparseVector.hpp"), [("iterator end checks in every merge", S + "sparse_helpers.hpp")],
  observe=["every grb:: operation"])

prop("C22", "Predefined monoids and operators satisfy their algebraic laws",
  "For each predefined monoid over the integer types and bool, combining any value with the identity gives that value back and the operation is commutative and associative (unsigned wrap-around arithmetic; signed values as long as nothing overflows). Each predefined unary and binary operator computes the function its name states, with the first operand first, and each predefined semiring pairs the stated addition and multiplication.",
  ["inputs"], "all operand values of the integer types and bool",
  "The value domains have up to 2^192 operand triples; tests try one or two each.",
  [G + "algebra.hpp"], [("operators, GEN_GRAPHBLAS_MONOID, GEN_GRAPHBLAS_SEMIRING", G + "algebra.hpp")],
  observe=["grb::Plus, grb::MinMonoid, grb::ArithmeticSemiring, ..."])

prop("C23", "Matrix utilities build what they say",
  "diag places element v(i) of the given vector at position (i,i) and nothing else; scaled_identity has the given value on the diagonal and nothing else; split separates a matrix into a lower part with the diagonal and a strictly upper part that together hold exactly its elements. Row and column normalization scale each element by the reciprocal of the sum of its row or column, for square and non-square matrices.",
  ["inputs"], "all inputs and dimensions",
  "Shapes and patterns are only sampled, normalization only for square matrices.",
  [G + "matrix_utils.hpp"], [("diag, scaled_identity, split, normalize_rows, normalize_cols", G + "matrix_utils.hpp")],
  observe=["grb::diag", "grb::split"])

prop("C24", "BFS levels and parents describe shortest hop paths",
  "Breadth-first traversal from any source on any directed graph labels exactly the reachable vertices, each with its hop distance (plus the documented base) or with a parent that is one level closer to the source.",
  ["inputs"], "all directed graphs and sources", "Tests use three fixed graphs of at most 34 vertices.",
  ["src/algorithms/bfs.hpp"], [("bfs, bfs_level, bfs_level_masked, bfs_level_masked_v2", "src/algorithms/bfs.hpp")], observe=["algorithms::bfs*"])
prop("C25", "Shortest-path algorithms return the true distances",
  "Single-source and all-pairs shortest path algorithms return, for every reachable vertex of a graph with non-negative weights, the minimum total weight over all paths, and no value for unreachable vertices.",
  ["inputs"], "all graphs with non-negative weights and all sources", "Tests use a few fixed graphs.",
  ["src/algorithms/sssp.hpp", "src/algorithms/apsp.hpp"], [("sssp, filtered_sssp, batch_sssp, apsp", "src/algorithms/sssp.hpp")], observe=["algorithms::sssp", "algorithms::apsp"])
prop("C26", "Triangle counting variants all return the number of triangles",
  "On every undirected graph without self-loops all triangle counting variants return the exact number of triangles.",
  ["inputs"], "all undirected graphs", "Tests use a few fixed graphs.",
  ["src/algorithms/triangle_count.hpp"], [("triangle_count*", "src/algorithms/triangle_count.hpp")], observe=["algorithms::triangle_count"])
prop("C27", "Maximum flow, MST, MIS, k-truss and clustering meet their definitions",
  "The maximum flow equals the minimum cut capacity, the spanning tree is of minimum weight, the independent set is independent and maximal, and a k-truss is the maximal subgraph whose edges lie in at least k-2 triangles.",
  ["inputs"], "all graphs", "Tests use a few fixed graphs and random seeds.",
  ["src/algorithms/maxflow.hpp", "src/algorithms/mst.hpp", "src/algorithms/mis.hpp", "src/algorithms/k_truss.hpp", "src/algorithms/cluster.hpp"],
  [("maxflow, mst, mis, k_truss", "src/algorithms/")], observe=["algorithms::*"])
prop("C28", "Rank, centrality and Louvain results are numerically accurate",
  "PageRank, betweenness centrality and modularity values agree with their mathematical definitions within the documented tolerance.",
  ["inputs"], "all graphs and tolerances", "Floating point iteration on a few fixed graphs.",
  ["src/algorithms/page_rank.hpp", "src/algorithms/bc.hpp", "src/algorithms/cluster_louvain.hpp"], [("page_rank, bc, louvain", "src/algorithms/")], observe=["algorithms::page_rank"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
