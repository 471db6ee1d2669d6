#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the list; run after editing)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Converting between storage formats preserves the matrix",
 "Converting a matrix between coordinate, CSR, CSC, dictionary-of-keys and dense form, along any chain of conversions, gives a matrix of the same dimensions whose element at every position is the sum of the entries stored for that position in the source. No entry is lost, invented or moved, whatever the shape, the order of the entries, duplicates, explicit zeros or empty rows and columns; conversions between CSR, CSC and coordinate form that do not sum duplicates carry every stored entry over exactly once. The same holds for the low-level conversion routines, including the row- and column-major dense ones, which add into the dense array they are given.",
 ["inputs","histories","configurations"],
 "Every valid matrix (any dimensions, entry order, duplicates, explicit zeros), every chain of conversions, every index type able to represent the dimensions and the number of entries, every element type.",
 "The tests convert one fixed 4x4 matrix and one 2x3 matrix and look at the diagonal or single elements; no CSC source, DoK, empty row, duplicate order, chain or other index type.",
 ["src/coord.rs","src/row.rs","src/col.rs","src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs"],
 [("counting sort by row/column","coo_tocsr, csr_tocsc, csc_tocsr"),("pointer expansion","expandptr, csr_tocoo"),("dense accumulation","csr_todense, coo_todense, Coo::to_dense, DoK::to_dense")],
 ["to_csr","to_csc","to_coo","to_dense","csr_tocsc","coo_tocsr","csr_tocoo","expandptr"])

p("C02","Compressed and coordinate results are always well formed",
 "Every CSR or CSC matrix the library hands back from valid operands is well formed: the pointer array has one more element than there are rows (columns), starts at 0, never decreases and ends at the reported number of entries, the index and value arrays hold exactly that many elements, and every index lies inside the matrix. Every coordinate matrix it hands back has three arrays of equal length and indices inside the matrix. This holds after any sequence of operations, each working on the results of earlier ones.",
 ["inputs","histories","configurations"],
 "Every finite sequence of public operations starting from valid matrices, at every intermediate result.",
 "Tests never inspect a pointer array of a computed result and never feed the result of one operation into another beyond one step.",
 ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/row.rs","src/csr/std_ops.rs","src/csc/std_ops.rs"],
 [("length checks and trimming in constructors","CSR::new, CSC::new, prune"),("pointer accumulation in the kernels","csr_matmat, csr_binop_csr_*, csr_tocsc, csr_select, csr_sum_duplicates")],
 ["rowptr/colptr","rowidx/colidx","values","nnz"],
 [("pointer array","start of each row or column","CSR.rowptr, CSC.colptr"),("index and value arrays","stored entries","CSR.colidx, CSC.rowidx, values")])

p("C03","Summing duplicates and sorting canonicalise without changing the matrix",
 "Summing duplicates in a CSR or CSC matrix, and converting a coordinate matrix to CSR or CSC, gives strictly increasing indices within every row (column), exactly one entry for every position that was stored, explicit zeros retained, with the sum of the values stored for that position. Sorting indexes only reorders entries within their own row (column), keeping every index paired with its value and leaving indexes in non-decreasing order. A matrix already in that form is left unchanged.",
 ["inputs","histories"],
 "Every valid compressed or coordinate matrix, with any number and arrangement of duplicates, explicit zeros, unsorted and empty rows.",
 "One test doubles a fixed matrix and one swaps a single pair of entries; runs of three or more duplicates, cancellation to zero, several unsorted rows and CSC are never tried.",
 ["src/row.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs"],
 [("in-place compaction","csr_sum_duplicates"),("per-row sort","csr_sort_indices"),("trim","prune")],
 ["sum_duplicates","sort_indexes","Coo::to_csr","Coo::to_csc"])

p("C04","Format predicates tell the truth",
 "The sorted-indexes predicate of a CSR or CSC matrix is true exactly when the indices within every row (column) never decrease, and the canonical-format predicate exactly when they strictly increase. Both answer for every valid matrix, including ones with empty rows or no entries at all and for unsigned and signed index types.",
 ["inputs","configurations"],
 "Every valid compressed matrix and every index type able to represent it.",
 "Two fixed matrices without empty rows and one index type; the predicates steer which algorithm later operations pick.",
 ["src/row.rs","src/csr/csr.rs","src/csc/csc.rs"],
 [("adjacent comparison within rows","csr_has_sorted_indices, csr_has_canonical_format")],
 ["has_sorted_indexes","has_canonical_format"])

p("C05","Matrix addition and subtraction are exact and clean",
 "Adding or subtracting two matrices of equal shape (CSR, CSC by method or operator, coordinate by operator) gives the element-wise sum or difference of the matrices they denote. CSR and CSC results contain no duplicate positions and no explicit zeros, also where terms cancel or operands hold duplicates, explicit zeros or unsorted indices, and are sorted when both operands are canonical; the coordinate sum is canonical.",
 ["inputs","histories","configurations"],
 "Every pair of valid matrices of equal shape, canonical or not, in all owned/borrowed operator forms.",
 "Only one coordinate addition is tested (diagonal and one element); CSR addition once inside a graph test; subtraction, CSC, cancellation, unsorted or duplicate operands never.",
 ["src/row.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/csc/csc.rs","src/coo/std_ops.rs"],
 [("merge of sorted rows","csr_binop_csr_canonical"),("linked-list accumulation","csr_binop_csr_general"),("choice of the two","csr_binop_csr")],
 ["operators + and -","CSC::add","CSC::subtract","csr_add_csr","csr_sub_csr"])

p("C06","Element-wise comparison, product, quotient, min and max are exact",
 "For each element-wise routine (not-equal, equal, less, less-or-equal, greater, greater-or-equal, product, quotient, maximum, minimum) the result holds exactly one entry for each position stored in either operand at which applying the operation to the two (summed, zero if absent) elements gives a nonzero or true result, with that result as value, and nothing else. The routine for canonical operands and the one for general operands agree on every input both accept, and the named, dispatching and canonical routines give sorted results for canonical operands.",
 ["inputs"],
 "Every pair of valid CSR operands of equal shape, canonical or with duplicates/unsorted indices, each of the ten operations.",
 "No test calls any of these routines.",
 ["src/row.rs"],
 [("generic binary operation","csr_binop_csr, csr_binop_csr_canonical, csr_binop_csr_general"),("operation wrappers","csr_ne_csr .. csr_min_csr")],
 ["csr_ne_csr","csr_eq_csr","csr_lt_csr","csr_le_csr","csr_gt_csr","csr_ge_csr","csr_mul_csr","csr_div_csr","csr_max_csr","csr_min_csr"])

p("C07","Matrix-matrix products are exact and clean",
 "The product of two matrices with matching inner dimension (CSR by CSR, CSC by CSC, CSC by CSR, by method or operator) is the matrix product of the matrices they denote, with the outer dimensions. The result has no duplicate positions and no explicit zeros, whatever order, duplicates or explicit zeros the operands hold, and the companion counting routine returns exactly the number of positions that receive at least one product term, enough room for the result.",
 ["inputs","histories"],
 "Every pair of valid matrices with matching inner dimension, including empty, rectangular, cancelling, unsorted and duplicate-holding ones.",
 "One dense 2x3 by 3x2 product; sparsity, cancellation, empty rows, CSC and mixed products are never tried.",
 ["src/row.rs","src/col.rs","src/csr/csr.rs","src/csc/csc.rs","src/csr/std_ops.rs","src/csc/std_ops.rs"],
 [("SMMP linked-list row accumulation","csr_matmat"),("counting pass","csr_matmat_maxnnz"),("operand swap for CSC","csc_matmat, csc_matmat_maxnnz")],
 ["mat_mat","operator *","csr_matmat","csc_matmat"])

p("C08","Matrix-vector products are exact",
 "Multiplying a CSR or CSC matrix by a vector whose length is the number of columns gives the vector of row sums of element times component, counting duplicates. The low-level single- and multi-vector routines for CSR, CSC and coordinate data add exactly that product to the output they are given and touch nothing else.",
 ["inputs"],
 "Every valid matrix, every vector or block of vectors, every initial content of the output.",
 "One 2x3 CSR product; CSC, coordinate, multi-vector, accumulation, duplicates and empty rows never.",
 ["src/row.rs","src/col.rs","src/coord.rs","src/util.rs","src/csr/csr.rs","src/csc/csc.rs"],
 [("row sums","csr_matvec, csr_matvecs"),("column scatter","csc_matvec, csc_matvecs, coo_matvec"),("axpy","axpy")],
 ["mat_vec","operator * with slice or Vec","csr_matvec(s)","csc_matvec(s)","coo_matvec"])

p("C09","Transposition swaps rows and columns and nothing else",
 "Transposing a coordinate, CSR or CSC matrix swaps its dimensions and moves every stored entry (i, j, v) to (j, i, v), keeping all entries including duplicates and explicit zeros. Both the consuming and the copying form do the same, and transposing twice gives back the same stored entries.",
 ["inputs","histories"],
 "Every valid matrix in each of the three formats.",
 "One coordinate element and one 2x3 CSR matrix are checked; CSC and non-canonical matrices never.",
 ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs"],
 [("reinterpretation of the arrays","transpose, t")],
 ["transpose","t"])

p("C10","Scaling and negation act on every element exactly once",
 "Multiplying a CSR or CSC matrix by a scalar on the right, or a complex one on the left, and negating a coordinate, CSR or CSC matrix, gives a matrix of the same shape with every element multiplied by that scalar or negated and entries at the same positions. The routines scaling rows or columns in place multiply every entry by the factor of its own row or column once.",
 ["inputs"],
 "Every valid matrix, scalar (zero included) and scaling vector, in owned and borrowed operator form.",
 "No test calls any scaling or negation.",
 ["src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs","src/row.rs"],
 [("map over values","neg, mul by scalar"),("in-place scaling","csr_scale_rows, csr_scale_columns")],
 ["operator *","operator -","csr_scale_rows","csr_scale_columns"])

p("C11","Complex parts, conjugate and Hermitian transpose are exact",
 "For complex coordinate, CSR and CSC matrices the conjugate, real part and imaginary part have the same shape and stored positions with the corresponding part of every value, and the Hermitian transpose is the transpose with every value conjugated. Building a complex CSR matrix from a real one as its real or imaginary part puts every value there and zero in the other part.",
 ["inputs"],
 "Every valid complex matrix in the three formats, for both float widths.",
 "The only complex test reads a diagonal with zero imaginary parts.",
 ["src/coo/ccoo.rs","src/csr/ccsr.rs","src/csc/ccsc.rs","src/traits.rs"],
 [("map over values","conj, real, imag, h, with_real, with_imag")],
 ["CCoo","CCSR","CCSC"])

p("C12","Stacking and composing place every block where it belongs",
 "Stacking two or three coordinate matrices horizontally or vertically, stacking two CSR matrices, and composing coordinate blocks 2x2 or 3x3 or CSC blocks 2x2, gives a matrix whose dimensions are the sums of the block dimensions and in which every block appears, element for element, at its own offset. Blocks of differing sizes, empty blocks, duplicates and blocks with zero rows or columns are handled alike.",
 ["inputs"],
 "Every conforming choice of blocks, including rectangular and empty ones.",
 "Two equal square matrices are stacked once each way; three-way stacking, composition, different block sizes, CSR and CSC are never tried.",
 ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs"],
 [("index shift","h_stack, v_stack, h_stack3, v_stack3, compose, compose3")],
 ["h_stack","v_stack","h_stack3","v_stack3","compose","compose3"])

p("C13","Selecting rows and columns returns exactly the chosen submatrix",
 "Selecting rows and columns of a canonical CSR or CSC matrix gives the matrix whose element (a, b) is the source element at the a-th chosen row and b-th chosen column, in the order given and with repetitions. Leaving out the row or column list selects all of them in order; an empty list gives an empty dimension.",
 ["inputs"],
 "Every canonical matrix and every row and column list (any order, repetitions, empty, absent).",
 "One increasing selection without repetition on a 4x4 CSR matrix; only the diagonal is compared.",
 ["src/row.rs","src/csr/csr.rs","src/csc/csc.rs"],
 [("two-pass copy with a column lookup","csr_select"),("defaults and range checks","CSR::select, CSC::select")],
 ["select","csr_select"])

p("C14","Slicing routines copy exactly the requested window",
 "Extracting a contiguous block of rows and columns from a CSR matrix, gathering rows by index list or by start/stop/step, and gathering columns by index list each yield exactly the stored entries of the requested rows and columns, at the requested new positions. Repeated indices repeat the entries, order follows the request, and duplicates and explicit zeros are carried over.",
 ["inputs"],
 "Every valid CSR matrix, every in-range window, index list or slice with a positive step.",
 "No test calls any of these routines.",
 ["src/row.rs"],
 [("window copy","get_csr_submatrix"),("row copy","csr_row_index, csr_row_slice"),("two-pass column gather","csr_column_index1, csr_column_index2")],
 ["get_csr_submatrix","csr_row_index","csr_row_slice","csr_column_index1","csr_column_index2"])

p("C15","Diagonals, triangles and element reads agree with the matrix",
 "The diagonal of a coordinate, CSR or CSC matrix lists element (i, i) for every i up to the smaller dimension, and the k-th diagonal routines the elements (i, i+k), duplicates summed. The upper-triangle operation of a coordinate matrix keeps exactly the entries with column minus row at least k. Reading one element of a CSR or dictionary matrix gives that element, zero where nothing is stored, and counting diagonals gives the number of distinct values of column minus row among stored entries.",
 ["inputs"],
 "Every valid matrix (rectangular, duplicates, explicit zeros), every diagonal offset within the matrix, every triangle offset (also negative), every position.",
 "The main diagonal of one square matrix is checked; offsets, rectangular shapes, duplicates, element reads and triangles never.",
 ["src/row.rs","src/col.rs","src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs"],
 [("row scan","csr_diagonal, csc_diagonal, CSR::get"),("filter","Coo::upper"),("set of offsets","csr_count_diagonals")],
 ["diagonal","upper","get","csr_diagonal","csc_diagonal","csr_count_diagonals"])

p("C16","Mismatched dimensions and invalid arguments are rejected",
 "An operation whose operands do not fit never returns a result: constructors given arrays of inconsistent length, products and sums of matrices whose dimensions do not match, vectors of the wrong length, stacks and compositions with unequal dimensions, selections with an out-of-range index or on a non-canonical matrix, graph routines on non-square matrices. Methods that return a Result report an error and operators panic; the operands are left unchanged. Conversely, operands that do fit, down to zero rows or columns, are never rejected.",
 ["inputs","configurations"],
 "Every combination of operands around the boundary of fitting: too short, too long, by one or by many, in each dimension alone, signed and unsigned index types.",
 "No test exercises an error path.",
 ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/coo/std_ops.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/graph.rs","src/dok/dok.rs"],
 [("explicit dimension checks","new, mat_vec, mat_mat, add, subtract, select, h_stack, v_stack, validate_graph")],
 ["Result of every fallible method","panic of operators"])

p("C17","The dictionary matrix behaves as a map of nonzero elements",
 "After any sequence of set, add and sub calls a dictionary-of-keys matrix holds at every position the value of the last set adjusted by the later adds and subs, and reading a position gives that value or zero. It never stores a zero, its entry count is the number of nonzero positions, and a call with an out-of-range row or column returns an error and changes nothing.",
 ["histories","inputs"],
 "Every finite sequence of set/add/sub/get calls with in-range and out-of-range positions, including values that cancel to zero.",
 "There is no test of the dictionary format.",
 ["src/dok/dok.rs"],
 [("insert or remove on zero, range check","DoK::set, add, sub, get")],
 ["get","nnz","to_coo","to_dense"],
 [("values","nonzero elements by position","DoK.values")])

p("C18","Constructors and builders produce exactly the described matrix",
 "Building from dense data, from a diagonal, as an identity or empty of a given size, and from index arrays gives exactly the described matrix with the described dimensions; building from dense data stores no zero and CSR and CSC come out canonical. Pushing or extending a coordinate matrix appends exactly the given entries in order and leaves earlier ones alone, so the matrix is at all times the sum of everything pushed, and writing a stored value changes that entry only.",
 ["histories","inputs"],
 "Every dense array (rectangular, empty, all-zero rows or columns), diagonal, size, and every sequence of push, extend and value writes.",
 "Square identity and diagonal and one fixed matrix per constructor; CSC and DoK constructors and extend never.",
 ["src/coo/coo.rs","src/csr/csr.rs","src/csc/csc.rs","src/dok/dok.rs"],
 [("constructors","from_dense, with_diagonal, identity, with_size, with_capacity, new"),("append","push, extend"),("in-place access","values_mut")],
 ["from_dense","with_diagonal","identity","push","extend","values_mut"])

p("C19","Strong components are exactly the mutual-reachability classes",
 "For every square CSR matrix read as a directed graph with one edge per stored entry, asking for strongly connected components gives two nodes the same label exactly when each is reachable from the other. Labels are 0 to k-1, all used, and k is the count returned; the call terminates for every graph including the empty one, self-loops, parallel edges and unsorted entries.",
 ["inputs"],
 "Every directed graph on any number of nodes, in every storage order.",
 "Three small fixed graphs, compared only after sorting the labels, so that wrong groupings of the same sizes pass.",
 ["src/graph.rs"],
 [("iterative lowlink search with shared stacks","connected_components_directed")],
 ["connected_components(.., directed = true, Strong)"],
 [("lowlinks/labels, two linked stacks","search state","connected_components_directed")])

p("C20","Weak components are exactly the undirected connectivity classes",
 "Asking for weakly connected components, or for components of an undirected graph whatever connection type is named, gives two nodes the same label exactly when they are joined by a path ignoring edge direction. Labels are 0 to k-1, all used, and k is the count returned, for every square matrix including those stored on one triangle only.",
 ["inputs","configurations"],
 "Every graph on any number of nodes, every storage order, all three (directed, connection) argument combinations that mean weak.",
 "Two fixed graphs and a documentation example.",
 ["src/graph.rs"],
 [("stack search over rows and transposed rows","connected_components_undirected")],
 ["connected_components"])

p("C21","Depth-first order is a real depth-first traversal",
 "The depth-first order from a start node lists exactly the nodes reachable from it (ignoring direction if undirected is asked for), each once, start first, such that each next node is an unvisited neighbour of the most recently visited node that still has one. The predecessor of every listed node but the start is that node, it is joined to it by an edge, and all other predecessors are absent.",
 ["inputs"],
 "Every graph, start node, storage order, directed and undirected.",
 "One documentation example on four nodes.",
 ["src/graph.rs"],
 [("explicit stack of roots","depth_first_directed, depth_first_undirected")],
 ["depth_first_order"])

p("C22","Components of a symmetric pattern are labelled completely",
 "For every square CSR matrix with a symmetric pattern, the matrix's own connected-components method gives every node without stored entries a negative flag and all other nodes flags 0 to k-1, all used, equal exactly when the nodes are connected, with k the returned count. It succeeds on every such matrix, also when no node has entries.",
 ["inputs"],
 "Every symmetric pattern of any size with any mixture of isolated and connected nodes.",
 "One fixed 12-node graph.",
 ["src/graph.rs","src/csr/csr.rs"],
 [("breadth-first flooding with a work list","cs_graph_components")],
 ["CSR::connected_components","cs_graph_components"])

p("C23","Eliminating zeros drops exactly the stored zeros",
 "Eliminating zeros from a CSR matrix removes every stored entry whose value is zero and keeps all others with their positions, values and order within the row, and the pointer array describes the remaining entries. The matrix denoted is unchanged.",
 ["inputs"],
 "Every valid CSR matrix, with zeros anywhere, including whole rows, consecutive zeros and duplicates.",
 "No test calls it.",
 ["src/row.rs"],
 [("in-place compaction","csr_eliminate_zeros")],
 ["csr_eliminate_zeros"])

p("C24","Text renderings list exactly the stored entries",
 "The string form of a coordinate, CSR, CSC or dictionary matrix has one line per stored entry with its row, column and value: in insertion order for coordinate, row by row for CSR, column by column for CSC. The table form of a canonical CSR matrix has one line per row and one cell per column showing the stored value, or a dash where nothing is stored; complex values show each part with its sign once.",
 ["inputs"],
 "Every valid matrix (canonical for the table), real and complex values, negative parts included.",
 "Tests and examples print tables but compare nothing.",
 ["src/coo/coo.rs","src/csr/csr.rs","src/csr/table.rs","src/csc/csc.rs","src/dok/dok.rs","src/traits.rs"],
 [("formatting loops","to_string, csr_table, pretty_string")],
 ["to_string","to_table"])

p("C25","Operations leave their operands alone and all call forms agree",
 "No operation other than those documented as in place changes an operand: after any call a borrowed matrix holds the same stored entries in the same order as before, also when the call fails. Owned and borrowed forms of every operator give equal results, an operation applied to one matrix as both operands works as with a copy, and repeating a call gives the same matrix again.",
 ["histories","inputs"],
 "Every operation with borrowed operands, every operator form, aliasing of operands, repetition, at any point of any history.",
 "No test looks at an operand after a call or uses more than one form of an operator.",
 ["src/csr/csr.rs","src/csc/csc.rs","src/coo/coo.rs","src/csr/std_ops.rs","src/csc/std_ops.rs","src/coo/std_ops.rs"],
 [("fresh output arrays per call","all operators and methods taking &self")],
 ["arrays of the operands after every call"])

p("C26","Eigenvalues and eigenvectors satisfy the eigen-equation",
 "For a square matrix and an admissible number of wanted pairs (more than zero, less than the dimension minus one), the eigenvalue routine returns eigenvalues d and as many rows of vectors z, row k a vector of length one with A z_k = d_k z_k up to rounding, complex eigenvalues included. Where the wanted eigenvalues of largest magnitude are distinct and set apart from the others, exactly these are returned (with the other half of a complex pair that would be split). Non-square matrices and inadmissible counts, an empty matrix too, are rejected with an error. The operand is left as it was, nothing is written outside the routine's own memory, and calls made by several threads at the same time answer as they would alone.",
 ["inputs","schedules"],
 "Every square real matrix and count; every interleaving of concurrent calls.",
 "There is no test of the feature at all.",
 ["src/eigen/real.rs"],
 [("ARPACK reverse communication (dnaupd), extraction (dneupd), lock around ARPACK's saved state","eigs")],
 ["eigs"])

with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
ids=[q["id"] for q in P]; assert len(set(ids))==len(ids)
for q in P: assert len(q["title"])<=80,q["id"]
