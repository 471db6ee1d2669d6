------------------------------ MODULE SparseRef ------------------------------
(***************************************************************************)
(* A reference outcome for every public operation: one result the          *)
(* specification allows, computed directly.  It makes the specification    *)
(* executable (Hist explores histories with it) and shows that no relation *)
(* in SparseOps is unsatisfiable: Hist checks OutcomeOk for every outcome  *)
(* computed here.                                                          *)
(***************************************************************************)
EXTENDS Sparse

(* Pack entries into a compressed matrix, order within a slice as given.   *)
Pack(f, r, c, es) ==
  LET M == IF f = "csr" THEN r ELSE c
      mj(e) == IF f = "csr" THEN e[1] ELSE e[2]
      mi(e) == IF f = "csr" THEN e[2] ELSE e[1]
      sl(s) == SelectSeq(es, LAMBDA e : mj(e) = s)
      all == FoldLeft(LAMBDA acc, s : acc \o sl(s), <<>>, FullIdx(M))
      p == [t \in 1 .. M + 1 |-> FoldLeft(LAMBDA acc, s : acc + Len(sl(s)), 0, FullIdx(t - 1))]
  IN  [f |-> f, r |-> r, c |-> c, n |-> Len(all), p |-> p,
       j |-> [k \in DOMAIN all |-> mi(all[k])], x |-> [k \in DOMAIN all |-> all[k][3]]]

RowMajor(P) == SetToSortSeq(P, LAMBDA u, v : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]))
ColMajor(P) == SetToSortSeq(P, LAMBDA u, v : u[2] < v[2] \/ (u[2] = v[2] /\ u[1] < v[1]))
EntOf(fn, ps) == [k \in DOMAIN ps |-> <<ps[k][1], ps[k][2], fn[ps[k]]>>]

(* Canonical compressed matrix holding exactly the positions of fn.        *)
OfFn(f, r, c, fn) == Pack(f, r, c, EntOf(fn, IF f = "csr" THEN RowMajor(DOMAIN fn) ELSE ColMajor(DOMAIN fn)))
Canon(f, r, c, es) == OfFn(f, r, c, SumAt(es))
CooOf(r, c, es) == CooRec(r, c, [k \in DOMAIN es |-> es[k][1]], [k \in DOMAIN es |-> es[k][2]],
                          [k \in DOMAIN es |-> es[k][3]])
CooFn(r, c, fn) == CooOf(r, c, EntOf(fn, RowMajor(DOMAIN fn)))
DokFn(r, c, fn) == [CooFn(r, c, fn) EXCEPT !.f = "dok"]

RefBin(fn, a, b) ==
  LET sa == SumAt(Entries(a))  sb == SumAt(Entries(b))
  IN  OfFn(a.f, a.r, a.c, NonZero([q \in DOMAIN sa \cup DOMAIN sb |-> FnOf(fn, El(sa, q), El(sb, q))]))

RefT(a) ==
  CASE a.f = "coo" -> [a EXCEPT !.r = a.c, !.c = a.r, !.i = a.j, !.j = a.i]
    [] OTHER -> [a EXCEPT !.f = Other(a.f), !.r = a.c, !.c = a.r]

MapV(a, F(_)) == MapVals(a, F)

RefSel(a, rows, cols) ==
  LET d == Den(a)
      P == {q \in (0 .. Len(rows) - 1) \X (0 .. Len(cols) - 1) : <<rows[q[1] + 1], cols[q[2] + 1]>> \in DOMAIN d}
  IN  OfFn(a.f, Len(rows), Len(cols), [q \in P |-> d[<<rows[q[1] + 1], cols[q[2] + 1]>>]])

RefMake2(c, A) ==
  CASE c.op = "coo_add" -> Canon("csr", A[1].r, A[1].c, Entries(A[1]) \o Entries(A[2]))
    [] c.op \in {"csr_add", "csc_add", "csc_add_m"} -> RefBin("add", A[1], A[2])
    [] c.op \in {"csr_sub", "csc_sub", "csc_sub_m"} -> RefBin("sub", A[1], A[2])
    [] c.op = "k_bin" -> RefBin(c.fn, A[1], A[2])
    [] c.op \in {"csr_matmat", "csr_mul", "k_csr_matmat"} ->
         OfFn("csr", A[1].r, A[2].c, DenMatMul(Den(A[1]), Den(A[2])))
    [] c.op \in {"csc_matmat", "csc_mul", "csc_mul_csr", "k_csc_matmat"} ->
         OfFn("csc", A[1].r, A[2].c, DenMatMul(Den(A[1]), Den(A[2])))
    [] c.op = "coo_h_stack" -> CooOf(A[1].r, A[1].c + A[2].c, HEnt(A[1], A[2]))
    [] c.op = "coo_v_stack" -> CooOf(A[1].r + A[2].r, A[1].c, VEnt(A[1], A[2]))
    [] c.op = "csr_h_stack" -> Canon("csr", A[1].r, A[1].c + A[2].c, HEnt(A[1], A[2]))
    [] c.op = "coo_h_stack3" ->
         CooOf(A[1].r, A[1].c + A[2].c + A[3].c, HEnt(A[1], A[2]) \o ShiftE(Entries(A[3]), 0, A[1].c + A[2].c))
    [] c.op = "coo_v_stack3" ->
         CooOf(A[1].r + A[2].r + A[3].r, A[1].c, VEnt(A[1], A[2]) \o ShiftE(Entries(A[3]), A[1].r + A[2].r, 0))
    [] c.op = "coo_compose"  -> CooOf(BlockRows(A, 2), BlockCols(A, 2), BlockEnt(A, 2))
    [] c.op = "coo_compose3" -> CooOf(BlockRows(A, 3), BlockCols(A, 3), BlockEnt(A, 3))
    [] c.op = "csc_compose"  -> Canon("csc", BlockRows(A, 2), BlockCols(A, 2), BlockEnt(A, 2))
    [] c.op \in {"csr_select", "csc_select", "k_select"} -> RefSel(A[1], RowsOf(c, A[1]), ColsOf(c, A[1]))
    [] c.op = "k_submatrix" -> Pack("csr", c.r1 - c.r0, c.c1 - c.c0, Window(A[1], c.r0, c.r1, c.c0, c.c1))
    [] c.op = "k_col_index" -> Pack("csr", A[1].r, Len(c.idx), ColGather(A[1], c.idx))
    [] c.op = "coo_upper" -> CooOf(A[1].r, A[1].c, SelectSeq(Entries(A[1]), LAMBDA e : e[2] - e[1] >= c.k))

RefMake(c, A) ==
  CASE c.op = "coo_new" -> CooRec(c.r, c.c, c.i, c.j, c.x)
    [] c.op \in {"csr_new", "csc_new"} -> CompRec(IF c.op = "csr_new" THEN "csr" ELSE "csc", c.r, c.c, c.p, c.j, c.x)
    [] c.op \in {"coo_with_size", "coo_with_capacity"} -> CooFn(c.r, c.c, <<>>)
    [] c.op = "csr_with_size" -> OfFn("csr", c.r, c.c, <<>>)
    [] c.op \in {"dok_new", "dok_with_capacity"} -> DokFn(c.r, c.c, <<>>)
    [] c.op = "coo_from_dense" -> CooFn(Len(c.D), DenseC(c.D), DenDense(c.D))
    [] c.op = "csr_from_dense" -> OfFn("csr", Len(c.D), DenseC(c.D), DenDense(c.D))
    [] c.op = "csc_from_dense" -> OfFn("csc", Len(c.D), DenseC(c.D), DenDense(c.D))
    [] c.op = "dok_from_dense" -> DokFn(Len(c.D), DenseC(c.D), DenDense(c.D))
    [] c.op = "coo_with_diagonal" -> CooOf(Len(c.x), Len(c.x), [k \in 1 .. Len(c.x) |-> <<k - 1, k - 1, c.x[k]>>])
    [] c.op = "csr_with_diagonal" -> Pack("csr", Len(c.x), Len(c.x), [k \in 1 .. Len(c.x) |-> <<k - 1, k - 1, c.x[k]>>])
    [] c.op = "csc_with_diagonal" -> Pack("csc", Len(c.x), Len(c.x), [k \in 1 .. Len(c.x) |-> <<k - 1, k - 1, c.x[k]>>])
    [] c.op \in {"coo_clone", "csr_clone"} -> A[1]
    [] c.op = "coo_identity" -> CooOf(c.n, c.n, [k \in 1 .. c.n |-> <<k - 1, k - 1, VOne>>])
    [] c.op \in {"coo_to_csr", "dok_to_csr"} -> Canon("csr", A[1].r, A[1].c, Entries(A[1]))
    [] c.op \in {"coo_to_csc", "dok_to_csc"} -> Canon("csc", A[1].r, A[1].c, Entries(A[1]))
    [] c.op \in {"csr_to_csc", "csc_to_csr", "k_csr_tocsc", "k_csc_tocsr"} ->
         Pack(Other(A[1].f), A[1].r, A[1].c, Entries(A[1]))
    [] c.op = "k_coo_tocsr" -> Pack("csr", A[1].r, A[1].c, Entries(A[1]))
    [] c.op \in {"csr_to_coo", "csc_to_coo", "dok_to_coo", "k_csr_tocoo"} -> CooOf(A[1].r, A[1].c, Entries(A[1]))
    [] c.op \in {"coo_transpose", "coo_t", "csr_transpose", "csr_t", "csc_transpose", "csc_t"} -> RefT(A[1])
    [] c.op \in {"coo_conj", "csr_conj", "csc_conj"} -> MapV(A[1], VConj)
    [] c.op \in {"coo_real", "csr_real", "csc_real"} -> MapV(A[1], VRe)
    [] c.op \in {"coo_imag", "csr_imag", "csc_imag"} -> MapV(A[1], VIm)
    [] c.op = "csr_with_real" -> A[1]
    [] c.op = "csr_with_imag" -> MapV(A[1], VI)
    [] c.op \in {"coo_h", "csr_h", "csc_h"} -> RefT(MapV(A[1], VConj))
    [] c.op \in {"coo_neg", "csr_neg", "csc_neg"} -> MapV(A[1], VNeg)
    [] c.op \in {"csr_scale", "csc_scale", "csr_lscale", "csc_lscale"} ->
         LET F(v) == VMul(v, c.s) IN MapV(A[1], F)
    [] OTHER -> RefMake2(c, A)

RefInPlace(c, a) ==
  CASE c.op = "coo_push" -> CooOf(a.r, a.c, Append(Entries(a), <<c.i, c.j, c.x>>))
    [] c.op = "coo_extend" ->
         CooOf(a.r, a.c, Entries(a) \o [k \in DOMAIN c.x |-> <<c.i[k], c.j[k], c.x[k]>>])
    [] c.op \in {"coo_set_val", "csr_set_val", "csc_set_val"} ->
         [a EXCEPT !.x = [k \in DOMAIN a.x |-> IF k = c.k + 1 THEN c.x ELSE a.x[k]]]
    [] c.op \in {"csr_sort", "csc_sort", "k_sort"} ->
         LET es == Entries(a)
             t == SortSeq([k \in DOMAIN es |-> <<es[k], k>>],
                    LAMBDA u, v : LET s == IF a.f = "csr" THEN 2 ELSE 1
                                  IN u[1][s] < v[1][s] \/ (u[1][s] = v[1][s] /\ u[2] < v[2]))
         IN  Pack(a.f, a.r, a.c, [k \in DOMAIN t |-> t[k][1]])
    [] c.op \in {"csr_sumdup", "csc_sumdup", "k_sumdup"} -> Canon(a.f, a.r, a.c, Entries(a))
    [] c.op = "csc_prune" -> a
    [] c.op \in {"dok_set", "dok_add", "dok_sub"} ->
         LET q == <<c.i, c.j>>  d == Den(a)
             v == CASE c.op = "dok_set" -> c.x [] c.op = "dok_add" -> VAdd(El(d, q), c.x) [] OTHER -> VSub(El(d, q), c.x)
         IN  DokFn(a.r, a.c, NonZero((q :> v) @@ d))
    [] c.op = "k_scale_rows" ->
         Pack(a.f, a.r, a.c, [k \in DOMAIN a.x |-> <<Entries(a)[k][1], Entries(a)[k][2], VMul(a.x[k], c.s[Entries(a)[k][1] + 1])>>])
    [] c.op = "k_scale_cols" ->
         Pack(a.f, a.r, a.c, [k \in DOMAIN a.x |-> <<Entries(a)[k][1], Entries(a)[k][2], VMul(a.x[k], c.s[Entries(a)[k][2] + 1])>>])
    [] c.op = "k_elim" -> Pack(a.f, a.r, a.c, SelectSeq(Entries(a), LAMBDA e : e[3] # VZero))

(* ---- reads ------------------------------------------------------------ *)
RefDense(a) == LET d == Den(a) IN [i \in 1 .. a.r |-> [j \in 1 .. a.c |-> El(d, <<i - 1, j - 1>>)]]

(* labels by the least node of each class                                   *)
RefLabels(n, class) ==
  LET reps == SetToSortSeq({Min(class[v]) : v \in 0 .. n - 1}, LAMBDA a, b : a < b)
      num(v) == CHOOSE k \in DOMAIN reps : reps[k] = Min(class[v])
  IN  <<Len(reps), [v \in 1 .. n |-> num(v - 1) - 1]>>

RECURSIVE DfsRun(_, _, _, _)
DfsRun(succ, path, order, pre) ==
  LET p == PopStuck(succ, path, Range(order))
  IN  IF p = <<>> THEN <<order, pre>>
      ELSE LET u == p[Len(p)]
               w == Max(succ[u] \ Range(order))
           IN  DfsRun(succ, Append(p, w), Append(order, w), [pre EXCEPT ![w + 1] = u])

RefRead(c, A) ==
  LET a == A[1] IN
  CASE c.op \in {"coo_to_dense", "csc_to_dense", "dok_to_dense"} -> RefDense(a)
    [] c.op = "k_csr_todense" ->
         [i \in 1 .. a.r |-> [j \in 1 .. a.c |-> VAdd(c.D[i][j], RefDense(a)[i][j])]]
    [] c.op = "k_coo_todense" ->
         [k \in 1 .. a.r * a.c |->
            VAdd(c.y[k], IF c.fortran THEN RefDense(a)[((k - 1) % a.r) + 1][((k - 1) \div a.r) + 1]
                                      ELSE RefDense(a)[((k - 1) \div a.c) + 1][((k - 1) % a.c) + 1])]
    [] c.op = "k_expandptr" -> [k \in 1 .. a.n |-> Cardinality({s \in 2 .. Major(a) : a.p[s] <= k - 1})]
    [] c.op \in {"csr_sorted", "csc_sorted", "k_sorted"} -> SortedC(a)
    [] c.op \in {"csr_canon", "csc_canon", "k_canon"} -> SortedC(a) /\ NoDup(a)
    [] c.op \in {"csr_matvec", "csr_mulvec", "csc_matvec", "csc_mulvec"} -> DenMatVec(Den(a), a.r, c.x)
    [] c.op \in {"k_csr_matvec", "k_csc_matvec", "k_coo_matvec"} ->
         LET v == DenMatVec(Den(a), a.r, c.x) IN [k \in 1 .. a.r |-> VAdd(c.y[k], v[k])]
    [] c.op \in {"k_csr_matvecs", "k_csc_matvecs"} ->
         LET col(t) == DenMatVec(Den(a), a.r, [k \in 1 .. a.c |-> c.x[(k - 1) * c.nv + t]])
         IN  [k \in 1 .. a.r * c.nv |-> VAdd(c.y[k], col(((k - 1) % c.nv) + 1)[((k - 1) \div c.nv) + 1])]
    [] c.op \in {"k_csr_maxnnz", "k_csc_maxnnz"} ->
         Cardinality({q \in (0 .. a.r - 1) \X (0 .. A[2].c - 1) :
                        \E k \in 0 .. a.c - 1 : <<q[1], k>> \in Stored(a) /\ <<k, q[2]>> \in Stored(A[2])})
    [] c.op \in {"coo_diagonal", "csr_diagonal", "csc_diagonal"} ->
         [i \in 1 .. Min2(a.r, a.c) |-> RefDense(a)[i][i]]
    [] c.op \in {"k_csr_diagonal", "k_csc_diagonal"} ->
         LET P == {q \in (0 .. a.r - 1) \X (0 .. a.c - 1) : q[2] - q[1] = c.k}
             s == RowMajor(P)
         IN  [t \in DOMAIN s |-> RefDense(a)[s[t][1] + 1][s[t][2] + 1]]
    [] c.op \in {"csr_get", "dok_get"} ->
         IF 0 <= c.i /\ c.i < a.r /\ 0 <= c.j /\ c.j < a.c THEN RefDense(a)[c.i + 1][c.j + 1] ELSE VZero
    [] c.op = "k_count_diag" ->
         Cardinality({d \in -a.r .. a.c : \E q \in Stored(a) : q[2] - q[1] = d})
    [] c.op = "k_row_index" ->
         LET s == RowsConcat(a, c.idx) IN <<[k \in DOMAIN s |-> s[k][1]], [k \in DOMAIN s |-> s[k][2]]>>
    [] c.op = "k_row_slice" ->
         LET s == RowsConcat(a, SelectSeq(FullIdx(Major(a)), LAMBDA i : c.start <= i /\ i < c.stop /\ (i - c.start) % c.step = 0))
         IN  <<[k \in DOMAIN s |-> s[k][1]], [k \in DOMAIN s |-> s[k][2]]>>
    [] c.op \in {"coo_to_string", "csr_to_string", "csc_to_string", "dok_to_string"} -> LinesOf(Entries(a), QOf(c))
    [] c.op = "csr_to_table" -> TableOf(a, QOf(c))
    [] c.op = "csc_shape" -> <<a.r, a.c>>
    [] c.op = "g_cc" ->
         LET n == a.r  E == EdgesOf(a)
             S == Succ(n, E)  R == Pred(n, E)  B == Both(n, E)
         IN  RefLabels(n, [v \in 0 .. n - 1 |-> IF c.directed /\ c.conn = "strong"
                                                THEN ReachFrom(S, v) \cap ReachFrom(R, v) ELSE ReachFrom(B, v)])
    [] c.op \in {"csr_cc", "k_gcomp"} ->
         LET n == a.r  E == EdgesOf(a)  B == Both(n, E)
             live == {w \in 0 .. n - 1 : B[w] # {}}
             reps == SetToSortSeq({Min(ReachFrom(B, v)) : v \in live}, LAMBDA x, y : x < y)
         IN  <<Len(reps), [v \in 1 .. n |-> IF v - 1 \in live
                             THEN (CHOOSE k \in DOMAIN reps : reps[k] = Min(ReachFrom(B, v - 1))) - 1 ELSE -2]>>
    [] c.op = "g_dfs" ->
         LET n == a.r  E == EdgesOf(a)
             S == IF c.directed THEN Succ(n, E) ELSE Both(n, E)
         IN  DfsRun(S, <<c.start>>, <<c.start>>, [k \in 1 .. n |-> -1])

(* One allowed outcome of a call.                                           *)
RefOutcome(c) ==
  LET A == Operands(c) IN
  IF ~Fits(c, A) THEN [out |-> Reject(c), post |-> A]
  ELSE IF InPlace(c) THEN [out |-> "ok", post |-> <<RefInPlace(c, A[1])>>]
  ELSE IF c.op \in MakeOps THEN [out |-> "ok", post |-> A, m |-> RefMake(c, A)]
  ELSE [out |-> "ok", post |-> A, v |-> RefRead(c, A)]
=============================================================================
