----------------------------- MODULE SparseOps ------------------------------
(***************************************************************************)
(* One relation per public operation of the library: what a call c on      *)
(* operands A (a sequence of matrices) may return.                         *)
(*                                                                         *)
(*   Fits(c, A)      do the operands fit, i.e. must the call succeed?      *)
(*   Reject(c)       how a misfit is reported: "err" by a Result,          *)
(*                   "panic" by operators                                  *)
(*   InPlace(c)      does the call change its first operand?               *)
(*   Post(c, A, r)   the result r of a successful call                     *)
(*   Valid(c, A)     obligations of the caller (index ranges, formats);    *)
(*                   a trace violating it is a defect of the generator,    *)
(*                   never of the library                                  *)
(*                                                                         *)
(* Where the library leaves something open (order of entries in a sum or   *)
(* product, numbering of components, order of a dictionary) the relation   *)
(* leaves it open; everything else is determined.                          *)
(***************************************************************************)
EXTENDS SparseCore, GraphScan

CONSTANTS VLt(_, _), VDiv(_, _)

VBool(b) == IF b THEN VOne ELSE VZero

Has(c, fld) == fld \in DOMAIN c

CooRec(r, c, i, j, x)    == [f |-> "coo", r |-> r, c |-> c, n |-> Len(x), i |-> i, j |-> j, x |-> x]
CompRec(f, r, c, p, j, x) == [f |-> f, r |-> r, c |-> c, n |-> p[Len(p)], p |-> p,
                              j |-> SubSeq(j, 1, p[Len(p)]), x |-> SubSeq(x, 1, p[Len(p)])]
Other(f) == CASE f = "csr" -> "csc" [] f = "csc" -> "csr" [] OTHER -> f

(* Same stored structure, values mapped.                                   *)
MapVals(m, F(_)) == [m EXCEPT !.x = [k \in DOMAIN m.x |-> F(m.x[k])]]

(* Every stored entry carried over exactly once.                           *)
SameEntries(m, es) == BagOf(Entries(m)) = BagOf(es)

ShiftE(es, di, dj) == [k \in DOMAIN es |-> <<es[k][1] + di, es[k][2] + dj, es[k][3]>>]
SwapE(es) == [k \in DOMAIN es |-> <<es[k][2], es[k][1], es[k][3]>>]
Ar(s) == [k \in 1 .. Len(s) |-> s[k]]

----------------------------------------------------------------------------
(* Element-wise binary operations (C05, C06).                              *)

FnOf(fn, a, b) ==
  CASE fn = "add" -> VAdd(a, b)
    [] fn = "sub" -> VSub(a, b)
    [] fn = "mul" -> VMul(a, b)
    [] fn = "div" -> VDiv(a, b)
    [] fn = "ne"  -> VBool(a # b)
    [] fn = "eq"  -> VBool(a = b)
    [] fn = "lt"  -> VBool(VLt(a, b))
    [] fn = "le"  -> VBool(VLt(a, b) \/ a = b)
    [] fn = "gt"  -> VBool(VLt(b, a))
    [] fn = "ge"  -> VBool(VLt(b, a) \/ a = b)
    [] fn = "max" -> IF VLt(b, a) THEN a ELSE b
    [] fn = "min" -> IF VLt(a, b) THEN a ELSE b

(* The clean result of an element-wise operation on compressed operands.   *)
IsBinop(m, fn, a, b, ordered) ==
  /\ m.f = a.f /\ m.r = a.r /\ m.c = a.c /\ WF(m) /\ NoDup(m)
  /\ LET sa == SumAt(Entries(a))  sb == SumAt(Entries(b))
         D  == DOMAIN sa \cup DOMAIN sb
         F  == [q \in D |-> FnOf(fn, El(sa, q), El(sb, q))]
     IN  SumAt(Entries(m)) = NonZero(F)
  /\ NoZeros(m)
  /\ (ordered /\ CanonicalC(a) /\ CanonicalC(b)) => SortedC(m)

IsMatMul(m, f, a, b) ==
  /\ m.f = f /\ m.r = a.r /\ m.c = b.c /\ WF(m) /\ NoDup(m) /\ NoZeros(m)
  /\ Den(m) = DenMatMul(Den(a), Den(b))

TermPositions(a, b) ==
  LET SA == Stored(a)  SB == Stored(b)
  IN  UNION {{<<qa[1], qb[2]>> : qb \in {q \in SB : q[1] = qa[2]}} : qa \in SA}

----------------------------------------------------------------------------
(* Matrix-vector products (C08): y + A x over stored entries.              *)

MatVecInto(y, es, x) ==
  FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1] + 1] = VAdd(@, VMul(e[3], x[e[2] + 1]))], y, es)

MatVecsInto(y, es, x, nv) ==
  FoldLeft(LAMBDA acc, e :
             [t \in DOMAIN acc |->
                IF t > e[1] * nv /\ t <= (e[1] + 1) * nv
                THEN VAdd(acc[t], VMul(e[3], x[e[2] * nv + (t - e[1] * nv)])) ELSE acc[t]],
           y, es)

----------------------------------------------------------------------------
(* Selection and slicing (C13, C14).                                       *)

FullIdx(n) == [k \in 1 .. n |-> k - 1]
RowsOf(c, a) == IF Has(c, "rows") THEN c.rows ELSE FullIdx(a.r)
ColsOf(c, a) == IF Has(c, "cols") THEN c.cols ELSE FullIdx(a.c)
InRange(s, n) == \A k \in DOMAIN s : 0 <= s[k] /\ s[k] < n

IsSelect(m, a, rows, cols) ==
  /\ m.f = a.f /\ m.r = Len(rows) /\ m.c = Len(cols) /\ WF(m) /\ NoDup(m)
  /\ LET d == Den(a)
         P == {<<u, v>> \in (1 .. Len(rows)) \X (1 .. Len(cols)) : <<rows[u], cols[v]>> \in DOMAIN d}
     IN  Den(m) = [q \in {<<p[1] - 1, p[2] - 1>> : p \in P} |-> d[<<rows[q[1] + 1], cols[q[2] + 1]>>]]

Window(a, r0, r1, c0, c1) ==
  LET es == SelectSeq(Entries(a), LAMBDA e : r0 <= e[1] /\ e[1] < r1 /\ c0 <= e[2] /\ e[2] < c1)
  IN  ShiftE(es, -r0, -c0)

RowsConcat(a, rows) ==
  FoldLeft(LAMBDA acc, r : acc \o Slice(a, r), <<>>, rows)

SliceRows(start, stop, step) ==
  IF start >= stop THEN <<>>
  ELSE [k \in 1 .. ((stop - start + step - 1) \div step) |-> start + (k - 1) * step]

ColGather(a, idx) ==
  FoldLeft(LAMBDA acc, e :
             acc \o LET ks == SelectSeq(FullIdx(Len(idx)), LAMBDA k : idx[k + 1] = e[2])
                    IN  [t \in DOMAIN ks |-> <<e[1], ks[t], e[3]>>],
           <<>>, Entries(a))

----------------------------------------------------------------------------
(* Text (C24): lines of the string form, cells of the table form.          *)

(* The scalars rendered are the model's over 2^q, q being part of the call. *)
QOf(c) == IF "q" \in DOMAIN c THEN c.q ELSE 0
LineOf(e, q) == "(" \o ToString(e[1]) \o ", " \o ToString(e[2]) \o ") " \o VStr(e[3], q)
LinesOf(es, q) == [k \in DOMAIN es |-> LineOf(es[k], q)]

TableOf(a, q) ==
  IF a.c = 0 THEN <<>>
  ELSE LET s == SumAt(Entries(a))
       IN  [i \in 1 .. a.r |-> [j \in 1 .. a.c |->
              IF <<i - 1, j - 1>> \in DOMAIN s THEN VPretty(s[<<i - 1, j - 1>>], q) ELSE "-"]]

----------------------------------------------------------------------------
(* Blocks (C12).                                                           *)

HEnt(a, b) == Entries(a) \o ShiftE(Entries(b), 0, a.c)
VEnt(a, b) == Entries(a) \o ShiftE(Entries(b), a.r, 0)

(* Entries of an nb x nb block matrix given row by row in A.               *)
BlockEnt(A, nb) ==
  LET row(k) == ((k - 1) \div nb)
      col(k) == ((k - 1) % nb)
      di(k)  == FoldLeft(LAMBDA s, t : s + A[t * nb + 1].r, 0, FullIdx(row(k)))
      dj(k)  == FoldLeft(LAMBDA s, t : s + A[row(k) * nb + t + 1].c, 0, FullIdx(col(k)))
  IN  FoldLeft(LAMBDA acc, k : acc \o ShiftE(Entries(A[k]), di(k), dj(k)),
               <<>>, [k \in 1 .. nb * nb |-> k])
BlockRows(A, nb) == FoldLeft(LAMBDA s, t : s + A[t * nb + 1].r, 0, FullIdx(nb))
BlockCols(A, nb) == FoldLeft(LAMBDA s, t : s + A[t + 1].c, 0, FullIdx(nb))
RowOfBlocks(A, nb, t) == [u \in 1 .. nb |-> A[t * nb + u]]
BlockFits(A, nb) ==
  /\ \A t \in 0 .. nb - 1 : \A u \in 1 .. nb : A[t * nb + u].r = A[t * nb + 1].r
  /\ \A t \in 0 .. nb - 1 :
        FoldLeft(LAMBDA s, u : s + A[t * nb + u + 1].c, 0, FullIdx(nb)) = BlockCols(A, nb)

(* A coordinate matrix holding exactly these entries (order left open).    *)
IsCooOf(m, r, c, es) ==
  m.f = "coo" /\ m.r = r /\ m.c = c /\ WF(m) /\ SameEntries(m, es)

EdgesOf(a) == Stored(a)
EdgeSeq(a) == LET en == Entries(a) IN TLCEval([t \in DOMAIN en |-> <<en[t][1], en[t][2]>>])
SymPattern(E) == \A e \in E : <<e[2], e[1]>> \in E

----------------------------------------------------------------------------
(* Which calls change their first operand.                                 *)

InPlaceOps == {"coo_push", "coo_extend", "coo_set_val", "csr_set_val", "csc_set_val",
               "csr_sort", "csr_sumdup", "csc_sort", "csc_sumdup", "csc_prune",
               "dok_set", "dok_add", "dok_sub",
               "k_scale_rows", "k_scale_cols", "k_sort", "k_sumdup", "k_elim"}
InPlace(c) == c.op \in InPlaceOps

OperatorOps == {"coo_add", "csr_add", "csr_sub", "csr_mul", "csc_add", "csc_sub", "csc_mul",
                "csc_mul_csr", "csr_mulvec", "csc_mulvec"}
Reject(c) == IF c.op \in OperatorOps THEN "panic" ELSE "err"

Fits(c, A) ==
  CASE c.op = "coo_new" -> Len(c.i) = Len(c.x) /\ Len(c.j) = Len(c.x)
    [] c.op = "csr_new" -> /\ Len(c.p) = c.r + 1
                           /\ Len(c.j) >= c.p[Len(c.p)] /\ Len(c.x) >= c.p[Len(c.p)]
    [] c.op = "csc_new" -> /\ Len(c.p) = c.c + 1
                           /\ Len(c.j) >= c.p[Len(c.p)] /\ Len(c.x) >= c.p[Len(c.p)]
    [] c.op \in {"coo_add", "csr_add", "csr_sub", "csc_add", "csc_sub", "csc_add_m", "csc_sub_m"} ->
         A[1].r = A[2].r /\ A[1].c = A[2].c
    [] c.op \in {"csr_matmat", "csr_mul", "csc_matmat", "csc_mul", "csc_mul_csr"} -> A[1].c = A[2].r
    [] c.op \in {"csr_matvec", "csr_mulvec", "csc_matvec", "csc_mulvec"} -> Len(c.x) = A[1].c
    [] c.op \in {"coo_h_stack", "csr_h_stack"} -> A[1].r = A[2].r
    [] c.op = "coo_v_stack"  -> A[1].c = A[2].c
    [] c.op = "coo_h_stack3" -> A[1].r = A[2].r /\ A[1].r = A[3].r
    [] c.op = "coo_v_stack3" -> A[1].c = A[2].c /\ A[1].c = A[3].c
    [] c.op \in {"coo_compose", "csc_compose"} -> BlockFits(A, 2)
    [] c.op = "coo_compose3" -> BlockFits(A, 3)
    [] c.op \in {"csr_select", "csc_select"} ->
         CanonicalC(A[1]) /\ InRange(RowsOf(c, A[1]), A[1].r) /\ InRange(ColsOf(c, A[1]), A[1].c)
    [] c.op \in {"dok_set", "dok_add", "dok_sub"} ->
         0 <= c.i /\ c.i < A[1].r /\ 0 <= c.j /\ c.j < A[1].c
    [] c.op \in {"g_cc", "g_dfs", "csr_cc"} -> A[1].r = A[1].c
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* Results, family by family.                                              *)

(* Shape and stored positions kept, each value mapped.                     *)
SameShapeMap(m, a, fn, s) ==
  LET F(v) == CASE fn = "conj" -> VConj(v) [] fn = "re" -> VRe(v) [] fn = "im" -> VIm(v)
                [] fn = "id" -> v [] fn = "i" -> VI(v) [] fn = "neg" -> VNeg(v)
                [] fn = "mul" -> VMul(v, s)
  IN  /\ m.f = a.f /\ m.r = a.r /\ m.c = a.c /\ WF(m)
      /\ SameEntries(m, Entries(MapVals(a, F)))

PostMake2(c, A, m) ==
  CASE c.op = "coo_add" -> IsCanonOf(m, "csr", A[1].r, A[1].c, Entries(A[1]) \o Entries(A[2]))
    [] c.op \in {"csr_add", "csc_add", "csc_add_m"} -> IsBinop(m, "add", A[1], A[2], TRUE)
    [] c.op \in {"csr_sub", "csc_sub", "csc_sub_m"} -> IsBinop(m, "sub", A[1], A[2], TRUE)
    [] c.op = "k_bin" -> IsBinop(m, c.fn, A[1], A[2], c.which # "general")
    [] c.op \in {"csr_matmat", "csr_mul", "k_csr_matmat"} -> IsMatMul(m, "csr", A[1], A[2])
    [] c.op \in {"csc_matmat", "csc_mul", "csc_mul_csr", "k_csc_matmat"} -> IsMatMul(m, "csc", A[1], A[2])
    (* blocks *)
    [] c.op = "coo_h_stack" -> IsCooOf(m, A[1].r, A[1].c + A[2].c, HEnt(A[1], A[2]))
    [] c.op = "coo_v_stack" -> IsCooOf(m, A[1].r + A[2].r, A[1].c, VEnt(A[1], A[2]))
    [] c.op = "csr_h_stack" -> IsCanonOf(m, "csr", A[1].r, A[1].c + A[2].c, HEnt(A[1], A[2]))
    [] c.op = "coo_h_stack3" ->
         IsCooOf(m, A[1].r, A[1].c + A[2].c + A[3].c,
                 HEnt(A[1], A[2]) \o ShiftE(Entries(A[3]), 0, A[1].c + A[2].c))
    [] c.op = "coo_v_stack3" ->
         IsCooOf(m, A[1].r + A[2].r + A[3].r, A[1].c,
                 VEnt(A[1], A[2]) \o ShiftE(Entries(A[3]), A[1].r + A[2].r, 0))
    [] c.op = "coo_compose"  -> IsCooOf(m, BlockRows(A, 2), BlockCols(A, 2), BlockEnt(A, 2))
    [] c.op = "coo_compose3" -> IsCooOf(m, BlockRows(A, 3), BlockCols(A, 3), BlockEnt(A, 3))
    [] c.op = "csc_compose"  -> IsCanonOf(m, "csc", BlockRows(A, 2), BlockCols(A, 2), BlockEnt(A, 2))
    (* selection and slicing *)
    [] c.op \in {"csr_select", "csc_select", "k_select"} ->
         IsSelect(m, A[1], RowsOf(c, A[1]), ColsOf(c, A[1]))
    [] c.op = "k_submatrix" ->
         /\ m.f = "csr" /\ m.r = c.r1 - c.r0 /\ m.c = c.c1 - c.c0 /\ WF(m)
         /\ SameEntries(m, Window(A[1], c.r0, c.r1, c.c0, c.c1))
    [] c.op = "k_col_index" ->
         /\ m.f = "csr" /\ m.r = A[1].r /\ m.c = Len(c.idx) /\ WF(m)
         /\ SameEntries(m, ColGather(A[1], c.idx))
    (* triangle *)
    [] c.op = "coo_upper" ->
         IsCooOf(m, A[1].r, A[1].c, SelectSeq(Entries(A[1]), LAMBDA e : e[2] - e[1] >= c.k))

PostMake(c, A, m) ==
  CASE c.op = "coo_new" -> m = CooRec(c.r, c.c, c.i, c.j, c.x)
    [] c.op = "csr_new" -> m = CompRec("csr", c.r, c.c, c.p, c.j, c.x)
    [] c.op = "csc_new" -> m = CompRec("csc", c.r, c.c, c.p, c.j, c.x)
    [] c.op \in {"coo_with_size", "coo_with_capacity"} -> m = CooRec(c.r, c.c, <<>>, <<>>, <<>>)
    [] c.op = "csr_with_size" -> Is(m, "csr", c.r, c.c, <<>>) /\ m.n = 0
    [] c.op \in {"dok_new", "dok_with_capacity"} -> Is(m, "dok", c.r, c.c, <<>>) /\ m.n = 0
    [] c.op = "coo_from_dense" -> Is(m, "coo", Len(c.D), DenseC(c.D), DenDense(c.D)) /\ NoZeros(m) /\ NoDup(m)
    [] c.op = "csr_from_dense" -> Is(m, "csr", Len(c.D), DenseC(c.D), DenDense(c.D)) /\ NoZeros(m) /\ CanonicalC(m)
    [] c.op = "csc_from_dense" -> Is(m, "csc", Len(c.D), DenseC(c.D), DenDense(c.D)) /\ NoZeros(m) /\ CanonicalC(m)
    [] c.op = "dok_from_dense" -> Is(m, "dok", Len(c.D), DenseC(c.D), DenDense(c.D)) /\ NoZeros(m)
    [] c.op \in {"coo_with_diagonal", "csr_with_diagonal", "csc_with_diagonal"} ->
         /\ m.f = (CASE c.op = "coo_with_diagonal" -> "coo" [] c.op = "csr_with_diagonal" -> "csr" [] OTHER -> "csc")
         /\ m.r = Len(c.x) /\ m.c = Len(c.x) /\ WF(m) /\ NoDup(m)
         /\ Den(m) = DenE([k \in 1 .. Len(c.x) |-> <<k - 1, k - 1, c.x[k]>>])
    [] c.op \in {"coo_clone", "csr_clone"} -> m = A[1]
    [] c.op = "coo_identity" ->
         Is(m, "coo", c.n, c.n, [q \in {<<k, k>> : k \in 0 .. c.n - 1} |-> VOne]) /\ NoDup(m)
    (* conversions *)
    [] c.op \in {"coo_to_csr", "dok_to_csr"} -> IsCanonOf(m, "csr", A[1].r, A[1].c, Entries(A[1]))
    [] c.op \in {"coo_to_csc", "dok_to_csc"} -> IsCanonOf(m, "csc", A[1].r, A[1].c, Entries(A[1]))
    [] c.op \in {"csr_to_csc", "csc_to_csr", "k_csr_tocsc", "k_csc_tocsr"} ->
         /\ m.f = Other(A[1].f) /\ m.r = A[1].r /\ m.c = A[1].c
         /\ WF(m) /\ SortedC(m) /\ SameEntries(m, Entries(A[1]))
    [] c.op = "k_coo_tocsr" ->
         m.f = "csr" /\ m.r = A[1].r /\ m.c = A[1].c /\ WF(m) /\ SameEntries(m, Entries(A[1]))
    [] c.op \in {"csr_to_coo", "csc_to_coo", "dok_to_coo", "k_csr_tocoo"} ->
         IsCooOf(m, A[1].r, A[1].c, Entries(A[1]))
    (* transposition, parts, scaling *)
    [] c.op \in {"coo_transpose", "coo_t", "csr_transpose", "csr_t", "csc_transpose", "csc_t"} ->
         /\ m.f = Other(A[1].f) /\ m.r = A[1].c /\ m.c = A[1].r /\ WF(m)
         /\ SameEntries(m, SwapE(Entries(A[1])))
    [] c.op \in {"coo_conj", "csr_conj", "csc_conj"} -> SameShapeMap(m, A[1], "conj", VZero)
    [] c.op \in {"coo_real", "csr_real", "csc_real"} -> SameShapeMap(m, A[1], "re", VZero)
    [] c.op \in {"coo_imag", "csr_imag", "csc_imag"} -> SameShapeMap(m, A[1], "im", VZero)
    [] c.op = "csr_with_real" -> SameShapeMap(m, A[1], "id", VZero)
    [] c.op = "csr_with_imag" -> SameShapeMap(m, A[1], "i", VZero)
    [] c.op \in {"coo_h", "csr_h", "csc_h"} ->
         /\ m.f = Other(A[1].f) /\ m.r = A[1].c /\ m.c = A[1].r /\ WF(m)
         /\ SameEntries(m, SwapE(Entries(MapVals(A[1], VConj))))
    [] c.op \in {"coo_neg", "csr_neg", "csc_neg"} -> SameShapeMap(m, A[1], "neg", VZero)
    [] c.op \in {"csr_scale", "csc_scale", "csr_lscale", "csc_lscale"} -> SameShapeMap(m, A[1], "mul", c.s)
    [] OTHER -> PostMake2(c, A, m)

PostInPlace(c, a, m) ==
  CASE c.op = "coo_push" ->
         m = CooRec(a.r, a.c, Append(a.i, c.i), Append(a.j, c.j), Append(a.x, c.x))
    [] c.op = "coo_extend" -> m = CooRec(a.r, a.c, a.i \o c.i, a.j \o c.j, a.x \o c.x)
    [] c.op \in {"coo_set_val", "csr_set_val", "csc_set_val"} -> m = [a EXCEPT !.x[c.k + 1] = c.x]
    [] c.op \in {"csr_sort", "csc_sort", "k_sort"} ->
         /\ m.f = a.f /\ m.r = a.r /\ m.c = a.c /\ WF(m) /\ m.p = a.p /\ SortedC(m)
         /\ \A s \in 0 .. Major(a) - 1 : BagOf(Slice(m, s)) = BagOf(Slice(a, s))
    [] c.op \in {"csr_sumdup", "csc_sumdup", "k_sumdup"} ->
         IsCanonOf(m, a.f, a.r, a.c, Entries(a)) /\ (CanonicalC(a) => m = a)
    [] c.op = "csc_prune" -> m = a
    [] c.op \in {"dok_set", "dok_add", "dok_sub"} ->
         LET q   == <<c.i, c.j>>
             d   == Den(a)
             new == CASE c.op = "dok_set" -> c.x
                      [] c.op = "dok_add" -> VAdd(El(d, q), c.x)
                      [] OTHER            -> VSub(El(d, q), c.x)
         IN  /\ m.f = "dok" /\ m.r = a.r /\ m.c = a.c /\ WF(m) /\ NoZeros(m)
             /\ Den(m) = NonZero([t \in DOMAIN d \cup {q} |-> IF t = q THEN new ELSE d[t]])
    [] c.op \in {"k_scale_rows", "k_scale_cols"} ->
         /\ m.f = a.f /\ m.r = a.r /\ m.c = a.c /\ m.n = a.n /\ m.p = a.p /\ m.j = a.j
         /\ LET es == Entries(a)
            IN  m.x = [k \in DOMAIN es |->
                         VMul(es[k][3], c.s[(IF c.op = "k_scale_rows" THEN es[k][1] ELSE es[k][2]) + 1])]
    [] c.op = "k_elim" ->
         /\ m.f = a.f /\ m.r = a.r /\ m.c = a.c /\ WF(m)
         /\ Entries(m) = SelectSeq(Entries(a), LAMBDA e : e[3] # VZero)

PostRead(c, A, v) ==
  CASE c.op \in {"coo_to_dense", "csc_to_dense", "dok_to_dense"} ->
         DenseShape(v, A[1].r, A[1].c) /\ DenDense(v) = Den(A[1])
    [] c.op = "k_csr_todense" ->
         /\ DenseShape(v, A[1].r, A[1].c)
         /\ DenDense(v) = DenAdd(DenDense(c.D), Den(A[1]))
    [] c.op = "k_coo_todense" ->
         /\ Len(v) = A[1].r * A[1].c
         /\ LET at(i, j) == IF c.fortran THEN A[1].r * j + i + 1 ELSE A[1].c * i + j + 1
            IN  v = FoldLeft(LAMBDA acc, e : [acc EXCEPT ![at(e[1], e[2])] = VAdd(@, e[3])],
                             c.y, Entries(A[1]))
    [] c.op = "k_expandptr" -> v = MajorOf(A[1])
    [] c.op \in {"csr_sorted", "csc_sorted", "k_sorted"} -> v = SortedC(A[1])
    [] c.op \in {"csr_canon", "csc_canon", "k_canon"} -> v = CanonicalC(A[1])
    [] c.op \in {"csr_matvec", "csr_mulvec", "csc_matvec", "csc_mulvec"} ->
         v = MatVecInto([k \in 1 .. A[1].r |-> VZero], Entries(A[1]), c.x)
    [] c.op \in {"k_csr_matvec", "k_csc_matvec", "k_coo_matvec"} -> v = MatVecInto(c.y, Entries(A[1]), c.x)
    [] c.op \in {"k_csr_matvecs", "k_csc_matvecs"} -> v = MatVecsInto(c.y, Entries(A[1]), c.x, c.nv)
    [] c.op \in {"k_csr_maxnnz", "k_csc_maxnnz"} -> v = Cardinality(TermPositions(A[1], A[2]))
    [] c.op \in {"coo_diagonal", "csr_diagonal", "csc_diagonal"} -> v = DiagOf(Den(A[1]), 0, A[1].r, A[1].c)
    [] c.op \in {"k_csr_diagonal", "k_csc_diagonal"} ->
         LET d == DiagOf(Den(A[1]), c.k, A[1].r, A[1].c)
         IN  Len(v) >= Len(d) /\ SubSeq(v, 1, Len(d)) = d
    [] c.op \in {"csr_get", "dok_get"} -> v = El(Den(A[1]), <<c.i, c.j>>)
    [] c.op = "k_count_diag" -> v = Cardinality({q[2] - q[1] : q \in Stored(A[1])})
    [] c.op = "k_row_index" ->
         LET s == RowsConcat(A[1], c.idx)
         IN  v[1] = [k \in DOMAIN s |-> s[k][1]] /\ v[2] = [k \in DOMAIN s |-> s[k][2]]
    [] c.op = "k_row_slice" ->
         LET s == RowsConcat(A[1], SliceRows(c.start, c.stop, c.step))
         IN  v[1] = [k \in DOMAIN s |-> s[k][1]] /\ v[2] = [k \in DOMAIN s |-> s[k][2]]
    [] c.op \in {"coo_to_string", "csr_to_string", "csc_to_string"} -> v = LinesOf(Entries(A[1]), QOf(c))
    [] c.op = "dok_to_string" -> BagOf(v) = BagOf(LinesOf(Entries(A[1]), QOf(c)))
    [] c.op = "csr_to_table" -> v = TableOf(A[1], QOf(c))
    [] c.op = "csc_shape" -> v = <<A[1].r, A[1].c>>
    [] c.op = "g_cc" ->
         LET n == A[1].r  es == EdgeSeq(A[1])
         IN  /\ Len(v[2]) = n /\ LabelsDense(v[2], v[1])
             /\ IF c.directed /\ c.conn = "strong" THEN MutualScan(n, es, v[1], v[2])
                                                  ELSE UndirScan(n, es, v[1], v[2])
    [] c.op \in {"csr_cc", "k_gcomp"} ->
         LET n    == A[1].r   es == EdgeSeq(A[1])
             live == {es[t][1] : t \in DOMAIN es}
         IN  /\ Len(v[2]) = n /\ v[1] >= 0
             /\ \A w \in (0 .. n - 1) \ live : v[2][w + 1] < 0
             /\ {v[2][w + 1] : w \in live} = 0 .. (v[1] - 1)
             /\ UndirScan(n, es, v[1], v[2])
    [] c.op = "g_dfs" ->
         LET n == A[1].r  es == EdgeSeq(A[1])
         IN  DfsScan(n, IF c.directed THEN OutLists(n, es) ELSE AllLists(n, es), c.start, v[1], v[2])

MakeOps == {"coo_new", "coo_clone", "csr_clone", "csr_new", "csc_new", "coo_with_size", "coo_with_capacity", "csr_with_size",
  "dok_new", "dok_with_capacity", "coo_from_dense", "csr_from_dense", "csc_from_dense", "dok_from_dense",
  "coo_with_diagonal", "csr_with_diagonal", "csc_with_diagonal", "coo_identity",
  "coo_to_csr", "dok_to_csr", "coo_to_csc", "dok_to_csc", "csr_to_csc", "csc_to_csr", "k_csr_tocsc",
  "k_csc_tocsr", "k_coo_tocsr", "csr_to_coo", "csc_to_coo", "dok_to_coo", "k_csr_tocoo",
  "coo_transpose", "coo_t", "csr_transpose", "csr_t", "csc_transpose", "csc_t",
  "coo_conj", "csr_conj", "csc_conj", "coo_real", "csr_real", "csc_real", "coo_imag", "csr_imag",
  "csc_imag", "csr_with_real", "csr_with_imag", "coo_h", "csr_h", "csc_h", "coo_neg", "csr_neg",
  "csc_neg", "csr_scale", "csc_scale", "csr_lscale", "csc_lscale",
  "coo_add", "csr_add", "csc_add", "csc_add_m", "csr_sub", "csc_sub", "csc_sub_m", "k_bin",
  "csr_matmat", "csr_mul", "k_csr_matmat", "csc_matmat", "csc_mul", "csc_mul_csr", "k_csc_matmat",
  "coo_h_stack", "coo_v_stack", "csr_h_stack", "coo_h_stack3", "coo_v_stack3", "coo_compose",
  "coo_compose3", "csc_compose", "csr_select", "csc_select", "k_select", "k_submatrix", "k_col_index",
  "coo_upper"}

(* Obligations of the caller.                                              *)
Valid(c, A) ==
  /\ \A k \in DOMAIN A : WF(A[k])
  /\ CASE c.op = "coo_new" -> Fits(c, A) => WF(CooRec(c.r, c.c, c.i, c.j, c.x))
       [] c.op = "csr_new" -> Fits(c, A) => WF(CompRec("csr", c.r, c.c, c.p, c.j, c.x))
       [] c.op = "csc_new" -> Fits(c, A) => WF(CompRec("csc", c.r, c.c, c.p, c.j, c.x))
       [] c.op \in {"coo_from_dense", "csr_from_dense", "csc_from_dense", "dok_from_dense"} ->
            DenseShape(c.D, Len(c.D), DenseC(c.D))
       [] c.op = "coo_push" -> 0 <= c.i /\ c.i < A[1].r /\ 0 <= c.j /\ c.j < A[1].c
       [] c.op = "coo_extend" -> /\ Len(c.i) = Len(c.x) /\ Len(c.j) = Len(c.x)
                                 /\ InRange(c.i, A[1].r) /\ InRange(c.j, A[1].c)
       [] c.op \in {"coo_set_val", "csr_set_val", "csc_set_val"} -> 0 <= c.k /\ c.k < A[1].n
       [] c.op = "csr_get" -> 0 <= c.i /\ c.i < A[1].r /\ 0 <= c.j /\ c.j < A[1].c
       [] c.op \in {"csr_with_real", "csr_with_imag"} -> \A k \in DOMAIN A[1].x : VIm(A[1].x[k]) = VZero
       [] c.op = "csr_cc" -> A[1].r # A[1].c \/ SymPattern(EdgesOf(A[1]))
       [] c.op = "k_gcomp" -> A[1].r = A[1].c /\ SymPattern(EdgesOf(A[1]))
       [] c.op = "g_dfs" -> A[1].r # A[1].c \/ (0 <= c.start /\ c.start < A[1].r)
       [] c.op = "k_sumdup" -> SortedC(A[1])
       [] c.op = "k_select" -> CanonicalC(A[1]) /\ InRange(c.rows, A[1].r) /\ InRange(c.cols, A[1].c)
       [] c.op = "csr_to_table" -> CanonicalC(A[1])
       [] c.op = "k_submatrix" -> /\ 0 <= c.r0 /\ c.r0 <= c.r1 /\ c.r1 <= A[1].r
                                  /\ 0 <= c.c0 /\ c.c0 <= c.c1 /\ c.c1 <= A[1].c
       [] c.op = "k_col_index" -> InRange(c.idx, A[1].c)
       [] c.op = "k_row_index" -> InRange(c.idx, Major(A[1]))
       [] c.op = "k_bin" -> /\ A[1].r = A[2].r /\ A[1].c = A[2].c
                            /\ c.which = "canonical" => CanonicalC(A[1]) /\ CanonicalC(A[2])
       [] c.op \in {"k_csr_matmat", "k_csc_matmat", "k_csr_maxnnz", "k_csc_maxnnz"} -> A[1].c = A[2].r
       [] c.op \in {"k_csr_diagonal", "k_csc_diagonal"} -> -A[1].r <= c.k /\ c.k <= A[1].c
       [] c.op = "k_row_slice" -> c.step > 0 /\ (c.start >= c.stop \/ c.stop <= Major(A[1]))
       [] c.op \in {"k_csr_matvec", "k_csc_matvec", "k_coo_matvec"} ->
            Len(c.x) = A[1].c /\ Len(c.y) = A[1].r
       [] c.op \in {"k_csr_matvecs", "k_csc_matvecs"} ->
            Len(c.x) = A[1].c * c.nv /\ Len(c.y) = A[1].r * c.nv
       [] c.op = "k_csr_todense" -> DenseShape(c.D, A[1].r, A[1].c)
       [] c.op = "k_coo_todense" -> Len(c.y) = A[1].r * A[1].c
       [] OTHER -> TRUE
=============================================================================
