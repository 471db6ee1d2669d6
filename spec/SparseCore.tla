----------------------------- MODULE SparseCore -----------------------------
(***************************************************************************)
(* Matrix values of rwl/sparsetools and what they denote.                  *)
(*                                                                         *)
(* A matrix is a record with a format tag f:                               *)
(*   f = "coo"/"dok": [f, r, c, n, i, j, x]  i, j, x are parallel arrays   *)
(*   f = "csr"/"csc": [f, r, c, n, p, j, x]  p pointers, j minor indices   *)
(* r, c are the dimensions, n is the stored-entry count the API reports.   *)
(* Indices are 0-based as in the implementation, TLA+ sequences 1-based.   *)
(*                                                                         *)
(* The scalar ring is a parameter: the same specification is used with     *)
(* integers (all real element types) and Gaussian integers (complex ones). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS VZero, VOne,
          VAdd(_, _), VSub(_, _), VMul(_, _), VNeg(_),
          VConj(_), VRe(_), VIm(_), VI(_), VStr(_, _), VPretty(_, _)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

----------------------------------------------------------------------------
(* Entries: the sequence of <<row, column, value>> a matrix stores.        *)

Major(m) == IF m.f = "csr" THEN m.r ELSE m.c
Minor(m) == IF m.f = "csr" THEN m.c ELSE m.r

(* Stored entries of major slice s (0-based) as <<minor, value>> pairs.    *)
Slice(m, s) == [k \in 1 .. (m.p[s + 2] - m.p[s + 1]) |->
                  <<m.j[m.p[s + 1] + k], m.x[m.p[s + 1] + k]>>]

(* The major index of every stored position, by one pass over p.           *)
MajorOf(m) ==
  FoldLeft(LAMBDA acc, s : acc \o [k \in 1 .. (m.p[s + 1] - m.p[s]) |-> s - 1],
           <<>>, [s \in 1 .. Major(m) |-> s])

Entries(m) ==
  CASE m.f \in {"coo", "dok"} ->
         [k \in 1 .. Len(m.x) |-> <<m.i[k], m.j[k], m.x[k]>>]
    [] m.f = "csr" -> LET mj == MajorOf(m)
                      IN  [k \in 1 .. Len(m.x) |-> <<mj[k], m.j[k], m.x[k]>>]
    [] m.f = "csc" -> LET mj == MajorOf(m)
                      IN  [k \in 1 .. Len(m.x) |-> <<m.j[k], mj[k], m.x[k]>>]

(* The element function restricted to the stored positions (zeros kept).   *)
SumAt(es) ==
  LET P == {<<es[k][1], es[k][2]>> : k \in DOMAIN es}
  IN  FoldLeft(LAMBDA acc, e : [acc EXCEPT ![<<e[1], e[2]>>] = VAdd(@, e[3])],
               [q \in P |-> VZero], es)

NonZero(f) == LET D == {q \in DOMAIN f : f[q] # VZero} IN [q \in D |-> f[q]]

(* The matrix denoted by a sequence of entries: a function from the        *)
(* positions with a nonzero element to that element.                       *)
DenE(es) == NonZero(SumAt(es))
Den(m)   == DenE(Entries(m))

Stored(m) == {<<e[1], e[2]>> : e \in Range(Entries(m))}

(* Element at a position of a denotation.                                  *)
El(d, q) == IF q \in DOMAIN d THEN d[q] ELSE VZero

(* Multiset of anything listed in a sequence.                              *)
BagOf(s) == FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e] = @ + 1],
                     [e \in Range(s) |-> 0], s)

SumSeq(s) == FoldLeft(LAMBDA acc, v : VAdd(acc, v), VZero, s)

----------------------------------------------------------------------------
(* Well-formedness (total: safe to evaluate on anything the code returned) *)

WFCoo(m) ==
  /\ Len(m.i) = Len(m.x) /\ Len(m.j) = Len(m.x) /\ m.n = Len(m.x)
  /\ \A k \in 1 .. Len(m.x) : /\ 0 <= m.i[k] /\ m.i[k] < m.r
                              /\ 0 <= m.j[k] /\ m.j[k] < m.c

WFComp(m) ==
  /\ Len(m.p) = Major(m) + 1
  /\ m.p[1] = 0
  /\ \A s \in 1 .. Major(m) : m.p[s] <= m.p[s + 1]
  /\ m.p[Major(m) + 1] = m.n
  /\ Len(m.j) = m.n /\ Len(m.x) = m.n
  /\ \A k \in 1 .. m.n : 0 <= m.j[k] /\ m.j[k] < Minor(m)

NoDup(m) == LET es == Entries(m)
            IN  Cardinality({<<es[k][1], es[k][2]>> : k \in DOMAIN es}) = Len(es)

WF(m) == CASE m.f = "coo" -> WFCoo(m)
           [] m.f = "dok" -> WFCoo(m) /\ NoDup(m)
           [] OTHER       -> WFComp(m)

SortedC(m) == \A s \in 1 .. Major(m) :
                \A k \in (m.p[s] + 1) .. (m.p[s + 1] - 1) : m.j[k] <= m.j[k + 1]

CanonicalC(m) == \A s \in 1 .. Major(m) :
                \A k \in (m.p[s] + 1) .. (m.p[s + 1] - 1) : m.j[k] < m.j[k + 1]

NoZeros(m) == \A k \in DOMAIN m.x : m.x[k] # VZero

(* m denotes d, has the given shape and format, and is well formed.        *)
Is(m, f, r, c, d) == m.f = f /\ m.r = r /\ m.c = c /\ WF(m) /\ Den(m) = d

----------------------------------------------------------------------------
(* Algebra on denotations                                                  *)

DenMap(d, F(_)) == NonZero([q \in DOMAIN d |-> F(d[q])])
DenZip(a, b, F(_, _)) ==
  NonZero([q \in DOMAIN a \cup DOMAIN b |-> F(El(a, q), El(b, q))])
DenAdd(a, b) == DenZip(a, b, VAdd)
DenSub(a, b) == DenZip(a, b, VSub)
DenT(d) == LET D == {<<q[2], q[1]>> : q \in DOMAIN d}
           IN  [q \in D |-> d[<<q[2], q[1]>>]]

(* Product of two denotations.                                             *)
DenMatMul(a, b) ==
  LET terms == UNION { { <<qa, qb>> : qb \in {q \in DOMAIN b : q[1] = qa[2]} } : qa \in DOMAIN a}
      P     == {<<t[1][1], t[2][2]>> : t \in terms}
  IN  NonZero(FoldSet(LAMBDA t, acc :
                        [acc EXCEPT ![<<t[1][1], t[2][2]>>] = VAdd(@, VMul(a[t[1]], b[t[2]]))],
                      [q \in P |-> VZero], terms))

(* Matrix times vector, as a sequence over rows 0 .. r-1.                  *)
DenMatVec(d, r, x) ==
  FoldSet(LAMBDA q, acc : [acc EXCEPT ![q[1] + 1] = VAdd(@, VMul(d[q], x[q[2] + 1]))],
          [k \in 1 .. r |-> VZero], DOMAIN d)

(* Dense arrays (sequence of rows).                                        *)
DenseShape(D, r, c) == Len(D) = r /\ \A k \in 1 .. Len(D) : Len(D[k]) = c
DenDense(D) ==
  LET P == UNION { { <<k - 1, l - 1>> : l \in {l \in 1 .. Len(D[k]) : D[k][l] # VZero} } : k \in 1 .. Len(D)}
  IN  [q \in P |-> D[q[1] + 1][q[2] + 1]]
DenseC(D) == IF Len(D) = 0 THEN 0 ELSE Len(D[1])

(* The entries (any sequence es) in canonical compressed form, as a        *)
(* relation: strictly increasing minor indices, exactly one entry per      *)
(* stored position, holding the sum of what was stored there.              *)
IsCanonOf(m, f, r, c, es) ==
  /\ m.f = f /\ m.r = r /\ m.c = c /\ WF(m) /\ CanonicalC(m)
  /\ SumAt(Entries(m)) = SumAt(es)

DiagLen(k, r, c) == IF k >= 0 THEN Min2(r, c - k) ELSE Min2(r + k, c)
DiagOf(d, k, r, c) ==
  [t \in 1 .. Max2(0, DiagLen(k, r, c)) |->
     El(d, IF k >= 0 THEN <<t - 1, t - 1 + k>> ELSE <<t - 1 - k, t - 1>>)]
=============================================================================
