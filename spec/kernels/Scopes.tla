------------------------------- MODULE Scopes --------------------------------
(***************************************************************************)
(* Finite sets of inputs over which the kernel models are explored, the    *)
(* 0-based arrays their transcriptions work on, and the printing of        *)
(* finished behaviours for replay into the real code.                      *)
(*                                                                         *)
(* The scopes are small but complete: every order of entries, every        *)
(* repetition of an index and every placement of zeros within the bound.   *)
(***************************************************************************)
EXTENDS SparseOps, IntRing, Json

CONSTANT Deep          \* TRUE: larger scopes (thorough tier)

(* Arrays as the implementation indexes them: functions on 0 .. n-1.        *)
Arr(n, v) == [k \in 0 .. n - 1 |-> v]
Z(s)      == [k \in 0 .. Len(s) - 1 |-> s[k + 1]]
Size(f)   == Cardinality(DOMAIN f)
S(f)      == [k \in 1 .. Size(f) |-> f[k - 1]]
Junk      == 99
Junks(n)  == Arr(n, Junk)

(* Index-typed arithmetic must stay within the non-negative range of an     *)
(* index type that can just hold the dimensions and the number of entries.  *)
Ix(v, cap) == IF 0 <= v /\ v <= cap THEN v ELSE Assert(FALSE, <<"index type left its range", v, cap>>)

(* -------- input sets ---------------------------------------------------- *)
Ptrs(m, n) == {p \in [1 .. m + 1 -> 0 .. n] :
                 p[1] = 0 /\ p[m + 1] = n /\ \A k \in 1 .. m : p[k] <= p[k + 1]}
Seqs(V, n) == [1 .. n -> V]

(* values told apart, so that every entry can be followed                   *)
Distinct(n) == {[k \in 1 .. n |-> k]}
DistinctFrom(b, n) == {[k \in 1 .. n |-> b * k]}
(* values that cancel                                                       *)
Signs(n) == Seqs({-1, 1}, n)
SignsZ(n) == Seqs({-1, 0, 1}, n)

Comp(f, r, c, n, X(_)) ==
  LET M == IF f = "csr" THEN r ELSE c   N == IF f = "csr" THEN c ELSE r
  IN  IF n > 0 /\ (M = 0 \/ N = 0) THEN {}
      ELSE {CompRec(f, r, c, p, j, x) : p \in Ptrs(M, n), j \in Seqs(0 .. N - 1, n), x \in X(n)}
CsrUpTo(shapes, nmax, X(_)) ==
  UNION {Comp("csr", s[1], s[2], n, X) : s \in shapes, n \in 0 .. nmax}

CanonUpTo(shapes, nmax, X(_)) == {m \in CsrUpTo(shapes, nmax, X) : CanonicalC(m)}

CooUpTo(shapes, nmax, X(_)) ==
  UNION {IF n > 0 /\ (s[1] = 0 \/ s[2] = 0) THEN {}
         ELSE {CooRec(s[1], s[2], i, j, x) : i \in Seqs(0 .. s[1] - 1, n), j \in Seqs(0 .. s[2] - 1, n), x \in X(n)}
         : s \in shapes, n \in 0 .. nmax}

Thin == {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 3>>, <<3, 1>>}
Wide == {<<2, 2>>, <<2, 3>>, <<3, 2>>}
AllShapes == Thin \cup Wide

(* Graphs: square CSR patterns. Parallel edges and self loops included.     *)
PatternsUpTo(n, nmax) == CsrUpTo({<<n, n>>}, nmax, Distinct)

OfPairs(n, E) ==
  LET row(i) == SetToSortSeq({e[2] : e \in {f \in E : f[1] = i}}, LAMBDA a, b : a < b)
      js == FoldLeft(LAMBDA acc, i : acc \o row(i), <<>>, FullIdx(n))
      p  == [s \in 1 .. n + 1 |-> Cardinality({e \in E : e[1] < s - 1})]
  IN  CompRec("csr", n, n, p, js, [k \in 1 .. Len(js) |-> k])
AllPairs(n) == (0 .. n - 1) \X (0 .. n - 1)
OffDiag(n)  == {e \in AllPairs(n) : e[1] # e[2]}
(* Every simple directed graph: canonical patterns.                         *)
Digraphs(n, E, emax) == {OfPairs(n, F) : F \in {X \in SUBSET E : Cardinality(X) <= emax}}

(* A finished behaviour: kernel, operands, other arguments, outcome.        *)
Nil == [nil |-> 0]
Beh(k, ms, c, o) == "BEH" \o ToJson([k |-> k, a |-> ms, c |-> c, o |-> o])
=============================================================================
