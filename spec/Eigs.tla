-------------------------------- MODULE Eigs --------------------------------
(***************************************************************************)
(* What eigs(A, nev) may return (C26).                                     *)
(*                                                                         *)
(* A is a square CSC matrix of integers.  Eigenvalues d and eigenvectors z *)
(* come back in fixed point, as pairs <<re, im>> of multiples of 1/Unit,   *)
(* rounded.  A call may carry a witness of A's spectrum: integer matrices  *)
(* S, T, B with S T = I, S A = B S and B block upper triangular with       *)
(* blocks <<a>> and <<a, -b>>, <<b, a>>.  The specification checks the     *)
(* witness; it trusts nothing the caller says about A.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Unit == 4096
Abs(v) == IF v < 0 THEN -v ELSE v
Sq(e) == e[1] * e[1] + e[2] * e[2]

----------------------------------------------------------------------------
(* Integer matrices as sequences of rows.                                  *)

Dense(c) ==
  LET es == [k \in 1 .. Len(c.x) |->
               <<c.j[k] + 1, CHOOSE q \in 1 .. c.c : c.p[q] < k /\ k <= c.p[q + 1], c.x[k]>>]
      z == [i \in 1 .. c.r |-> [j \in 1 .. c.c |-> 0]]
  IN  FoldLeft(LAMBDA m, e : [m EXCEPT ![e[1]][e[2]] = @ + e[3]], z, es)

Dot(n, u, v) == FoldLeft(LAMBDA acc, k : acc + u[k] * v[k], 0, [k \in 1 .. n |-> k])
Mul(n, X, Y) == LET YT == [j \in 1 .. n |-> [k \in 1 .. n |-> Y[k][j]]]
                IN  [i \in 1 .. n |-> [j \in 1 .. n |-> Dot(n, X[i], YT[j])]]
One(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN 1 ELSE 0]]

----------------------------------------------------------------------------
(* The spectrum of a block triangular matrix.                              *)

Second(n, B, k) == k > 1 /\ B[k][k - 1] # 0
First(n, B, k)  == k < n /\ B[k + 1][k] # 0

BlockTriangular(n, B) ==
  /\ \A i \in 1 .. n, j \in 1 .. n : i > j + 1 => B[i][j] = 0
  /\ \A k \in 2 .. n : Second(n, B, k) =>
       /\ ~Second(n, B, k - 1)
       /\ B[k - 1][k - 1] = B[k][k] /\ B[k - 1][k] = -B[k][k - 1]

Spectrum(n, B) ==
  [k \in 1 .. n |-> CASE First(n, B, k)  -> <<B[k][k], Abs(B[k + 1][k])>>
                      [] Second(n, B, k) -> <<B[k][k], -Abs(B[k][k - 1])>>
                      [] OTHER           -> <<B[k][k], 0>>]

Witnessed(c, A) ==
  /\ "B" \in DOMAIN c
  /\ LET n == c.r IN
     /\ BlockTriangular(n, c.B)
     /\ Mul(n, c.S, c.T) = One(n)
     /\ Mul(n, c.S, A) = Mul(n, c.B, c.S)

(* The eigenvalues no smaller than the nev-th largest.                     *)
Wanted(L, nev) ==
  LET n == Len(L)
      cut == CHOOSE q \in {Sq(L[k]) : k \in 1 .. n} :
               /\ Cardinality({k \in 1 .. n : Sq(L[k]) >= q}) >= nev
               /\ Cardinality({k \in 1 .. n : Sq(L[k]) > q}) < nev
  IN  {k \in 1 .. n : Sq(L[k]) >= cut}

(* A spectrum for which the iteration has to succeed: no multiple          *)
(* eigenvalues, the wanted ones set apart from the others, and not more of *)
(* them than nev, except for the other half of a complex pair.  The        *)
(* iteration works in a space of some 20 dimensions, or 2 nev + 1.  Where   *)
(* that is not all of it, it restarts and may give up, and a wider gap and *)
(* a wanted set of exactly nev are asked for.                              *)
Whole(n, nev) == n <= 20 \/ n <= 2 * nev + 1

Separated(L, nev) ==
  LET n == Len(L)
      W == Wanted(L, nev)
      rest == {Sq(L[k]) : k \in (1 .. n) \ W}
      low == Min({Sq(L[k]) : k \in W})
  IN  /\ \A i, j \in 1 .. n : i # j => L[i] # L[j]
      /\ \A k \in W : Sq(L[k]) = low /\ L[k][2] = 0 => Cardinality({i \in W : Sq(L[i]) = low}) = 1
      /\ Cardinality(W) <= nev + 1
      /\ Cardinality(W) = nev + 1 => \E k \in W : Sq(L[k]) = low /\ L[k][2] # 0
      /\ ~Whole(n, nev) => Cardinality(W) = nev
      /\ \A q \in rest : 100 * q <= (IF Whole(n, nev) THEN 81 ELSE 64) * low
      /\ low > 0

----------------------------------------------------------------------------
(* One returned pair.  Eigenvalues in multiples of 1/Unit, vectors in      *)
(* multiples of 1/Fine, both rounded.                                      *)

Fine == 8 * Unit

InRange(v, b) == Abs(v[1]) <= b /\ Abs(v[2]) <= b

(* u in 1/Unit times v in 1/Fine, in 1/Fine, without leaving 32 bits       *)
Times(u, v) == LET h == v \div 64   w == v - 64 * h
               IN  (u * h) \div 64 + (u * w) \div Unit

(* | (A v - lambda v)_i | up to the rounding of the fixed point.           *)
Component(n, A, lam, v, i, part) ==
  LET y  == Dot(n, A[i], [k \in 1 .. n |-> v[k][part]])
      lv == IF part = 1 THEN Times(lam[1], v[i][1]) - Times(lam[2], v[i][2])
                        ELSE Times(lam[1], v[i][2]) + Times(lam[2], v[i][1])
      rows == FoldLeft(LAMBDA acc, a : acc + Abs(a), 0, A[i])
  IN  Abs(y - lv) <= (rows + Abs(lam[1]) \div Unit + Abs(lam[2]) \div Unit) \div 2 + 16

EigenPair(n, A, lam, v) ==
  /\ Len(v) = n
  /\ InRange(lam, 60 * Unit)
  /\ \A k \in 1 .. n : InRange(v[k], Fine + 32)
  /\ LET q == FoldLeft(LAMBDA acc, e : acc + Sq(<<e[1] \div 8, e[2] \div 8>>), 0, v)
     IN  Abs(q - Unit * Unit) <= 4 * n * Unit
  /\ \A i \in 1 .. n, part \in {1, 2} : Component(n, A, lam, v, i, part)

Close(lam, e) == Abs(lam[1] - Unit * e[1]) <= 64 /\ Abs(lam[2] - Unit * e[2]) <= 64

----------------------------------------------------------------------------
(* The call as a whole.                                                    *)

Admissible(c) == c.r = c.c /\ 0 < c.nev /\ c.nev < c.r - 1

(* the spectrum the call has to return in full, if it is known             *)
MustReturn(c, A) == /\ Witnessed(c, A)
                    /\ Separated(Spectrum(c.r, c.B), c.nev)

Returned(c, A) ==
  /\ Len(c.z) = Len(c.d)
  /\ Len(c.d) <= c.nev + 1
  /\ \A k \in 1 .. Len(c.d) : EigenPair(c.r, A, c.d[k], c.z[k])
  /\ MustReturn(c, A) =>
       LET L == Spectrum(c.r, c.B)
           W == Wanted(L, c.nev)
       IN  /\ Len(c.d) = Cardinality(W)
           /\ \A k \in W : \E q \in 1 .. Len(c.d) : Close(c.d[q], L[k])

EigsOk(c) ==
  /\ c.post = [p |-> c.p, j |-> c.j, x |-> c.x]
  /\ IF ~Admissible(c) THEN c.out = "err"
     ELSE LET A == Dense(c) IN
          \/ c.out = "ok" /\ Returned(c, A)
          \/ c.out = "err" /\ ~MustReturn(c, A)
=============================================================================
