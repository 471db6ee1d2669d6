-------------------------------- MODULE KEig --------------------------------
(***************************************************************************)
(* Integer matrices with a known spectrum: T B S with B block triangular   *)
(* and S T = I, grown by elementary operations one at a time.  Checks that *)
(* what Eigs.tla concludes from a witness is so: every entry of Spectrum   *)
(* is a root of the characteristic polynomial, as often as it occurs.      *)
(* Prints the calls eigs must answer in full, for replay.                  *)
(***************************************************************************)
EXTENDS Eigs, Json

CONSTANTS N,          \* dimension
          Reals,      \* diagonal entries
          Pairs,      \* <<a, b>>: blocks with eigenvalues a + bi, a - bi
          Coupling,   \* entries above the blocks
          Shears      \* elementary operations at most

FewReals == {-4, 1, 7}
MoreReals == {-9, -4, -1, 0, 2, 5}
FewCouplings == {0, 1}
Couplings == {-1, 0, 2}
FewPairs == {<<1, 2>>, <<-3, 4>>}
MorePairs == {<<0, 1>>, <<2, 3>>, <<-5, 2>>}

VARIABLES B, S, T, k
vars == <<B, S, T, k>>

(* block structures of an N x N matrix: sequences of 1 and 2 adding up to N *)
Layouts == {s \in UNION {[1 .. m -> {1, 2}] : m \in 1 .. N} :
              FoldLeft(LAMBDA acc, v : acc + v, 0, s) = N}
At(s, q) == FoldLeft(LAMBDA acc, v : acc + v, 1, SubSeq(s, 1, q - 1))

(* diagonal blocks, one per member of the layout                            *)
Fill(s, real, pair, coup) ==
  LET owner == [i \in 1 .. N |-> CHOOSE q \in 1 .. Len(s) : At(s, q) <= i /\ i < At(s, q) + s[q]]
  IN  [i \in 1 .. N |-> [j \in 1 .. N |->
         LET q == owner[i] IN
         IF owner[j] = q
         THEN IF s[q] = 1 THEN real[q]
              ELSE IF i = j THEN pair[q][1] ELSE IF i < j THEN -pair[q][2] ELSE pair[q][2]
         ELSE IF owner[j] > q THEN coup[IF (i + j) % 2 = 0 THEN 1 ELSE 2] ELSE 0]]

Tops == UNION {
  {Fill(s, real, pair, <<c1, c2>>) :
     real \in [{q \in 1 .. Len(s) : s[q] = 1} -> Reals],
     pair \in [{q \in 1 .. Len(s) : s[q] = 2} -> Pairs],
     c1 \in Coupling, c2 \in Coupling} : s \in Layouts}

Init == B \in Tops /\ S = One(N) /\ T = One(N) /\ k = 0

(* S := E S, T := T E^-1 with E = I + f e_i e_j^T                           *)
Shear(i, j, f) ==
  /\ S' = [S EXCEPT ![i] = [m \in 1 .. N |-> @[m] + f * S[j][m]]]
  /\ T' = [m \in 1 .. N |-> [T[m] EXCEPT ![j] = @ - f * T[m][i]]]
Next == /\ k < Shears
        /\ k' = k + 1
        /\ UNCHANGED B
        /\ \E i, j \in 1 .. N, f \in {-1, 1} : i # j /\ Shear(i, j, f)
Spec == Init /\ [][Next]_vars

A == Mul(N, T, Mul(N, B, S))

(* Complex arithmetic on <<re, im>>, determinants by expansion.             *)
CMul(u, v) == <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
CAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Neg(u) == <<-u[1], -u[2]>>
RECURSIVE Det(_, _)
Det(n, M) ==
  IF n = 1 THEN M[1][1]
  ELSE FoldLeft(LAMBDA acc, j :
         LET minor == [r \in 1 .. n - 1 |-> [c \in 1 .. n - 1 |-> M[r + 1][IF c < j THEN c ELSE c + 1]]]
             t == CMul(M[1][j], Det(n - 1, minor))
         IN  CAdd(acc, IF j % 2 = 1 THEN t ELSE Neg(t)),
         <<0, 0>>, [j \in 1 .. n |-> j])
Shifted(M, z) == [i \in 1 .. N |-> [j \in 1 .. N |-> IF i = j THEN CAdd(<<M[i][j], 0>>, Neg(z)) ELSE <<M[i][j], 0>>]]

AsCall(nev) == [r |-> N, c |-> N, nev |-> nev, S |-> S, T |-> T, B |-> B]

Witness == Witnessed(AsCall(1), A)
(* the characteristic polynomial of A is the product of (z - entry)         *)
Roots ==
  LET L == Spectrum(N, B) IN
  \A z \in {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<-1, 1>>, <<0, 3>>} \cup {L[i] : i \in 1 .. N} :
    Det(N, Shifted(A, z)) = FoldLeft(LAMBDA acc, e : CMul(acc, CAdd(e, Neg(z))), <<1, 0>>, L)
(* the wanted ones are some nev largest, the rest is smaller                *)
Largest ==
  LET L == Spectrum(N, B) IN
  \A nev \in 1 .. N - 2 :
    LET W == Wanted(L, nev) IN
    /\ Cardinality(W) >= nev
    /\ \A i \in W, j \in (1 .. N) \ W : Sq(L[i]) > Sq(L[j])
    /\ Separated(L, nev) => Cardinality(W) \in {nev, nev + 1}
    (* a pair is wanted as a whole                                          *)
    /\ \A i \in W : \E j \in W : L[j] = <<L[i][1], -L[i][2]>>
Calls ==
  \A nev \in 1 .. N - 2 :
    Separated(Spectrum(N, B), nev) =>
      PrintT("EIG" \o ToJson([A |-> A, nev |-> nev, S |-> S, T |-> T, B |-> B]))
=============================================================================
