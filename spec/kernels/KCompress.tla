------------------------------ MODULE KCompress ------------------------------
(* csr_sum_duplicates and csr_eliminate_zeros (src/row.rs): in-place        *)
(* compaction of the arrays of a compressed matrix.                         *)
EXTENDS Scopes

SortedIn(shapes, n, X(_)) == {m \in CsrUpTo(shapes, n, X) : SortedC(m)}
InputsSum  == SortedIn(AllShapes, IF Deep THEN 4 ELSE 3, Distinct) \cup SortedIn({<<1, 2>>, <<2, 2>>}, IF Deep THEN 4 ELSE 3, Signs)
ZerosOnes(n) == {[k \in 1 .. n |-> IF k \in Q THEN 0 ELSE k] : Q \in SUBSET (1 .. n)}
InputsElim == CsrUpTo({<<0, 2>>, <<2, 0>>, <<1, 2>>, <<2, 2>>, <<3, 1>>, <<2, 1>>}, IF Deep THEN 4 ELSE 3, ZerosOnes)

Work == {<<"sumdup", m>> : m \in InputsSum} \cup {<<"elim", m>> : m \in InputsElim}

(*--fair algorithm compress
variables
  W \in Work,
  A = W[2],
  ap = Z(A.p), aj = Z(A.j), ax = Z(A.x),
  i = 0, jj = 0, rowend = 0, nnz = 0, x = 0, j = 0;
define
  Result == CompRec("csr", A.r, A.c, S(ap), S(aj), S(ax))
end define;
begin
rows:    while i < A.r do
           jj := rowend;
           rowend := ap[i + 1];
cols:      while jj < rowend do
             j := aj[jj];
             x := ax[jj];
             if W[1] = "elim" then
               if x # 0 then
                 aj[nnz] := j;
                 ax[nnz] := x;
                 nnz := nnz + 1;
               end if;
               jj := jj + 1;
             else
               jj := jj + 1;
dup:           while jj < rowend /\ aj[jj] = j do
                 x := x + ax[jj];
                 jj := jj + 1;
               end while;
               aj[nnz] := j;
               ax[nnz] := x;
               nnz := nnz + 1;
             end if;
           end while;
           ap[i + 1] := nnz;
           i := i + 1;
         end while;
         print Beh(W[1], <<A>>, Nil, <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, W, A, ap, aj, ax, i, jj, rowend, nnz, x, j

(* define statement *)
Result == CompRec("csr", A.r, A.c, S(ap), S(aj), S(ax))


vars == << pc, W, A, ap, aj, ax, i, jj, rowend, nnz, x, j >>

Init == (* Global variables *)
        /\ W \in Work
        /\ A = W[2]
        /\ ap = Z(A.p)
        /\ aj = Z(A.j)
        /\ ax = Z(A.x)
        /\ i = 0
        /\ jj = 0
        /\ rowend = 0
        /\ nnz = 0
        /\ x = 0
        /\ j = 0
        /\ pc = "rows"

rows == /\ pc = "rows"
        /\ IF i < A.r
              THEN /\ jj' = rowend
                   /\ rowend' = ap[i + 1]
                   /\ pc' = "cols"
              ELSE /\ PrintT(Beh(W[1], <<A>>, Nil, <<Result>>))
                   /\ pc' = "Done"
                   /\ UNCHANGED << jj, rowend >>
        /\ UNCHANGED << W, A, ap, aj, ax, i, nnz, x, j >>

cols == /\ pc = "cols"
        /\ IF jj < rowend
              THEN /\ j' = aj[jj]
                   /\ x' = ax[jj]
                   /\ IF W[1] = "elim"
                         THEN /\ IF x' # 0
                                    THEN /\ aj' = [aj EXCEPT ![nnz] = j']
                                         /\ ax' = [ax EXCEPT ![nnz] = x']
                                         /\ nnz' = nnz + 1
                                    ELSE /\ TRUE
                                         /\ UNCHANGED << aj, ax, nnz >>
                              /\ jj' = jj + 1
                              /\ pc' = "cols"
                         ELSE /\ jj' = jj + 1
                              /\ pc' = "dup"
                              /\ UNCHANGED << aj, ax, nnz >>
                   /\ UNCHANGED << ap, i >>
              ELSE /\ ap' = [ap EXCEPT ![i + 1] = nnz]
                   /\ i' = i + 1
                   /\ pc' = "rows"
                   /\ UNCHANGED << aj, ax, jj, nnz, x, j >>
        /\ UNCHANGED << W, A, rowend >>

dup == /\ pc = "dup"
       /\ IF jj < rowend /\ aj[jj] = j
             THEN /\ x' = x + ax[jj]
                  /\ jj' = jj + 1
                  /\ pc' = "dup"
                  /\ UNCHANGED << aj, ax, nnz >>
             ELSE /\ aj' = [aj EXCEPT ![nnz] = j]
                  /\ ax' = [ax EXCEPT ![nnz] = x]
                  /\ nnz' = nnz + 1
                  /\ pc' = "cols"
                  /\ UNCHANGED << jj, x >>
       /\ UNCHANGED << W, A, ap, i, rowend, j >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == rows \/ cols \/ dup
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

WriteBehindRead == nnz <= jj
Refines ==
  pc = "Done" => PostInPlace([op |-> IF W[1] = "elim" THEN "k_elim" ELSE "k_sumdup"], A, Result)
=============================================================================
