-------------------------------- MODULE KDiag --------------------------------
(* csr_diagonal (src/row.rs) for every diagonal k, duplicates included;     *)
(* csc_diagonal reads the same arrays with the roles of row and column      *)
(* exchanged and -k.                                                        *)
EXTENDS Scopes

Mats == CsrUpTo({<<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 1>>, <<0, 2>>, <<2, 0>>}, 3, Distinct)
          \cup (IF Deep THEN CsrUpTo({<<3, 3>>}, 4, Distinct) ELSE {})

(*--fair algorithm diag
variables
  A \in Mats, k \in -3 .. 3,
  y = <<>>, i = 0, j = 0, d = 0,
  firstrow = 0, firstcol = 0, n = 0;
begin
init:    if k < -A.r \/ k > A.c then goto stop; end if;
size:    firstrow := IF k >= 0 THEN 0 ELSE -k;
         firstcol := IF k >= 0 THEN k ELSE 0;
         n := Min2(Ix(A.r - firstrow, 9), Ix(A.c - firstcol, 9));
         y := Junks(n);
rows:    while i < n do
           d := 0;
           j := A.p[firstrow + i + 1];
cols:      while j < A.p[firstrow + i + 2] do
             if A.j[j + 1] = firstcol + i then d := d + A.x[j + 1]; end if;
             j := j + 1;
           end while;
           y[i] := d;
           i := i + 1;
         end while;
         print Beh("diag", <<A>>, [k |-> k], <<S(y)>>);
stop:    skip;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, A, k, y, i, j, d, firstrow, firstcol, n

vars == << pc, A, k, y, i, j, d, firstrow, firstcol, n >>

Init == (* Global variables *)
        /\ A \in Mats
        /\ k \in -3 .. 3
        /\ y = <<>>
        /\ i = 0
        /\ j = 0
        /\ d = 0
        /\ firstrow = 0
        /\ firstcol = 0
        /\ n = 0
        /\ pc = "init"

init == /\ pc = "init"
        /\ IF k < -A.r \/ k > A.c
              THEN /\ pc' = "stop"
              ELSE /\ pc' = "size"
        /\ UNCHANGED << A, k, y, i, j, d, firstrow, firstcol, n >>

size == /\ pc = "size"
        /\ firstrow' = (IF k >= 0 THEN 0 ELSE -k)
        /\ firstcol' = (IF k >= 0 THEN k ELSE 0)
        /\ n' = Min2(Ix(A.r - firstrow', 9), Ix(A.c - firstcol', 9))
        /\ y' = Junks(n')
        /\ pc' = "rows"
        /\ UNCHANGED << A, k, i, j, d >>

rows == /\ pc = "rows"
        /\ IF i < n
              THEN /\ d' = 0
                   /\ j' = A.p[firstrow + i + 1]
                   /\ pc' = "cols"
              ELSE /\ PrintT(Beh("diag", <<A>>, [k |-> k], <<S(y)>>))
                   /\ pc' = "stop"
                   /\ UNCHANGED << j, d >>
        /\ UNCHANGED << A, k, y, i, firstrow, firstcol, n >>

cols == /\ pc = "cols"
        /\ IF j < A.p[firstrow + i + 2]
              THEN /\ IF A.j[j + 1] = firstcol + i
                         THEN /\ d' = d + A.x[j + 1]
                         ELSE /\ TRUE
                              /\ d' = d
                   /\ j' = j + 1
                   /\ pc' = "cols"
                   /\ UNCHANGED << y, i >>
              ELSE /\ y' = [y EXCEPT ![i] = d]
                   /\ i' = i + 1
                   /\ pc' = "rows"
                   /\ UNCHANGED << j, d >>
        /\ UNCHANGED << A, k, firstrow, firstcol, n >>

stop == /\ pc = "stop"
        /\ TRUE
        /\ pc' = "Done"
        /\ UNCHANGED << A, k, y, i, j, d, firstrow, firstcol, n >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == init \/ size \/ rows \/ cols \/ stop
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Refines == pc = "stop" /\ -A.r <= k /\ k <= A.c =>
   PostRead([op |-> "k_csr_diagonal", k |-> k], <<A>>, S(y))
=============================================================================
