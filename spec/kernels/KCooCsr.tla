------------------------------- MODULE KCooCsr -------------------------------
(* Coo::to_csr / to_csc: coo_tocsr (src/coord.rs), canonical test,          *)
(* sort per row, sum of duplicates, truncation (src/row.rs, CSR::prune).    *)
EXTENDS Scopes

Inputs == CooUpTo(AllShapes, 3, Distinct)
            \cup CooUpTo({<<1, 2>>, <<2, 2>>}, IF Deep THEN 4 ELSE 3, SignsZ)
            \cup (IF Deep THEN CooUpTo({<<2, 2>>, <<3, 3>>}, 4, Distinct) ELSE {})

(* The library's sort_by is stable.                                         *)
StableSort(seq) == SortSeq([k \in DOMAIN seq |-> <<seq[k][1], k, seq[k]>>],
                           LAMBDA u, v : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]))

(*--fair algorithm coocsr
variables
  A \in Inputs,
  cap = Max2(A.n, Max2(A.r, A.c)),
  ai = Z(A.i), aj = Z(A.j), ax = Z(A.x),
  bp = Arr(A.r + 1, 0), bj = Arr(A.n, 0), bx = Arr(A.n, 0),
  n = 0, cumsum = 0, i = 0, last = 0,
  mid = <<>>, canon = TRUE,
  jj = 0, rowend = 0, nnz = 0, x = 0, j = 0;
define
  Result == CompRec("csr", A.r, A.c, S(bp), S(bj), S(bx))
end define;
begin
count:   while n < A.n do
           bp[ai[n]] := Ix(bp[ai[n]] + 1, cap);
           n := n + 1;
         end while;
prefix:  while i < A.r do
           cumsum := Ix(cumsum + bp[i], cap) || bp[i] := cumsum;
           i := i + 1;
         end while;
         bp[A.r] := A.n;
         n := 0;
place:   while n < A.n do
           with row = ai[n], dest = bp[ai[n]] do
             assert dest \in DOMAIN bj;
             bj[dest] := aj[n];
             bx[dest] := ax[n];
             bp[row] := Ix(bp[row] + 1, cap);
           end with;
           n := n + 1;
         end while;
         i := 0;
shift:   while i <= A.r do
           last := bp[i] || bp[i] := last;
           i := i + 1;
         end while;
         mid := Result;               \* what coo_tocsr hands over
         i := 0;
test:    while canon /\ i < A.r do
           if bp[i] > bp[i + 1] then canon := FALSE; end if;
           jj := bp[i] + 1;
testrow:   while canon /\ jj < bp[i + 1] do
             if ~(bj[jj - 1] < bj[jj]) then canon := FALSE; end if;
             jj := jj + 1;
           end while;
           i := i + 1;
         end while;
         if canon then goto fin; end if;
sort0:   i := 0;
sort:    while i < A.r do
           with t = StableSort([k \in 1 .. bp[i + 1] - bp[i] |-> <<bj[bp[i] + k - 1], bx[bp[i] + k - 1]>>]) do
             bj := [k \in DOMAIN bj |-> IF bp[i] <= k /\ k < bp[i + 1] THEN t[k - bp[i] + 1][3][1] ELSE bj[k]];
             bx := [k \in DOMAIN bx |-> IF bp[i] <= k /\ k < bp[i + 1] THEN t[k - bp[i] + 1][3][2] ELSE bx[k]];
           end with;
           i := i + 1;
         end while;
         i := 0;
sumrow:  while i < A.r do
           jj := rowend;
           rowend := bp[i + 1];
sumcol:    while jj < rowend do
             j := bj[jj];
             x := bx[jj];
             jj := jj + 1;
sumdup:      while jj < rowend /\ bj[jj] = j do
               x := x + bx[jj];
               jj := jj + 1;
             end while;
             bj[nnz] := j;
             bx[nnz] := x;
             nnz := nnz + 1;
           end while;
           bp[i + 1] := nnz;
           i := i + 1;
         end while;
fin:     print Beh("coocsr", <<A>>, Nil, <<mid, Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, A, cap, ai, aj, ax, bp, bj, bx, n, cumsum, i, last, mid, canon, 
          jj, rowend, nnz, x, j

(* define statement *)
Result == CompRec("csr", A.r, A.c, S(bp), S(bj), S(bx))


vars == << pc, A, cap, ai, aj, ax, bp, bj, bx, n, cumsum, i, last, mid, canon, 
           jj, rowend, nnz, x, j >>

Init == (* Global variables *)
        /\ A \in Inputs
        /\ cap = Max2(A.n, Max2(A.r, A.c))
        /\ ai = Z(A.i)
        /\ aj = Z(A.j)
        /\ ax = Z(A.x)
        /\ bp = Arr(A.r + 1, 0)
        /\ bj = Arr(A.n, 0)
        /\ bx = Arr(A.n, 0)
        /\ n = 0
        /\ cumsum = 0
        /\ i = 0
        /\ last = 0
        /\ mid = <<>>
        /\ canon = TRUE
        /\ jj = 0
        /\ rowend = 0
        /\ nnz = 0
        /\ x = 0
        /\ j = 0
        /\ pc = "count"

count == /\ pc = "count"
         /\ IF n < A.n
               THEN /\ bp' = [bp EXCEPT ![ai[n]] = Ix(bp[ai[n]] + 1, cap)]
                    /\ n' = n + 1
                    /\ pc' = "count"
               ELSE /\ pc' = "prefix"
                    /\ UNCHANGED << bp, n >>
         /\ UNCHANGED << A, cap, ai, aj, ax, bj, bx, cumsum, i, last, mid, 
                         canon, jj, rowend, nnz, x, j >>

prefix == /\ pc = "prefix"
          /\ IF i < A.r
                THEN /\ /\ bp' = [bp EXCEPT ![i] = cumsum]
                        /\ cumsum' = Ix(cumsum + bp[i], cap)
                     /\ i' = i + 1
                     /\ pc' = "prefix"
                     /\ n' = n
                ELSE /\ bp' = [bp EXCEPT ![A.r] = A.n]
                     /\ n' = 0
                     /\ pc' = "place"
                     /\ UNCHANGED << cumsum, i >>
          /\ UNCHANGED << A, cap, ai, aj, ax, bj, bx, last, mid, canon, jj, 
                          rowend, nnz, x, j >>

place == /\ pc = "place"
         /\ IF n < A.n
               THEN /\ LET row == ai[n] IN
                         LET dest == bp[ai[n]] IN
                           /\ Assert(dest \in DOMAIN bj, 
                                     "Failure of assertion at line 39, column 14.")
                           /\ bj' = [bj EXCEPT ![dest] = aj[n]]
                           /\ bx' = [bx EXCEPT ![dest] = ax[n]]
                           /\ bp' = [bp EXCEPT ![row] = Ix(bp[row] + 1, cap)]
                    /\ n' = n + 1
                    /\ pc' = "place"
                    /\ i' = i
               ELSE /\ i' = 0
                    /\ pc' = "shift"
                    /\ UNCHANGED << bp, bj, bx, n >>
         /\ UNCHANGED << A, cap, ai, aj, ax, cumsum, last, mid, canon, jj, 
                         rowend, nnz, x, j >>

shift == /\ pc = "shift"
         /\ IF i <= A.r
               THEN /\ /\ bp' = [bp EXCEPT ![i] = last]
                       /\ last' = bp[i]
                    /\ i' = i + 1
                    /\ pc' = "shift"
                    /\ mid' = mid
               ELSE /\ mid' = Result
                    /\ i' = 0
                    /\ pc' = "test"
                    /\ UNCHANGED << bp, last >>
         /\ UNCHANGED << A, cap, ai, aj, ax, bj, bx, n, cumsum, canon, jj, 
                         rowend, nnz, x, j >>

test == /\ pc = "test"
        /\ IF canon /\ i < A.r
              THEN /\ IF bp[i] > bp[i + 1]
                         THEN /\ canon' = FALSE
                         ELSE /\ TRUE
                              /\ canon' = canon
                   /\ jj' = bp[i] + 1
                   /\ pc' = "testrow"
              ELSE /\ IF canon
                         THEN /\ pc' = "fin"
                         ELSE /\ pc' = "sort0"
                   /\ UNCHANGED << canon, jj >>
        /\ UNCHANGED << A, cap, ai, aj, ax, bp, bj, bx, n, cumsum, i, last, 
                        mid, rowend, nnz, x, j >>

testrow == /\ pc = "testrow"
           /\ IF canon /\ jj < bp[i + 1]
                 THEN /\ IF ~(bj[jj - 1] < bj[jj])
                            THEN /\ canon' = FALSE
                            ELSE /\ TRUE
                                 /\ canon' = canon
                      /\ jj' = jj + 1
                      /\ pc' = "testrow"
                      /\ i' = i
                 ELSE /\ i' = i + 1
                      /\ pc' = "test"
                      /\ UNCHANGED << canon, jj >>
           /\ UNCHANGED << A, cap, ai, aj, ax, bp, bj, bx, n, cumsum, last, 
                           mid, rowend, nnz, x, j >>

sort0 == /\ pc = "sort0"
         /\ i' = 0
         /\ pc' = "sort"
         /\ UNCHANGED << A, cap, ai, aj, ax, bp, bj, bx, n, cumsum, last, mid, 
                         canon, jj, rowend, nnz, x, j >>

sort == /\ pc = "sort"
        /\ IF i < A.r
              THEN /\ LET t == StableSort([k \in 1 .. bp[i + 1] - bp[i] |-> <<bj[bp[i] + k - 1], bx[bp[i] + k - 1]>>]) IN
                        /\ bj' = [k \in DOMAIN bj |-> IF bp[i] <= k /\ k < bp[i + 1] THEN t[k - bp[i] + 1][3][1] ELSE bj[k]]
                        /\ bx' = [k \in DOMAIN bx |-> IF bp[i] <= k /\ k < bp[i + 1] THEN t[k - bp[i] + 1][3][2] ELSE bx[k]]
                   /\ i' = i + 1
                   /\ pc' = "sort"
              ELSE /\ i' = 0
                   /\ pc' = "sumrow"
                   /\ UNCHANGED << bj, bx >>
        /\ UNCHANGED << A, cap, ai, aj, ax, bp, n, cumsum, last, mid, canon, 
                        jj, rowend, nnz, x, j >>

sumrow == /\ pc = "sumrow"
          /\ IF i < A.r
                THEN /\ jj' = rowend
                     /\ rowend' = bp[i + 1]
                     /\ pc' = "sumcol"
                ELSE /\ pc' = "fin"
                     /\ UNCHANGED << jj, rowend >>
          /\ UNCHANGED << A, cap, ai, aj, ax, bp, bj, bx, n, cumsum, i, last, 
                          mid, canon, nnz, x, j >>

sumcol == /\ pc = "sumcol"
          /\ IF jj < rowend
                THEN /\ j' = bj[jj]
                     /\ x' = bx[jj]
                     /\ jj' = jj + 1
                     /\ pc' = "sumdup"
                     /\ UNCHANGED << bp, i >>
                ELSE /\ bp' = [bp EXCEPT ![i + 1] = nnz]
                     /\ i' = i + 1
                     /\ pc' = "sumrow"
                     /\ UNCHANGED << jj, x, j >>
          /\ UNCHANGED << A, cap, ai, aj, ax, bj, bx, n, cumsum, last, mid, 
                          canon, rowend, nnz >>

sumdup == /\ pc = "sumdup"
          /\ IF jj < rowend /\ bj[jj] = j
                THEN /\ x' = x + bx[jj]
                     /\ jj' = jj + 1
                     /\ pc' = "sumdup"
                     /\ UNCHANGED << bj, bx, nnz >>
                ELSE /\ bj' = [bj EXCEPT ![nnz] = j]
                     /\ bx' = [bx EXCEPT ![nnz] = x]
                     /\ nnz' = nnz + 1
                     /\ pc' = "sumcol"
                     /\ UNCHANGED << jj, x >>
          /\ UNCHANGED << A, cap, ai, aj, ax, bp, n, cumsum, i, last, mid, 
                          canon, rowend, j >>

fin == /\ pc = "fin"
       /\ PrintT(Beh("coocsr", <<A>>, Nil, <<mid, Result>>))
       /\ pc' = "Done"
       /\ UNCHANGED << A, cap, ai, aj, ax, bp, bj, bx, n, cumsum, i, last, mid, 
                       canon, jj, rowend, nnz, x, j >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == count \/ prefix \/ place \/ shift \/ test \/ testrow \/ sort0
           \/ sort \/ sumrow \/ sumcol \/ sumdup \/ fin
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

(* In-place summation never overwrites an entry still to be read.           *)
WriteBehindRead == pc \in {"sumrow", "sumcol", "sumdup"} => nnz <= jj
MidRefines == mid # <<>> => PostMake([op |-> "k_coo_tocsr"], <<A>>, mid)
Refines == pc = "Done" => PostMake([op |-> "coo_to_csr"], <<A>>, Result)
=============================================================================
