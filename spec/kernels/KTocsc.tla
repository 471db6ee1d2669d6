------------------------------- MODULE KTocsc --------------------------------
(* csr_tocsc (src/row.rs): counting sort of CSR entries into columns.       *)
(* csc_tocsr, CSR::to_csc, CSC::to_csr go through it.                       *)
EXTENDS Scopes

Inputs == CsrUpTo(AllShapes, IF Deep THEN 4 ELSE 3, Distinct)
            \cup CsrUpTo({<<3, 3>>}, IF Deep THEN 4 ELSE 2, Distinct)

(*--fair algorithm tocsc
variables
  A \in Inputs,
  nnz = A.n, cap = Max2(A.n, Max2(A.r, A.c)),
  ap = Z(A.p), aj = Z(A.j), ax = Z(A.x),
  bp = Junks(A.c + 1), bi = Junks(A.n), bx = Junks(A.n),
  n = 0, cumsum = 0, col = 0, row = 0, jj = 0, last = 0;
define
  Result == CompRec("csc", A.r, A.c, S(bp), S(bi), S(bx))
end define;
begin
fill:    bp := Arr(A.c + 1, 0);
count:   while n < nnz do
           bp[aj[n]] := Ix(bp[aj[n]] + 1, cap);
           n := n + 1;
         end while;
prefix:  while col < A.c do
           cumsum := Ix(cumsum + bp[col], cap) || bp[col] := cumsum;
           col := col + 1;
         end while;
         bp[A.c] := nnz;
rows:    while row < A.r do
           jj := ap[row];
place:     while jj < ap[row + 1] do
             with c = aj[jj], dest = bp[aj[jj]] do
               assert dest \in DOMAIN bi;
               bi[dest] := row;
               bx[dest] := ax[jj];
               bp[c] := Ix(bp[c] + 1, cap);
             end with;
             jj := jj + 1;
           end while;
           row := row + 1;
         end while;
         col := 0;
shift:   while col <= A.c do
           last := bp[col] || bp[col] := last;
           col := col + 1;
         end while;
         print Beh("tocsc", <<A>>, Nil, <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, A, nnz, cap, ap, aj, ax, bp, bi, bx, n, cumsum, col, row, jj, 
          last

(* define statement *)
Result == CompRec("csc", A.r, A.c, S(bp), S(bi), S(bx))


vars == << pc, A, nnz, cap, ap, aj, ax, bp, bi, bx, n, cumsum, col, row, jj, 
           last >>

Init == (* Global variables *)
        /\ A \in Inputs
        /\ nnz = A.n
        /\ cap = Max2(A.n, Max2(A.r, A.c))
        /\ ap = Z(A.p)
        /\ aj = Z(A.j)
        /\ ax = Z(A.x)
        /\ bp = Junks(A.c + 1)
        /\ bi = Junks(A.n)
        /\ bx = Junks(A.n)
        /\ n = 0
        /\ cumsum = 0
        /\ col = 0
        /\ row = 0
        /\ jj = 0
        /\ last = 0
        /\ pc = "fill"

fill == /\ pc = "fill"
        /\ bp' = Arr(A.c + 1, 0)
        /\ pc' = "count"
        /\ UNCHANGED << A, nnz, cap, ap, aj, ax, bi, bx, n, cumsum, col, row, 
                        jj, last >>

count == /\ pc = "count"
         /\ IF n < nnz
               THEN /\ bp' = [bp EXCEPT ![aj[n]] = Ix(bp[aj[n]] + 1, cap)]
                    /\ n' = n + 1
                    /\ pc' = "count"
               ELSE /\ pc' = "prefix"
                    /\ UNCHANGED << bp, n >>
         /\ UNCHANGED << A, nnz, cap, ap, aj, ax, bi, bx, cumsum, col, row, jj, 
                         last >>

prefix == /\ pc = "prefix"
          /\ IF col < A.c
                THEN /\ /\ bp' = [bp EXCEPT ![col] = cumsum]
                        /\ cumsum' = Ix(cumsum + bp[col], cap)
                     /\ col' = col + 1
                     /\ pc' = "prefix"
                ELSE /\ bp' = [bp EXCEPT ![A.c] = nnz]
                     /\ pc' = "rows"
                     /\ UNCHANGED << cumsum, col >>
          /\ UNCHANGED << A, nnz, cap, ap, aj, ax, bi, bx, n, row, jj, last >>

rows == /\ pc = "rows"
        /\ IF row < A.r
              THEN /\ jj' = ap[row]
                   /\ pc' = "place"
                   /\ col' = col
              ELSE /\ col' = 0
                   /\ pc' = "shift"
                   /\ jj' = jj
        /\ UNCHANGED << A, nnz, cap, ap, aj, ax, bp, bi, bx, n, cumsum, row, 
                        last >>

place == /\ pc = "place"
         /\ IF jj < ap[row + 1]
               THEN /\ LET c == aj[jj] IN
                         LET dest == bp[aj[jj]] IN
                           /\ Assert(dest \in DOMAIN bi, 
                                     "Failure of assertion at line 34, column 16.")
                           /\ bi' = [bi EXCEPT ![dest] = row]
                           /\ bx' = [bx EXCEPT ![dest] = ax[jj]]
                           /\ bp' = [bp EXCEPT ![c] = Ix(bp[c] + 1, cap)]
                    /\ jj' = jj + 1
                    /\ pc' = "place"
                    /\ row' = row
               ELSE /\ row' = row + 1
                    /\ pc' = "rows"
                    /\ UNCHANGED << bp, bi, bx, jj >>
         /\ UNCHANGED << A, nnz, cap, ap, aj, ax, n, cumsum, col, last >>

shift == /\ pc = "shift"
         /\ IF col <= A.c
               THEN /\ /\ bp' = [bp EXCEPT ![col] = last]
                       /\ last' = bp[col]
                    /\ col' = col + 1
                    /\ pc' = "shift"
               ELSE /\ PrintT(Beh("tocsc", <<A>>, Nil, <<Result>>))
                    /\ pc' = "Done"
                    /\ UNCHANGED << bp, col, last >>
         /\ UNCHANGED << A, nnz, cap, ap, aj, ax, bi, bx, n, cumsum, row, jj >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == fill \/ count \/ prefix \/ rows \/ place \/ shift
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

(* Column cursors never pass the start of the next column.                  *)
CursorsOk == pc = "rows" \/ pc = "place" => \A k \in 0 .. A.c - 1 : bp[k] <= bp[k + 1] \/ k + 1 = A.c
Refines == pc = "Done" => PostMake([op |-> "k_csr_tocsc"], <<A>>, Result)
=============================================================================
