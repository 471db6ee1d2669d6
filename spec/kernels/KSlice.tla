------------------------------- MODULE KSlice --------------------------------
(* get_csr_submatrix, csr_column_index1/2, csr_row_index, csr_row_slice     *)
(* (src/row.rs).                                                            *)
EXTENDS Scopes

Mats == CsrUpTo({<<2, 2>>, <<1, 3>>, <<3, 1>>}, 3, Distinct) \cup CsrUpTo({<<2, 3>>}, 2, Distinct)
          \cup (IF Deep THEN CsrUpTo({<<3, 3>>, <<2, 3>>}, 3, Distinct) ELSE {})
Lists(n, k) == UNION {Seqs(0 .. n - 1, t) : t \in 0 .. k}
Subs(m)  == {[w |-> "sub", r0 |-> u[1], r1 |-> u[2], c0 |-> v[1], c1 |-> v[2]] :
               u \in {t \in (0 .. m.r) \X (0 .. m.r) : t[1] <= t[2]},
               v \in {t \in (0 .. m.c) \X (0 .. m.c) : t[1] <= t[2]}}
Slices(m) == {[w |-> "slice", start |-> a, stop |-> b, step |-> s] : a \in 0 .. m.r, b \in 0 .. m.r, s \in 1 .. 3}
Idxs(m)  == {[w |-> "row", idx |-> q] : q \in Lists(m.r, 2)}
Cols(m)  == {[w |-> "col", idx |-> q] : q \in Lists(m.c, IF Deep THEN 3 ELSE 2)}

(* A caller of column_index2 passes the stable order of the wanted columns. *)
OrderOf(idx) ==
  LET t == SortSeq([k \in DOMAIN idx |-> <<idx[k], k - 1>>],
                   LAMBDA u, v : u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]))
  IN  [k \in 0 .. Len(idx) - 1 |-> t[k + 1][2]]

(*--fair algorithm slice
variables
  A \in Mats,
  q \in Subs(A) \cup Slices(A) \cup Idxs(A) \cup Cols(A),
  i = 0, jj = 0, kk = 0, newnnz = 0, row = 0, k = 0,
  bp = <<>>, bj = <<>>, bx = <<>>,
  off = Arr(A.c, 0);
define
  Rows == IF q.w = "sub" THEN q.r1 - q.r0 ELSE A.r
  Result == CompRec("csr", Rows, IF q.w = "sub" THEN q.c1 - q.c0 ELSE Len(q.idx), S(bp), S(bj), S(bx))
end define;
begin
disp:    if q.w = "row" then goto rowidx; elsif q.w = "slice" then goto rowsl; elsif q.w = "col" then goto col; end if;
sub:     while i < Rows do
           jj := A.p[q.r0 + i + 1];
subc:      while jj < A.p[q.r0 + i + 2] do
             if A.j[jj + 1] >= q.c0 /\ A.j[jj + 1] < q.c1 then newnnz := newnnz + 1; end if;
             jj := jj + 1;
           end while;
           i := i + 1;
         end while;
suba:    bp := Arr(Rows + 1, 0);  bj := Arr(newnnz, 0);  bx := Arr(newnnz, 0);
         i := 0;
fill:    while i < Rows do
           jj := A.p[q.r0 + i + 1];
fillc:     while jj < A.p[q.r0 + i + 2] do
             if A.j[jj + 1] >= q.c0 /\ A.j[jj + 1] < q.c1 then
               bj[kk] := Ix(A.j[jj + 1] - q.c0, 9);
               bx[kk] := A.x[jj + 1];
               kk := kk + 1;
             end if;
             jj := jj + 1;
           end while;
           bp[i + 1] := kk;
           i := i + 1;
         end while;
         goto fin;
rowidx:  bj := <<>>;  bx := <<>>;
ridx:    while i < Len(q.idx) do
           bj := bj \o [t \in 1 .. A.p[q.idx[i + 1] + 2] - A.p[q.idx[i + 1] + 1] |-> A.j[A.p[q.idx[i + 1] + 1] + t]];
           bx := bx \o [t \in 1 .. A.p[q.idx[i + 1] + 2] - A.p[q.idx[i + 1] + 1] |-> A.x[A.p[q.idx[i + 1] + 1] + t]];
           i := i + 1;
         end while;
         goto fin;
rowsl:   row := q.start;
rsl:     while row < q.stop do
           bj := bj \o [t \in 1 .. A.p[row + 2] - A.p[row + 1] |-> A.j[A.p[row + 1] + t]];
           bx := bx \o [t \in 1 .. A.p[row + 2] - A.p[row + 1] |-> A.x[A.p[row + 1] + t]];
           row := row + q.step;
         end while;
         goto fin;
col:     while i < Len(q.idx) do
           off[q.idx[i + 1]] := off[q.idx[i + 1]] + 1;
           i := i + 1;
         end while;
         i := 0;
         bp := Junks(A.r + 1);
colz:    bp[0] := 0;
colr:    while i < A.r do
           jj := A.p[i + 1];
colc:      while jj < A.p[i + 2] do
             newnnz := newnnz + off[A.j[jj + 1]];
             jj := jj + 1;
           end while;
           bp[i + 1] := newnnz;
           i := i + 1;
         end while;
         i := 1;
colp:    while i < A.c do
           off[i] := off[i] + off[i - 1];
           i := i + 1;
         end while;
         bj := Junks(newnnz);  bx := Junks(newnnz);
         jj := 0;
colg:    while jj < A.n do
           k := IF A.j[jj + 1] = 0 THEN 0 ELSE off[A.j[jj + 1] - 1];
colk:      while k < off[A.j[jj + 1]] do
             bj[kk] := OrderOf(q.idx)[k];
             bx[kk] := A.x[jj + 1];
             kk := kk + 1;
             k := k + 1;
           end while;
           jj := jj + 1;
         end while;
fin:     print Beh("slice", <<A>>, q, <<IF q.w \in {"sub", "col"} THEN Result ELSE bj>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, A, q, i, jj, kk, newnnz, row, k, bp, bj, bx, off

(* define statement *)
Rows == IF q.w = "sub" THEN q.r1 - q.r0 ELSE A.r
Result == CompRec("csr", Rows, IF q.w = "sub" THEN q.c1 - q.c0 ELSE Len(q.idx), S(bp), S(bj), S(bx))


vars == << pc, A, q, i, jj, kk, newnnz, row, k, bp, bj, bx, off >>

Init == (* Global variables *)
        /\ A \in Mats
        /\ q \in (Subs(A) \cup Slices(A) \cup Idxs(A) \cup Cols(A))
        /\ i = 0
        /\ jj = 0
        /\ kk = 0
        /\ newnnz = 0
        /\ row = 0
        /\ k = 0
        /\ bp = <<>>
        /\ bj = <<>>
        /\ bx = <<>>
        /\ off = Arr(A.c, 0)
        /\ pc = "disp"

disp == /\ pc = "disp"
        /\ IF q.w = "row"
              THEN /\ pc' = "rowidx"
              ELSE /\ IF q.w = "slice"
                         THEN /\ pc' = "rowsl"
                         ELSE /\ IF q.w = "col"
                                    THEN /\ pc' = "col"
                                    ELSE /\ pc' = "sub"
        /\ UNCHANGED << A, q, i, jj, kk, newnnz, row, k, bp, bj, bx, off >>

sub == /\ pc = "sub"
       /\ IF i < Rows
             THEN /\ jj' = A.p[q.r0 + i + 1]
                  /\ pc' = "subc"
             ELSE /\ pc' = "suba"
                  /\ jj' = jj
       /\ UNCHANGED << A, q, i, kk, newnnz, row, k, bp, bj, bx, off >>

subc == /\ pc = "subc"
        /\ IF jj < A.p[q.r0 + i + 2]
              THEN /\ IF A.j[jj + 1] >= q.c0 /\ A.j[jj + 1] < q.c1
                         THEN /\ newnnz' = newnnz + 1
                         ELSE /\ TRUE
                              /\ UNCHANGED newnnz
                   /\ jj' = jj + 1
                   /\ pc' = "subc"
                   /\ i' = i
              ELSE /\ i' = i + 1
                   /\ pc' = "sub"
                   /\ UNCHANGED << jj, newnnz >>
        /\ UNCHANGED << A, q, kk, row, k, bp, bj, bx, off >>

suba == /\ pc = "suba"
        /\ bp' = Arr(Rows + 1, 0)
        /\ bj' = Arr(newnnz, 0)
        /\ bx' = Arr(newnnz, 0)
        /\ i' = 0
        /\ pc' = "fill"
        /\ UNCHANGED << A, q, jj, kk, newnnz, row, k, off >>

fill == /\ pc = "fill"
        /\ IF i < Rows
              THEN /\ jj' = A.p[q.r0 + i + 1]
                   /\ pc' = "fillc"
              ELSE /\ pc' = "fin"
                   /\ jj' = jj
        /\ UNCHANGED << A, q, i, kk, newnnz, row, k, bp, bj, bx, off >>

fillc == /\ pc = "fillc"
         /\ IF jj < A.p[q.r0 + i + 2]
               THEN /\ IF A.j[jj + 1] >= q.c0 /\ A.j[jj + 1] < q.c1
                          THEN /\ bj' = [bj EXCEPT ![kk] = Ix(A.j[jj + 1] - q.c0, 9)]
                               /\ bx' = [bx EXCEPT ![kk] = A.x[jj + 1]]
                               /\ kk' = kk + 1
                          ELSE /\ TRUE
                               /\ UNCHANGED << kk, bj, bx >>
                    /\ jj' = jj + 1
                    /\ pc' = "fillc"
                    /\ UNCHANGED << i, bp >>
               ELSE /\ bp' = [bp EXCEPT ![i + 1] = kk]
                    /\ i' = i + 1
                    /\ pc' = "fill"
                    /\ UNCHANGED << jj, kk, bj, bx >>
         /\ UNCHANGED << A, q, newnnz, row, k, off >>

rowidx == /\ pc = "rowidx"
          /\ bj' = <<>>
          /\ bx' = <<>>
          /\ pc' = "ridx"
          /\ UNCHANGED << A, q, i, jj, kk, newnnz, row, k, bp, off >>

ridx == /\ pc = "ridx"
        /\ IF i < Len(q.idx)
              THEN /\ bj' = bj \o [t \in 1 .. A.p[q.idx[i + 1] + 2] - A.p[q.idx[i + 1] + 1] |-> A.j[A.p[q.idx[i + 1] + 1] + t]]
                   /\ bx' = bx \o [t \in 1 .. A.p[q.idx[i + 1] + 2] - A.p[q.idx[i + 1] + 1] |-> A.x[A.p[q.idx[i + 1] + 1] + t]]
                   /\ i' = i + 1
                   /\ pc' = "ridx"
              ELSE /\ pc' = "fin"
                   /\ UNCHANGED << i, bj, bx >>
        /\ UNCHANGED << A, q, jj, kk, newnnz, row, k, bp, off >>

rowsl == /\ pc = "rowsl"
         /\ row' = q.start
         /\ pc' = "rsl"
         /\ UNCHANGED << A, q, i, jj, kk, newnnz, k, bp, bj, bx, off >>

rsl == /\ pc = "rsl"
       /\ IF row < q.stop
             THEN /\ bj' = bj \o [t \in 1 .. A.p[row + 2] - A.p[row + 1] |-> A.j[A.p[row + 1] + t]]
                  /\ bx' = bx \o [t \in 1 .. A.p[row + 2] - A.p[row + 1] |-> A.x[A.p[row + 1] + t]]
                  /\ row' = row + q.step
                  /\ pc' = "rsl"
             ELSE /\ pc' = "fin"
                  /\ UNCHANGED << row, bj, bx >>
       /\ UNCHANGED << A, q, i, jj, kk, newnnz, k, bp, off >>

col == /\ pc = "col"
       /\ IF i < Len(q.idx)
             THEN /\ off' = [off EXCEPT ![q.idx[i + 1]] = off[q.idx[i + 1]] + 1]
                  /\ i' = i + 1
                  /\ pc' = "col"
                  /\ bp' = bp
             ELSE /\ i' = 0
                  /\ bp' = Junks(A.r + 1)
                  /\ pc' = "colz"
                  /\ off' = off
       /\ UNCHANGED << A, q, jj, kk, newnnz, row, k, bj, bx >>

colz == /\ pc = "colz"
        /\ bp' = [bp EXCEPT ![0] = 0]
        /\ pc' = "colr"
        /\ UNCHANGED << A, q, i, jj, kk, newnnz, row, k, bj, bx, off >>

colr == /\ pc = "colr"
        /\ IF i < A.r
              THEN /\ jj' = A.p[i + 1]
                   /\ pc' = "colc"
                   /\ i' = i
              ELSE /\ i' = 1
                   /\ pc' = "colp"
                   /\ jj' = jj
        /\ UNCHANGED << A, q, kk, newnnz, row, k, bp, bj, bx, off >>

colc == /\ pc = "colc"
        /\ IF jj < A.p[i + 2]
              THEN /\ newnnz' = newnnz + off[A.j[jj + 1]]
                   /\ jj' = jj + 1
                   /\ pc' = "colc"
                   /\ UNCHANGED << i, bp >>
              ELSE /\ bp' = [bp EXCEPT ![i + 1] = newnnz]
                   /\ i' = i + 1
                   /\ pc' = "colr"
                   /\ UNCHANGED << jj, newnnz >>
        /\ UNCHANGED << A, q, kk, row, k, bj, bx, off >>

colp == /\ pc = "colp"
        /\ IF i < A.c
              THEN /\ off' = [off EXCEPT ![i] = off[i] + off[i - 1]]
                   /\ i' = i + 1
                   /\ pc' = "colp"
                   /\ UNCHANGED << jj, bj, bx >>
              ELSE /\ bj' = Junks(newnnz)
                   /\ bx' = Junks(newnnz)
                   /\ jj' = 0
                   /\ pc' = "colg"
                   /\ UNCHANGED << i, off >>
        /\ UNCHANGED << A, q, kk, newnnz, row, k, bp >>

colg == /\ pc = "colg"
        /\ IF jj < A.n
              THEN /\ k' = (IF A.j[jj + 1] = 0 THEN 0 ELSE off[A.j[jj + 1] - 1])
                   /\ pc' = "colk"
              ELSE /\ pc' = "fin"
                   /\ k' = k
        /\ UNCHANGED << A, q, i, jj, kk, newnnz, row, bp, bj, bx, off >>

colk == /\ pc = "colk"
        /\ IF k < off[A.j[jj + 1]]
              THEN /\ bj' = [bj EXCEPT ![kk] = OrderOf(q.idx)[k]]
                   /\ bx' = [bx EXCEPT ![kk] = A.x[jj + 1]]
                   /\ kk' = kk + 1
                   /\ k' = k + 1
                   /\ pc' = "colk"
                   /\ jj' = jj
              ELSE /\ jj' = jj + 1
                   /\ pc' = "colg"
                   /\ UNCHANGED << kk, k, bj, bx >>
        /\ UNCHANGED << A, q, i, newnnz, row, bp, off >>

fin == /\ pc = "fin"
       /\ PrintT(Beh("slice", <<A>>, q, <<IF q.w \in {"sub", "col"} THEN Result ELSE bj>>))
       /\ pc' = "Done"
       /\ UNCHANGED << A, q, i, jj, kk, newnnz, row, k, bp, bj, bx, off >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == disp \/ sub \/ subc \/ suba \/ fill \/ fillc \/ rowidx \/ ridx
           \/ rowsl \/ rsl \/ col \/ colz \/ colr \/ colc \/ colp \/ colg \/ colk
           \/ fin
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Filled == pc = "Done" /\ q.w \in {"sub", "col"} => kk = newnnz
Refines == pc = "Done" =>
  CASE q.w = "sub"   -> PostMake([op |-> "k_submatrix", r0 |-> q.r0, r1 |-> q.r1, c0 |-> q.c0, c1 |-> q.c1], <<A>>, Result)
    [] q.w = "col"   -> PostMake([op |-> "k_col_index", idx |-> q.idx], <<A>>, Result)
    [] q.w = "row"   -> PostRead([op |-> "k_row_index", idx |-> q.idx], <<A>>, <<bj, bx>>)
    [] q.w = "slice" -> PostRead([op |-> "k_row_slice", start |-> q.start, stop |-> q.stop, step |-> q.step], <<A>>, <<bj, bx>>)
=============================================================================
