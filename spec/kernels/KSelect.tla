------------------------------- MODULE KSelect -------------------------------
(* csr_select (src/row.rs): two passes, the first counting, the second      *)
(* looking every wanted column up in a hash map of the row.                 *)
EXTENDS Scopes

Mats == CanonUpTo({<<2, 2>>, <<1, 2>>, <<2, 1>>, <<2, 3>>}, 3, Distinct)
          \cup CanonUpTo({<<0, 2>>, <<2, 0>>}, 0, Distinct)
          \cup (IF Deep THEN CanonUpTo({<<3, 3>>}, 3, Distinct) ELSE {})
Lists(n, k) == UNION {Seqs(0 .. n - 1, t) : t \in 0 .. k}

(*--fair algorithm select
variables
  A \in Mats,
  rows \in Lists(A.r, 2), cols \in Lists(A.c, IF Deep THEN 3 ELSE 2),
  newnnz = 0, r = 0, c = 0, kk = 0, map = <<>>,
  bp = <<>>, bj = <<>>, bx = <<>>;
define
  RowSet(row) == {A.j[t] : t \in (A.p[row + 1] + 1) .. A.p[row + 2]}
  Result == CompRec("csr", Len(rows), Len(cols), S(bp), S(bj), S(bx))
end define;
begin
count:   while r < Len(rows) do
           newnnz := newnnz + Cardinality({t \in DOMAIN cols : cols[t] \in RowSet(rows[r + 1])});
           r := r + 1;
         end while;
alloc:   bp := Arr(Len(rows) + 1, 0);
         bj := Arr(newnnz, 0);
         bx := Arr(newnnz, 0);
         r := 0;
row:     while r < Len(rows) do
           map := [q \in RowSet(rows[r + 1]) |->
                     Max({t \in (A.p[rows[r + 1] + 1] + 1) .. A.p[rows[r + 1] + 2] : A.j[t] = q})];
           c := 0;
col:       while c < Len(cols) do
             if cols[c + 1] \in DOMAIN map then
               assert kk \in DOMAIN bj;
               bj[kk] := c;
               bx[kk] := A.x[map[cols[c + 1]]];
               kk := kk + 1;
             end if;
             c := c + 1;
           end while;
           bp[r + 1] := kk;
           r := r + 1;
         end while;
         print Beh("select", <<A>>, [rows |-> rows, cols |-> cols], <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, A, rows, cols, newnnz, r, c, kk, map, bp, bj, bx

(* define statement *)
RowSet(row) == {A.j[t] : t \in (A.p[row + 1] + 1) .. A.p[row + 2]}
Result == CompRec("csr", Len(rows), Len(cols), S(bp), S(bj), S(bx))


vars == << pc, A, rows, cols, newnnz, r, c, kk, map, bp, bj, bx >>

Init == (* Global variables *)
        /\ A \in Mats
        /\ rows \in Lists(A.r, 2)
        /\ cols \in Lists(A.c, IF Deep THEN 3 ELSE 2)
        /\ newnnz = 0
        /\ r = 0
        /\ c = 0
        /\ kk = 0
        /\ map = <<>>
        /\ bp = <<>>
        /\ bj = <<>>
        /\ bx = <<>>
        /\ pc = "count"

count == /\ pc = "count"
         /\ IF r < Len(rows)
               THEN /\ newnnz' = newnnz + Cardinality({t \in DOMAIN cols : cols[t] \in RowSet(rows[r + 1])})
                    /\ r' = r + 1
                    /\ pc' = "count"
               ELSE /\ pc' = "alloc"
                    /\ UNCHANGED << newnnz, r >>
         /\ UNCHANGED << A, rows, cols, c, kk, map, bp, bj, bx >>

alloc == /\ pc = "alloc"
         /\ bp' = Arr(Len(rows) + 1, 0)
         /\ bj' = Arr(newnnz, 0)
         /\ bx' = Arr(newnnz, 0)
         /\ r' = 0
         /\ pc' = "row"
         /\ UNCHANGED << A, rows, cols, newnnz, c, kk, map >>

row == /\ pc = "row"
       /\ IF r < Len(rows)
             THEN /\ map' = [q \in RowSet(rows[r + 1]) |->
                               Max({t \in (A.p[rows[r + 1] + 1] + 1) .. A.p[rows[r + 1] + 2] : A.j[t] = q})]
                  /\ c' = 0
                  /\ pc' = "col"
             ELSE /\ PrintT(Beh("select", <<A>>, [rows |-> rows, cols |-> cols], <<Result>>))
                  /\ pc' = "Done"
                  /\ UNCHANGED << c, map >>
       /\ UNCHANGED << A, rows, cols, newnnz, r, kk, bp, bj, bx >>

col == /\ pc = "col"
       /\ IF c < Len(cols)
             THEN /\ IF cols[c + 1] \in DOMAIN map
                        THEN /\ Assert(kk \in DOMAIN bj, 
                                       "Failure of assertion at line 36, column 16.")
                             /\ bj' = [bj EXCEPT ![kk] = c]
                             /\ bx' = [bx EXCEPT ![kk] = A.x[map[cols[c + 1]]]]
                             /\ kk' = kk + 1
                        ELSE /\ TRUE
                             /\ UNCHANGED << kk, bj, bx >>
                  /\ c' = c + 1
                  /\ pc' = "col"
                  /\ UNCHANGED << r, bp >>
             ELSE /\ bp' = [bp EXCEPT ![r + 1] = kk]
                  /\ r' = r + 1
                  /\ pc' = "row"
                  /\ UNCHANGED << c, kk, bj, bx >>
       /\ UNCHANGED << A, rows, cols, newnnz, map >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == count \/ alloc \/ row \/ col
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Filled == pc = "Done" => kk = newnnz
Refines == pc = "Done" => PostMake([op |-> "k_select", rows |-> rows, cols |-> cols], <<A>>, Result)
=============================================================================
