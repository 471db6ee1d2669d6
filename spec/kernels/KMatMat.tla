------------------------------- MODULE KMatMat -------------------------------
(* csr_matmat_maxnnz and csr_matmat (src/row.rs), as CSR::mat_mat uses them:*)
(* the count sizes the arrays the product is written to.                    *)
EXTENDS Scopes

PM1(n) == Seqs({1, -1}, n)
L(s, n, X(_)) == CsrUpTo({s}, n, X)
Ins ==
  (L(<<1, 2>>, 2, PM1) \X L(<<2, 2>>, 2, PM1))
  \cup (L(<<2, 2>>, 2, Distinct) \X L(<<2, 2>>, IF Deep THEN 3 ELSE 2, Distinct))
  \cup (L(<<2, 1>>, 2, PM1) \X L(<<1, 2>>, 2, PM1))
  \cup (L(<<0, 2>>, 1, PM1) \X L(<<2, 1>>, 1, PM1))
  \cup (L(<<2, 0>>, 1, PM1) \X L(<<0, 2>>, 1, PM1))
  \cup (L(<<1, 2>>, 1, PM1) \X L(<<2, 0>>, 1, PM1))
  \cup (IF Deep THEN (L(<<1, 2>>, 3, PM1) \X L(<<2, 2>>, 3, PM1))
                   \cup (L(<<2, 3>>, 2, Distinct) \X L(<<3, 2>>, 2, Distinct)) ELSE {})

(*--fair algorithm matmat
variables
  In \in Ins,
  A = In[1], B = In[2],
  ap = Z(A.p), aj = Z(A.j), ax = Z(A.x),
  bp = Z(B.p), bj = Z(B.j), bx = Z(B.x),
  mask = Arr(B.c, -1), maxnnz = 0,
  next = Arr(B.c, -1), sums = Arr(B.c, 0),
  cp = Junks(A.r + 1), cj = <<>>, cx = <<>>,
  i = 0, jj = 0, kk = 0, head = -2, len = 0, nnz = 0;
define
  Result == CompRec("csr", A.r, B.c, S(cp), S(cj), S(cx))
end define;
begin
mrow:    while i < A.r do
           jj := ap[i];
mcol:      while jj < ap[i + 1] do
             kk := bp[aj[jj]];
minner:      while kk < bp[aj[jj] + 1] do
               if mask[bj[kk]] # i then
                 mask[bj[kk]] := i;
                 maxnnz := maxnnz + 1;
               end if;
               kk := kk + 1;
             end while;
             jj := jj + 1;
           end while;
           i := i + 1;
         end while;
alloc:   cj := Junks(maxnnz);
         cx := Junks(maxnnz);
         cp[0] := 0;
         i := 0;
row:     while i < A.r do
           head := -2;  len := 0;
           jj := ap[i];
col:       while jj < ap[i + 1] do
             kk := bp[aj[jj]];
inner:       while kk < bp[aj[jj] + 1] do
               with k = bj[kk] do
                 sums[k] := sums[k] + ax[jj] * bx[kk];
                 if next[k] = -1 then
                   next[k] := head;  head := k;  len := len + 1;
                 end if;
               end with;
               kk := kk + 1;
             end while;
             jj := jj + 1;
           end while;
           jj := 0;
out:       while jj < len do
             if sums[head] # 0 then
               assert nnz \in DOMAIN cj;            \* the count was large enough
               cj[nnz] := head;  cx[nnz] := sums[head];  nnz := nnz + 1;
             end if;
             with t = head do
               head := next[t];
               next[t] := -1;
               sums[t] := 0;
             end with;
             jj := jj + 1;
           end while;
           cp[i + 1] := nnz;
           i := i + 1;
         end while;
         print Beh("matmat", <<A, B>>, Nil, <<Result, maxnnz>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, next, sums, cp, 
          cj, cx, i, jj, kk, head, len, nnz

(* define statement *)
Result == CompRec("csr", A.r, B.c, S(cp), S(cj), S(cx))


vars == << pc, In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, next, sums, cp, 
           cj, cx, i, jj, kk, head, len, nnz >>

Init == (* Global variables *)
        /\ In \in Ins
        /\ A = In[1]
        /\ B = In[2]
        /\ ap = Z(A.p)
        /\ aj = Z(A.j)
        /\ ax = Z(A.x)
        /\ bp = Z(B.p)
        /\ bj = Z(B.j)
        /\ bx = Z(B.x)
        /\ mask = Arr(B.c, -1)
        /\ maxnnz = 0
        /\ next = Arr(B.c, -1)
        /\ sums = Arr(B.c, 0)
        /\ cp = Junks(A.r + 1)
        /\ cj = <<>>
        /\ cx = <<>>
        /\ i = 0
        /\ jj = 0
        /\ kk = 0
        /\ head = -2
        /\ len = 0
        /\ nnz = 0
        /\ pc = "mrow"

mrow == /\ pc = "mrow"
        /\ IF i < A.r
              THEN /\ jj' = ap[i]
                   /\ pc' = "mcol"
              ELSE /\ pc' = "alloc"
                   /\ jj' = jj
        /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, next, 
                        sums, cp, cj, cx, i, kk, head, len, nnz >>

mcol == /\ pc = "mcol"
        /\ IF jj < ap[i + 1]
              THEN /\ kk' = bp[aj[jj]]
                   /\ pc' = "minner"
                   /\ i' = i
              ELSE /\ i' = i + 1
                   /\ pc' = "mrow"
                   /\ kk' = kk
        /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, next, 
                        sums, cp, cj, cx, jj, head, len, nnz >>

minner == /\ pc = "minner"
          /\ IF kk < bp[aj[jj] + 1]
                THEN /\ IF mask[bj[kk]] # i
                           THEN /\ mask' = [mask EXCEPT ![bj[kk]] = i]
                                /\ maxnnz' = maxnnz + 1
                           ELSE /\ TRUE
                                /\ UNCHANGED << mask, maxnnz >>
                     /\ kk' = kk + 1
                     /\ pc' = "minner"
                     /\ jj' = jj
                ELSE /\ jj' = jj + 1
                     /\ pc' = "mcol"
                     /\ UNCHANGED << mask, maxnnz, kk >>
          /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, next, sums, cp, cj, 
                          cx, i, head, len, nnz >>

alloc == /\ pc = "alloc"
         /\ cj' = Junks(maxnnz)
         /\ cx' = Junks(maxnnz)
         /\ cp' = [cp EXCEPT ![0] = 0]
         /\ i' = 0
         /\ pc' = "row"
         /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, next, 
                         sums, jj, kk, head, len, nnz >>

row == /\ pc = "row"
       /\ IF i < A.r
             THEN /\ head' = -2
                  /\ len' = 0
                  /\ jj' = ap[i]
                  /\ pc' = "col"
             ELSE /\ PrintT(Beh("matmat", <<A, B>>, Nil, <<Result, maxnnz>>))
                  /\ pc' = "Done"
                  /\ UNCHANGED << jj, head, len >>
       /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, next, 
                       sums, cp, cj, cx, i, kk, nnz >>

col == /\ pc = "col"
       /\ IF jj < ap[i + 1]
             THEN /\ kk' = bp[aj[jj]]
                  /\ pc' = "inner"
                  /\ jj' = jj
             ELSE /\ jj' = 0
                  /\ pc' = "out"
                  /\ kk' = kk
       /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, next, 
                       sums, cp, cj, cx, i, head, len, nnz >>

inner == /\ pc = "inner"
         /\ IF kk < bp[aj[jj] + 1]
               THEN /\ LET k == bj[kk] IN
                         /\ sums' = [sums EXCEPT ![k] = sums[k] + ax[jj] * bx[kk]]
                         /\ IF next[k] = -1
                               THEN /\ next' = [next EXCEPT ![k] = head]
                                    /\ head' = k
                                    /\ len' = len + 1
                               ELSE /\ TRUE
                                    /\ UNCHANGED << next, head, len >>
                    /\ kk' = kk + 1
                    /\ pc' = "inner"
                    /\ jj' = jj
               ELSE /\ jj' = jj + 1
                    /\ pc' = "col"
                    /\ UNCHANGED << next, sums, kk, head, len >>
         /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, cp, 
                         cj, cx, i, nnz >>

out == /\ pc = "out"
       /\ IF jj < len
             THEN /\ IF sums[head] # 0
                        THEN /\ Assert(nnz \in DOMAIN cj, 
                                       "Failure of assertion at line 70, column 16.")
                             /\ cj' = [cj EXCEPT ![nnz] = head]
                             /\ cx' = [cx EXCEPT ![nnz] = sums[head]]
                             /\ nnz' = nnz + 1
                        ELSE /\ TRUE
                             /\ UNCHANGED << cj, cx, nnz >>
                  /\ LET t == head IN
                       /\ head' = next[t]
                       /\ next' = [next EXCEPT ![t] = -1]
                       /\ sums' = [sums EXCEPT ![t] = 0]
                  /\ jj' = jj + 1
                  /\ pc' = "out"
                  /\ UNCHANGED << cp, i >>
             ELSE /\ cp' = [cp EXCEPT ![i + 1] = nnz]
                  /\ i' = i + 1
                  /\ pc' = "row"
                  /\ UNCHANGED << next, sums, cj, cx, jj, head, nnz >>
       /\ UNCHANGED << In, A, B, ap, aj, ax, bp, bj, bx, mask, maxnnz, kk, len >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == mrow \/ mcol \/ minner \/ alloc \/ row \/ col \/ inner \/ out
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

RowStart == pc = "row" => \A k \in 0 .. B.c - 1 : next[k] = -1 /\ sums[k] = 0
CountOk  == pc = "alloc" => PostRead([op |-> "k_csr_maxnnz"], <<A, B>>, maxnnz)
Refines  == pc = "Done" => PostMake([op |-> "k_csr_matmat"], <<A, B>>, Result)
=============================================================================
