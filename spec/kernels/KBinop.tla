------------------------------- MODULE KBinop --------------------------------
(* csr_binop_csr (src/row.rs): merge of two canonical matrices, or the      *)
(* linked list of touched columns when one of them is not canonical.        *)
(* `which` forces a path ("general"/"canonical") or lets the test decide.   *)
EXTENDS Scopes

Vals(n) == Seqs({1, -1}, n)
P1 == CsrUpTo({<<1, 2>>, <<1, 3>>}, 2, Vals) \cup CsrUpTo({<<0, 1>>, <<1, 0>>}, 2, Vals)
P2 == CsrUpTo({<<2, 2>>}, 2, Distinct)
P3 == CanonUpTo({<<1, 3>>}, 3, Vals)
P4 == CsrUpTo({<<2, 2>>}, 3, Distinct)
Pairs(X) == {<<a, b>> \in X \X X : a.r = b.r /\ a.c = b.c}
Ins == Pairs(P1) \cup Pairs(P2) \cup (IF Deep THEN Pairs(P3) \cup (P4 \X P2) \cup (P2 \X P4) ELSE {})
Fns == IF Deep THEN {"add", "sub", "max", "ne"} ELSE {"sub", "max"}

(*--fair algorithm binop
variables
  In \in Ins, fn \in Fns,
  force \in {"auto", "general"},
  A = In[1], B = In[2],
  cap = Max2(A.n + B.n, Max2(A.r, A.c)),
  ap = Z(A.p), aj = Z(A.j), ax = Z(A.x),
  bp = Z(B.p), bj = Z(B.j), bx = Z(B.x),
  cp = Junks(A.r + 1), cj = Junks(A.n + B.n), cx = Junks(A.n + B.n),
  next = Arr(A.c, -1), arow = Arr(A.c, 0), brow = Arr(A.c, 0),
  nnz = 0, i = 0, jj = 0, head = -2, len = 0, apos = 0, bpos = 0, res = 0;
define
  Canonical == force = "auto" /\ CanonicalC(A) /\ CanonicalC(B)
  Result == CompRec("csr", A.r, A.c, S(cp), S(cj), S(cx))
end define;
begin
start:   cp[0] := 0;
         if Canonical then goto merge; end if;
gen:     while i < A.r do
           head := -2;  len := 0;
           jj := ap[i];
ga:        while jj < ap[i + 1] do
             with j = aj[jj] do
               arow[j] := arow[j] + ax[jj];
               if next[j] = -1 then
                 next[j] := head;  head := j;  len := Ix(len + 1, cap);
               end if;
             end with;
             jj := jj + 1;
           end while;
           jj := bp[i];
gb:        while jj < bp[i + 1] do
             with j = bj[jj] do
               brow[j] := brow[j] + bx[jj];
               if next[j] = -1 then
                 next[j] := head;  head := j;  len := Ix(len + 1, cap);
               end if;
             end with;
             jj := jj + 1;
           end while;
           jj := 0;
gout:      while jj < len do
             res := FnOf(fn, arow[head], brow[head]);
             if res # 0 then
               assert nnz \in DOMAIN cj;
               cj[nnz] := head;  cx[nnz] := res;  nnz := Ix(nnz + 1, cap);
             end if;
             with t = head do
               head := next[t];
               next[t] := -1;
               arow[t] := 0;
               brow[t] := 0;
             end with;
             jj := jj + 1;
           end while;
           cp[i + 1] := nnz;
           i := i + 1;
         end while;
         goto fin;
merge:   while i < A.r do
           apos := ap[i];  bpos := bp[i];
both:      while apos < ap[i + 1] /\ bpos < bp[i + 1] do
             with u = aj[apos], v = bj[bpos],
                  r = FnOf(fn, IF u <= v THEN ax[apos] ELSE 0, IF v <= u THEN bx[bpos] ELSE 0) do
               if r # 0 then
                 cj[nnz] := Min2(u, v);  cx[nnz] := r;  nnz := nnz + 1;
               end if;
               apos := apos + (IF u <= v THEN 1 ELSE 0);
               bpos := bpos + (IF v <= u THEN 1 ELSE 0);
             end with;
           end while;
taila:     while apos < ap[i + 1] do
             with r = FnOf(fn, ax[apos], 0) do
               if r # 0 then cj[nnz] := aj[apos];  cx[nnz] := r;  nnz := nnz + 1; end if;
             end with;
             apos := apos + 1;
           end while;
tailb:     while bpos < bp[i + 1] do
             with r = FnOf(fn, 0, bx[bpos]) do
               if r # 0 then cj[nnz] := bj[bpos];  cx[nnz] := r;  nnz := nnz + 1; end if;
             end with;
             bpos := bpos + 1;
           end while;
           cp[i + 1] := nnz;
           i := i + 1;
         end while;
fin:     print Beh("binop", <<A, B>>, [fn |-> fn, force |-> force], <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, cj, cx, 
          next, arow, brow, nnz, i, jj, head, len, apos, bpos, res

(* define statement *)
Canonical == force = "auto" /\ CanonicalC(A) /\ CanonicalC(B)
Result == CompRec("csr", A.r, A.c, S(cp), S(cj), S(cx))


vars == << pc, In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, cj, cx, 
           next, arow, brow, nnz, i, jj, head, len, apos, bpos, res >>

Init == (* Global variables *)
        /\ In \in Ins
        /\ fn \in Fns
        /\ force \in {"auto", "general"}
        /\ A = In[1]
        /\ B = In[2]
        /\ cap = Max2(A.n + B.n, Max2(A.r, A.c))
        /\ ap = Z(A.p)
        /\ aj = Z(A.j)
        /\ ax = Z(A.x)
        /\ bp = Z(B.p)
        /\ bj = Z(B.j)
        /\ bx = Z(B.x)
        /\ cp = Junks(A.r + 1)
        /\ cj = Junks(A.n + B.n)
        /\ cx = Junks(A.n + B.n)
        /\ next = Arr(A.c, -1)
        /\ arow = Arr(A.c, 0)
        /\ brow = Arr(A.c, 0)
        /\ nnz = 0
        /\ i = 0
        /\ jj = 0
        /\ head = -2
        /\ len = 0
        /\ apos = 0
        /\ bpos = 0
        /\ res = 0
        /\ pc = "start"

start == /\ pc = "start"
         /\ cp' = [cp EXCEPT ![0] = 0]
         /\ IF Canonical
               THEN /\ pc' = "merge"
               ELSE /\ pc' = "gen"
         /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cj, 
                         cx, next, arow, brow, nnz, i, jj, head, len, apos, 
                         bpos, res >>

gen == /\ pc = "gen"
       /\ IF i < A.r
             THEN /\ head' = -2
                  /\ len' = 0
                  /\ jj' = ap[i]
                  /\ pc' = "ga"
             ELSE /\ pc' = "fin"
                  /\ UNCHANGED << jj, head, len >>
       /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, 
                       cj, cx, next, arow, brow, nnz, i, apos, bpos, res >>

ga == /\ pc = "ga"
      /\ IF jj < ap[i + 1]
            THEN /\ LET j == aj[jj] IN
                      /\ arow' = [arow EXCEPT ![j] = arow[j] + ax[jj]]
                      /\ IF next[j] = -1
                            THEN /\ next' = [next EXCEPT ![j] = head]
                                 /\ head' = j
                                 /\ len' = Ix(len + 1, cap)
                            ELSE /\ TRUE
                                 /\ UNCHANGED << next, head, len >>
                 /\ jj' = jj + 1
                 /\ pc' = "ga"
            ELSE /\ jj' = bp[i]
                 /\ pc' = "gb"
                 /\ UNCHANGED << next, arow, head, len >>
      /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, cj, 
                      cx, brow, nnz, i, apos, bpos, res >>

gb == /\ pc = "gb"
      /\ IF jj < bp[i + 1]
            THEN /\ LET j == bj[jj] IN
                      /\ brow' = [brow EXCEPT ![j] = brow[j] + bx[jj]]
                      /\ IF next[j] = -1
                            THEN /\ next' = [next EXCEPT ![j] = head]
                                 /\ head' = j
                                 /\ len' = Ix(len + 1, cap)
                            ELSE /\ TRUE
                                 /\ UNCHANGED << next, head, len >>
                 /\ jj' = jj + 1
                 /\ pc' = "gb"
            ELSE /\ jj' = 0
                 /\ pc' = "gout"
                 /\ UNCHANGED << next, brow, head, len >>
      /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, cj, 
                      cx, arow, nnz, i, apos, bpos, res >>

gout == /\ pc = "gout"
        /\ IF jj < len
              THEN /\ res' = FnOf(fn, arow[head], brow[head])
                   /\ IF res' # 0
                         THEN /\ Assert(nnz \in DOMAIN cj, 
                                        "Failure of assertion at line 60, column 16.")
                              /\ cj' = [cj EXCEPT ![nnz] = head]
                              /\ cx' = [cx EXCEPT ![nnz] = res']
                              /\ nnz' = Ix(nnz + 1, cap)
                         ELSE /\ TRUE
                              /\ UNCHANGED << cj, cx, nnz >>
                   /\ LET t == head IN
                        /\ head' = next[t]
                        /\ next' = [next EXCEPT ![t] = -1]
                        /\ arow' = [arow EXCEPT ![t] = 0]
                        /\ brow' = [brow EXCEPT ![t] = 0]
                   /\ jj' = jj + 1
                   /\ pc' = "gout"
                   /\ UNCHANGED << cp, i >>
              ELSE /\ cp' = [cp EXCEPT ![i + 1] = nnz]
                   /\ i' = i + 1
                   /\ pc' = "gen"
                   /\ UNCHANGED << cj, cx, next, arow, brow, nnz, jj, head, 
                                   res >>
        /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, len, 
                        apos, bpos >>

merge == /\ pc = "merge"
         /\ IF i < A.r
               THEN /\ apos' = ap[i]
                    /\ bpos' = bp[i]
                    /\ pc' = "both"
               ELSE /\ pc' = "fin"
                    /\ UNCHANGED << apos, bpos >>
         /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, 
                         cj, cx, next, arow, brow, nnz, i, jj, head, len, res >>

both == /\ pc = "both"
        /\ IF apos < ap[i + 1] /\ bpos < bp[i + 1]
              THEN /\ LET u == aj[apos] IN
                        LET v == bj[bpos] IN
                          LET r == FnOf(fn, IF u <= v THEN ax[apos] ELSE 0, IF v <= u THEN bx[bpos] ELSE 0) IN
                            /\ IF r # 0
                                  THEN /\ cj' = [cj EXCEPT ![nnz] = Min2(u, v)]
                                       /\ cx' = [cx EXCEPT ![nnz] = r]
                                       /\ nnz' = nnz + 1
                                  ELSE /\ TRUE
                                       /\ UNCHANGED << cj, cx, nnz >>
                            /\ apos' = apos + (IF u <= v THEN 1 ELSE 0)
                            /\ bpos' = bpos + (IF v <= u THEN 1 ELSE 0)
                   /\ pc' = "both"
              ELSE /\ pc' = "taila"
                   /\ UNCHANGED << cj, cx, nnz, apos, bpos >>
        /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, 
                        next, arow, brow, i, jj, head, len, res >>

taila == /\ pc = "taila"
         /\ IF apos < ap[i + 1]
               THEN /\ LET r == FnOf(fn, ax[apos], 0) IN
                         IF r # 0
                            THEN /\ cj' = [cj EXCEPT ![nnz] = aj[apos]]
                                 /\ cx' = [cx EXCEPT ![nnz] = r]
                                 /\ nnz' = nnz + 1
                            ELSE /\ TRUE
                                 /\ UNCHANGED << cj, cx, nnz >>
                    /\ apos' = apos + 1
                    /\ pc' = "taila"
               ELSE /\ pc' = "tailb"
                    /\ UNCHANGED << cj, cx, nnz, apos >>
         /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, 
                         next, arow, brow, i, jj, head, len, bpos, res >>

tailb == /\ pc = "tailb"
         /\ IF bpos < bp[i + 1]
               THEN /\ LET r == FnOf(fn, 0, bx[bpos]) IN
                         IF r # 0
                            THEN /\ cj' = [cj EXCEPT ![nnz] = bj[bpos]]
                                 /\ cx' = [cx EXCEPT ![nnz] = r]
                                 /\ nnz' = nnz + 1
                            ELSE /\ TRUE
                                 /\ UNCHANGED << cj, cx, nnz >>
                    /\ bpos' = bpos + 1
                    /\ pc' = "tailb"
                    /\ UNCHANGED << cp, i >>
               ELSE /\ cp' = [cp EXCEPT ![i + 1] = nnz]
                    /\ i' = i + 1
                    /\ pc' = "merge"
                    /\ UNCHANGED << cj, cx, nnz, bpos >>
         /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, 
                         next, arow, brow, jj, head, len, apos, res >>

fin == /\ pc = "fin"
       /\ PrintT(Beh("binop", <<A, B>>, [fn |-> fn, force |-> force], <<Result>>))
       /\ pc' = "Done"
       /\ UNCHANGED << In, fn, force, A, B, cap, ap, aj, ax, bp, bj, bx, cp, 
                       cj, cx, next, arow, brow, nnz, i, jj, head, len, apos, 
                       bpos, res >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == start \/ gen \/ ga \/ gb \/ gout \/ merge \/ both \/ taila \/ tailb
           \/ fin
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

(* Between rows the list is empty and every accumulator is cleared.         *)
RowStart == pc = "gen" => \A k \in 0 .. A.c - 1 : next[k] = -1 /\ arow[k] = 0 /\ brow[k] = 0
(* The list never holds more than the columns of a row.                     *)
ListBounded == len <= A.c
Refines == pc = "Done" =>
  PostMake([op |-> "k_bin", fn |-> fn, which |-> IF force = "auto" THEN "auto" ELSE "general"], <<A, B>>, Result)
=============================================================================
