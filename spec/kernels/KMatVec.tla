------------------------------- MODULE KMatVec -------------------------------
(* csr_matvec, csc_matvec, coo_matvec and the many-vector forms (src/row.rs,*)
(* src/col.rs, src/coord.rs, axpy): accumulate y + A x entry by entry.      *)
EXTENDS Scopes

Mats == CsrUpTo({<<2, 2>>, <<2, 1>>, <<1, 2>>, <<0, 1>>, <<1, 0>>}, IF Deep THEN 4 ELSE 3, Distinct)
          \cup (IF Deep THEN CsrUpTo({<<2, 3>>, <<3, 2>>}, 3, Distinct) ELSE {})
(* the matrix as CSR, the same arrays read as CSC, and as coordinates       *)
Routes == {"csr", "csc", "coo"}
AsCsc(m) == [f |-> "csc", r |-> m.c, c |-> m.r, n |-> m.n, p |-> m.p, j |-> m.j, x |-> m.x]
AsCoo(m) == CooRec(m.r, m.c, MajorOf(m), m.j, m.x)

(*--fair algorithm matvec
variables
  M \in Mats, route \in Routes, nv \in {1, 2},
  A = CASE route = "csr" -> M [] route = "csc" -> AsCsc(M) [] OTHER -> AsCoo(M),
  rows = A.r, cols = A.c,
  x = [k \in 0 .. A.c * nv - 1 |-> 3 * k + 2],
  y = [k \in 0 .. A.r * nv - 1 |-> 10 * k + 7],
  y0 = y, i = 0, jj = 0, v = 0, sum = 0;
begin
disp:    if route = "coo" then goto coo; elsif route = "csc" then goto csc; end if;
csr:     while i < rows do
           jj := M.p[i + 1];
           sum := y[i * nv];                      \* scalar accumulator of the one-vector form
csrin:     while jj < M.p[i + 2] do
             if nv = 1 then
               sum := sum + M.x[jj + 1] * x[M.j[jj + 1]];
             else
               v := 0;
csraxpy:       while v < nv do
                 y[i * nv + v] := y[i * nv + v] + M.x[jj + 1] * x[M.j[jj + 1] * nv + v];
                 v := v + 1;
               end while;
             end if;
csrnext:     jj := jj + 1;
           end while;
           if nv = 1 then y[i] := sum; end if;
           i := i + 1;
         end while;
         goto fin;
csc:     while i < cols do
           jj := M.p[i + 1];
cscin:     while jj < M.p[i + 2] do
             v := 0;
cscaxpy:     while v < nv do
               with r = M.j[jj + 1] do
                 y[r * nv + v] := y[r * nv + v] + M.x[jj + 1] * x[i * nv + v];
               end with;
               v := v + 1;
             end while;
             jj := jj + 1;
           end while;
           i := i + 1;
         end while;
         goto fin;
coo:     while i < A.n /\ nv = 1 do
           y[A.i[i + 1]] := y[A.i[i + 1]] + A.x[i + 1] * x[A.j[i + 1]];
           i := i + 1;
         end while;
fin:     print Beh("matvec", <<A>>, [x |-> S(x), y |-> S(y0), nv |-> nv], <<S(y)>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, M, route, nv, A, rows, cols, x, y, y0, i, jj, v, sum

vars == << pc, M, route, nv, A, rows, cols, x, y, y0, i, jj, v, sum >>

Init == (* Global variables *)
        /\ M \in Mats
        /\ route \in Routes
        /\ nv \in {1, 2}
        /\ A = (CASE route = "csr" -> M [] route = "csc" -> AsCsc(M) [] OTHER -> AsCoo(M))
        /\ rows = A.r
        /\ cols = A.c
        /\ x = [k \in 0 .. A.c * nv - 1 |-> 3 * k + 2]
        /\ y = [k \in 0 .. A.r * nv - 1 |-> 10 * k + 7]
        /\ y0 = y
        /\ i = 0
        /\ jj = 0
        /\ v = 0
        /\ sum = 0
        /\ pc = "disp"

disp == /\ pc = "disp"
        /\ IF route = "coo"
              THEN /\ pc' = "coo"
              ELSE /\ IF route = "csc"
                         THEN /\ pc' = "csc"
                         ELSE /\ pc' = "csr"
        /\ UNCHANGED << M, route, nv, A, rows, cols, x, y, y0, i, jj, v, sum >>

csr == /\ pc = "csr"
       /\ IF i < rows
             THEN /\ jj' = M.p[i + 1]
                  /\ sum' = y[i * nv]
                  /\ pc' = "csrin"
             ELSE /\ pc' = "fin"
                  /\ UNCHANGED << jj, sum >>
       /\ UNCHANGED << M, route, nv, A, rows, cols, x, y, y0, i, v >>

csrin == /\ pc = "csrin"
         /\ IF jj < M.p[i + 2]
               THEN /\ IF nv = 1
                          THEN /\ sum' = sum + M.x[jj + 1] * x[M.j[jj + 1]]
                               /\ pc' = "csrnext"
                               /\ v' = v
                          ELSE /\ v' = 0
                               /\ pc' = "csraxpy"
                               /\ sum' = sum
                    /\ UNCHANGED << y, i >>
               ELSE /\ IF nv = 1
                          THEN /\ y' = [y EXCEPT ![i] = sum]
                          ELSE /\ TRUE
                               /\ y' = y
                    /\ i' = i + 1
                    /\ pc' = "csr"
                    /\ UNCHANGED << v, sum >>
         /\ UNCHANGED << M, route, nv, A, rows, cols, x, y0, jj >>

csrnext == /\ pc = "csrnext"
           /\ jj' = jj + 1
           /\ pc' = "csrin"
           /\ UNCHANGED << M, route, nv, A, rows, cols, x, y, y0, i, v, sum >>

csraxpy == /\ pc = "csraxpy"
           /\ IF v < nv
                 THEN /\ y' = [y EXCEPT ![i * nv + v] = y[i * nv + v] + M.x[jj + 1] * x[M.j[jj + 1] * nv + v]]
                      /\ v' = v + 1
                      /\ pc' = "csraxpy"
                 ELSE /\ pc' = "csrnext"
                      /\ UNCHANGED << y, v >>
           /\ UNCHANGED << M, route, nv, A, rows, cols, x, y0, i, jj, sum >>

csc == /\ pc = "csc"
       /\ IF i < cols
             THEN /\ jj' = M.p[i + 1]
                  /\ pc' = "cscin"
             ELSE /\ pc' = "fin"
                  /\ jj' = jj
       /\ UNCHANGED << M, route, nv, A, rows, cols, x, y, y0, i, v, sum >>

cscin == /\ pc = "cscin"
         /\ IF jj < M.p[i + 2]
               THEN /\ v' = 0
                    /\ pc' = "cscaxpy"
                    /\ i' = i
               ELSE /\ i' = i + 1
                    /\ pc' = "csc"
                    /\ v' = v
         /\ UNCHANGED << M, route, nv, A, rows, cols, x, y, y0, jj, sum >>

cscaxpy == /\ pc = "cscaxpy"
           /\ IF v < nv
                 THEN /\ LET r == M.j[jj + 1] IN
                           y' = [y EXCEPT ![r * nv + v] = y[r * nv + v] + M.x[jj + 1] * x[i * nv + v]]
                      /\ v' = v + 1
                      /\ pc' = "cscaxpy"
                      /\ jj' = jj
                 ELSE /\ jj' = jj + 1
                      /\ pc' = "cscin"
                      /\ UNCHANGED << y, v >>
           /\ UNCHANGED << M, route, nv, A, rows, cols, x, y0, i, sum >>

coo == /\ pc = "coo"
       /\ IF i < A.n /\ nv = 1
             THEN /\ y' = [y EXCEPT ![A.i[i + 1]] = y[A.i[i + 1]] + A.x[i + 1] * x[A.j[i + 1]]]
                  /\ i' = i + 1
                  /\ pc' = "coo"
             ELSE /\ pc' = "fin"
                  /\ UNCHANGED << y, i >>
       /\ UNCHANGED << M, route, nv, A, rows, cols, x, y0, jj, v, sum >>

fin == /\ pc = "fin"
       /\ PrintT(Beh("matvec", <<A>>, [x |-> S(x), y |-> S(y0), nv |-> nv], <<S(y)>>))
       /\ pc' = "Done"
       /\ UNCHANGED << M, route, nv, A, rows, cols, x, y, y0, i, jj, v, sum >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == disp \/ csr \/ csrin \/ csrnext \/ csraxpy \/ csc \/ cscin
           \/ cscaxpy \/ coo \/ fin
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Refines == pc = "Done" =>
  IF nv = 1 THEN PostRead([op |-> "k_csr_matvec", x |-> S(x), y |-> S(y0)], <<A>>, S(y))
  ELSE route # "coo" => PostRead([op |-> "k_csr_matvecs", x |-> S(x), y |-> S(y0), nv |-> nv], <<A>>, S(y))
=============================================================================
