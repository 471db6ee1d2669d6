-------------------------------- MODULE KPred --------------------------------
(* csr_has_sorted_indices, csr_has_canonical_format, csr_count_diagonals,   *)
(* expandptr and csr_tocoo (src/row.rs): one pass over the pointers.        *)
EXTENDS Scopes

Inputs == CsrUpTo(AllShapes, IF Deep THEN 4 ELSE 3, Distinct)
            \cup CsrUpTo({<<3, 3>>, <<3, 2>>}, IF Deep THEN 4 ELSE 3, Distinct)
            \cup CsrUpTo({<<1, 4>>}, 4, Distinct)

(*--fair algorithm pred
variables
  A \in Inputs,
  ap = Z(A.p), aj = Z(A.j), ax = Z(A.x),
  i = 0, jj = 0, sorted = TRUE, canon = TRUE, diags = {},
  k = 0, bi = Junks(A.n), ci = Junks(A.n), cj = Junks(A.n), cx = Junks(A.n);
begin
rows:    while i < A.r do
           if ap[i] > ap[i + 1] then canon := FALSE; end if;
           jj := ap[i];
cols:      while jj < ap[i + 1] do
             if jj >= ap[i] + 1 then
               if aj[jj - 1] > aj[jj] then sorted := FALSE; end if;
               if ~(aj[jj - 1] < aj[jj]) then canon := FALSE; end if;
             end if;
             diags := diags \cup {aj[jj] - i};       \* signed
             bi[jj] := i;
             ci[k] := i || cj[k] := aj[jj] || cx[k] := ax[jj];
             k := k + 1;
             jj := jj + 1;
           end while;
           i := i + 1;
         end while;
         print Beh("pred", <<A>>, Nil, <<sorted, canon, Cardinality(diags), S(bi)>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, A, ap, aj, ax, i, jj, sorted, canon, diags, k, bi, ci, cj, cx

vars == << pc, A, ap, aj, ax, i, jj, sorted, canon, diags, k, bi, ci, cj, cx
        >>

Init == (* Global variables *)
        /\ A \in Inputs
        /\ ap = Z(A.p)
        /\ aj = Z(A.j)
        /\ ax = Z(A.x)
        /\ i = 0
        /\ jj = 0
        /\ sorted = TRUE
        /\ canon = TRUE
        /\ diags = {}
        /\ k = 0
        /\ bi = Junks(A.n)
        /\ ci = Junks(A.n)
        /\ cj = Junks(A.n)
        /\ cx = Junks(A.n)
        /\ pc = "rows"

rows == /\ pc = "rows"
        /\ IF i < A.r
              THEN /\ IF ap[i] > ap[i + 1]
                         THEN /\ canon' = FALSE
                         ELSE /\ TRUE
                              /\ canon' = canon
                   /\ jj' = ap[i]
                   /\ pc' = "cols"
              ELSE /\ PrintT(Beh("pred", <<A>>, Nil, <<sorted, canon, Cardinality(diags), S(bi)>>))
                   /\ pc' = "Done"
                   /\ UNCHANGED << jj, canon >>
        /\ UNCHANGED << A, ap, aj, ax, i, sorted, diags, k, bi, ci, cj, cx >>

cols == /\ pc = "cols"
        /\ IF jj < ap[i + 1]
              THEN /\ IF jj >= ap[i] + 1
                         THEN /\ IF aj[jj - 1] > aj[jj]
                                    THEN /\ sorted' = FALSE
                                    ELSE /\ TRUE
                                         /\ UNCHANGED sorted
                              /\ IF ~(aj[jj - 1] < aj[jj])
                                    THEN /\ canon' = FALSE
                                    ELSE /\ TRUE
                                         /\ canon' = canon
                         ELSE /\ TRUE
                              /\ UNCHANGED << sorted, canon >>
                   /\ diags' = (diags \cup {aj[jj] - i})
                   /\ bi' = [bi EXCEPT ![jj] = i]
                   /\ /\ ci' = [ci EXCEPT ![k] = i]
                      /\ cj' = [cj EXCEPT ![k] = aj[jj]]
                      /\ cx' = [cx EXCEPT ![k] = ax[jj]]
                   /\ k' = k + 1
                   /\ jj' = jj + 1
                   /\ pc' = "cols"
                   /\ i' = i
              ELSE /\ i' = i + 1
                   /\ pc' = "rows"
                   /\ UNCHANGED << jj, sorted, canon, diags, k, bi, ci, cj, cx >>
        /\ UNCHANGED << A, ap, aj, ax >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == rows \/ cols
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Refines ==
  pc = "Done" =>
    /\ PostRead([op |-> "k_sorted"], <<A>>, sorted)
    /\ PostRead([op |-> "k_canon"], <<A>>, canon)
    /\ PostRead([op |-> "k_count_diag"], <<A>>, Cardinality(diags))
    /\ PostRead([op |-> "k_expandptr"], <<A>>, S(bi))
    /\ PostMake([op |-> "k_csr_tocoo"], <<A>>, CooRec(A.r, A.c, S(ci), S(cj), S(cx)))
=============================================================================
