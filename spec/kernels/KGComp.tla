------------------------------- MODULE KGComp --------------------------------
(* cs_graph_components (src/graph.rs): breadth-first flooding of symmetric  *)
(* patterns; nodes without entries are left out.                            *)
EXTENDS Scopes

UPairs(n) == {<<a, b>> \in (0 .. n - 1) \X (0 .. n - 1) : a <= b}
OfEdges(n, E) == OfPairs(n, E \cup {<<e[2], e[1]>> : e \in E})
SymGraphs(n) == {OfEdges(n, E) : E \in SUBSET UPairs(n)}
Pats == UNION {SymGraphs(n) : n \in 0 .. (IF Deep THEN 4 ELSE 3)}
          \cup {OfEdges(4, E) : E \in {X \in SUBSET UPairs(4) : Cardinality(X) <= 3}}
          \cup (IF Deep THEN {OfEdges(5, E) : E \in {X \in SUBSET UPairs(5) : Cardinality(X) <= 4}} ELSE {})

(*--fair algorithm gcomp
variables
  G \in Pats,
  n = G.r,
  pos = Arr(G.r, 1), flag = Arr(G.r, Junk),
  nstop = G.r, ir = 0, ic = 0, ii = 0, it = 0, icomp = 0,
  npos0 = 0, npos = 0, nposnew = 0, nnew = 0, ntot = 0, ncomp = 0, failed = FALSE;
define
  Result == <<ncomp, [k \in 1 .. n |-> flag[k - 1]]>>
end define;
begin
init:    while ir < n do
           if G.p[ir + 2] = G.p[ir + 1] then
             nstop := Ix(nstop - 1, n);
             flag[ir] := -2;
           else
             flag[ir] := -1;
           end if;
           ir := ir + 1;
         end while;
         if nstop = 0 then goto fin; end if;
comp:    while icomp < n do
           ii := 0;
seek:      while flag[ii] >= 0 \/ flag[ii] = -2 do
             ii := ii + 1;
             if ii >= n then failed := TRUE; goto fin; end if;
           end while;
seed:      flag[ii] := icomp;
           pos[0] := ii;
           npos0 := 0;  npos := 1;  nposnew := 1;
           it := 0;
level:     while it < n do
             nnew := 0;
             ir := npos0;
node:        while ir < npos do
               ic := G.p[pos[ir] + 1];
edge:          while ic < G.p[pos[ir] + 2] do
                 if flag[G.j[ic + 1]] = -1 then
                   assert nposnew \in DOMAIN pos;
                   flag[G.j[ic + 1]] := icomp;
                   pos[nposnew] := G.j[ic + 1];
                   nposnew := nposnew + 1;
                   nnew := nnew + 1;
                 end if;
                 ic := ic + 1;
               end while;
               ir := ir + 1;
             end while;
             npos0 := npos;
             npos := nposnew;
             it := it + 1;
             if nnew = 0 then goto done; end if;
           end while;
done:      ntot := ntot + npos;
           if ntot = nstop then ncomp := icomp + 1; goto fin; end if;
more:      icomp := icomp + 1;
         end while;
fin:     print Beh("gcomp", <<G>>, Nil, <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, G, n, pos, flag, nstop, ir, ic, ii, it, icomp, npos0, npos, 
          nposnew, nnew, ntot, ncomp, failed

(* define statement *)
Result == <<ncomp, [k \in 1 .. n |-> flag[k - 1]]>>


vars == << pc, G, n, pos, flag, nstop, ir, ic, ii, it, icomp, npos0, npos, 
           nposnew, nnew, ntot, ncomp, failed >>

Init == (* Global variables *)
        /\ G \in Pats
        /\ n = G.r
        /\ pos = Arr(G.r, 1)
        /\ flag = Arr(G.r, Junk)
        /\ nstop = G.r
        /\ ir = 0
        /\ ic = 0
        /\ ii = 0
        /\ it = 0
        /\ icomp = 0
        /\ npos0 = 0
        /\ npos = 0
        /\ nposnew = 0
        /\ nnew = 0
        /\ ntot = 0
        /\ ncomp = 0
        /\ failed = FALSE
        /\ pc = "init"

init == /\ pc = "init"
        /\ IF ir < n
              THEN /\ IF G.p[ir + 2] = G.p[ir + 1]
                         THEN /\ nstop' = Ix(nstop - 1, n)
                              /\ flag' = [flag EXCEPT ![ir] = -2]
                         ELSE /\ flag' = [flag EXCEPT ![ir] = -1]
                              /\ nstop' = nstop
                   /\ ir' = ir + 1
                   /\ pc' = "init"
              ELSE /\ IF nstop = 0
                         THEN /\ pc' = "fin"
                         ELSE /\ pc' = "comp"
                   /\ UNCHANGED << flag, nstop, ir >>
        /\ UNCHANGED << G, n, pos, ic, ii, it, icomp, npos0, npos, nposnew, 
                        nnew, ntot, ncomp, failed >>

comp == /\ pc = "comp"
        /\ IF icomp < n
              THEN /\ ii' = 0
                   /\ pc' = "seek"
              ELSE /\ pc' = "fin"
                   /\ ii' = ii
        /\ UNCHANGED << G, n, pos, flag, nstop, ir, ic, it, icomp, npos0, npos, 
                        nposnew, nnew, ntot, ncomp, failed >>

seek == /\ pc = "seek"
        /\ IF flag[ii] >= 0 \/ flag[ii] = -2
              THEN /\ ii' = ii + 1
                   /\ IF ii' >= n
                         THEN /\ failed' = TRUE
                              /\ pc' = "fin"
                         ELSE /\ pc' = "seek"
                              /\ UNCHANGED failed
              ELSE /\ pc' = "seed"
                   /\ UNCHANGED << ii, failed >>
        /\ UNCHANGED << G, n, pos, flag, nstop, ir, ic, it, icomp, npos0, npos, 
                        nposnew, nnew, ntot, ncomp >>

seed == /\ pc = "seed"
        /\ flag' = [flag EXCEPT ![ii] = icomp]
        /\ pos' = [pos EXCEPT ![0] = ii]
        /\ npos0' = 0
        /\ npos' = 1
        /\ nposnew' = 1
        /\ it' = 0
        /\ pc' = "level"
        /\ UNCHANGED << G, n, nstop, ir, ic, ii, icomp, nnew, ntot, ncomp, 
                        failed >>

level == /\ pc = "level"
         /\ IF it < n
               THEN /\ nnew' = 0
                    /\ ir' = npos0
                    /\ pc' = "node"
               ELSE /\ pc' = "done"
                    /\ UNCHANGED << ir, nnew >>
         /\ UNCHANGED << G, n, pos, flag, nstop, ic, ii, it, icomp, npos0, 
                         npos, nposnew, ntot, ncomp, failed >>

node == /\ pc = "node"
        /\ IF ir < npos
              THEN /\ ic' = G.p[pos[ir] + 1]
                   /\ pc' = "edge"
                   /\ UNCHANGED << it, npos0, npos >>
              ELSE /\ npos0' = npos
                   /\ npos' = nposnew
                   /\ it' = it + 1
                   /\ IF nnew = 0
                         THEN /\ pc' = "done"
                         ELSE /\ pc' = "level"
                   /\ ic' = ic
        /\ UNCHANGED << G, n, pos, flag, nstop, ir, ii, icomp, nposnew, nnew, 
                        ntot, ncomp, failed >>

edge == /\ pc = "edge"
        /\ IF ic < G.p[pos[ir] + 2]
              THEN /\ IF flag[G.j[ic + 1]] = -1
                         THEN /\ Assert(nposnew \in DOMAIN pos, 
                                        "Failure of assertion at line 55, column 20.")
                              /\ flag' = [flag EXCEPT ![G.j[ic + 1]] = icomp]
                              /\ pos' = [pos EXCEPT ![nposnew] = G.j[ic + 1]]
                              /\ nposnew' = nposnew + 1
                              /\ nnew' = nnew + 1
                         ELSE /\ TRUE
                              /\ UNCHANGED << pos, flag, nposnew, nnew >>
                   /\ ic' = ic + 1
                   /\ pc' = "edge"
                   /\ ir' = ir
              ELSE /\ ir' = ir + 1
                   /\ pc' = "node"
                   /\ UNCHANGED << pos, flag, ic, nposnew, nnew >>
        /\ UNCHANGED << G, n, nstop, ii, it, icomp, npos0, npos, ntot, ncomp, 
                        failed >>

done == /\ pc = "done"
        /\ ntot' = ntot + npos
        /\ IF ntot' = nstop
              THEN /\ ncomp' = icomp + 1
                   /\ pc' = "fin"
              ELSE /\ pc' = "more"
                   /\ ncomp' = ncomp
        /\ UNCHANGED << G, n, pos, flag, nstop, ir, ic, ii, it, icomp, npos0, 
                        npos, nposnew, nnew, failed >>

more == /\ pc = "more"
        /\ icomp' = icomp + 1
        /\ pc' = "comp"
        /\ UNCHANGED << G, n, pos, flag, nstop, ir, ic, ii, it, npos0, npos, 
                        nposnew, nnew, ntot, ncomp, failed >>

fin == /\ pc = "fin"
       /\ PrintT(Beh("gcomp", <<G>>, Nil, <<Result>>))
       /\ pc' = "Done"
       /\ UNCHANGED << G, n, pos, flag, nstop, ir, ic, ii, it, icomp, npos0, 
                       npos, nposnew, nnew, ntot, ncomp, failed >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == init \/ comp \/ seek \/ seed \/ level \/ node \/ edge \/ done
           \/ more \/ fin
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Refines == pc = "Done" => ~failed /\ PostRead([op |-> "k_gcomp"], <<G>>, Result)
=============================================================================
