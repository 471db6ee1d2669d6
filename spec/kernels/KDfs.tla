-------------------------------- MODULE KDfs ---------------------------------
(* depth_first_directed / depth_first_undirected (src/graph.rs).            *)
EXTENDS Scopes

Pats == PatternsUpTo(1, 2) \cup PatternsUpTo(2, 3)
          \cup PatternsUpTo(3, IF Deep THEN 4 ELSE 3) \cup Digraphs(3, AllPairs(3), IF Deep THEN 9 ELSE 6)
          \cup Digraphs(4, OffDiag(4), IF Deep THEN 6 ELSE 3)

(*--fair algorithm dfs
variables
  G \in Pats, directed \in BOOLEAN, start \in 0 .. G.r - 1,
  n = G.r,
  T = Pred(G.r, EdgesOf(G)),
  nodes = Arr(G.r, 0), roots = Arr(G.r, 0), pre = Arr(G.r, -1), flag = Arr(G.r, FALSE),
  iroot = 0, iend = 1, i = 0, p = 0, nochild = TRUE, nb = <<>>;
define
  Nbrs(u) == SubSeq(G.j, G.p[u + 1] + 1, G.p[u + 2])
               \o (IF directed THEN <<>> ELSE SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA t : t \in T[u]))
  Result == <<[k \in 1 .. iend |-> nodes[k - 1]], S(pre)>>
end define;
begin
init:    nodes[0] := start;
         roots[0] := start;
         flag[start] := TRUE;
loop:    while iroot >= 0 do
           p := roots[iroot];
           nochild := TRUE;
           nb := Nbrs(p);
           i := 1;
scan:      while nochild /\ i <= Len(nb) do
             if ~flag[nb[i]] then
               assert iroot + 1 \in DOMAIN roots /\ iend \in DOMAIN nodes;
               iroot := iroot + 1 ||
               roots[iroot + 1] := nb[i];
               nodes[iend] := nb[i];
               pre[nb[i]] := p;
               flag[nb[i]] := TRUE;
               iend := iend + 1;
               nochild := FALSE;
             end if;
             i := i + 1;
           end while;
           if iend = n then goto fin; end if;
back:      if nochild then iroot := iroot - 1; end if;
         end while;
fin:     print Beh("dfs", <<G>>, [start |-> start, directed |-> directed], <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, G, directed, start, n, T, nodes, roots, pre, flag, iroot, iend, 
          i, p, nochild, nb

(* define statement *)
Nbrs(u) == SubSeq(G.j, G.p[u + 1] + 1, G.p[u + 2])
             \o (IF directed THEN <<>> ELSE SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA t : t \in T[u]))
Result == <<[k \in 1 .. iend |-> nodes[k - 1]], S(pre)>>


vars == << pc, G, directed, start, n, T, nodes, roots, pre, flag, iroot, iend, 
           i, p, nochild, nb >>

Init == (* Global variables *)
        /\ G \in Pats
        /\ directed \in BOOLEAN
        /\ start \in 0 .. G.r - 1
        /\ n = G.r
        /\ T = Pred(G.r, EdgesOf(G))
        /\ nodes = Arr(G.r, 0)
        /\ roots = Arr(G.r, 0)
        /\ pre = Arr(G.r, -1)
        /\ flag = Arr(G.r, FALSE)
        /\ iroot = 0
        /\ iend = 1
        /\ i = 0
        /\ p = 0
        /\ nochild = TRUE
        /\ nb = <<>>
        /\ pc = "init"

init == /\ pc = "init"
        /\ nodes' = [nodes EXCEPT ![0] = start]
        /\ roots' = [roots EXCEPT ![0] = start]
        /\ flag' = [flag EXCEPT ![start] = TRUE]
        /\ pc' = "loop"
        /\ UNCHANGED << G, directed, start, n, T, pre, iroot, iend, i, p, 
                        nochild, nb >>

loop == /\ pc = "loop"
        /\ IF iroot >= 0
              THEN /\ p' = roots[iroot]
                   /\ nochild' = TRUE
                   /\ nb' = Nbrs(p')
                   /\ i' = 1
                   /\ pc' = "scan"
              ELSE /\ pc' = "fin"
                   /\ UNCHANGED << i, p, nochild, nb >>
        /\ UNCHANGED << G, directed, start, n, T, nodes, roots, pre, flag, 
                        iroot, iend >>

scan == /\ pc = "scan"
        /\ IF nochild /\ i <= Len(nb)
              THEN /\ IF ~flag[nb[i]]
                         THEN /\ Assert(iroot + 1 \in DOMAIN roots /\ iend \in DOMAIN nodes, 
                                        "Failure of assertion at line 32, column 16.")
                              /\ /\ iroot' = iroot + 1
                                 /\ roots' = [roots EXCEPT ![iroot + 1] = nb[i]]
                              /\ nodes' = [nodes EXCEPT ![iend] = nb[i]]
                              /\ pre' = [pre EXCEPT ![nb[i]] = p]
                              /\ flag' = [flag EXCEPT ![nb[i]] = TRUE]
                              /\ iend' = iend + 1
                              /\ nochild' = FALSE
                         ELSE /\ TRUE
                              /\ UNCHANGED << nodes, roots, pre, flag, iroot, 
                                              iend, nochild >>
                   /\ i' = i + 1
                   /\ pc' = "scan"
              ELSE /\ IF iend = n
                         THEN /\ pc' = "fin"
                         ELSE /\ pc' = "back"
                   /\ UNCHANGED << nodes, roots, pre, flag, iroot, iend, i, 
                                   nochild >>
        /\ UNCHANGED << G, directed, start, n, T, p, nb >>

back == /\ pc = "back"
        /\ IF nochild
              THEN /\ iroot' = iroot - 1
              ELSE /\ TRUE
                   /\ iroot' = iroot
        /\ pc' = "loop"
        /\ UNCHANGED << G, directed, start, n, T, nodes, roots, pre, flag, 
                        iend, i, p, nochild, nb >>

fin == /\ pc = "fin"
       /\ PrintT(Beh("dfs", <<G>>, [start |-> start, directed |-> directed], <<Result>>))
       /\ pc' = "Done"
       /\ UNCHANGED << G, directed, start, n, T, nodes, roots, pre, flag, 
                       iroot, iend, i, p, nochild, nb >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == init \/ loop \/ scan \/ back \/ fin
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Refines == pc = "Done" => PostRead([op |-> "g_dfs", start |-> start, directed |-> directed], <<G>>, Result)
=============================================================================
