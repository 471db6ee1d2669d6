-------------------------------- MODULE KWeak --------------------------------
(* connected_components_undirected (src/graph.rs): a stack threaded through *)
(* the labels array, walking the graph and its transpose.                   *)
EXTENDS Scopes

End == -2
Void == -1
Pats == PatternsUpTo(0, 0) \cup PatternsUpTo(1, 2) \cup PatternsUpTo(2, 3)
          \cup PatternsUpTo(3, IF Deep THEN 4 ELSE 3) \cup Digraphs(3, AllPairs(3), 9)
          \cup Digraphs(4, OffDiag(4), IF Deep THEN 12 ELSE 4)

(*--fair algorithm weak
variables
  G \in Pats,
  n = G.r,
  T = Pred(G.r, EdgesOf(G)),
  labels = Arr(G.r, Void), head = End, label = 0,
  v0 = 0, v = 0, todo = <<>>;
define
  \* successors in stored order, then predecessors (to_csc keeps rows in order)
  Nbrs(u) == SubSeq(G.j, G.p[u + 1] + 1, G.p[u + 2])
               \o SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA t : t \in T[u])
  Result == <<label, [k \in 1 .. n |-> labels[k - 1]]>>
end define;
begin
outer:   while v0 < n do
           if labels[v0] = Void then
             head := v0;
             labels[v0] := End;
pop:         while head # End do
               v := head;
               head := labels[v];
relabel:       labels[v] := label;
               todo := Nbrs(v);
push:          while todo # <<>> do
                 if labels[Head(todo)] = Void then
                   labels[Head(todo)] := head;
                   head := Head(todo);
                 end if;
                 todo := Tail(todo);
               end while;
             end while;
             label := label + 1;
           end if;
next:      v0 := v0 + 1;
         end while;
         print Beh("weak", <<G>>, Nil, <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, G, n, T, labels, head, label, v0, v, todo

(* define statement *)
Nbrs(u) == SubSeq(G.j, G.p[u + 1] + 1, G.p[u + 2])
             \o SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA t : t \in T[u])
Result == <<label, [k \in 1 .. n |-> labels[k - 1]]>>


vars == << pc, G, n, T, labels, head, label, v0, v, todo >>

Init == (* Global variables *)
        /\ G \in Pats
        /\ n = G.r
        /\ T = Pred(G.r, EdgesOf(G))
        /\ labels = Arr(G.r, Void)
        /\ head = End
        /\ label = 0
        /\ v0 = 0
        /\ v = 0
        /\ todo = <<>>
        /\ pc = "outer"

outer == /\ pc = "outer"
         /\ IF v0 < n
               THEN /\ IF labels[v0] = Void
                          THEN /\ head' = v0
                               /\ labels' = [labels EXCEPT ![v0] = End]
                               /\ pc' = "pop"
                          ELSE /\ pc' = "next"
                               /\ UNCHANGED << labels, head >>
               ELSE /\ PrintT(Beh("weak", <<G>>, Nil, <<Result>>))
                    /\ pc' = "Done"
                    /\ UNCHANGED << labels, head >>
         /\ UNCHANGED << G, n, T, label, v0, v, todo >>

next == /\ pc = "next"
        /\ v0' = v0 + 1
        /\ pc' = "outer"
        /\ UNCHANGED << G, n, T, labels, head, label, v, todo >>

pop == /\ pc = "pop"
       /\ IF head # End
             THEN /\ v' = head
                  /\ head' = labels[v']
                  /\ pc' = "relabel"
                  /\ label' = label
             ELSE /\ label' = label + 1
                  /\ pc' = "next"
                  /\ UNCHANGED << head, v >>
       /\ UNCHANGED << G, n, T, labels, v0, todo >>

relabel == /\ pc = "relabel"
           /\ labels' = [labels EXCEPT ![v] = label]
           /\ todo' = Nbrs(v)
           /\ pc' = "push"
           /\ UNCHANGED << G, n, T, head, label, v0, v >>

push == /\ pc = "push"
        /\ IF todo # <<>>
              THEN /\ IF labels[Head(todo)] = Void
                         THEN /\ labels' = [labels EXCEPT ![Head(todo)] = head]
                              /\ head' = Head(todo)
                         ELSE /\ TRUE
                              /\ UNCHANGED << labels, head >>
                   /\ todo' = Tail(todo)
                   /\ pc' = "push"
              ELSE /\ pc' = "pop"
                   /\ UNCHANGED << labels, head, todo >>
        /\ UNCHANGED << G, n, T, label, v0, v >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == outer \/ next \/ pop \/ relabel \/ push
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

Refines == pc = "Done" =>
  /\ PostRead([op |-> "g_cc", directed |-> FALSE, conn |-> "strong"], <<G>>, Result)
  /\ PostRead([op |-> "g_cc", directed |-> TRUE, conn |-> "weak"], <<G>>, Result)
=============================================================================
