-------------------------------- MODULE KScan --------------------------------
(* The one-pass graph relations of GraphScan.tla against the declarative    *)
(* ones of Graphs.tla: every small graph with every labelling, every order. *)
EXTENDS Scopes

Pats == Digraphs(1, AllPairs(1), 1) \cup Digraphs(2, AllPairs(2), 4)
          \cup Digraphs(3, IF Deep THEN AllPairs(3) ELSE OffDiag(3), 9) \cup PatternsUpTo(2, 3)
          \cup Digraphs(4, OffDiag(4), IF Deep THEN 5 ELSE 3)
\* labels from -1 (left out) up; numbering from 0 by first use or not
Labellings(n) == [1 .. n -> -1 .. n - 1]
Orders(n) == {s \in UNION {[1 .. k -> 0 .. n - 1] : k \in 1 .. n} : \A a, b \in DOMAIN s : a # b => s[a] # s[b]}

(*--fair algorithm scan
variables
  G \in Pats,
  n = G.r, es = EdgeSeq(G), E = EdgesOf(G),
  L \in Labellings(G.r), k = Cardinality({L[t] : t \in DOMAIN L} \ {-1});
define
  Live  == {w \in 0 .. n - 1 : \E e \in E : e[1] = w}
  Parts == k > 0 /\ {L[t] : t \in DOMAIN L} = 0 .. k - 1
  Some  == /\ {L[w + 1] : w \in Live} = 0 .. k - 1 /\ SymPattern(E)
           /\ \A w \in (0 .. n - 1) \ Live : L[w + 1] = -1
end define;
begin
look:    skip;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, G, n, es, E, L, k

(* define statement *)
Live  == {w \in 0 .. n - 1 : \E e \in E : e[1] = w}
Parts == k > 0 /\ {L[t] : t \in DOMAIN L} = 0 .. k - 1
Some  == /\ {L[w + 1] : w \in Live} = 0 .. k - 1 /\ SymPattern(E)
         /\ \A w \in (0 .. n - 1) \ Live : L[w + 1] = -1


vars == << pc, G, n, es, E, L, k >>

Init == (* Global variables *)
        /\ G \in Pats
        /\ n = G.r
        /\ es = EdgeSeq(G)
        /\ E = EdgesOf(G)
        /\ L \in Labellings(G.r)
        /\ k = Cardinality({L[t] : t \in DOMAIN L} \ {-1})
        /\ pc = "look"

look == /\ pc = "look"
        /\ TRUE
        /\ pc' = "Done"
        /\ UNCHANGED << G, n, es, E, L, k >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == look
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

SameStrong == Parts => MutualScan(n, es, k, L) = MutualClasses(n, E, L)
SameWeak   == Parts => UndirScan(n, es, k, L) = UndirClasses(n, E, L)
SameLive   == Some => UndirScan(n, es, k, L) = LiveClasses(n, E, Live, L)
SameDfs    == k = 0 /\ n <= 3 =>
  \A o \in Orders(n), pre \in [1 .. n -> -1 .. n - 1] :
    /\ DfsScan(n, OutLists(n, es), o[1], o, pre) = IsDfs(n, Succ(n, E), o[1], o, pre)
    /\ DfsScan(n, AllLists(n, es), o[1], o, pre) = IsDfs(n, Both(n, E), o[1], o, pre)
=============================================================================
