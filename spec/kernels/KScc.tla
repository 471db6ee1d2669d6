-------------------------------- MODULE KScc ---------------------------------
(* connected_components_directed (src/graph.rs): Pearce's algorithm with    *)
(* two linked stacks threaded through the arrays ss / stack_b, and `labels` *)
(* holding first lowlinks and then component labels.                        *)
(* End = -2, Void = -1 in the code's order (End < Void < labels).           *)
EXTENDS Scopes

End == -2
Void == -1
Pats == PatternsUpTo(0, 0) \cup PatternsUpTo(1, 2) \cup PatternsUpTo(2, 4)
          \cup PatternsUpTo(3, IF Deep THEN 5 ELSE 3)
          \cup Digraphs(3, AllPairs(3), 9)
          \cup Digraphs(4, OffDiag(4), IF Deep THEN 12 ELSE 4)

(*--fair algorithm scc
variables
  G \in Pats,
  n = G.r,
  labels = Arr(G.r, Void), ss = Arr(G.r, Void), sb = Arr(G.r, Void),
  sshead = End, shead = End, index = 0, label = G.r - 1,
  v0 = 0, v = 0, j = 0, low = 0, root = TRUE, w = 0;
define
  NComp == IF label >= 0 THEN (n - 1) - label ELSE n
  Result == <<IF n = 0 THEN 0 ELSE NComp, [k \in 1 .. n |-> (n - 1) - labels[k - 1]]>>
end define;
begin
outer:   while v0 < n do
           if labels[v0] # Void then v0 := v0 + 1; goto outer; end if;
push:      shead := v0;
           ss[v0] := End;
           sb[v0] := End;
visit:     while shead # End do
             assert shead \in 0 .. n - 1;
             v := shead;
             if labels[v] = Void then
               labels[v] := index;
               index := index + 1;
               j := G.p[v + 1];
succs:         while j < G.p[v + 2] do
                 w := G.j[j + 1];
                 if labels[w] = Void /\ shead # w then
                   if ss[w] # Void then
                     \* excise w from the middle of the stack
excise:              with f = ss[w], b = sb[w] do
                       assert b # Void /\ f # Void;
                       ss := IF b # End THEN [ss EXCEPT ![b] = f] ELSE ss;
                       sb := IF f # End THEN [sb EXCEPT ![f] = b] ELSE sb;
                     end with;
                   end if;
link:              ss[w] := shead;
                   sb := [sb EXCEPT ![w] = End, ![shead] = w];
                   shead := w;
                 end if;
nextw:           j := j + 1;
               end while;
             else
               shead := ss[v];
               if shead # Void /\ shead # End then sb[shead] := End; end if;
unstk:         ss[v] := Void;
               sb[v] := Void;
               root := TRUE;
               low := labels[v];
               j := G.p[v + 1];
lows:          while j < G.p[v + 2] do
                 if labels[G.j[j + 1]] < low then
                   low := labels[G.j[j + 1]];
                   root := FALSE;
                 end if;
                 j := j + 1;
               end while;
               labels[v] := low;
               if root then
                 index := Ix(index - 1, n);
pops:            while sshead # End /\ labels[v] <= labels[sshead] do
                   w := sshead;
                   sshead := ss[w];
                   ss[w] := Void;
                   labels[w] := label;
                   index := Ix(index - 1, n);
                 end while;
                 labels[v] := label;
                 assert label >= 0;
                 label := label - 1;
               else
                 ss[v] := sshead;
                 sshead := v;
               end if;
             end if;
           end while;
           v0 := v0 + 1;
         end while;
         print Beh("scc", <<G>>, Nil, <<Result>>);
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, G, n, labels, ss, sb, sshead, shead, index, label, v0, v, j, 
          low, root, w

(* define statement *)
NComp == IF label >= 0 THEN (n - 1) - label ELSE n
Result == <<IF n = 0 THEN 0 ELSE NComp, [k \in 1 .. n |-> (n - 1) - labels[k - 1]]>>


vars == << pc, G, n, labels, ss, sb, sshead, shead, index, label, v0, v, j, 
           low, root, w >>

Init == (* Global variables *)
        /\ G \in Pats
        /\ n = G.r
        /\ labels = Arr(G.r, Void)
        /\ ss = Arr(G.r, Void)
        /\ sb = Arr(G.r, Void)
        /\ sshead = End
        /\ shead = End
        /\ index = 0
        /\ label = G.r - 1
        /\ v0 = 0
        /\ v = 0
        /\ j = 0
        /\ low = 0
        /\ root = TRUE
        /\ w = 0
        /\ pc = "outer"

outer == /\ pc = "outer"
         /\ IF v0 < n
               THEN /\ IF labels[v0] # Void
                          THEN /\ v0' = v0 + 1
                               /\ pc' = "outer"
                          ELSE /\ pc' = "push"
                               /\ v0' = v0
               ELSE /\ PrintT(Beh("scc", <<G>>, Nil, <<Result>>))
                    /\ pc' = "Done"
                    /\ v0' = v0
         /\ UNCHANGED << G, n, labels, ss, sb, sshead, shead, index, label, v, 
                         j, low, root, w >>

push == /\ pc = "push"
        /\ shead' = v0
        /\ ss' = [ss EXCEPT ![v0] = End]
        /\ sb' = [sb EXCEPT ![v0] = End]
        /\ pc' = "visit"
        /\ UNCHANGED << G, n, labels, sshead, index, label, v0, v, j, low, 
                        root, w >>

visit == /\ pc = "visit"
         /\ IF shead # End
               THEN /\ Assert(shead \in 0 .. n - 1, 
                              "Failure of assertion at line 33, column 14.")
                    /\ v' = shead
                    /\ IF labels[v'] = Void
                          THEN /\ labels' = [labels EXCEPT ![v'] = index]
                               /\ index' = index + 1
                               /\ j' = G.p[v' + 1]
                               /\ pc' = "succs"
                               /\ UNCHANGED << sb, shead >>
                          ELSE /\ shead' = ss[v']
                               /\ IF shead' # Void /\ shead' # End
                                     THEN /\ sb' = [sb EXCEPT ![shead'] = End]
                                     ELSE /\ TRUE
                                          /\ sb' = sb
                               /\ pc' = "unstk"
                               /\ UNCHANGED << labels, index, j >>
                    /\ v0' = v0
               ELSE /\ v0' = v0 + 1
                    /\ pc' = "outer"
                    /\ UNCHANGED << labels, sb, shead, index, v, j >>
         /\ UNCHANGED << G, n, ss, sshead, label, low, root, w >>

succs == /\ pc = "succs"
         /\ IF j < G.p[v + 2]
               THEN /\ w' = G.j[j + 1]
                    /\ IF labels[w'] = Void /\ shead # w'
                          THEN /\ IF ss[w'] # Void
                                     THEN /\ pc' = "excise"
                                     ELSE /\ pc' = "link"
                          ELSE /\ pc' = "nextw"
               ELSE /\ pc' = "visit"
                    /\ w' = w
         /\ UNCHANGED << G, n, labels, ss, sb, sshead, shead, index, label, v0, 
                         v, j, low, root >>

nextw == /\ pc = "nextw"
         /\ j' = j + 1
         /\ pc' = "succs"
         /\ UNCHANGED << G, n, labels, ss, sb, sshead, shead, index, label, v0, 
                         v, low, root, w >>

link == /\ pc = "link"
        /\ ss' = [ss EXCEPT ![w] = shead]
        /\ sb' = [sb EXCEPT ![w] = End, ![shead] = w]
        /\ shead' = w
        /\ pc' = "nextw"
        /\ UNCHANGED << G, n, labels, sshead, index, label, v0, v, j, low, 
                        root, w >>

excise == /\ pc = "excise"
          /\ LET f == ss[w] IN
               LET b == sb[w] IN
                 /\ Assert(b # Void /\ f # Void, 
                           "Failure of assertion at line 45, column 24.")
                 /\ ss' = (IF b # End THEN [ss EXCEPT ![b] = f] ELSE ss)
                 /\ sb' = (IF f # End THEN [sb EXCEPT ![f] = b] ELSE sb)
          /\ pc' = "link"
          /\ UNCHANGED << G, n, labels, sshead, shead, index, label, v0, v, j, 
                          low, root, w >>

unstk == /\ pc = "unstk"
         /\ ss' = [ss EXCEPT ![v] = Void]
         /\ sb' = [sb EXCEPT ![v] = Void]
         /\ root' = TRUE
         /\ low' = labels[v]
         /\ j' = G.p[v + 1]
         /\ pc' = "lows"
         /\ UNCHANGED << G, n, labels, sshead, shead, index, label, v0, v, w >>

lows == /\ pc = "lows"
        /\ IF j < G.p[v + 2]
              THEN /\ IF labels[G.j[j + 1]] < low
                         THEN /\ low' = labels[G.j[j + 1]]
                              /\ root' = FALSE
                         ELSE /\ TRUE
                              /\ UNCHANGED << low, root >>
                   /\ j' = j + 1
                   /\ pc' = "lows"
                   /\ UNCHANGED << labels, ss, sshead, index >>
              ELSE /\ labels' = [labels EXCEPT ![v] = low]
                   /\ IF root
                         THEN /\ index' = Ix(index - 1, n)
                              /\ pc' = "pops"
                              /\ UNCHANGED << ss, sshead >>
                         ELSE /\ ss' = [ss EXCEPT ![v] = sshead]
                              /\ sshead' = v
                              /\ pc' = "visit"
                              /\ index' = index
                   /\ UNCHANGED << j, low, root >>
        /\ UNCHANGED << G, n, sb, shead, label, v0, v, w >>

pops == /\ pc = "pops"
        /\ IF sshead # End /\ labels[v] <= labels[sshead]
              THEN /\ w' = sshead
                   /\ sshead' = ss[w']
                   /\ ss' = [ss EXCEPT ![w'] = Void]
                   /\ labels' = [labels EXCEPT ![w'] = label]
                   /\ index' = Ix(index - 1, n)
                   /\ pc' = "pops"
                   /\ label' = label
              ELSE /\ labels' = [labels EXCEPT ![v] = label]
                   /\ Assert(label >= 0, 
                             "Failure of assertion at line 82, column 18.")
                   /\ label' = label - 1
                   /\ pc' = "visit"
                   /\ UNCHANGED << ss, sshead, index, w >>
        /\ UNCHANGED << G, n, sb, shead, v0, v, j, low, root >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == outer \/ push \/ visit \/ succs \/ nextw \/ link \/ excise \/ unstk
           \/ lows \/ pops
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)

Termination == <>(pc = "Done")

\* END TRANSLATION

(* The forward links of the visiting stack end, and sb mirrors them.        *)
RECURSIVE Chain(_, _)
Chain(h, seen) == IF h = End THEN TRUE
                  ELSE /\ h \in 0 .. n - 1 /\ h \notin seen
                       /\ Chain(ss[h], seen \cup {h})
StackOk == pc = "visit" => Chain(shead, {})
CompOk  == pc \in {"visit", "outer"} => Chain(sshead, {})
RECURSIVE Mirror(_)
Mirror(h) == h = End \/ ss[h] = End \/ (sb[ss[h]] = h /\ Mirror(ss[h]))
MirrorOk == pc = "visit" /\ shead # End => sb[shead] = End /\ Mirror(shead)
(* lowlinks are smaller than every label already given out                  *)
LabelsApart == index <= label + 1
Refines == pc = "Done" => PostRead([op |-> "g_cc", directed |-> TRUE, conn |-> "strong"], <<G>>, Result)
=============================================================================
