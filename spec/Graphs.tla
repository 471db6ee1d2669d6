------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Declarative graph theory used by the graph properties C19 - C22.        *)
(* A graph is a number of nodes n (nodes 0 .. n-1) and a successor         *)
(* function succ : node -> set of nodes.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Succ(n, E)  == [v \in 0 .. n - 1 |-> {e[2] : e \in {f \in E : f[1] = v}}]
Pred(n, E)  == [v \in 0 .. n - 1 |-> {e[1] : e \in {f \in E : f[2] = v}}]
Both(n, E)  == [v \in 0 .. n - 1 |-> {e[2] : e \in {f \in E : f[1] = v}}
                              \cup {e[1] : e \in {f \in E : f[2] = v}}]

RECURSIVE Closure(_, _, _)
Closure(succ, frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET next == (UNION {succ[v] : v \in frontier}) \ seen
       IN  Closure(succ, next, seen \cup next)

(* Nodes reachable from v, v included.                                     *)
ReachFrom(succ, v) == Closure(succ, {v}, {v})

(* labels : sequence over nodes (label of node v is labels[v+1]).          *)
LabelsDense(labels, k) == {labels[t] : t \in DOMAIN labels} = 0 .. (k - 1)

(* The label classes are exactly the classes of mutual reachability.       *)
(* It suffices to look at one representative per class.                    *)
MutualClasses(n, E, labels) ==
  LET S == Succ(n, E)  R == Pred(n, E)
      Rep == {v \in 0 .. n - 1 : \A w \in 0 .. v - 1 : labels[w + 1] # labels[v + 1]}
  IN  \A v \in Rep : {w \in 0 .. n - 1 : labels[w + 1] = labels[v + 1]}
                       = ReachFrom(S, v) \cap ReachFrom(R, v)

UndirClasses(n, E, labels) ==
  LET B == Both(n, E)
      Rep == {v \in 0 .. n - 1 : \A w \in 0 .. v - 1 : labels[w + 1] # labels[v + 1]}
  IN  \A v \in Rep : {w \in 0 .. n - 1 : labels[w + 1] = labels[v + 1]}
                       = ReachFrom(B, v)

(* The same among the nodes that occur in an edge.                         *)
LiveClasses(n, E, live, labels) ==
  LET B == Both(n, E)
  IN  \A w \in live : {u \in live : labels[u + 1] = labels[w + 1]} = ReachFrom(B, w)

(* Is `order` (sequence of nodes) with predecessor array `pre` (-1: none)  *)
(* a depth-first traversal from `start`?  The traversal keeps the path of  *)
(* open nodes; the next node must be an unvisited successor of the deepest *)
(* open node that still has one.                                           *)
RECURSIVE PopStuck(_, _, _)
PopStuck(succ, path, seen) ==
  IF path = <<>> THEN <<>>
  ELSE IF succ[path[Len(path)]] \subseteq seen
       THEN PopStuck(succ, SubSeq(path, 1, Len(path) - 1), seen)
       ELSE path

DfsStep(succ, pre, st, w) ==
  IF ~st.ok THEN st
  ELSE LET path == PopStuck(succ, st.path, st.seen)
       IN  IF /\ path # <<>>
              /\ w \notin st.seen
              /\ w \in succ[path[Len(path)]]
              /\ pre[w + 1] = path[Len(path)]
           THEN [ok |-> TRUE, path |-> Append(path, w), seen |-> st.seen \cup {w}]
           ELSE [st EXCEPT !.ok = FALSE]

IsDfs(n, succ, start, order, pre) ==
  /\ Len(pre) = n
  /\ Len(order) >= 1 /\ order[1] = start
  /\ \A k \in DOMAIN order : order[k] \in 0 .. n - 1
  /\ LET st == FoldLeft(LAMBDA s, w : DfsStep(succ, pre, s, w),
                        [ok |-> TRUE, path |-> <<start>>, seen |-> {start}],
                        Tail(order))
     IN  /\ st.ok
         /\ PopStuck(succ, st.path, st.seen) = <<>>      \* nothing left to visit
         /\ pre[start + 1] = -1
         /\ \A w \in (0 .. n - 1) \ st.seen : pre[w + 1] = -1
=============================================================================
