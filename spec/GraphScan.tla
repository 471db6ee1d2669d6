------------------------------ MODULE GraphScan ------------------------------
(***************************************************************************)
(* The graph relations of Graphs.tla, decided in one pass over the edges,  *)
(* so that traces on graphs of thousands of nodes can be judged.  That     *)
(* they say the same as the declarative definitions is checked by TLC in   *)
(* kernels/KScan.tla.                                                      *)
(* es is the sequence of the edges <<from, to>>; repeats do not matter.    *)
(* L is a sequence of labels, L[v+1] that of node v; the labels in use are *)
(* 0 .. k-1, a negative label leaves a node out.                           *)
(***************************************************************************)
EXTENDS Graphs, TLC

\* TLCEval only makes TLC tabulate the function
NoLists(n) == TLCEval([v \in 0 .. n - 1 |-> <<>>])
OutLists(n, es) == FoldLeft(LAMBDA f, e : [f EXCEPT ![e[1]] = Append(@, e[2])], NoLists(n), es)
InLists(n, es)  == FoldLeft(LAMBDA f, e : [f EXCEPT ![e[2]] = Append(@, e[1])], NoLists(n), es)
AllLists(n, es) == FoldLeft(LAMBDA f, e : [f EXCEPT ![e[1]] = Append(@, e[2]), ![e[2]] = Append(@, e[1])],
                            NoLists(n), es)

UpTo(k) == TLCEval([t \in 1 .. k |-> t])

(* Members of every class, in order.                                       *)
MembersOf(L, k) ==
  FoldLeft(LAMBDA f, w : IF L[w] < 0 THEN f ELSE [f EXCEPT ![L[w]] = Append(@, w - 1)],
           NoLists(k), UpTo(Len(L)))

(* Flooding along nb from the first member, never leaving the class: as    *)
(* many turns as there are members suffice.                                *)
FloodClass(nb, L, mem, seen) ==
  LET c == L[mem[1] + 1]
      enter(st, u) == IF L[u + 1] # c \/ st.seen[u] THEN st
                      ELSE [st EXCEPT !.q = Append(@, u), !.seen[u] = TRUE]
      turn(st, w)  == IF st.h > Len(st.q) THEN st
                      ELSE FoldLeft(enter, [st EXCEPT !.h = @ + 1], nb[st.q[st.h]])
  IN  FoldLeft(turn, [h |-> 1, q |-> <<mem[1]>>, seen |-> [seen EXCEPT ![mem[1]] = TRUE]], mem).seen

(* Every class is flooded from its first member.                           *)
Flooded(n, nb, L, k) ==
  LET M == MembersOf(L, k)
      flood(seen, c) == FloodClass(nb, L, M[c - 1], seen)
      all == FoldLeft(flood, TLCEval([v \in 0 .. n - 1 |-> FALSE]), UpTo(k))
  IN  \A v \in 0 .. n - 1 : L[v + 1] < 0 \/ all[v]

(* The edges between different classes form no cycle: all classes can be   *)
(* taken away, one without entering edges at a time.                       *)
NoCycle(k, cs) ==
  LET out == OutLists(k, cs)
      deg == FoldLeft(LAMBDA f, e : [f EXCEPT ![e[2]] = @ + 1],
                      TLCEval([c \in 0 .. k - 1 |-> 0]), cs)
      free(st, c) == IF st.deg[c] = 1 THEN [st EXCEPT !.deg[c] = 0, !.q = Append(@, c)]
                     ELSE [st EXCEPT !.deg[c] = @ - 1]
      turn(st, t) == IF t > Len(st.q) THEN st ELSE FoldLeft(free, st, out[st.q[t]])
  IN  Len(FoldLeft(turn, [deg |-> deg, q |-> SelectSeq([t \in 1 .. k |-> t - 1], LAMBDA c : deg[c] = 0)],
                   UpTo(k)).q) = k

Between(es, L) ==
  SelectSeq(TLCEval([t \in DOMAIN es |-> <<L[es[t][1] + 1], L[es[t][2] + 1]>>]), LAMBDA e : e[1] # e[2])

(* Scans of a labelling with LabelsDense(L, k).                            *)
MutualScan(n, es, k, L) ==
  /\ Flooded(n, OutLists(n, es), L, k)
  /\ Flooded(n, InLists(n, es), L, k)
  /\ LET cs == Between(es, L)
     IN  \/ \A t \in DOMAIN cs : cs[t][1] < cs[t][2]
         \/ \A t \in DOMAIN cs : cs[t][1] > cs[t][2]
         \/ NoCycle(k, cs)

UndirScan(n, es, k, L) ==
  /\ \A t \in DOMAIN es : L[es[t][1] + 1] = L[es[t][2] + 1]
  /\ Flooded(n, AllLists(n, es), L, k)

(* A depth-first traversal: IsDfs with the neighbour lists nb in place of  *)
(* sets, and a pointer per node past the neighbours already known seen.    *)
RECURSIVE FirstUnseen(_, _, _)
FirstUnseen(lst, seen, t) ==
  IF t > Len(lst) THEN t ELSE IF seen[lst[t]] THEN FirstUnseen(lst, seen, t + 1) ELSE t

\* st.at: the deepest open node that may have an unseen neighbour, -1: none;
\* the open nodes below it are found through pre, checked on entering.
RECURSIVE Backtrack(_, _, _, _)
Backtrack(nb, pre, start, st) ==
  IF st.at = -1 THEN st
  ELSE LET v == st.at
           t == FirstUnseen(nb[v], st.seen, st.ptr[v])
       IN  IF t > Len(nb[v])
           THEN Backtrack(nb, pre, start, [st EXCEPT !.at = IF v = start THEN -1 ELSE pre[v + 1]])
           ELSE [st EXCEPT !.ptr[v] = t]

DfsScan(n, nb, start, order, pre) ==
  LET set == TLCEval([v \in 0 .. n - 1 |-> {nb[v][t] : t \in DOMAIN nb[v]}])
      step(s, w) ==
        IF ~s.ok THEN s
        ELSE LET st == Backtrack(nb, pre, start, s)
             IN  IF st.at # -1 /\ ~st.seen[w] /\ w \in set[st.at] /\ pre[w + 1] = st.at
                 THEN [st EXCEPT !.at = w, !.seen[w] = TRUE]
                 ELSE [st EXCEPT !.ok = FALSE]
  IN  /\ Len(pre) = n
      /\ Len(order) >= 1 /\ order[1] = start
      /\ \A k \in DOMAIN order : order[k] \in 0 .. n - 1
      /\ LET end == FoldLeft(step, [ok |-> TRUE, at |-> start,
                                    seen |-> TLCEval([v \in 0 .. n - 1 |-> v = start]),
                                    ptr |-> TLCEval([v \in 0 .. n - 1 |-> 1])], Tail(order))
         IN  /\ end.ok
             \* nothing is left to visit: every neighbour of a visited node is visited
             /\ \A v \in 0 .. n - 1 : end.seen[v] => \A u \in set[v] : end.seen[u]
             /\ pre[start + 1] = -1
             /\ \A w \in 0 .. n - 1 : end.seen[w] \/ pre[w + 1] = -1
=============================================================================
