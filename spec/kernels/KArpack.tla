------------------------------- MODULE KArpack -------------------------------
(* Threads inside eigs at the same time (C26).  dnaupd is a reverse          *)
(* communication routine: it comes back asking for a product (ido = -1, 1)   *)
(* or done (ido = 99), and keeps what it needs to go on in memory that all   *)
(* threads share.  A step of an iteration that finds another iteration's     *)
(* saved state goes wrong.  Lock = "whole": held from the first step of an   *)
(* iteration through the extraction of its vectors (dneupd).  "call": held   *)
(* for each step on its own.                                                 *)
EXTENDS Integers, FiniteSets

CONSTANTS Threads, Calls, Products, Lock

VARIABLES
  pc,        \* where each thread is
  left,      \* calls still to make
  todo,      \* products the iteration will still ask for
  lock,      \* the thread that holds the mutex, or 0
  saved,     \* whose iteration the shared memory holds, and its step
  step       \* the step each thread believes its iteration is at

vars == <<pc, left, todo, lock, saved, step>>

None == 0

Init ==
  /\ pc = [t \in Threads |-> "out"]
  /\ left = [t \in Threads |-> Calls]
  /\ todo \in [Threads -> 0 .. Products]
  /\ lock = None
  /\ saved = <<None, 0>>
  /\ step = [t \in Threads |-> 0]

(* the mutex, where a step of the code takes or gives it up                  *)
Free(t) == lock = None \/ lock = t

Enter(t) ==          \* the first call, ido = 0: starts the shared state afresh
  /\ pc[t] = "out" /\ left[t] > 0 /\ Free(t)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ saved' = <<t, 1>>
  /\ step' = [step EXCEPT ![t] = 1]
  /\ pc' = [pc EXCEPT ![t] = IF todo[t] > 0 THEN "product" ELSE "extract"]
  /\ lock' = IF Lock = "whole" THEN t ELSE None
  /\ UNCHANGED todo

Product(t) ==        \* ido = -1 or 1: the caller computes y = A x
  /\ pc[t] = "product"
  /\ pc' = [pc EXCEPT ![t] = "resume"]
  /\ UNCHANGED <<left, todo, lock, saved, step>>

Resume(t) ==
  /\ pc[t] = "resume" /\ Free(t)
  /\ todo' = [todo EXCEPT ![t] = @ - 1]
  /\ step' = [step EXCEPT ![t] = @ + 1]
  /\ saved' = <<saved[1], saved[2] + 1>>
  /\ pc' = [pc EXCEPT ![t] = IF saved # <<t, step[t]>> THEN "corrupt"
                             ELSE IF todo'[t] > 0 THEN "product" ELSE "extract"]
  /\ lock' = IF Lock = "whole" THEN lock ELSE None
  /\ UNCHANGED left

Extract(t) ==
  /\ pc[t] = "extract" /\ Free(t)
  /\ pc' = [pc EXCEPT ![t] = IF saved = <<t, step[t]>> THEN "out" ELSE "corrupt"]
  /\ \E q \in 0 .. Products : todo' = [todo EXCEPT ![t] = q]
  /\ lock' = None
  /\ UNCHANGED <<left, saved, step>>

Fail(t) ==           \* a product that cannot be computed, or info < 0: out with an error
  /\ pc[t] \in {"product", "extract"} /\ Free(t)
  /\ pc' = [pc EXCEPT ![t] = "out"]
  /\ \E q \in 0 .. Products : todo' = [todo EXCEPT ![t] = q]
  /\ lock' = IF lock = t THEN None ELSE lock
  /\ UNCHANGED <<left, saved, step>>

Next == \E t \in Threads : Enter(t) \/ Product(t) \/ Resume(t) \/ Extract(t) \/ Fail(t)

Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Enter(t) \/ Product(t) \/ Resume(t) \/ Extract(t))

Own == \A t \in Threads : pc[t] # "corrupt"
Exclusive == Lock = "whole" => Cardinality({t \in Threads : pc[t] # "out"}) <= 1
Released == (\A t \in Threads : pc[t] = "out") => lock = None
(* every call comes back                                                     *)
Done == <>(\A t \in Threads : pc[t] = "out" /\ left[t] = 0)
=============================================================================
