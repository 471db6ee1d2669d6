------------------------------- MODULE Sparse --------------------------------
(***************************************************************************)
(* The library as a state machine.  The state is what a user's program     *)
(* holds: a set of named matrices (registers).  One step is one public     *)
(* call: it reads the operand registers, may change its first operand if   *)
(* it is documented to work in place, and may put a new matrix in a        *)
(* destination register.  A call whose operands do not fit is rejected and *)
(* changes nothing.                                                        *)
(*                                                                         *)
(* A step is described by a call record c (op, operand registers a,        *)
(* destination d, parameters) and an outcome record o:                     *)
(*   o.out  "ok" / "err" / "panic" / anything else                         *)
(*   o.m    result matrix, o.v result value (when out = "ok")              *)
(*   o.post the operands as they are after the call                        *)
(***************************************************************************)
EXTENDS SparseOps

VARIABLE reg

Operands(c) == [k \in DOMAIN c.a |-> reg[c.a[k]]]

(* May this call have this outcome in the present state?                   *)
OutcomeOk(c, o) ==
  LET A == Operands(c) IN
  IF Fits(c, A)
  THEN /\ o.out = "ok"
       /\ IF InPlace(c)
          THEN PostInPlace(c, A[1], o.post[1])
          ELSE /\ o.post = A                               \* operands untouched
               /\ IF c.op \in MakeOps THEN PostMake(c, A, o.m) ELSE PostRead(c, A, o.v)
  ELSE /\ o.out = Reject(c)
       /\ o.post = A

(* The state after a call with an allowed outcome.                         *)
After(c, o) ==
  IF o.out # "ok" THEN reg
  ELSE IF InPlace(c) THEN [reg EXCEPT ![c.a[1]] = o.post[1]]
  ELSE IF c.op \in MakeOps THEN (c.d :> o.m) @@ reg
  ELSE reg

Call(c, o) == OutcomeOk(c, o) /\ reg' = After(c, o)

(* Two registers hold the same matrix, entry for entry.                    *)
SameMatrix(a, b) ==
  a.f = b.f /\ a.r = b.r /\ a.c = b.c /\ SameEntries(a, Entries(b))

Init == reg = <<>>

(* Invariants of every reachable state, whatever was called.               *)
AllWellFormed == \A k \in DOMAIN reg : WF(reg[k])
DokNoZeros    == \A k \in DOMAIN reg : reg[k].f = "dok" => NoZeros(reg[k])
=============================================================================
