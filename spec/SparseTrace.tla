----------------------------- MODULE SparseTrace -----------------------------
(***************************************************************************)
(* Checks histories recorded from the real library against Sparse.         *)
(* Trace: one JSON object per line: the call, its outcome, and the         *)
(* operands after the call.  Histories are cut into independent segments   *)
(* by "reset" lines; after an event the specification does not allow, the  *)
(* rest of that segment is skipped and the next one is checked as usual.   *)
(***************************************************************************)
EXTENDS Sparse, IntRing, GaussRing, Json, IOUtils

VARIABLES l,     \* next line of the trace
          skip   \* skipping to the next segment

Trace == ndJsonDeserialize(IOEnv.TRACE)

tvars == <<reg, l, skip>>

TraceInit == Init /\ l = 1 /\ skip = FALSE

HasOperands(e) == \A k \in DOMAIN e.a : e.a[k] \in DOMAIN reg

(* What is wrong with an event the specification does not allow:           *)
(*   "outcome"   success, error or panic where another was due             *)
(*   "illformed" the matrix handed back is not a well-formed one           *)
(*   "operands"  an operand that had to stay as it was has changed         *)
(*   "result"    the result is well formed but not the specified one       *)
WellFormedOut(e) ==
  /\ e.op \in MakeOps => WF(e.m)
  /\ InPlace(e) => \A k \in DOMAIN e.post : WF(e.post[k])

Kind(e) ==
  LET A == Operands(e) IN
  CASE e.out # (IF Fits(e, A) THEN "ok" ELSE Reject(e)) -> "outcome"
    [] e.out = "ok" /\ ~WellFormedOut(e) -> "illformed"
    [] (e.out # "ok" \/ ~InPlace(e)) /\ e.post # A -> "operands"
    [] OTHER -> "result"

(* After such an event the history goes on from what the library really    *)
(* did, as long as the state is one the specification can speak about.     *)
Bad(tag, kind, e) ==
  /\ PrintT(<<tag, l, e.op, kind>>)
  /\ IF /\ tag = "REJECT" /\ kind = "result"
        /\ e.op # "same"
        /\ \A k \in DOMAIN After(e, e) : After(e, e)[k].f = "dok" => NoZeros(After(e, e)[k])
     THEN reg' = After(e, e) /\ skip' = FALSE
     ELSE IF tag = "REJECT" /\ kind = "outcome" /\ e.out \in {"err", "panic"} /\ e.post = Operands(e)
     THEN reg' = reg /\ skip' = FALSE
     ELSE reg' = reg /\ skip' = TRUE

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "reset" -> reg' = <<>> /\ skip' = FALSE
       [] e.op # "reset" /\ (skip \/ ~HasOperands(e)) -> UNCHANGED <<reg, skip>>
       [] e.op = "same" /\ ~skip /\ HasOperands(e) ->
            IF SameMatrix(reg[e.a[1]], reg[e.a[2]])
            THEN UNCHANGED <<reg, skip>>
            ELSE Bad("REJECT", "result", e)
       [] OTHER ->
            IF ~Valid(e, Operands(e)) THEN Bad("GENERR", "-", e)
            ELSE IF OutcomeOk(e, e) THEN reg' = After(e, e) /\ UNCHANGED skip
            ELSE Bad("REJECT", Kind(e), e)

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Every line was consumed.                                                *)
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
