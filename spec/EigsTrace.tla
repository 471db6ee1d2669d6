------------------------------ MODULE EigsTrace ------------------------------
(* Judges recorded calls of eigs, one per line; they are independent of each *)
(* other, also those that ran at the same time.                              *)
EXTENDS Eigs, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ EigsOk(Trace[l]) \/ PrintT(<<"REJECT", l, "eigs", Trace[l].out>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
