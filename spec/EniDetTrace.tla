----------------------------- MODULE EniDetTrace -----------------------------
EXTENDS EniDet, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, memo
vars == <<tid, l, memo>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ memo = Fresh(Traces[tid].nq)
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN e.op = "ask" /\ Consistent(memo, e.q, e.ans) /\ memo' = Remember(memo, e.q, e.ans)
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
