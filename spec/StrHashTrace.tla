---------------------------- MODULE StrHashTrace ----------------------------
EXTENDS StrHash, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Ok(e) == CASE e.op = "hash" -> e.same = 1 /\ e.h = AllHashes(e.s)
           [] e.op = "inc" -> /\ IsSubstring(e.p, e.s) => e.ret = 1
                              /\ e.ret = IF MayInclude(e.p, e.s) THEN 1 ELSE 0
           [] OTHER -> FALSE
Step == l <= Len(Traces[tid].ev) /\ Ok(Traces[tid].ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
