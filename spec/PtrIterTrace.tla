---------------------------- MODULE PtrIterTrace ----------------------------
EXTENDS PtrIter, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, p, s
vars == <<tid, l, p, s>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ p = <<0, 0, 0, 0>> /\ s = Traces[tid].init
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
           /\ "a" \in DOMAIN e
           /\ e.ret = Ret(p, s, e)
           /\ Outcome(p, s, e, e.s)
           /\ p' = Regs(p, Len(s), e)
           /\ e.p = p'
           /\ s' = e.s
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == \A r \in 1..4 : p[r] \in 0..Len(s)
=============================================================================
