---------------------------- MODULE JsonApiTrace ----------------------------
EXTENDS JsonApi, Json
CONSTANTS What      \* "value" (C14) or "print" (C13)
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, R
vars == <<tid, l, R>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ R = NoRegs
Reparsed(e, v) == e.text = PrintV(v) /\ (Defined(v) => /\ e.res = Dump(ValueOfText(e.text))
                                                       /\ SameValue(ValueOfText(e.text), v))
Ok(e, o) == CASE What = "value" -> e.exc = o.exc /\ (e.op # "print" => e.res = o.res) /\ e.regs = DumpRegs(o.R) /\ e.types = 1
              [] What = "print" -> e.op = "print" => e.exc = "none" /\ Reparsed(e, Get(R, e.a))
Known(e) == e.op \notin {"crash", "hang"}
Step == /\ l <= Len(Traces[tid].ev)
        /\ Known(Traces[tid].ev[l])
        /\ LET e == Traces[tid].ev[l]
               o == TLCEval(Apply(R, e))
           IN Ok(e, o) /\ R' = o.R
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
