------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the tools. *)
EXTENDS Cli, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN e.op = "exec" /\ RunOk(e.tool, e.args, Traces[tid].libs, e)
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
