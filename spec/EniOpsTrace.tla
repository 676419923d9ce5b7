----------------------------- MODULE EniOpsTrace -----------------------------
(* Recorded calls of operations: "call" is judged by the specification of the operation, "fuzz" (damaged keys) only for
   the kinds of outcomes that exist at all. *)
EXTENDS EniOps, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Bad == <<49, 53, 48, 48>>
Tens(g) == g[Len(g)] = 48
Tame(e) == IF "text" \in DOMAIN e /\ ~Accepts(e.text) THEN e.st = 87
           ELSE /\ e.st = 0 /\ Tens(e.gas)
                /\ e.gas = Bad => e.has = 0
                /\ e.has = 1 => Accepts(e.res) /\ ValueOfText(e.res)[1] = "arr"
Ok(e) == CASE e.op \in {"call", "here"} -> OutcomeOk(e.name, e.text, Traces[tid].keys, e)
           [] e.op = "fuzz" -> Tame(e)
           [] OTHER -> FALSE
Step == /\ l <= Len(Traces[tid].ev)
        /\ Ok(Traces[tid].ev[l])
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
