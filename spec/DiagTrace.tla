------------------------------ MODULE DiagTrace ------------------------------
(* Recorded exceptions: every slot is what the history makes it, by its message, by the classes that catch it and by the
   one diagnostic type that catches it. *)
EXTENDS Diag, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, s
vars == <<tid, l, s>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = [i \in 1..4 |-> <<>>]
Shown(x, o) == IF x = <<>> THEN o.what = "" /\ o.std = <<>> /\ o.own = <<>>
               ELSE /\ o.what = Text(x[1]) /\ o.direct = Text(x[1])
                    /\ {o.std[i] : i \in 1..Len(o.std)} = Classes(x[2])
                    /\ o.own = <<<<x[1], x[2]>>>>
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               x == IF e.op = "make" THEN <<e.id, e.kind>> ELSE IF e.op = "site" THEN Site(e.id) ELSE <<>>
           IN /\ Enabled(s, e.op, e.d, e.a)
              /\ s' = After(s, e.op, e.d, e.a, x)
              /\ \A i \in 1..4 : Shown(s'[i], e.slots[i])
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
