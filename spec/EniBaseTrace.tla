---------------------------- MODULE EniBaseTrace ----------------------------
(* Recorded lives of operation objects and calls of the C entry points, with real argument texts and values. *)
EXTENDS JsonText, Json
EB == INSTANCE EniBase
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, obj
vars == <<tid, l, obj>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ obj = [i \in 1..4 |-> <<>>]

\* the arguments seen by the check and by nobody else
Args(e, o) == IF EB!CheckCalls(o) # <<>> THEN e.args = Dump(Parse(o.plan.text).v) ELSE e.args = <<>>
\* the result: the text of the array of the produced values
Result(o, e) == IF EB!HasResult(o) THEN e.has = 1 /\ e.res = PrintV(Parse(o.plan.vals).v) ELSE e.has = 0
Fresh(e) == LET p == Parse(e.text) IN EB!NewObj([check |-> e.check, gas |-> e.gas, run |-> e.run, vals |-> e.vals, text |-> e.text],
                                                 p.m = "done" /\ p.v[1] = "arr")
GasText(o) == IF EB!Checked(o).ok THEN o.plan.gas ELSE <<49, 53, 48, 48>>
GasEvent(o, e) == EB!GasCalls(o, e.calls) /\ Args(e, o) /\ e.ret = GasText(o)
RunEvent(o, e) == EB!RunCalls(o, e.calls) /\ Args(e, o) /\ Result(o, e)

Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
           CASE e.op = "new" -> /\ Accepts(e.text) /\ e.calls = <<>>
                                /\ obj' = [obj EXCEPT ![e.o] = Fresh(e)]
             [] e.op = "gas" -> GasEvent(obj[e.o], e) /\ obj' = [obj EXCEPT ![e.o] = EB!AfterGas(@)]
             [] e.op = "run" -> RunEvent(obj[e.o], e) /\ obj' = [obj EXCEPT ![e.o] = EB!AfterRun(@)]
             [] e.op = "del" -> e.dtor = 1 /\ e.calls = <<>> /\ obj' = [obj EXCEPT ![e.o] = <<>>]
             \* C entry points: an object for this call only, which is destroyed
             [] e.op = "cgas" -> LET o == TLCEval(Fresh(e)) IN Accepts(e.text) /\ e.dtor = 1 /\ GasEvent(o, e) /\ UNCHANGED obj
             [] e.op = "crun" -> LET o == TLCEval(Fresh(e)) IN Accepts(e.text) /\ e.dtor = 1 /\ RunEvent(o, e) /\ UNCHANGED obj
             \* creation in a process of its own: it exits with 87 exactly when the text is refused
             [] e.op = "xnew" -> e.st = (IF Accepts(e.text) THEN 0 ELSE 87) /\ UNCHANGED obj
             [] OTHER -> FALSE
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == \A i \in 1..4 : obj[i] # <<>> => EB!CheckOnce(obj[i]) /\ EB!RejectedDoesNothing(obj[i]) /\ EB!WorkImpliesCheck(obj[i])
=============================================================================
