---------------------------- MODULE PtrWideTrace ----------------------------
(* Iterators over a storage so large that only the elements written are kept: w maps a position to what was written
   there, every other element is 0. Positions reach 2^31 - 1, offsets in bytes go beyond 2^32. *)
EXTENDS PtrIter, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, p, w
vars == <<tid, l, p, w>>
Read(i) == IF i \in DOMAIN w THEN w[i] ELSE 0
Write(i, x) == [j \in DOMAIN w \cup {i} |-> IF j = i THEN x ELSE w[j]]
WRet(e) == CASE e.op \in {"get", "cget", "arr", "carr"} -> Read(p[e.a])
             [] e.op = "idx" -> Read(p[e.a] + e.k)
             [] e.op \in {"put", "puti"} -> -1
             [] OTHER -> Ret(p, <<>>, e)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ p = <<0, 0, 0, 0>> /\ w = <<>>
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
           /\ "a" \in DOMAIN e
           /\ e.ret = WRet(e)
           /\ p' = Regs(p, Traces[tid].n, e)
           /\ e.p = p'
           /\ w' = CASE e.op = "put" -> Write(p[e.a], e.k)
                     [] e.op = "puti" -> Write(p[e.a] + e.b, e.k)
                     [] OTHER -> w
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == \A r \in 1..4 : p[r] \in 0..Traces[tid].n
=============================================================================
