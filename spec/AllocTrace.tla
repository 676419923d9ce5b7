------------------------------ MODULE AllocTrace ------------------------------
(* Recorded use of the allocators. e.blocks[k] shows block k: objs (values read back, -1 where raw), addr = 1 when the
   address of every object is what the allocator says it is, mark = 1 when the raw storage still holds the pattern that
   the driver filled it with; e.living is the number of counted objects; e.got is what a request gave. *)
EXTENDS Alloc, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, b
vars == <<tid, l, b>>
NB == 4
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ b = [k \in 1..NB |-> None]
Shown(x, o) == IF x = None THEN o.kind = "" /\ o.objs = <<>>
               ELSE o.kind = x.kind /\ o.objs = x.objs /\ o.addr = 1 /\ o.mark = 1
Request(e) == CASE e.op = "new" -> (e.got = 1 \/ (e.n = 0 /\ e.got \in {0, 1}))    \* no storage is needed for nothing
                [] e.op = "huge" -> e.got = 0                                       \* nothing can hold that many
                [] OTHER -> TRUE
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
             /\ Enabled(b, e)
             /\ b' = TLCEval(After(b, e))
             /\ Request(e)
             /\ e.max = 1                       \* max_size() is the largest number of objects whose size can be written down
             /\ e.living = Living(b')
             /\ \A k \in 1..NB : Shown(b'[k], e.blocks[k])
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == Living(b) >= 0
===============================================================================
