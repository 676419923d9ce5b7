--------------------------- MODULE JsonTextTrace ---------------------------
(* Recorded parses. An event carries the text and what the code said: verdict (ok), whether it was the same wherever
   the text was in memory (same), the tree of the value, its printed text, and the tree after parsing that text. *)
EXTENDS JsonText, Json
CONSTANTS What     \* "verdict", "value" or "print": the property being decided
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
vars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Ok(e) == IF e.op # "parse" THEN FALSE
         ELSE LET p == TLCEval(Parse(e.s))
                  ok == p.m = "done"
              IN CASE What = "verdict" -> e.same = 1 /\ (e.ok = 1) = ok
                   [] What = "value" -> ok /\ e.ok = 1 => e.tree = Dump(p.v)
                   [] What = "print" -> ok /\ e.ok = 1 /\ e.tree = Dump(p.v) => e.print = PrintV(p.v) /\ e.re = Dump(ValueOfText(e.print))
Next == l <= Len(Traces[tid].ev) /\ Ok(Traces[tid].ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Next \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
