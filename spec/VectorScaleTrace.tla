-------------------------- MODULE VectorScaleTrace --------------------------
(* Recorded executions on long vectors, whose contents are logged as runs. *)
EXTENDS VectorRuns, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, vec
vars == <<tid, l, vec>>
NV == 3
None == [s |-> <<<<-1, 1>>>>, r |-> 0]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ vec = [v \in 1..NV |-> None]
News == {"new", "newn", "newf", "newsv", "cpy"}
Pure == News \cup {"del", "swp", "asgv"}
NewRuns(e) == CASE e.op = "new" -> <<>> [] e.op = "newn" -> RepR(e.n, Default) [] e.op = "newf" -> RepR(e.n, e.x)
                [] e.op = "cpy" -> vec[e.x].s [] OTHER -> e.lr
After(e) ==
  CASE e.op \in News -> [vec EXCEPT ![e.v] = [s |-> NewRuns(e), r |-> 0]]
    [] e.op = "del" -> [vec EXCEPT ![e.v] = None]
    [] e.op = "swp" -> [vec EXCEPT ![e.v] = vec[e.x], ![e.x] = vec[e.v]]
    [] e.op = "asgv" -> [vec EXCEPT ![e.v] = IF e.v = e.x THEN @ ELSE [s |-> vec[e.x].s, r |-> 0]]
    [] OTHER -> LET o == ApplyR(vec[e.v].s, e) IN [vec EXCEPT ![e.v] = [s |-> o.s, r |-> IF o.exc = "none" THEN Reserve(@, e) ELSE @.r]]
Ok(e, aft) ==
  /\ e.op \notin {"crash", "hang"}
  /\ e.op \notin Pure => LET s == vec[e.v].s  o == ApplyR(s, e) IN
        /\ e.exc = o.exc
        /\ e.pos # -2 => e.pos = o.pos
        /\ e.exc = "none" => e.val = ValueR(s, e)
        /\ (e.op \in Stable /\ Total(o.s) <= vec[e.v].r /\ e.moved # -1) => e.moved = 0
  /\ e.op \in Pure => e.exc = "none"
  /\ e.op = "asgv" => e.self = 1
  /\ e.op # "del" => /\ e.sz = Total(aft[e.v].s) /\ e.emp = (IF e.sz = 0 THEN 1 ELSE 0)
                     /\ e.capok = 1 /\ e.cap >= aft[e.v].r
                     /\ e.views = 1
  /\ \A v \in 1..NV : e.runs[v] = aft[v].s
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               aft == TLCEval(IF "v" \in DOMAIN e THEN After(e) ELSE vec)
           IN "v" \in DOMAIN e /\ Ok(e, aft) /\ vec' = aft
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == \A v \in 1..NV : vec[v].r >= 0
=============================================================================
