---------------------------- MODULE VectorTrace ----------------------------
(* Accepts exactly the recorded vector executions that Vector allows. *)
EXTENDS Vector, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, vec
vars == <<tid, l, vec>>
NV == 3
None == [s |-> <<-1>>, r |-> 0]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ vec = [v \in 1..NV |-> None]
NewSeq(e) == CASE e.op = "new" -> <<>> [] e.op = "newn" -> Rep(e.n, Default) [] e.op = "newf" -> Rep(e.n, e.x)
               [] e.op = "cpy" -> vec[e.x].s [] OTHER -> e.lst
News == {"new", "newn", "newf", "newsv", "newil", "cpy"}
(* a vector moved from keeps its content or is empty, and can be used like any other *)
Left(e) == IF e.all[e.x] = <<>> THEN [s |-> <<>>, r |-> 0] ELSE vec[e.x]
After(e) ==
  CASE e.op \in News -> [vec EXCEPT ![e.v] = [s |-> NewSeq(e), r |-> 0]]
    [] e.op \in {"mov", "asgm"} -> [vec EXCEPT ![e.v] = [s |-> vec[e.x].s, r |-> 0], ![e.x] = Left(e)]
    [] e.op = "sws" -> [vec EXCEPT ![e.v] = [s |-> vec[e.x].s, r |-> 0], ![e.x] = [s |-> vec[e.v].s, r |-> 0]]
    [] e.op = "del" -> [vec EXCEPT ![e.v] = None]
    [] e.op = "swp" -> [vec EXCEPT ![e.v] = vec[e.x], ![e.x] = vec[e.v]]
    [] e.op = "asgv" -> [vec EXCEPT ![e.v] = IF e.v = e.x THEN @ ELSE [s |-> vec[e.x].s, r |-> 0]]
    [] OTHER -> [vec EXCEPT ![e.v] = [s |-> Apply(@.s, e).s, r |-> IF Apply(@.s, e).exc = "none" THEN Reserve(@, e) ELSE @.r]]
Pure == News \cup {"del", "swp", "asgv", "mov", "asgm", "sws"}
Ok(e, aft) ==
  /\ e.op \notin {"crash", "hang"}
  /\ e.op \notin Pure => LET s == vec[e.v].s  o == Apply(s, e) IN
        /\ e.exc = o.exc
        /\ e.pos # -2 => e.pos = o.pos          \* -2: the form without an iterator
        /\ e.exc = "none" => e.val = Value(s, e)
        /\ (e.op \in Stable /\ Len(o.s) <= vec[e.v].r /\ e.moved # -1) => e.moved = 0
  /\ e.op \in Pure => e.exc = "none"
  /\ e.op \in {"asgv", "asgl", "asgm"} => e.self = 1
  /\ e.op # "del" => /\ e.sz = Len(aft[e.v].s) /\ e.emp = (IF e.sz = 0 THEN 1 ELSE 0)
                     /\ e.capok = 1 /\ e.cap >= aft[e.v].r
                     /\ e.views = 1              \* const and mutable iteration, indexing, data, front, back agree
  /\ \A v \in 1..NV : e.all[v] = aft[v].s
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               aft == TLCEval(IF "v" \in DOMAIN e THEN After(e) ELSE vec)
           IN "v" \in DOMAIN e /\ Ok(e, aft) /\ vec' = aft
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == \A v \in 1..NV : vec[v].r >= 0
=============================================================================
