------------------------------ MODULE EniBase ------------------------------
(* The life cycle of one native operation object. The operation itself is a plan: the verdict of its argument check, its
   gas, the verdict of its run and what the run produces. An object is created from an argument text whose parsed value
   is an array or something else. *)
EXTENDS Naturals, Sequences

NewObj(plan, isArray) == [plan |-> plan, arr |-> isArray, parsed |-> FALSE, ok |-> FALSE, checks |-> 0, gasWork |-> 0, runWork |-> 0]
Checked(o) == IF o.parsed THEN o
              ELSE [o EXCEPT !.parsed = TRUE, !.ok = o.arr /\ o.plan.check = 1, !.checks = IF o.arr THEN @ + 1 ELSE @]
\* the calls into the operation's own code, in order: "p" check, "g" gas, "r" run
CheckCalls(o) == IF ~o.parsed /\ o.arr THEN <<"p">> ELSE <<>>
AfterGas(o) == LET c == Checked(o) IN IF c.ok THEN [c EXCEPT !.gasWork = @ + 1] ELSE c
AfterRun(o) == LET c == Checked(o) IN IF c.ok THEN [c EXCEPT !.runWork = @ + 1] ELSE c
GasOf(o) == IF Checked(o).ok THEN o.plan.gas ELSE 1500
HasResult(o) == Checked(o).ok /\ o.plan.run = 1

(* calls: what the code did, must be the check (when due), then the work and nothing else *)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
GasCalls(o, calls) == LET p == CheckCalls(o)  w == SubSeq(calls, Len(p) + 1, Len(calls))
                      IN Prefix(p, calls) /\ IF Checked(o).ok THEN w # <<>> /\ \A i \in 1..Len(w) : w[i] = "g" ELSE w = <<>>
RunCalls(o, calls) == calls = CheckCalls(o) \o (IF Checked(o).ok THEN <<"r">> ELSE <<>>)

(* the properties of an object *)
CheckOnce(o) == o.checks <= 1
RejectedDoesNothing(o) == o.parsed /\ ~o.ok => o.gasWork = 0 /\ o.runWork = 0
WorkImpliesCheck(o) == o.gasWork + o.runWork > 0 => o.checks = 1 /\ o.arr /\ o.plan.check = 1
=============================================================================
