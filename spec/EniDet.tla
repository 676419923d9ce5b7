------------------------------- MODULE EniDet -------------------------------
(* The answer to a question (an operation and an argument text) is a function of the question: the first answer is
   remembered, and no history, thread, process or environment may give another one. *)
EXTENDS Naturals, Sequences
None == "none"
Fresh(n) == [q \in 1..n |-> None]
Consistent(memo, q, ans) == memo[q] \in {None, ans}
Remember(memo, q, ans) == [memo EXCEPT ![q] = ans]
=============================================================================
