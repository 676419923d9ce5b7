------------------------------ MODULE Threads ------------------------------
(* Threads that call operations on objects of their own. An operation reads its argument into a place it works in, works,
   and answers from that place. Independent: every answer of a thread is the one the operation gives to a thread that is
   alone, so what a thread records is a behaviour of the sequential specification of the part it uses, whatever the others
   do in between. The places are private as long as no operation keeps a place of its own for all threads (Shared). *)
EXTENDS Naturals, Sequences
CONSTANTS Threads, Args, Calls, Shared
VARIABLES pc, place, arg, answers
vars == <<pc, place, arg, answers>>
\* what an operation answers, taken alone; any function of the argument will do
Alone(x) == (x * x + 1) % 97
Cell(t) == IF Shared THEN 0 ELSE t
Init == /\ pc = [t \in Threads |-> "idle"]
        /\ place = [p \in {0} \cup Threads |-> 0]
        /\ arg = [t \in Threads |-> 0]
        /\ answers = [t \in Threads |-> <<>>]
Call(t, x) == /\ pc[t] = "idle" /\ Len(answers[t]) < Calls
              /\ arg' = [arg EXCEPT ![t] = x] /\ place' = [place EXCEPT ![Cell(t)] = x]
              /\ pc' = [pc EXCEPT ![t] = "work"] /\ UNCHANGED answers
Work(t) == /\ pc[t] = "work"
           /\ place' = [place EXCEPT ![Cell(t)] = Alone(@)]
           /\ pc' = [pc EXCEPT ![t] = "answer"] /\ UNCHANGED <<arg, answers>>
Answer(t) == /\ pc[t] = "answer"
             /\ answers' = [answers EXCEPT ![t] = Append(@, <<arg[t], place[Cell(t)]>>)]
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<arg, place>>
Next == \E t \in Threads : Work(t) \/ Answer(t) \/ \E x \in Args : Call(t, x)
Spec == Init /\ [][Next]_vars
Independent == \A t \in Threads : \A i \in 1..Len(answers[t]) : answers[t][i][2] = Alone(answers[t][i][1])
=============================================================================
