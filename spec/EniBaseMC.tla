----------------------------- MODULE EniBaseMC -----------------------------
(* Every interleaving of calls on a few operation objects; each one becomes a test for the code. *)
EXTENDS EniBase, TLC, Json
CONSTANTS NObjs, MaxCalls
VARIABLES obj, h, out
vars == <<obj, h, out>>
None == [plan |-> <<>>]
Plans == [check : {0, 1}, gas : {7}, run : {0, 1}]
Exists(i) == obj[i] # None
Init == obj = [i \in 1..NObjs |-> None] /\ h = <<>> /\ out = <<>>
Create(i) == \E p \in Plans, a \in BOOLEAN :
               /\ ~Exists(i) /\ (i > 1 => Exists(i - 1))
               /\ obj' = [obj EXCEPT ![i] = NewObj(p, a)]
               /\ h' = Append(h, <<"new", i, IF a THEN 1 ELSE 0, p.check, p.run>>)
               /\ out' = Append(out, <<>>)
Gas(i) == /\ Exists(i)
          /\ obj' = [obj EXCEPT ![i] = AfterGas(@)]
          /\ h' = Append(h, <<"gas", i>>)
          /\ out' = Append(out, <<GasOf(obj[i])>>)
\* a second run of one object adds to the values of the first: not part of the life cycle
Run(i) == /\ Exists(i) /\ (obj[i].runWork = 0)
          /\ obj' = [obj EXCEPT ![i] = AfterRun(@)]
          /\ h' = Append(h, <<"run", i>>)
          /\ out' = Append(out, <<IF HasResult(obj[i]) THEN 1 ELSE 0>>)
Next == Len(h) < MaxCalls /\ \E i \in 1..NObjs : Create(i) \/ Gas(i) \/ Run(i)
Spec == Init /\ [][Next]_vars
Objs == {i \in 1..NObjs : Exists(i)}
Once == \A i \in Objs : CheckOnce(obj[i])
Rejected == \A i \in Objs : RejectedDoesNothing(obj[i])
CheckedFirst == \A i \in Objs : WorkImpliesCheck(obj[i])
Calls == {"new", "gas", "run"}
\* the answers of an object never change, whatever happened to it and to the others in between
Stable == \A i, j \in 1..Len(h) : (h[i][1] = "gas" /\ h[j] = h[i]) => out[i] = out[j]
Emit == Len(h) = MaxCalls => PrintT("T@" \o ToJson([h |-> h, out |-> out]))
=============================================================================
