----------------------------- MODULE JsonApiMC -----------------------------
(* All short programs over two registers. Every transition is emitted as a test: the calls so far with the outcome of
   the last one and all registers after it. *)
EXTENDS JsonApi, Json
CONSTANTS MaxOps, MaxNodes, Group
VARIABLES R, h
vars == <<R, h>>

K == {<<97>>, <<98>>}
PathsIn(v) == IF v[1] = "arr" THEN {<<<<"i", i - 1>>>> : i \in 1..Len(v[2])}
              ELSE IF v[1] = "obj" THEN {<<<<"k", Iteration(v[2])[i][1]>>>> : i \in 1..ObjSize(v)} ELSE {}
Locs1(r) == IF R[r] = None \/ R[r][1] = "note" THEN {}
            ELSE {<<r, p>> : p \in {<<>>} \cup PathsIn(R[r])}
Locs == LET d1 == Locs1(0) \cup Locs1(1)
        IN d1 \cup UNION {LET v == Get(R, q) IN {<<q[1], q[2] \o p>> : p \in IF Len(q[2]) = 1 THEN PathsIn(v) ELSE {}} : q \in d1}
Is(q, t) == Get(R, q)[1] = t
L0 == <<0, <<>>>>
Call(op, a, b, x, n) == [op |-> op, a |-> a, b |-> b, x |-> x, n |-> n]
At(r) == <<r, <<>>>>

Value0 == {Call("new", At(1), L0, <<>>, 0), Call("bool", At(1), L0, <<>>, 1), Call("cint", At(1), L0, <<>>, -7),
           Call("str", At(1), L0, <<34>>, 0), Call("arr", At(1), L0, <<>>, 0), Call("obj", At(1), L0, <<>>, 0)}
Make == Value0 \cup {[c EXCEPT !.a = At(0)] : c \in Value0}
Arrs == {q \in Locs : Is(q, "arr")}
Objs == {q \in Locs : Is(q, "obj")}
Copying == {Call(op, At(1), q, <<>>, 0) : op \in {"cpy", "mov"}, q \in Locs} \cup {Call("mov", At(0), q, <<>>, 0) : q \in Locs}
Assigning == {Call("asg", p, q, <<>>, 0) : p \in Locs, q \in Locs} \cup {Call("masg", p, q, <<>>, 0) : p \in Locs, q \in {L0, At(1)} \cap Locs}
Building == {Call(op, p, q, <<>>, 0) : op \in {"push"}, p \in Arrs, q \in Locs} \cup {Call("put", p, q, k, 0) : p \in Objs, q \in Locs, k \in K}
            \cup {Call("ins", p, q, <<>>, n) : p \in Arrs, q \in {L0, At(1)} \cap Locs, n \in 0..1}
Editing == {Call("aera", p, L0, <<>>, 0) : p \in Arrs} \cup {Call("arsz", p, L0, <<>>, n) : p \in Arrs, n \in {1, 2}}
           \cup {Call("erase", p, L0, k, 0) : p \in Objs, k \in K} \cup {Call("touch", p, L0, k, 0) : p \in Objs, k \in K}
           \cup {Call("sapp", p, L0, <<92>>, 0) : p \in {q \in Locs : Is(q, "str")}}
           \cup {Call("iset", p, L0, <<50, 51>>, 0) : p \in {q \in Locs : Is(q, "int")}}
           \cup {Call("pop", p, L0, <<>>, 0) : p \in {q \in Arrs : Len(Get(R, q)[2]) > 0}} \cup {Call("clr", p, L0, <<>>, 0) : p \in Arrs}
           \cup {Call("del", At(r), L0, <<>>, 0) : r \in {x \in {0, 1} : R[x] # None}}
Reading == {Call(op, q, L0, k, 0) : op \in {"rk"}, q \in Locs, k \in K} \cup {Call("ri", q, L0, <<>>, n) : q \in Locs, n \in {-1, 0, 1}}
           \cup {Call("size", q, L0, <<>>, 0) : q \in Arrs \cup Objs} \cup {Call("ork", q, L0, k, 0) : q \in Objs, k \in K}
           \cup {Call("ari", q, L0, <<>>, n) : q \in Arrs, n \in {-1, 0, 1}}
           \cup {Call(op, q, L0, <<49>>, 0) : op \in {"dint", "dobj", "darr"}, q \in Locs}
Printing == {Call("print", q, L0, <<>>, 0) : q \in {L0, At(1)} \cap Locs}

Notes == {r \in {0, 1} : R[r] # None /\ R[r][1] = "note"}
Noting == {Call("note", At(r), L0, <<>>, n) : r \in {0, 1}, n \in 0..5}
          \cup {Call(op, At(a), At(b), <<>>, 0) : op \in {"ncpy", "nmov", "nasg", "nmasg"}, a \in Notes, b \in Notes}
          \cup {Call(op, At(1), At(0), <<>>, 0) : op \in IF 0 \in Notes THEN {"ncpy", "nmov"} ELSE {}}
          \cup {Call("nval", At(1), At(r), <<>>, 0) : r \in {x \in {0, 1} : R[x] # None} \ Notes}
          \cup {Call("del", At(r), L0, <<>>, 0) : r \in Notes}
Calls == IF Group = "note" THEN Noting \cup Value0
         ELSE IF Group = "value" THEN Make \cup Copying \cup Assigning \cup Building \cup Editing \cup Reading
         ELSE Make \cup Building \cup Editing \cup Printing

RECURSIVE Nodes(_)
Nodes(v) == CASE v[1] = "arr" -> FoldLeft(LAMBDA n, x : n + Nodes(x), 1, v[2])
              [] v[1] = "obj" -> FoldLeft(LAMBDA n, x : n + Nodes(x[2]), 1, Iteration(v[2]))
              [] OTHER -> 1
Small == Nodes(R[0]) + Nodes(R[1]) <= MaxNodes

Test(c, o) == [h |-> Append(h, c), exc |-> o.exc, res |-> o.res, text |-> o.text, regs |-> DumpRegs(o.R)]
(* value semantics: a call changes only the registers it writes to, and lookups and refused calls change nothing *)
Frame(c, o) == /\ \A r \in Regs : r \notin {c.a[1]} \cup (IF c.op \in {"mov", "nmov", "nmasg"} THEN {c.b[1]} ELSE {}) => o.R[r] = R[r]
               /\ c.op \in {"rk", "ri", "ork", "ari", "size", "print"} \/ o.exc # "none" => o.R = R
Init == R = NoRegs /\ h = <<>>
Next == Len(h) < MaxOps /\ \E c \in Calls :
          LET o == TLCEval(Apply(R, c))
          IN /\ Assert(Frame(c, o), <<"a call changed what it does not write", c>>)
             /\ PrintT("T@" \o ToJson(Test(c, o)))
             /\ R' = o.R
             /\ h' = IF o.R = R THEN h ELSE Append(h, c)
Spec == Init /\ [][Next]_vars
View == R
Bounded == Small

=============================================================================
