------------------------------ MODULE VectorMC ------------------------------
(* Exploration of all histories over two small vectors; every transition is emitted as a test. *)
EXTENDS Vector, TLC, Json
CONSTANTS MaxLen, MaxDepth, Vals, Group
VARIABLES vec, hist
vars == <<vec, hist>>
None == [s |-> <<-1>>, r |-> 0]
Live(v) == vec[v] # None
Init == vec = <<None, None>> /\ hist = <<>>
Lists == {<<>>} \cup {<<a>> : a \in Vals} \cup {<<a, b>> : a, b \in Vals}
Call(op, v, i, n, x, ls) == [op |-> op, v |-> v, i |-> i, n |-> n, x |-> x, lst |-> ls]
Idx == 0..(MaxLen + 1)
Calls(v) ==
  CASE Group = "seq" ->
       {Call(op, v, 0, 0, x, <<>>) : op \in {"push", "emp"}, x \in Vals} \cup {Call(op, v, 0, 0, 0, <<>>) : op \in {"pop", "clr", "frt", "bck"}}
       \cup {Call(op, v, i, 0, x, <<>>) : op \in {"ins", "insi"}, i \in Idx, x \in Vals}
       \cup {Call(op, v, i, n, x, <<>>) : op \in {"insn", "insni"}, i \in Idx, n \in 0..2, x \in Vals}
       \cup {Call(op, v, i, 0, 0, ls) : op \in {"insr", "insri", "insl", "insli"}, i \in Idx, ls \in Lists}
       \cup {Call(op, v, i, 0, 0, <<>>) : op \in {"era", "erai", "at", "cat", "idx", "cidx", "dat"}, i \in Idx}
       \cup {Call(op, v, i, n, 0, <<>>) : op \in {"err", "erri"}, i \in Idx, n \in Idx}
       \cup {Call("rsz", v, 0, n, 0, <<>>) : n \in 0..MaxLen} \cup {Call("rszf", v, 0, n, x, <<>>) : n \in 0..MaxLen, x \in Vals}
       \cup {Call("asn", v, 0, n, x, <<>>) : n \in 0..MaxLen, x \in Vals} \cup {Call(op, v, 0, 0, 0, ls) : op \in {"asr", "asl"}, ls \in Lists}
  [] Group = "err" ->
       {Call("push", v, 0, 0, x, <<>>) : x \in Vals} \cup {Call(op, v, i, 0, x, <<>>) : op \in {"ins", "setat"}, i \in Idx, x \in Vals}
       \cup {Call(op, v, i, 0, 0, <<>>) : op \in {"era", "at", "cat"}, i \in Idx}
       \cup {Call("insn", v, i, n, 9, <<>>) : i \in Idx, n \in 0..1} \cup {Call(op, v, i, 0, 0, <<9>>) : op \in {"insr", "insl"}, i \in Idx}
       \cup {Call(op, v, i, n, 0, <<>>) : op \in {"err", "erri"}, i \in Idx, n \in Idx}
       \cup {Call(op, v, 0, 0, x, <<>>) : op \in {"rszbig", "resbig"}, x \in 0..2} \cup {Call("insbig", v, i, 0, x, <<>>) : i \in Idx, x \in 1..2}
  [] Group = "own" ->
       {Call("push", v, 0, 0, x, <<>>) : x \in Vals} \cup {Call(op, v, 0, 0, j, <<>>) : op \in {"pusha", "empa"}, j \in 0..MaxLen}
       \cup {Call(op, v, i, 0, j, <<>>) : op \in {"insa", "insai"}, i \in 0..MaxLen, j \in 0..MaxLen}
       \cup {Call(op, v, i, 2, j, <<>>) : op \in {"insna", "insnai"}, i \in 0..MaxLen, j \in 0..MaxLen}
       \cup {Call(op, v, 0, n, j, <<>>) : op \in {"rsza", "asna"}, n \in 0..MaxLen, j \in 0..MaxLen}
       \cup {Call("asgl", v, 0, 0, 0, ls) : ls \in Lists} \cup {Call("res", v, 0, n, 0, <<>>) : n \in {1, MaxLen}}
       \cup {Call("seti", v, i, 0, x, <<>>) : i \in 0..(MaxLen - 1), x \in Vals} \cup {Call("pop", v, 0, 0, 0, <<>>), Call("clr", v, 0, 0, 0, <<>>), Call("shr", v, 0, 0, 0, <<>>)}
New(v) == {Call("new", v, 0, 0, 0, <<>>)} \cup {Call("newn", v, 0, n, 0, <<>>) : n \in 0..MaxLen} \cup {Call("newf", v, 0, n, x, <<>>) : n \in 0..MaxLen, x \in Vals}
          \cup {Call(op, v, 0, 0, 0, ls) : op \in {"newsv", "newil"}, ls \in Lists}
NewSeq(e) == CASE e.op = "new" -> <<>> [] e.op = "newn" -> Rep(e.n, Default) [] e.op = "newf" -> Rep(e.n, e.x) [] OTHER -> e.lst
Put(v, q, e, exc, pos, val) ==
  /\ vec' = [vec EXCEPT ![v] = q]
  /\ hist' = Append(hist, e)
  /\ Len(q.s) <= MaxLen
  /\ PrintT("T@" \o ToJson([h |-> hist', exc |-> exc, pos |-> pos, val |-> val,
                            all |-> [w \in 1..2 |-> IF vec'[w] = None THEN <<-1>> ELSE vec'[w].s]]))
Step == \/ \E v \in 1..2 : ~Live(v) /\ (v = 1 \/ Group = "own") /\ \E e \in New(v) : Put(v, [s |-> NewSeq(e), r |-> 0], e, "none", -1, -1)
        \/ \E v \in 1..2 : Live(v) /\ \E e \in Calls(v) : Allowed(vec[v].s, e) /\
              LET o == Apply(vec[v].s, e) IN Put(v, [s |-> o.s, r |-> Reserve(vec[v], e)], e, o.exc, o.pos, Value(vec[v].s, e))
        \/ Group = "own" /\ \E v, w \in 1..2 : Live(w) /\
              \/ ~Live(v) /\ Put(v, [s |-> vec[w].s, r |-> 0], Call("cpy", v, 0, 0, w, <<>>), "none", -1, -1)
              \/ Live(v) /\ Put(v, [s |-> vec[w].s, r |-> 0], Call("asgv", v, 0, 0, w, <<>>), "none", -1, -1)
        \/ Group = "own" /\ Live(1) /\ Live(2) /\ \E v \in 1..2 :
              /\ vec' = <<vec[2], vec[1]>>
              /\ hist' = Append(hist, Call("swp", v, 0, 0, 3 - v, <<>>))
              /\ PrintT("T@" \o ToJson([h |-> hist', exc |-> "none", pos |-> -1, val |-> -1, all |-> <<vec[2].s, vec[1].s>>]))
Spec == Init /\ [][Step]_vars
View == <<vec[1].s, vec[2].s>>
Bounded == Len(hist) < MaxDepth
(* an error changes nothing; only values ever given appear *)
ErrorsChangeNothing == [][\A v \in 1..2 : Live(v) /\ hist'[Len(hist')].v = v /\ hist'[Len(hist')].op \in {"ins", "era", "err", "at", "setat"}
                            /\ Apply(vec[v].s, hist'[Len(hist')]).exc # "none" => vec'[v].s = vec[v].s]_vars
OnlyGivenValues == \A v \in 1..2 : Live(v) => \A k \in 1..Len(vec[v].s) : vec[v].s[k] \in Vals \cup {Default, 9}
=============================================================================
