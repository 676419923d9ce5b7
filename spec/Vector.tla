------------------------------- MODULE Vector -------------------------------
(* The vector as a sequence. State of one vector: [s |-> sequence, r |-> capacity it is obliged to keep].
   Apply gives the sequence after a call, the error it raises, and the position an iterator form returns.
   A call is a record with op, i, n, x, lst: indices are 0-based as in the code; lst is a sequence of values;
   x is a value; a source position j (aliasing calls) is carried in x. *)
EXTENDS Integers, Sequences
Default == 0
Fresh == [s |-> <<>>, r |-> 0]
Rep(n, x) == [k \in 1..n |-> x]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
InsertAt(s, i, ls) == Take(s, i) \o ls \o Drop(s, i)
Resized(s, n, x) == IF n <= Len(s) THEN Take(s, n) ELSE s \o Rep(n - Len(s), x)
Out(s) == [s |-> s, exc |-> "none", pos |-> -1]
OutP(s, p) == [s |-> s, exc |-> "none", pos |-> p]
Err(s, e) == [s |-> s, exc |-> e, pos |-> -1]
HugeSize == {"max+1", "all"}   \* more than the maximum size; "max": the maximum size, which no memory can hold

(* e.big # "" marks a request that cannot be satisfied *)
Apply(s, e) ==
  LET i == e.i  n == e.n  x == e.x  ls == e.lst  op == e.op IN
  CASE op \in {"push", "emp"} -> Out(Append(s, x))
    [] op \in {"pusha", "empa"} -> Out(Append(s, s[x + 1]))
    [] op = "pop" -> Out(Take(s, Len(s) - 1))
    [] op \in {"ins", "insn", "insr", "insl", "insa", "insna"} /\ i > Len(s) -> Err(s, "index")
    [] op \in {"ins", "insi"} -> OutP(InsertAt(s, i, <<x>>), i)
    [] op \in {"insn", "insni"} -> OutP(InsertAt(s, i, Rep(n, x)), i)
    [] op \in {"insr", "insri", "insl", "insli"} -> OutP(InsertAt(s, i, ls), i)
    [] op \in {"insa", "insai"} -> OutP(InsertAt(s, i, <<s[x + 1]>>), i)
    [] op \in {"insna", "insnai"} -> OutP(InsertAt(s, i, Rep(n, s[x + 1])), i)
    [] op = "insbig" -> Err(s, IF i > Len(s) THEN "index" ELSE "size")
    [] op \in {"era", "erai"} -> IF i >= Len(s) THEN Err(s, "index") ELSE OutP(Take(s, i) \o Drop(s, i + 1), i)
    [] op \in {"err", "erri"} -> IF i >= n \/ n > Len(s) THEN Err(s, "index") ELSE OutP(Take(s, i) \o Drop(s, n), i)
    [] op = "rsz" -> Out(Resized(s, n, Default))
    [] op = "rszf" -> Out(Resized(s, n, x))
    [] op = "rsza" -> Out(Resized(s, n, s[x + 1]))
    [] op \in {"rszbig", "resbig"} -> Err(s, IF x = 0 THEN "nomem" ELSE "size")
    [] op = "asn" -> Out(Rep(n, x))
    [] op = "asna" -> Out(Rep(n, s[x + 1]))
    [] op \in {"asr", "asl", "asgl"} -> Out(ls)
    [] op \in {"res", "shr"} -> Out(s)
    [] op = "setat" -> IF i >= Len(s) THEN Err(s, "index") ELSE Out([s EXCEPT ![i + 1] = x])
    [] op \in {"seti", "setd"} -> Out([s EXCEPT ![i + 1] = x])
    [] op = "clr" -> Out(<<>>)
    [] op \in {"at", "cat"} -> IF i >= Len(s) THEN Err(s, "index") ELSE Out(s)
    [] OTHER -> Out(s)
(* the value a call returns *)
Value(s, e) == CASE e.op = "pop" -> s[Len(s)]
                 [] e.op \in {"at", "cat", "idx", "cidx", "dat"} -> IF e.i < Len(s) THEN s[e.i + 1] ELSE -1
                 [] e.op = "frt" -> s[1]
                 [] e.op = "bck" -> s[Len(s)]
                 [] OTHER -> -1
(* calls whose precondition the caller has to meet; nothing is specified otherwise *)
Allowed(s, e) == /\ e.op \in {"pop", "frt", "bck"} => Len(s) > 0
                 /\ e.op \in {"idx", "cidx", "seti", "dat", "setd"} => e.i < Len(s)
                 /\ e.op \in {"pusha", "empa", "insa", "insai", "insna", "insnai", "rsza", "asna"} => e.x < Len(s)
                 /\ e.op \in {"insi", "insni", "insri", "insli", "insai", "insnai", "erai", "erri"} => e.i <= Len(s)
                 /\ e.op = "erri" => e.n <= Len(s)
Reserve(v, e) == IF e.op = "res" THEN (IF e.n > v.r THEN e.n ELSE v.r) ELSE IF e.op \in {"clr", "asgl"} THEN 0 ELSE v.r
Stable == {"push", "pusha", "emp", "empa", "pop", "ins", "insi", "insn", "insni", "insr", "insri", "insl", "insli", "insa", "insai",
           "insna", "insnai", "era", "erai", "err", "erri", "rsz", "rszf", "rsza", "setat", "at", "cat", "idx", "cidx", "frt", "bck"}
=============================================================================
