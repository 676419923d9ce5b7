----------------------------- MODULE VectorRuns -----------------------------
(* Long vectors: a sequence is written as its runs <<value, count>>, neighbouring values different, counts positive.
   ApplyR is Apply on runs; VectorRunsMC checks that the two agree on every short sequence. A list argument is given as
   runs as well (field lr). *)
EXTENDS Vector, SequencesExt
Norm(r) == FoldLeft(LAMBDA acc, x : IF x[2] = 0 THEN acc
                                    ELSE IF acc # <<>> /\ acc[Len(acc)][1] = x[1] THEN [acc EXCEPT ![Len(acc)] = <<x[1], @[2] + x[2]>>]
                                    ELSE Append(acc, x), <<>>, r)
Least(a, b) == IF a < b THEN a ELSE b
Total(r) == FoldLeft(LAMBDA n, x : n + x[2], 0, r)
TakeR(r, n) == Norm(FoldLeft(LAMBDA acc, x : LET k == Least(x[2], acc[2]) IN <<Append(acc[1], <<x[1], k>>), acc[2] - k>>, <<<<>>, n>>, r)[1])
DropR(r, n) == Norm(FoldLeft(LAMBDA acc, x : LET k == Least(x[2], acc[2]) IN <<Append(acc[1], <<x[1], x[2] - k>>), acc[2] - k>>, <<<<>>, n>>, r)[1])
AtR(r, i) == DropR(r, i)[1][1]
Runs(ls) == Norm([k \in 1..Len(ls) |-> <<ls[k], 1>>])
Expand(r) == FoldLeft(LAMBDA acc, x : acc \o Rep(x[2], x[1]), <<>>, r)
InsertR(r, i, ls) == Norm(TakeR(r, i) \o ls \o DropR(r, i))
RepR(n, x) == IF n = 0 THEN <<>> ELSE <<<<x, n>>>>
ResizedR(r, n, x) == LET t == Total(r) IN IF n <= t THEN TakeR(r, n) ELSE Norm(r \o RepR(n - t, x))

ApplyR(s, e) ==
  LET i == e.i  n == e.n  x == e.x  ls == e.lr  op == e.op  len == Total(s) IN
  CASE op \in {"push", "emp"} -> Out(Norm(Append(s, <<x, 1>>)))
    [] op \in {"pusha", "empa"} -> Out(Norm(Append(s, <<AtR(s, x), 1>>)))
    [] op = "pop" -> Out(TakeR(s, len - 1))
    [] op \in {"ins", "insn", "insr", "insa", "insna"} /\ i > len -> Err(s, "index")
    [] op \in {"ins", "insi"} -> OutP(InsertR(s, i, RepR(1, x)), i)
    [] op \in {"insn", "insni"} -> OutP(InsertR(s, i, RepR(n, x)), i)
    [] op \in {"insr", "insri"} -> OutP(InsertR(s, i, ls), i)
    [] op \in {"insa", "insai"} -> OutP(InsertR(s, i, RepR(1, AtR(s, x))), i)
    [] op \in {"insna", "insnai"} -> OutP(InsertR(s, i, RepR(n, AtR(s, x))), i)
    [] op \in {"era", "erai"} -> IF i >= len THEN Err(s, "index") ELSE OutP(Norm(TakeR(s, i) \o DropR(s, i + 1)), i)
    [] op \in {"err", "erri"} -> IF i >= n \/ n > len THEN Err(s, "index") ELSE OutP(Norm(TakeR(s, i) \o DropR(s, n)), i)
    [] op = "rsz" -> Out(ResizedR(s, n, Default))
    [] op = "rszf" -> Out(ResizedR(s, n, x))
    [] op = "rsza" -> Out(ResizedR(s, n, AtR(s, x)))
    [] op = "asn" -> Out(RepR(n, x))
    [] op = "asna" -> Out(RepR(n, AtR(s, x)))
    [] op = "asr" -> Out(ls)
    [] op = "setat" -> IF i >= len THEN Err(s, "index") ELSE Out(Norm(TakeR(s, i) \o RepR(1, x) \o DropR(s, i + 1)))
    [] op = "seti" -> Out(Norm(TakeR(s, i) \o RepR(1, x) \o DropR(s, i + 1)))
    [] op = "clr" -> Out(<<>>)
    [] op \in {"at", "cat"} -> IF i >= len THEN Err(s, "index") ELSE Out(s)
    [] OTHER -> Out(s)
ValueR(s, e) == CASE e.op = "pop" -> AtR(s, Total(s) - 1)
                  [] e.op \in {"at", "cat", "idx", "cidx"} -> IF e.i < Total(s) THEN AtR(s, e.i) ELSE -1
                  [] e.op = "frt" -> AtR(s, 0)
                  [] e.op = "bck" -> AtR(s, Total(s) - 1)
                  [] OTHER -> -1
=============================================================================
