---------------------------- MODULE VectorRunsMC ----------------------------
(* ApplyR on runs is Apply on sequences: every sequence up to MaxLen over two values, every call with arguments around
   the length. *)
EXTENDS VectorRuns, TLC
CONSTANT MaxLen
VARIABLES s, e
Ops == {"push", "pusha", "pop", "ins", "insi", "insn", "insni", "insr", "insri", "insa", "insai", "insna", "insnai", "era", "erai", "err", "erri",
        "rsz", "rszf", "rsza", "asn", "asna", "asr", "setat", "seti", "clr", "at", "cat", "idx", "frt", "bck", "res"}
Calls(t) == {[op |-> o, i |-> i, n |-> n, x |-> x, lst |-> ls, lr |-> Runs(ls)] :
             o \in Ops, i \in 0..(Len(t) + 1), n \in 0..(Len(t) + 1), x \in 0..2, ls \in {<<>>, <<1>>, <<1, 1, 2>>}}
NoCall == [op |-> "size", i |-> 0, n |-> 0, x |-> 0, lst |-> <<>>, lr |-> <<>>]
Init == s = <<>> /\ e = NoCall
Next == \/ Len(s) < MaxLen /\ e = NoCall /\ \E v \in 1..2 : s' = Append(s, v) /\ e' = e
        \/ e = NoCall /\ \E c \in Calls(s) : Allowed(s, c) /\ e' = c /\ s' = s
Spec == Init /\ [][Next]_<<s, e>>
Agrees == LET a == Apply(s, e)  b == ApplyR(Runs(s), e)
          IN b.s = Runs(a.s) /\ Expand(b.s) = a.s /\ Total(b.s) = Len(a.s) /\ b.exc = a.exc /\ b.pos = a.pos /\ ValueR(Runs(s), e) = Value(s, e)
=============================================================================
