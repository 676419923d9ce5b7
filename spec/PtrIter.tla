------------------------------- MODULE PtrIter -------------------------------
(* Random-access iterators over a fixed-length vector: an iterator is a position 0..Len(s). Registers 1..4.
   The algorithms of the standard library are specified by their effect on the sequence. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B(x) == IF x THEN 1 ELSE 0
Cmp(p, q) == B(p = q) + 2 * B(p # q) + 4 * B(p < q) + 8 * B(p > q) + 16 * B(p <= q) + 32 * B(p >= q)
Mid(s, a, b) == SubSeq(s, a + 1, b)
Splice(s, a, b, m) == SubSeq(s, 1, a) \o m \o SubSeq(s, b + 1, Len(s))
Rev(m) == [i \in 1..Len(m) |-> m[Len(m) + 1 - i]]
CountOf(m, x) == Cardinality({i \in 1..Len(m) : m[i] = x})
SameBag(m, n) == Len(m) = Len(n) /\ \A i \in 1..Len(m) : CountOf(m, m[i]) = CountOf(n, m[i])
Sorted(m) == \A i \in 1..(Len(m) - 1) : m[i] <= m[i + 1]
FirstIdx(m, P(_), d) == LET S == {i \in 1..Len(m) : P(i)} IN IF S = {} THEN d ELSE CHOOSE i \in S : \A j \in S : i <= j

(* what registers hold after a call; k is a signed number *)
Regs(p, n, e) ==
  LET a == e.a  b == e.b  k == e.k IN
  CASE e.op = "beg" -> [p EXCEPT ![a] = 0]
    [] e.op = "end" -> [p EXCEPT ![a] = n]
    [] e.op \in {"set", "cpy"} -> [p EXCEPT ![a] = p[b]]
    [] e.op = "chain" -> [p EXCEPT ![a] = p[k], ![b] = p[k]]
    [] e.op \in {"inc", "pinc"} -> [p EXCEPT ![a] = @ + 1]
    [] e.op \in {"dec", "pdec"} -> [p EXCEPT ![a] = @ - 1]
    [] e.op = "adds" -> [p EXCEPT ![a] = @ + k]
    [] e.op = "subs" -> [p EXCEPT ![a] = @ - k]
    [] e.op = "addn" -> [p EXCEPT ![a] = p[b] + k]
    [] e.op = "subn" -> [p EXCEPT ![a] = p[b] - k]
    [] OTHER -> p
Ret(p, s, e) ==
  LET a == e.a  b == e.b  k == e.k  m == Mid(s, p[e.a], p[IF e.b \in 1..4 THEN e.b ELSE e.a]) IN
  CASE e.op \in {"set", "inc", "dec", "adds", "subs", "ref"} -> 1
    [] e.op = "cpy" -> p[b] + 1
    [] e.op \in {"pinc", "pdec"} -> p[a]
    [] e.op = "dif" -> p[a] - p[b]
    [] e.op = "cmp" -> Cmp(p[a], p[b])
    [] e.op \in {"get", "cget", "arr", "carr"} -> s[p[a] + 1]
    [] e.op = "idx" -> s[p[a] + k + 1]
    [] e.op = "afind" -> p[a] + FirstIdx(m, LAMBDA i : m[i] = k, Len(m) + 1) - 1
    [] e.op = "acount" -> CountOf(m, k)
    [] e.op = "adist" -> p[b] - p[a]
    [] e.op = "alow" -> p[a] + FirstIdx(m, LAMBDA i : m[i] >= k, Len(m) + 1) - 1
    [] e.op = "amax" -> p[a] + FirstIdx(m, LAMBDA i : \A j \in 1..Len(m) : m[j] <= m[i], Len(m) + 1) - 1
    [] e.op = "aeq" -> B(m = Mid(s, k, k + Len(m)))
    [] OTHER -> -1
(* the sequence after a call: t is a possible outcome *)
Outcome(p, s, e, t) ==
  LET a == e.a  b == e.b  k == e.k  A == p[e.a]  Z == p[IF e.b \in 1..4 THEN e.b ELSE e.a]  m == Mid(s, A, Z) IN
  CASE e.op = "put" -> t = [s EXCEPT ![A + 1] = k]
    [] e.op = "puti" -> t = [s EXCEPT ![A + b + 1] = k]
    [] e.op \in {"asort", "assort", "aheap"} -> LET u == Mid(t, A, Z) IN Sorted(u) /\ SameBag(u, m) /\ t = Splice(s, A, Z, u)
    [] e.op = "arev" -> t = Splice(s, A, Z, Rev(m))
    [] e.op = "arot" -> t = Splice(s, A, k, Mid(s, Z, k) \o m)       \* rotate first=A middle=Z last=k
    [] e.op = "afill" -> t = Splice(s, A, Z, [i \in 1..(Z - A) |-> k])
    [] e.op = "acopy" -> t = Splice(s, k, k + Z - A, m)
    [] e.op = "acopyb" -> t = Splice(s, k - (Z - A), k, m)
    [] e.op = "aswap" -> t = [s EXCEPT ![A + 1] = s[Z + 1], ![Z + 1] = s[A + 1]]
    [] e.op = "anth" -> LET u == Mid(t, A, Z) IN
                          /\ SameBag(u, m) /\ t = Splice(s, A, Z, u)
                          /\ k < Z => \A i \in (A + 1)..k : \A j \in (k + 1)..Z : t[i] <= t[k + 1] /\ t[j] >= t[k + 1]
    [] OTHER -> t = s
=============================================================================
