------------------------------ MODULE PtrIterMC ------------------------------
(* All histories of iterator arithmetic over a vector of N elements; the laws of positions are checked as invariants and
   every transition is emitted as a test. Preconditions (staying inside the vector) restrict the calls. *)
EXTENDS PtrIter, Json
CONSTANTS N, MaxDepth
VARIABLES p, hist
vars == <<p, hist>>
S == [i \in 1..N |-> 10 + i]
Init == p = <<0, 0, 0, 0>> /\ hist = <<>>
E(op, a, b, k) == [op |-> op, a |-> a, b |-> b, k |-> k]
R == 1..2
Calls == {E(op, a, 0, 0) : op \in {"beg", "end", "inc", "dec", "pinc", "pdec", "get", "cget", "arr", "carr", "ref"}, a \in R}
         \cup {E(op, a, b, 0) : op \in {"set", "cpy", "dif", "cmp", "adist"}, a \in R, b \in R}
         \cup {E(op, a, b, k) : op \in {"addn", "subn"}, a \in R, b \in R, k \in 0..N}
         \cup {E(op, a, 0, k) : op \in {"adds", "subs", "idx"}, a \in R, k \in 0..N} \cup {E("chain", 1, 2, 3), E("chain", 2, 1, 2)}
Legal(e) == LET q == Regs(p, N, e) IN
              /\ \A r \in 1..4 : q[r] \in 0..N
              /\ e.op \in {"get", "cget", "arr", "carr", "ref"} => p[e.a] < N
              /\ e.op = "cpy" => p[e.b] < N
              /\ e.op = "idx" => p[e.a] + e.k < N
              /\ e.op = "adist" => p[e.a] <= p[e.b]
Next == \E e \in Calls : /\ Legal(e)
                         /\ p' = Regs(p, N, e)
                         /\ hist' = Append(hist, e)
                         /\ PrintT("T@" \o ToJson([h |-> hist', p |-> p', ret |-> Ret(p, S, e)]))
Spec == Init /\ [][Next]_vars
View == p
Bounded == Len(hist) < MaxDepth
Laws == \A a, b \in 1..4 : LET c == Cmp(p[a], p[b]) IN
          /\ c \in {1 + 16 + 32, 2 + 4 + 16, 2 + 8 + 32}
          /\ (p[b] - p[a] = 0) = (c = 49)
          /\ p[a] + (p[b] - p[a]) = p[b]
=============================================================================
