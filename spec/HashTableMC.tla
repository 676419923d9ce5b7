---------------------------- MODULE HashTableMC ----------------------------
(* Exhaustive exploration of small tables. hist is the history of calls, hidden by the VIEW; it is printed with the
   expected observation as one test per transition for replay on the C++ code. *)
EXTENDS HashTable, TLC, Json, FiniteSets

CONSTANTS NKeys, MaxDepth, HashModes, Sizes, RehashSizes, NTables, Emit

VARIABLES mode,   \* which hash assignment is in force
          tab,    \* tables 1..NTables; "none" when not constructed
          ghost,  \* the abstract maps the tables have to implement
          hist,   \* calls so far
          last    \* the last call and whether it changed the table (for the action properties)
vars == <<mode, tab, ghost, hist, last>>

Keys == 1..NKeys
(* hash assignments: all zero; all equal; ascending; near the end of a 17-bucket table (wrap-around); pairs colliding;
   full 32-bit values whose residues collide *)
H(k) == CASE mode = 0 -> <<0, 0>>
          [] mode = 1 -> <<0, 5>>
          [] mode = 2 -> <<0, k>>
          [] mode = 3 -> <<0, 14 + (k % 3)>>
          [] mode = 4 -> <<0, (k \div 2) * 17>>
          [] mode = 5 -> <<65535, 65535 - 17 * (k % 3)>>
          [] mode = 6 -> <<32768 * (k % 2), 3>>
Vals == {0, 1}
None == [nb |-> -1, ne |-> 0, nt |-> 0, b |-> <<>>]
Live(i) == tab[i].nb >= 0

Init == /\ mode \in HashModes
        /\ tab = [i \in 1..NTables |-> None]
        /\ ghost = [i \in 1..NTables |-> <<>>]
        /\ hist = <<>>
        /\ last = [op |-> "none", chg |-> FALSE]

(* the observation after a call: result, counters, iteration of every live table *)
Obs(ret) == [ret |-> ret,
             tabs |-> [i \in 1..NTables |-> IF tab'[i].nb < 0 THEN <<-1>>
                                            ELSE <<tab'[i].nb, tab'[i].ne, tab'[i].nt>>],
             iter |-> [i \in 1..NTables |-> IF tab'[i].nb < 0 THEN <<>> ELSE Iteration(tab'[i])]]

Call(c, i, t2, g2, chg) ==
  /\ tab' = [tab EXCEPT ![i] = t2]
  /\ ghost' = [ghost EXCEPT ![i] = g2]
  /\ hist' = Append(hist, c)
  /\ last' = [op |-> c[1], chg |-> chg, i |-> i]
  /\ UNCHANGED mode

GSet(g, k, v) == [x \in (DOMAIN g) \cup {k} |-> IF x = k THEN v ELSE g[x]]
GDel(g, k) == [x \in (DOMAIN g) \ {k} |-> g[x]]

NewT(i) == ~Live(i) /\ \E s \in Sizes : Call(<<"new", i, s>>, i, New(s), <<>>, FALSE)
Ins(i) == Live(i) /\ \E k \in Keys, v \in Vals :
            Call(<<"ins", i, k, v>>, i, SetValue(Insert(tab[i], k, H(k), 0), k, H(k), v), GSet(ghost[i], k, v),
                 k \notin DOMAIN ghost[i])
Era(i) == Live(i) /\ \E k \in Keys :
            Call(<<"era", i, k>>, i, Erase(tab[i], k, H(k)), GDel(ghost[i], k), k \in DOMAIN ghost[i])
Clr(i) == Live(i) /\ Call(<<"clr", i>>, i, Clear(tab[i]), <<>>, FALSE)
Reh(i) == Live(i) /\ Call(<<"reh", i>>, i, Rehash(tab[i]), ghost[i], FALSE)
RehN(i) == Live(i) /\ \E n \in RehashSizes : Call(<<"rehn", i, n>>, i, RehashTo(tab[i], n), ghost[i], FALSE)
Copy(i, j) == i # j /\ ~Live(i) /\ Live(j) /\ Call(<<"cpy", i, j>>, i, tab[j], ghost[j], FALSE)
Asg(i, j) == Live(i) /\ Live(j) /\ Call(<<"asg", i, j>>, i, tab[j], ghost[j], FALSE)
MoveTo(i, j, op) == /\ tab' = [tab EXCEPT ![i] = tab[j], ![j] = Uninit]
                    /\ ghost' = [ghost EXCEPT ![i] = ghost[j], ![j] = <<>>]
                    /\ hist' = Append(hist, <<op, i, j>>)
                    /\ last' = [op |-> op, chg |-> FALSE, i |-> i]
                    /\ UNCHANGED mode
Mov(i, j) == i # j /\ ~Live(i) /\ Live(j) /\ MoveTo(i, j, "mov")
MAsg(i, j) == i # j /\ Live(i) /\ Live(j) /\ MoveTo(i, j, "mas")

Del(i) == Live(i) /\ Call(<<"del", i>>, i, None, <<>>, FALSE)

Next == \E i \in 1..NTables : \/ NewT(i) \/ Ins(i) \/ Era(i) \/ Clr(i) \/ Reh(i) \/ RehN(i)
                              \/ \E j \in 1..NTables : Copy(i, j) \/ Asg(i, j) \/ Mov(i, j) \/ MAsg(i, j)
                              \/ (NTables > 1 /\ Del(i))
Spec == Init /\ [][Next]_vars

View == <<mode, tab, ghost>>
Bounded == Len(hist) < MaxDepth

(* result of the call c in the state before it *)
RetOf(c) == IF c[1] = "ins" THEN (IF c[3] \in DOMAIN ghost[c[2]] THEN <<1, ghost[c[2]][c[3]]>> ELSE <<0, 0>>)
            ELSE IF c[1] = "era" THEN (IF c[3] \in DOMAIN ghost[c[2]] THEN <<1>> ELSE <<0>>)
            ELSE <<>>
EmitTests == Emit => PrintT("T@" \o ToJson([m |-> mode, h |-> hist',
                     exp |-> Obs(RetOf(hist'[Len(hist')]))]))

(* ---- properties ---- *)
T(P(_)) == \A i \in 1..NTables : Live(i) => P(tab[i])
IsMap == \A i \in 1..NTables : Live(i) =>
            /\ tab[i].ne = Cardinality(DOMAIN ghost[i])
            /\ \A k \in Keys : /\ Has(tab[i], k, H(k)) = (k \in DOMAIN ghost[i])
                               /\ k \in DOMAIN ghost[i] => ValueOf(tab[i], k, H(k)) = ghost[i][k]
Counters == T(CountersExact)
Terminates == T(ProbeEnds)
Unique == T(NoDuplicates)
AllReachable == T(Reachable)
SparseStep == last'.chg => LoadBound(tab'[last'.i]) /\ FreeBound(tab'[last'.i])
Sparse == [][SparseStep]_vars
IterationComplete == \A i \in 1..NTables : Live(i) =>
                       LET it == Iteration(tab[i]) IN
                         /\ Len(it) = Cardinality(DOMAIN ghost[i])
                         /\ {it[n][1] : n \in 1..Len(it)} = DOMAIN ghost[i]
ChainComplete == \A i \in 1..NTables : Live(i) => \A k \in Keys :
                   LET c == Chain(tab[i], k, H(k)) IN
                     /\ (c = <<>>) = (k \notin DOMAIN ghost[i])
                     /\ c # <<>> => /\ c[1][1] = k
                                    /\ {c[n][1] : n \in 1..Len(c)} = {x \in DOMAIN ghost[i] : H(x) = H(k)}
                                    /\ Len(c) = Cardinality({x \in DOMAIN ghost[i] : H(x) = H(k)})
RehashKeeps == T(LAMBDA t : t.ne > 0 => \A n \in RehashSizes : Has(RehashTo(t, n), Iteration(t)[1][1], H(Iteration(t)[1][1])))
=============================================================================
