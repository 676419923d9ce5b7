------------------------------ MODULE HashTrace ------------------------------
(* Accepts exactly the recorded executions of hash tables and string maps that HashTable allows.
   A trace has fields kind ("int": hashes given; else: keys as byte strings, hashed by the spec itself), and ev. *)
EXTENDS HashTable, TLC, Json

SH == INSTANCE StrHash

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, hs, tab
vars == <<tid, l, hs, tab>>

NT == 4
None == [nb |-> -1, ne |-> 0, nt |-> 0, b |-> <<>>]

HasherOf(kind) == IF kind = "elf" THEN "ELF" ELSE IF kind = "bp" THEN "BP" ELSE "SDBM"
IsMapKind(kind) == kind \in {"map", "mapi", "mapc", "maps"}
HashesOf(tr) == IF tr.kind = "int" THEN tr.hashes
                ELSE LET hn == HasherOf(tr.kind) IN [i \in 1..Len(tr.keys) |-> SH!Hash(hn, tr.keys[i])]

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ hs = HashesOf(Traces[tid])
             /\ tab = [i \in 1..NT |-> None]

RECURSIVE SumNe(_, _)
SumNe(ts, i) == IF i = 0 THEN 0 ELSE SumNe(ts, i - 1) + ts[i].ne

InsRange(t0, a, c) == FoldLeft(LAMBDA t, k : SetValue(TLCEval(Insert(t, k, hs[k], 0)), k, hs[k], k), t0, Upto(a, c))
EraRange(t0, a, c) == FoldLeft(LAMBDA t, k : Erase(t, k, hs[k]), t0, Upto(a, c))

B(x) == IF x THEN 1 ELSE 0
Has01(t, k) == B(Has(t, k, hs[k]))
Val(t, k) == IF Has(t, k, hs[k]) THEN ValueOf(t, k, hs[k]) ELSE 0

(* tables after the call *)
After(kind, e) ==
  LET t == e.t  a == e.a  b == e.b  op == e.op IN
  CASE op = "new" -> [tab EXCEPT ![t] = IF a < 0 THEN New(IF IsMapKind(kind) THEN 8 ELSE 3) ELSE New(a)]
    [] op \in {"cpy", "asg"} -> [tab EXCEPT ![t] = tab[a]]
    [] op \in {"mov", "mas"} -> IF t = a THEN tab
                                ELSE [tab EXCEPT ![t] = tab[a],
                                                 ![a] = IF IsMapKind(kind) /\ e.src # 0 THEN tab[a]
                                                        \* moved or copied? the recorder puts a new map there
                                                        ELSE IF IsMapKind(kind) /\ tab[a].ne = 0 THEN New(8)
                                                        ELSE Uninit]
    [] op = "del" -> [tab EXCEPT ![t] = None]
    [] op = "ins" -> [tab EXCEPT ![t] = SetValue(TLCEval(Insert(tab[t], a, hs[a], 0)), a, hs[a], b)]
    [] op = "add" -> [tab EXCEPT ![t] = Insert(tab[t], a, hs[a], 0)]
    [] op = "atset" -> [tab EXCEPT ![t] = SetValue(tab[t], a, hs[a], b)]
    [] op = "era" -> [tab EXCEPT ![t] = Erase(tab[t], a, hs[a])]
    [] op = "clr" -> [tab EXCEPT ![t] = Clear(tab[t])]
    [] op = "reh" -> [tab EXCEPT ![t] = Rehash(tab[t])]
    [] op = "rehn" -> [tab EXCEPT ![t] = RehashTo(tab[t], a)]
    [] op = "rng" -> [tab EXCEPT ![t] = IF b = 1 THEN InsRange(tab[t], a, e.c) ELSE EraRange(tab[t], a, e.c)]
    [] op = "end" -> [i \in 1..NT |-> None]
    [] OTHER -> tab

(* the recorded results fit the call *)
Result(kind, e, aft) ==
  LET tb == IF e.t = 0 THEN None ELSE tab[e.t]  k == e.a  op == e.op IN
  CASE op \in {"new", "cpy", "del", "clr", "reh", "rehn"} -> TRUE
    [] op \in {"asg"} -> e.self = 1
    [] op \in {"mov"} -> e.src = 0 \/ (IsMapKind(kind) /\ e.src = tab[e.a].ne)
    [] op \in {"mas"} -> e.self = 1 /\ (e.src = 0 \/ (IsMapKind(kind) /\ e.src = tab[e.a].ne) \/ e.t = e.a)
    [] op \in {"ins", "add"} -> e.ex = Has01(tb, k) /\ e.val = Val(tb, k) /\ e.ptr = 1
    [] op = "era" -> e.ret = Has01(tb, k)
    [] op \in {"fnd", "cfnd"} -> e.ret = Has01(tb, k) /\ e.val = Val(tb, k) /\ e.ptr = 1
                                 /\ e.key = (IF e.ret = 1 THEN k ELSE 0)
    [] op = "cnt" -> e.ret = Has01(tb, k)
    [] op \in {"itr", "citr"} -> e.lst = Iteration(tb)
    [] op = "mitr" -> e.lst = Iteration(tb) /\ e.ok = 1
    [] op = "mchn" -> e.lst = Chain(tb, k, hs[k]) /\ e.ok = 1
    [] op \in {"chn", "cchn"} -> e.lst = Chain(tb, k, hs[k])
    [] op = "itx" -> e.ret = 8191   \* every way of using an end iterator is refused
    [] op \in {"at", "cat", "cidx"} -> IF Has(tb, k, hs[k]) THEN e.exc = "none" /\ e.val = Val(tb, k) ELSE e.exc = "key"
    [] op = "atset" -> e.exc = (IF Has(tb, k, hs[k]) THEN "none" ELSE "key")
    [] op = "rng" -> e.ret = (IF e.b = 1 THEN aft[e.t].ne - tb.ne ELSE tb.ne - aft[e.t].ne)
    [] op = "end" -> "live" \in DOMAIN e => e.live = 0 /\ e.klive = 0 /\ e.leak = 0 /\ e.bad = 0
    [] OTHER -> FALSE     \* crash, hang: no transition

(* the recorded projection of the state fits the table after the call *)
Project(e, aft) ==
  /\ (e.t # 0 /\ aft[e.t].nb >= 0) =>
        LET tb == aft[e.t] IN
        /\ e.ne = tb.ne
        /\ e.emp = B(tb.ne = 0)
        /\ "nb" \in DOMAIN e => /\ e.nb = tb.nb /\ e.nt = tb.nt
                                /\ tb.nb > 0 => LET q == (tb.ne * 1000) \div tb.nb IN e.lf >= q - 1 /\ e.lf <= q + 1
  /\ ("live" \in DOMAIN e /\ e.op # "end") => e.live = SumNe(aft, NT) /\ e.bad = 0

Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               kind == Traces[tid].kind
               \* a crash or hang event carries no fields
               aft == TLCEval(IF "t" \in DOMAIN e THEN After(kind, e) ELSE tab)
           IN /\ "t" \in DOMAIN e
              /\ Result(kind, e, aft)
              /\ Project(e, aft)
              /\ tab' = aft
        /\ l' = l + 1
        /\ UNCHANGED <<tid, hs>>
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* the properties, evaluated along every recorded execution (small tables only: the sums are quadratic) *)
TraceInv == \A i \in 1..NT : tab[i].nb > 0 /\ tab[i].nb < 40 => CountersExact(tab[i]) /\ ProbeEnds(tab[i]) /\ Reachable(tab[i])
=============================================================================
