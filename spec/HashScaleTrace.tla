--------------------------- MODULE HashScaleTrace ---------------------------
(* Big tables, abstracted to the interval of keys present and the counters: keys are inserted in ascending order while
   nothing is erased, then erased in ascending order. Binds recorded runs through the whole ladder of sizes. *)
EXTENDS HashTable, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, tab
vars == <<tid, l, tab>>
None == [lo |-> 0, hi |-> 0, nb |-> -1, nt |-> 0]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ tab = [i \in 1..4 |-> None]

(* counters: n keys inserted into a table without tombstones *)
RECURSIVE Grow(_, _, _)
Grow(nb, ne, n) ==
  IF n = 0 THEN nb
  ELSE LET e == ne + 1 IN
       IF e * 4 > nb * 3 THEN Grow(NextSize(nb), e, n - 1)
       ELSE LET k == (nb * 3) \div 4 - e    \* that many more inserts change nothing but the number of entries
                m == IF k < n - 1 THEN k ELSE n - 1
            IN IF m <= 0 THEN Grow(nb, e, n - 1) ELSE Grow(nb, e + m, n - 1 - m)
(* n keys erased: a tombstone each, swept when fewer than one eighth of the buckets are free; erasing does not change
   the number of free buckets, so after one erasure without a sweep the others do not sweep either *)
RECURSIVE Shrink(_, _, _, _)
Shrink(nb, ne, nt, n) ==
  IF n = 0 THEN <<nb, nt>>
  ELSE LET e == ne - 1  t == nt + 1 IN
       IF e * 4 > nb * 3 THEN Shrink(NextSize(nb), e, 0, n - 1)
       ELSE IF (nb - (e + t)) * 8 < nb THEN Shrink(nb, e, 0, n - 1)
       ELSE <<nb, nt + n>>
Ne(t) == t.hi - t.lo
Hi(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Overlap(t, a, b) == Hi(0, Lo(t.hi, b) - Hi(t.lo + 1, a) + 1)
After(e) ==
  LET t == tab[e.t] IN
  CASE e.op = "new" -> [tab EXCEPT ![e.t] = [lo |-> 0, hi |-> 0, nb |-> New(e.a).nb, nt |-> 0]]
    [] e.op = "cpy" -> [tab EXCEPT ![e.t] = tab[e.a]]
    [] e.op = "rng" /\ e.b = 1 -> [tab EXCEPT ![e.t] = [t EXCEPT !.hi = e.c, !.nb = Grow(IF t.nb = 0 THEN NextSize(16) ELSE t.nb, Ne(t), e.c - t.hi)]]
    [] e.op = "rng" -> LET s == Shrink(t.nb, Ne(t), t.nt, e.c - t.lo)
                       IN [tab EXCEPT ![e.t] = [t EXCEPT !.lo = e.c, !.nb = s[1], !.nt = s[2]]]
    [] e.op = "rehn" -> [tab EXCEPT ![e.t] = [t EXCEPT !.nt = 0, !.nb = IF e.a <= Ne(t) THEN NextSize(Ne(t)) ELSE e.a]]
    [] OTHER -> tab
Ok(e, aft) ==
  LET t == tab[IF e.t = 0 THEN 1 ELSE e.t] IN
  /\ CASE e.op = "rng" -> e.ret = e.c - e.a + 1 /\ e.a = (IF e.b = 1 THEN t.hi + 1 ELSE t.lo + 1)
       [] e.op = "chk" -> e.ret = Overlap(t, e.a, e.c) /\ e.cret = e.ret
       [] e.op = "sum" -> e.ret = Ne(t) /\ e.cret = Ne(t)
       [] OTHER -> e.op \in {"new", "cpy", "rehn", "end"}
  /\ e.t # 0 => /\ e.ne = Ne(aft[e.t]) /\ e.emp = (IF e.ne = 0 THEN 1 ELSE 0)
                /\ "lf" \in DOMAIN e /\ aft[e.t].nb > 0 => LET q == (Ne(aft[e.t]) * 1000) \div aft[e.t].nb IN e.lf >= q - 1 /\ e.lf <= q + 1
                /\ "nb" \in DOMAIN e => e.nb = aft[e.t].nb /\ e.nt = aft[e.t].nt
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               aft == TLCEval(IF "t" \in DOMAIN e /\ e.t # 0 THEN After(e) ELSE tab)
           IN "t" \in DOMAIN e /\ Ok(e, aft) /\ tab' = aft
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == \A i \in 1..4 : tab[i].nb > 0 => Ne(tab[i]) < tab[i].nb
=============================================================================
