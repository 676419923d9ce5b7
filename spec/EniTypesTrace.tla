---------------------------- MODULE EniTypesTrace ----------------------------
EXTENDS EniTypes, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, reg
vars == <<tid, l, reg>>
Regs == 4
T == Traces[tid].type
Zero0(type) == IF type = "s256" THEN <<0, <<>>>> ELSE <<>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ reg = [i \in 1..Regs |-> Zero0(Traces[tid].type)]

New(e) == IF e.op = "set" THEN (IF T = "s256" THEN SOfText(e.s) ELSE OfDecimal(e.s))
          ELSE IF e.op = "cmp" THEN reg[e.d]
          ELSE IF T = "s256" THEN Signed(e.op, reg[e.a], reg[e.b]) ELSE Unsigned(Bytes(T), e.op, reg[e.a], reg[e.b], e.n)
BoolText(b) == IF b = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
Text(v) == IF T = "s256" THEN STextOf(v) ELSE ToDecimal(v)
Cmp(a, b) == IF T = "s256" THEN SCmp(a, b) ELSE CmpN(a, b)

\* str: the text of the register after the call; via JSON: the text is read and printed again
Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
             /\ "d" \in DOMAIN e
             /\ IF e.op = "bool" THEN e.str = BoolText(e.d) /\ e.value = BoolText(e.d) /\ UNCHANGED reg
                ELSE IF e.op = "vint" THEN e.str = e.s /\ e.value = e.s /\ UNCHANGED reg
                ELSE LET v == TLCEval(New(e))  t == TLCEval(Text(v)) IN
                  /\ e.str = t
                  /\ e.op = "cmp" => e.ret = Cmp(reg[e.a], reg[e.b])
                  /\ "json" \in DOMAIN e => e.json = t /\ e.value = t
                  /\ reg' = [reg EXCEPT ![e.d] = v]
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == \A i \in 1..Regs : IF T = "s256" THEN InRange(reg[i]) ELSE Len(reg[i]) <= Bytes(T)
=============================================================================
