------------------------------ MODULE JsonApi ------------------------------
(* Programs over JSON values: registers 0..5 hold values (or none); a location is a register and a path of keys and
   indices into it; a call reads and writes locations. Values own their content, so a call changes exactly the location
   it writes. A call is a record [op, a (location), b (location), x (bytes), n (number)]. *)
EXTENDS JsonText

None == <<"none", 0>>
Regs == 0..5
NoRegs == [r \in Regs |-> None]

StepInto(v, s) == IF s[1] = "k" THEN ObjGet(v, s[2]) ELSE v[2][s[2] + 1]
Get(R, loc) == FoldLeft(StepInto, R[loc[1]], loc[2])
RECURSIVE Upd(_, _, _)
Upd(v, path, x) == IF path = <<>> THEN x
                   ELSE LET s == path[1] y == Upd(StepInto(v, s), Tail(path), x)
                        IN IF s[1] = "k" THEN ObjSet(v, s[2], y) ELSE [v EXCEPT ![2][s[2] + 1] = y]
Set(R, loc, x) == [R EXCEPT ![loc[1]] = Upd(@, loc[2], x)]

Ret(R, res) == [R |-> R, exc |-> "none", res |-> res, text |-> <<>>]
Exc(R, e) == [R |-> R, exc |-> e, res |-> <<>>, text |-> <<>>]
Same(R) == Ret(R, <<>>)
InsertAt2(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemoveAt2(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))

Creates == {"new", "bool", "int", "cint", "str", "cstr", "arr", "obj", "cpy", "mov", "oarr", "oobj", "txt"}
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
IntOf(n) == <<"int", IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)>>

(* the bytes up to the first NUL: what a C string constructor sees *)
CStr(x) == LET i == SelectInSeq(x, LAMBDA c : c = 0) IN IF i = 0 THEN x ELSE SubSeq(x, 1, i - 1)

Lookup(v, k) == IF v[1] = "obj" /\ ObjHas(v, k) THEN ObjGet(v, k) ELSE Undef
InRange(v, n) == n >= 0 /\ n < Len(v[2])

NoteTypes == <<"undef", "int", "bool", "str", "obj", "arr">>
Apply(R, e) ==
  LET r == e.a[1]
      A == Get(R, e.a)
      B == Get(R, e.b)
      mk(v) == Same([R EXCEPT ![r] = v])
      wr(v) == Same(Set(R, e.a, v))
      elems == A[2]
  IN CASE e.op = "new" -> mk(Undef)
       [] e.op = "bool" -> mk(BoolV(IF e.n = 0 THEN 0 ELSE 1))
       [] e.op = "int" -> mk(IntV(e.x))
       [] e.op = "cint" -> mk(IntOf(e.n))
       [] e.op = "str" -> mk(StrV(e.x))
       [] e.op = "cstr" -> mk(StrV(CStr(e.x)))
       [] e.op = "arr" -> mk(ArrV(<<>>))
       [] e.op = "obj" -> mk(EmptyObj)
       [] e.op = "txt" -> mk(LET p == Parse(e.x) IN IF p.m = "done" THEN p.v ELSE Undef)
       [] e.op \in {"cpy", "oarr", "oobj"} -> mk(B)
       [] e.op = "mov" -> Same([Set(R, e.b, Undef) EXCEPT ![r] = B])
       [] e.op = "del" -> mk(None)
       [] e.op \in {"asg", "masg", "aasg", "oasg"} -> wr(B)
       [] e.op = "put" -> LET t == Set(R, e.a, ObjTouch(A, e.x)) IN Same(Set(t, e.a, ObjSet(Get(t, e.a), e.x, Get(t, e.b))))
       [] e.op = "touch" -> wr(ObjTouch(A, e.x))
       [] e.op = "erase" -> Ret(Set(R, e.a, ObjErase(A, e.x)), <<BoolV(IF ObjHas(A, e.x) THEN 1 ELSE 0)>>)
       [] e.op = "size" -> Ret(R, <<<<"num", IF A[1] = "obj" THEN ObjSize(A) ELSE Len(elems)>>>>)
       [] e.op \in {"push", "emp"} -> wr(ArrV(Append(elems, B)))
       [] e.op = "ins" -> IF e.n > Len(elems) THEN Exc(R, "index") ELSE wr(ArrV(InsertAt2(elems, e.n, B)))
       [] e.op = "aera" -> IF ~InRange(A, e.n) THEN Exc(R, "index") ELSE wr(ArrV(RemoveAt2(elems, e.n)))
       [] e.op = "arsz" -> wr(ArrV([i \in 1..e.n |-> IF i <= Len(elems) THEN elems[i] ELSE Undef]))
       [] e.op = "pop" -> Ret(Set(R, e.a, ArrV(SubSeq(elems, 1, Len(elems) - 1))), Dump(elems[Len(elems)]))
       [] e.op = "clr" -> wr(ArrV(<<>>))
       [] e.op = "iset" -> wr(IntV(e.x))
       [] e.op = "sset" -> wr(StrV(e.x))
       [] e.op = "sapp" -> wr(StrV(elems \o e.x))
       [] e.op \in {"dint", "dobj", "darr"} ->
            IF A # Undef THEN Exc(R, "delegate")
            ELSE wr(CASE e.op = "dint" -> IntV(e.x) [] e.op = "dobj" -> EmptyObj [] e.op = "darr" -> ArrV(<<IntOf(e.n)>>))
       [] e.op \in {"rk", "rkc"} -> Ret(R, Dump(Lookup(A, e.x)))
       [] e.op = "ri" -> IF A[1] # "arr" THEN Ret(R, Dump(Undef)) ELSE IF ~InRange(A, e.n) THEN Exc(R, "index") ELSE Ret(R, Dump(elems[e.n + 1]))
       [] e.op = "ari" -> IF ~InRange(A, e.n) THEN Exc(R, "index") ELSE Ret(R, Dump(elems[e.n + 1]))
       [] e.op = "ork" -> IF ~ObjHas(A, e.x) THEN Exc(R, "key") ELSE Ret(R, Dump(ObjGet(A, e.x)))
       \* plain notations: a type alone; moving one away leaves it undefined, moving one to itself changes nothing
       [] e.op = "note" -> mk(<<"note", NoteTypes[e.n + 1]>>)
       [] e.op = "nval" -> mk(<<"note", B[1]>>)
       [] e.op \in {"ncpy", "nasg"} -> mk(B)
       [] e.op = "nmov" -> Same([R EXCEPT ![e.b[1]] = <<"note", "undef">>, ![r] = B])
       [] e.op = "nmasg" -> Same([R EXCEPT ![e.b[1]] = <<"note", "undef">>, ![r] = B])
       [] e.op = "print" -> [Same(R) EXCEPT !.text = PrintV(A)]

DumpReg(v) == IF v = None \/ v[1] = "note" THEN <<v>> ELSE Dump(v)
DumpRegs(R) == [i \in 1..6 |-> DumpReg(R[i - 1])]
=============================================================================
