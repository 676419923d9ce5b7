-------------------------------- MODULE JsonValues --------------------------------
(* JSON values, their observable tree and their printed text.
     <<"undef">>  <<"bool", 0 or 1>>  <<"int", bytes of the decimal text>>  <<"str", bytes>>
     <<"arr", sequence of values>>    <<"obj", hash table from key bytes to values>>
   Objects are the string maps of libeni: their iteration order is the one of the hash table with the SDBM hash, so
   that the text printed for an object is a function of the history of the keys put into it. *)
EXTENDS HashTable, StrHash

Undef == <<"undef">>
BoolV(b) == <<"bool", b>>
StrV(s) == <<"str", s>>
ArrV(s) == <<"arr", s>>
EmptyObj == <<"obj", New(8)>>
CanonInt(s) == IF s = <<45, 48>> THEN <<48>> ELSE s       \* "-0" is 0
IntV(s) == <<"int", CanonInt(s)>>
KeyHash(k) == Hash("SDBM", k)

ObjHas(v, k) == Has(v[2], k, KeyHash(k))
ObjGet(v, k) == ValueOf(v[2], k, KeyHash(k))
ObjTouch(v, k) == <<"obj", TLCEval(Insert(v[2], k, KeyHash(k), Undef))>>
ObjSet(v, k, x) == <<"obj", TLCEval(SetValue(v[2], k, KeyHash(k), x))>>
ObjPut(v, k, x) == ObjSet(ObjTouch(v, k), k, x)
ObjErase(v, k) == <<"obj", TLCEval(Erase(v[2], k, KeyHash(k)))>>
ObjSize(v) == v[2].ne

(* what can be seen of a value, in prefix order: <<"arr", n>> and <<"obj", n>> are followed by their n elements or
   members, a member being <<"key", bytes>> and its value, in iteration order *)
Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
RECURSIVE Dump(_)
Dump(v) == CASE v[1] = "arr" -> <<<<"arr", Len(v[2])>>>> \o Cat(TLCEval([i \in 1..Len(v[2]) |-> Dump(v[2][i])]))
             [] v[1] = "obj" -> LET it == TLCEval(Iteration(v[2]))
                                IN <<<<"obj", Len(it)>>>> \o Cat(TLCEval([i \in 1..Len(it) |-> <<<<"key", it[i][1]>>>> \o Dump(it[i][2])]))
             [] v[1] = "undef" -> <<<<"undef", 0>>>>
             [] OTHER -> <<v>>

(* ---- printing ---- *)
HexU(d) == IF d < 10 THEN 48 + d ELSE 55 + d
EscByte(c) == IF c = 34 \/ c = 92 THEN <<92, c>>
              ELSE IF c < 32 THEN <<92, 117, 48, 48, HexU(c \div 16), HexU(c % 16)>>
              ELSE <<c>>
QuotedText(s) == FoldLeft(LAMBDA acc, c : acc \o EscByte(c), <<34>>, s) \o <<34>>
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
RECURSIVE PrintV(_)
PrintV(v) ==
  CASE v[1] = "undef" -> <<>>
    [] v[1] = "bool" -> IF v[2] = 1 THEN TrueText ELSE FalseText
    [] v[1] = "int" -> v[2]
    [] v[1] = "str" -> QuotedText(v[2])
    [] v[1] = "arr" -> LET m == TLCEval([i \in 1..Len(v[2]) |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o PrintV(v[2][i])])
                       IN <<91>> \o Cat(m) \o <<93>>
    [] v[1] = "obj" -> LET it == Iteration(v[2])
                           m == TLCEval([i \in 1..Len(it) |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o QuotedText(it[i][1]) \o <<58>> \o PrintV(it[i][2])])
                       IN <<123, 10>> \o Cat(m) \o <<10, 125>>

RECURSIVE Defined(_)
Defined(v) == CASE v[1] = "undef" -> FALSE
                [] v[1] = "arr" -> \A i \in 1..Len(v[2]) : Defined(v[2][i])
                [] v[1] = "obj" -> LET it == Iteration(v[2]) IN \A i \in 1..Len(it) : Defined(it[i][2])
                [] OTHER -> TRUE

(* equality of content: objects as maps, whatever their order *)
RECURSIVE SameValue(_, _)
SameValue(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] = "arr" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : SameValue(a[2][i], b[2][i])
       [] a[1] = "obj" -> LET ia == Iteration(a[2]) IN ObjSize(a) = ObjSize(b)
                          /\ \A i \in 1..Len(ia) : ObjHas(b, ia[i][1]) /\ SameValue(ia[i][2], ObjGet(b, ia[i][1]))
       [] OTHER -> a = b
=============================================================================
