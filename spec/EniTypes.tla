------------------------------ MODULE EniTypes ------------------------------
(* The integer types of ENI as a register machine. An unsigned value of width 8*k bits is a natural below 2^(8*k); a
   signed value is <<sign, magnitude>> with a magnitude below 2^256. *)
EXTENDS BigNum

Bytes(type) == CASE type = "u64" -> 8 [] type = "u128" -> 16 [] type = "u160" -> 20 [] type = "u256" -> 32 [] type = "s256" -> 32
\* the signed type is kept apart: sign 0 or 1 (never 1 with magnitude zero)
S(sign, m) == <<IF m = <<>> THEN 0 ELSE sign, m>>
SNeg(a) == S(1 - a[1], a[2])
SAdd(a, b) == IF a[1] = b[1] THEN S(a[1], AddN(a[2], b[2]))
              ELSE IF CmpN(a[2], b[2]) >= 0 THEN S(a[1], SubN(a[2], b[2])) ELSE S(b[1], SubN(b[2], a[2]))
SMul(a, b) == S(IF a[1] = b[1] THEN 0 ELSE 1, MulN(a[2], b[2]))
SDiv(a, b) == LET d == DivMod(a[2], b[2]) IN <<S(IF a[1] = b[1] THEN 0 ELSE 1, d[1]), S(a[1], d[2])>>   \* towards zero
SCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] = 1 THEN -1 ELSE 1) ELSE IF a[1] = 0 THEN CmpN(a[2], b[2]) ELSE CmpN(b[2], a[2])
InRange(a) == Len(a[2]) <= 32
STextOf(a) == (IF a[1] = 1 THEN <<45>> ELSE <<>>) \o ToDecimal(a[2])
SOfText(s) == IF s[1] = 45 THEN S(1, OfDecimal(Tail(s))) ELSE S(0, OfDecimal(s))

Unsigned(k, op, a, b, n) ==
  CASE op = "add" -> Wrap(AddN(a, b), k)
    [] op = "sub" -> Wrap(AddN(a, NegWrap(b, k)), k)
    [] op = "mul" -> Wrap(MulN(a, b), k)
    [] op = "div" -> DivMod(a, b)[1]
    [] op = "mod" -> DivMod(a, b)[2]
    [] op = "and" -> BitOp(LAMBDA u, v : u & v, a, b)
    [] op = "or" -> BitOp(LAMBDA u, v : u | v, a, b)
    [] op = "xor" -> BitOp(LAMBDA u, v : u ^^ v, a, b)
    [] op = "not" -> SubN([i \in 1..k |-> 255], a)
    [] op = "neg" -> NegWrap(a, k)
    [] op = "shl" -> Wrap(ShlN(a, n), k)
    [] op = "shr" -> ShrN(a, n)
    [] op = "inc" -> Wrap(AddN(a, <<1>>), k)
    [] op = "dec" -> Wrap(AddN(a, NegWrap(<<1>>, k)), k)
Signed(op, a, b) ==
  CASE op = "add" -> SAdd(a, b)
    [] op = "sub" -> SAdd(a, SNeg(b))
    [] op = "mul" -> SMul(a, b)
    [] op = "div" -> SDiv(a, b)[1]
    [] op = "mod" -> SDiv(a, b)[2]
    [] op = "neg" -> SNeg(a)
    [] op = "inc" -> SAdd(a, <<0, <<1>>>>)
    [] op = "dec" -> SAdd(a, <<1, <<1>>>>)
=============================================================================
