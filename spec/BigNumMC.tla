------------------------------ MODULE BigNumMC ------------------------------
(* The arithmetic of BigNum against TLC's integers on every pair of small numbers, and its laws on larger ones. *)
EXTENDS BigNum
CONSTANTS Most, Step
VARIABLES x, y
Nums == {i * Step : i \in 0..Most}
Init == x \in Nums /\ y \in Nums
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
RECURSIVE Value(_)
Value(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * Value(Tail(a))
X == OfNat(x)
Y == OfNat(y)
Canonical(a) == a = <<>> \/ a[Len(a)] # 0
SumOk == LET s == AddN(X, Y) IN Value(s) = x + y /\ Canonical(s)
Difference == x >= y => Value(SubN(X, Y)) = x - y /\ Canonical(SubN(X, Y))
ProductOk == x < 40000 /\ y < 40000 => Value(MulN(X, Y)) = x * y /\ Canonical(MulN(X, Y))
Quotient == y # 0 => LET q == DivMod(X, Y) IN Value(q[1]) = x \div y /\ Value(q[2]) = x % y
Order == CmpN(X, Y) = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
Decimal == OfDecimal(ToDecimal(X)) = X /\ Value(OfDecimal(ToDecimal(X))) = x
Shifts == LET s == y % 20 IN Value(ShrN(X, s)) = x \div 2 ^ s /\ ShrN(ShlN(X, s), s) = X /\ ShlN(X, s) = MulN(X, OfNat(2 ^ s))
Wraps == LET w == Wrap(AddN(X, NegWrap(Wrap(Y, 2), 2)), 2) IN Value(w) = (x - y) % 65536
\* the same, for numbers of many digits: (X^5 * Y + x) divided by Y^3 + 1
Large == y # 0 => LET p == TLCEval(MulN(MulN(MulN(X, X), MulN(MulN(X, X), X)), Y))
                      n == TLCEval(AddN(MulN(MulN(Y, Y), Y), <<1>>))
                      d == TLCEval(DivMod(AddN(p, X), n))
                  IN AddN(MulN(d[1], n), d[2]) = AddN(p, X) /\ CmpN(d[2], n) < 0
                     /\ OfDecimal(ToDecimal(p)) = p
                     /\ ModN(p, n) = DivMod(p, n)[2]
=============================================================================
