------------------------------- MODULE BigNum -------------------------------
(* Natural numbers of any size: sequences of bytes, least significant first, without leading (that is: last) zeros, zero
   being <<>>. Bytes keep every product column far below 2^31. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

LOCAL Range0(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Norm(x) == LET n == SelectLastInSeq(x, LAMBDA c : c # 0) IN SubSeq(x, 1, n)
Digit(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
OfNat(n) == Norm(<<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>)
PadTo(x, n) == IF Len(x) >= n THEN x ELSE x \o [i \in 1..(n - Len(x)) |-> 0]
\* carries in a sequence of columns (each below 2^30); the extra digits at the end take the last carry
Carry(cols) == Norm(FoldLeft(LAMBDA a, c : LET s == c + a[2] IN <<Append(a[1], s % 256), s \div 256>>,
                             <<<<>>, 0>>, cols \o <<0, 0, 0, 0>>)[1])

AddN(x, y) == Carry([i \in 1..MaxI(Len(x), Len(y)) |-> Digit(x, i) + Digit(y, i)])
\* x - y for x >= y; floor division and modulo carry the borrow
SubN(x, y) == Norm(FoldLeft(LAMBDA a, i : LET s == x[i] - Digit(y, i) + a[2] IN <<Append(a[1], s % 256), s \div 256>>,
                            <<<<>>, 0>>, Range0(1, Len(x)))[1])
Column(x, y, k) == LET lo == MaxI(1, k + 1 - Len(y))  hi == MinI(Len(x), k)
                   IN FoldLeft(LAMBDA a, i : a + x[i] * y[k + 1 - i], 0, Range0(lo, hi))
MulN(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Carry([k \in 1..(Len(x) + Len(y) - 1) |-> Column(x, y, k)])
\* -1, 0 or 1
CmpN(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1)
              ELSE LET d == SelectLastInSeq(Range0(1, Len(x)), LAMBDA i : x[i] # y[i])
                   IN IF d = 0 THEN 0 ELSE IF x[d] < y[d] THEN -1 ELSE 1
MulSmall(x, m) == Carry([i \in 1..Len(x) |-> x[i] * m])      \* m < 2^20

RECURSIVE Reduce(_, _, _)
Reduce(q, r, n) == IF CmpN(r, n) < 0 THEN <<q, r>> ELSE Reduce(q + 1, TLCEval(SubN(r, n)), n)
\* one step of the long division: r < n, the next digit of the dividend is d
DivStep(r, d, n) ==
  LET x == TLCEval(Norm(<<d>> \o r))
      k == Len(n)
      top == Digit(x, k + 1) * 65536 + Digit(x, k) * 256 + (IF k > 1 THEN Digit(x, k - 1) ELSE 0)
      nt == n[k] * 256 + (IF k > 1 THEN n[k - 1] ELSE 0)
      q == IF Len(x) < k THEN 0 ELSE top \div (nt + 1)      \* never too large
  IN Reduce(q, IF q = 0 THEN x ELSE TLCEval(SubN(x, MulSmall(n, q))), n)
\* <<quotient, remainder>> for n # 0
DivMod(x, n) ==
  LET r == FoldRight(LAMBDA d, a : LET s == TLCEval(DivStep(a[2], d, n)) IN <<<<s[1]>> \o a[1], s[2]>>, x, <<<<>>, <<>>>>)
  IN <<Norm(r[1]), r[2]>>
ModN(x, n) == FoldRight(LAMBDA d, a : DivStep(a, d, n)[2], x, <<>>)

\* modular power; the exponent is a number too, processed from its most significant bit
BitsOf(e) == FoldRight(LAMBDA d, a : a \o [i \in 1..8 |-> (d \div (2 ^ (8 - i))) % 2], e, <<>>)
PowMod(m, e, n) == FoldLeft(LAMBDA a, b : LET s == TLCEval(ModN(TLCEval(MulN(a, a)), n))
                                          IN IF b = 1 THEN TLCEval(ModN(TLCEval(MulN(s, m)), n)) ELSE s,
                            ModN(<<1>>, n), LET b == BitsOf(e) IN SubSeq(b, SelectInSeq(b, LAMBDA x : x = 1), Len(b)))

\* decimal texts: bytes 48..57, most significant first
OfDecimal(s) == FoldLeft(LAMBDA a, c : TLCEval(AddN(MulSmall(a, 10), OfNat(c - 48))), <<>>, s)
RECURSIVE DecDigits(_)
DecDigits(x) == IF x = <<>> THEN <<>>
                ELSE LET qr == TLCEval(FoldRight(LAMBDA d, a : LET v == a[2] * 256 + d IN <<<<v \div 1000>> \o a[1], v % 1000>>, x, <<<<>>, 0>>))
                     IN DecDigits(Norm(qr[1])) \o <<qr[2] \div 100, (qr[2] \div 10) % 10, qr[2] % 10>>
ToDecimal(x) == IF x = <<>> THEN <<48>>
                ELSE LET d == DecDigits(x) IN [i \in 1..(Len(d) + 1 - SelectInSeq(d, LAMBDA c : c # 0)) |-> 48 + d[i - 1 + SelectInSeq(d, LAMBDA c : c # 0)]]

\* modulo 2^(8*k)
Wrap(x, k) == Norm(SubSeq(x, 1, MinI(k, Len(x))))
\* 2^(8*k) - x, for x < 2^(8*k)
NegWrap(x, k) == IF x = <<>> THEN <<>> ELSE SubN([i \in 1..k |-> 0] \o <<1>>, x)
ShlN(x, n) == MulSmall([i \in 1..(n \div 8) |-> 0] \o x, 2 ^ (n % 8))
ShrN(x, n) == LET y == SubSeq(x, n \div 8 + 1, Len(x))  p == 2 ^ (n % 8)
              IN Norm([i \in 1..Len(y) |-> (y[i] \div p) + (Digit(y, i + 1) % p) * (256 \div p)])
BitOp(Op(_, _), x, y) == Norm([i \in 1..MaxI(Len(x), Len(y)) |-> Op(Digit(x, i), Digit(y, i))])

\* big-endian bytes of a fixed length, as cryptography writes numbers
OfBytesBE(s) == Norm(Reverse(s))
ToBytesBE(x, k) == Reverse(PadTo(x, k))
=============================================================================
