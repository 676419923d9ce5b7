------------------------------- MODULE Word32 -------------------------------
(* 32-bit words as pairs <<hi, lo>> of 16-bit halves: TLC integers are 32-bit signed. *)
EXTENDS Integers, Sequences, Bitwise
W(hi, lo) == <<hi, lo>>
Zero == <<0, 0>>
OfInt(n) == <<n \div 65536, n % 65536>>                   \* 0 <= n < 2^31
OfByteS(c) == IF c < 128 THEN <<0, c>> ELSE <<65535, 65536 - 256 + c>>  \* sign-extended byte
Add(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
Neg(a) == Add(NotW(a), <<0, 1>>)
Sub(a, b) == Add(a, Neg(b))
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
Pow2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
P2(n) == IF n = 0 THEN 1 ELSE Pow2[n]
Shl(a, n) == IF n = 0 THEN a
             ELSE IF n >= 16 THEN <<(a[2] * P2(n - 16)) % 65536, 0>>
             ELSE <<((a[1] * P2(n)) % 65536) + a[2] \div P2(16 - n), (a[2] * P2(n)) % 65536>>
Shr(a, n) == IF n = 0 THEN a
             ELSE IF n >= 16 THEN <<0, a[1] \div P2(n - 16)>>
             ELSE <<a[1] \div P2(n), (a[1] % P2(n)) * P2(16 - n) + a[2] \div P2(n)>>
Rotl(a, n) == OrW(Shl(a, n), Shr(a, 32 - n))
(* product of two 16-bit numbers as a word, without leaving the 31-bit range: split one factor into bytes *)
Mul16(x, y) == Add(OfInt(x * (y % 256)), Shl(OfInt(x * (y \div 256)), 8))
Mul(a, b) == Add(Mul16(a[2], b[2]), <<(Mul16(a[1], b[2])[2] + Mul16(a[2], b[1])[2]) % 65536, 0>>)
=============================================================================
