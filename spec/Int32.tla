------------------------------- MODULE Int32 -------------------------------
(* 32-bit words as the TLC integer with the same two's complement bits (-2^31 .. 2^31-1), for computations with many
   steps. `^^`, `&` and `|` of the Bitwise module are evaluated by TLC on the two's complement bits. *)
EXTENDS Integers, Sequences, Bitwise
MinInt == (-2147483647) - 1
PowTwo == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288,
            1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Plus(a, b) ==
  IF a >= 0
  THEN IF b < 0 THEN a + b
       ELSE LET s == (a + MinInt) + b IN IF s >= 0 THEN s + MinInt ELSE (s + 2147483647) + 1
  ELSE IF b >= 0 THEN a + b
       ELSE LET s == ((a + 2147483647) + 1) + b IN IF s < 0 THEN (s + 2147483647) + 1 ELSE s + MinInt
NotI(a) == (-1) - a
\* shift to the left by n, 1 <= n <= 30
ShlI(a, n) == LET low == a & (PowTwo[31 - n] + (PowTwo[31 - n] - 1))
              IN IF low >= PowTwo[31 - n] THEN ((low - PowTwo[31 - n]) - PowTwo[31 - n]) * PowTwo[n] ELSE low * PowTwo[n]
\* logical shift to the right by n, 1 <= n <= 30
ShrI(a, n) == IF a >= 0 THEN a \div PowTwo[n] ELSE (((a + 2147483647) + 1) \div PowTwo[n]) + PowTwo[31 - n]
RotlI(a, n) == ShlI(a, n) + ShrI(a, 32 - n)      \* 2 <= n <= 30
RotrI(a, n) == RotlI(a, 32 - n)
\* bytes, most significant first
BytesBE(a) == LET p == IF a >= 0 THEN a ELSE (a + 2147483647) + 1
              IN <<(p \div 16777216) + (IF a < 0 THEN 128 ELSE 0), (p \div 65536) % 256, (p \div 256) % 256, p % 256>>
OfBytes(a, b, c, d) == (IF a >= 128 THEN ((a - 128) * 16777216 + MinInt) ELSE a * 16777216) + (b * 65536 + c * 256 + d)
=============================================================================
