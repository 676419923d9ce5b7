------------------------------ MODULE Sha256MC ------------------------------
(* The specification of SHA-256, HMAC, PBKDF2 and scrypt agrees with the published test vectors (FIPS 180-4 examples,
   RFC 4231, RFC 7914 section 11). *)
EXTENDS Scrypt
HX == INSTANCE HexCode
VARIABLES n
Ascii == <<97, 98, 99>>
Rep(b, k) == [i \in 1..k |-> b]
\* "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"
Long == FoldLeft(LAMBDA a, i : a \o <<96 + i, 97 + i, 98 + i, 99 + i>>, <<>>, Upto(1, 14))
Vec6 == <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101, 114, 32, 84, 104, 97, 110, 32, 66, 108, 111, 99,
          107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32, 45, 32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>
Want(k) == CASE k = 1 -> Sha(<<>>)
             [] k = 2 -> Sha(Ascii)
             [] k = 3 -> Sha(Long)
             [] k = 4 -> Hmac(Rep(11, 20), <<72, 105, 32, 84, 104, 101, 114, 101>>)                          \* RFC 4231, 1
             [] k = 5 -> Hmac(Rep(170, 20), Rep(221, 50))                                                    \* RFC 4231, 3
             [] k = 6 -> Hmac(Rep(170, 131), Vec6)                                                           \* RFC 4231, 6
             [] k = 7 -> Pbkdf2(<<112, 97, 115, 115, 119, 100>>, <<115, 97, 108, 116>>, 1, 64)               \* RFC 7914
             [] k = 8 -> Pbkdf2(<<112, 97, 115, 115, 119, 111, 114, 100>>, <<115, 97, 108, 116>>, 2, 32)
CONSTANTS Vectors
Init == n = 1
Next == n < 8 /\ n' = n + 1
Spec == Init /\ [][Next]_n
Agrees == Want(n) = HX!Decode(Vectors[n])
\* RFC 7914, section 8: the Salsa20/8 core
OfHexLE(h) == LET b == HX!Decode(h) IN [i \in 1..16 |-> WordLE(b, i)]
SalsaAgrees == BytesLE(Salsa8(OfHexLE(Vectors[9]))) = HX!Decode(Vectors[10])
MixAgrees == LET b == HX!Decode(Vectors[11])
                                   IN BytesLE(BlockMix([i \in 1..32 |-> WordLE(b, i)])) = HX!Decode(Vectors[12])
=============================================================================
