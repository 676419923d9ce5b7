------------------------------- MODULE Sha256 -------------------------------
(* SHA-256 (FIPS 180-4), HMAC (RFC 2104) and PBKDF2 (RFC 8018) over byte sequences. *)
EXTENDS Int32, SequencesExt, TLC

Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Bytes0(n) == [i \in 1..n |-> 0]
H0 == <<1779033703, -1150833019, 1013904242, -1521486534, 1359893119, -1694144372, 528734635, 1541459225>>
K == <<1116352408, 1899447441, -1245643825, -373957723, 961987163, 1508970993, -1841331548, -1424204075,
       -670586216, 310598401, 607225278, 1426881987, 1925078388, -2132889090, -1680079193, -1046744716,
       -459576895, -272742522, 264347078, 604807628, 770255983, 1249150122, 1555081692, 1996064986,
       -1740746414, -1473132947, -1341970488, -1084653625, -958395405, -710438585, 113926993, 338241895,
       666307205, 773529912, 1294757372, 1396182291, 1695183700, 1986661051, -2117940946, -1838011259,
       -1564481375, -1474664885, -1035236496, -949202525, -778901479, -694614492, -200395387, 275423344,
       430227734, 506948616, 659060556, 883997877, 958139571, 1322822218, 1537002063, 1747873779,
       1955562222, 2024104815, -2067236844, -1933114872, -1866530822, -1538233109, -1090935817, -965641998>>

SmallSigma0(x) == (RotrI(x, 7) ^^ RotrI(x, 18)) ^^ ShrI(x, 3)
SmallSigma1(x) == (RotrI(x, 17) ^^ RotrI(x, 19)) ^^ ShrI(x, 10)
BigSigma0(x) == (RotrI(x, 2) ^^ RotrI(x, 13)) ^^ RotrI(x, 22)
BigSigma1(x) == (RotrI(x, 6) ^^ RotrI(x, 11)) ^^ RotrI(x, 25)
Ch(x, y, z) == (x & y) ^^ (NotI(x) & z)
Maj(x, y, z) == ((x & y) ^^ (x & z)) ^^ (y & z)

Block(m, b) == [i \in 1..16 |-> OfBytes(m[64 * b + 4 * i - 3], m[64 * b + 4 * i - 2], m[64 * b + 4 * i - 1], m[64 * b + 4 * i])]
Schedule(w16) == FoldLeft(LAMBDA w, t : Append(w, Plus(Plus(SmallSigma1(w[t - 2]), w[t - 7]), Plus(SmallSigma0(w[t - 15]), w[t - 16]))),
                          w16, Upto(17, 64))
Round(s, w, t) == LET t1 == TLCEval(Plus(Plus(Plus(s[8], BigSigma1(s[5])), Plus(Ch(s[5], s[6], s[7]), K[t])), w[t]))
                  IN <<Plus(t1, Plus(BigSigma0(s[1]), Maj(s[1], s[2], s[3]))), s[1], s[2], s[3], Plus(s[4], t1), s[5], s[6], s[7]>>
Compress(h, w16) == LET w == TLCEval(Schedule(w16))
                        s == TLCEval(FoldLeft(LAMBDA x, t : Round(x, w, t), h, Upto(1, 64)))
                    IN [i \in 1..8 |-> Plus(h[i], s[i])]
\* n: the length in bytes of the whole message, less than 2^24 here
Padding(n) == LET z == (119 - (n % 64)) % 64 IN <<128>> \o Bytes0(z) \o <<0, 0, 0, 0>> \o BytesBE(8 * n)
HashState(h, m) == FoldLeft(LAMBDA s, b : TLCEval(Compress(s, Block(m, b))), h, Upto(0, (Len(m) \div 64) - 1))
Digest(h) == FoldLeft(LAMBDA a, x : a \o BytesBE(x), <<>>, h)
Sha(m) == LET p == TLCEval(m \o Padding(Len(m))) IN Digest(HashState(H0, p))

\* the two inner states of HMAC with a key
HmacKey(key) == LET k0 == IF Len(key) > 64 THEN Sha(key) ELSE key
                    k == TLCEval(k0 \o Bytes0(64 - Len(k0)))
                IN <<HashState(H0, [i \in 1..64 |-> k[i] ^^ 54]), HashState(H0, [i \in 1..64 |-> k[i] ^^ 92])>>
HmacWith(ks, m) == LET in == TLCEval(Digest(HashState(ks[1], m \o Padding(64 + Len(m)))))
                   IN Digest(HashState(ks[2], in \o Padding(96)))
Hmac(key, m) == HmacWith(TLCEval(HmacKey(key)), m)

XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
\* block i of PBKDF2: the xor of the c iterates
PbkdfBlock(ks, salt, c, i) ==
  LET u1 == TLCEval(HmacWith(ks, salt \o BytesBE(i)))
  IN FoldLeft(LAMBDA tu, j : LET u == TLCEval(HmacWith(ks, tu[2])) IN <<TLCEval(XorBytes(tu[1], u)), u>>, <<u1, u1>>, Upto(2, c))[1]
Pbkdf2(pw, salt, c, dk) ==
  LET ks == TLCEval(HmacKey(pw))
      n == (dk + 31) \div 32
  IN SubSeq(FoldLeft(LAMBDA a, i : a \o PbkdfBlock(ks, salt, c, i), <<>>, Upto(1, n)), 1, dk)
=============================================================================
