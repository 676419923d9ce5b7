------------------------------- MODULE EniOps -------------------------------
(* The operations shipped with libeni: which arguments they take, what they cost and what they answer.
   A key is [pem, pub (1: readable as public key), priv (1: readable as private key), n (big-endian bytes), odd (1: its
   parts do not form an RSA key)]. *)
EXTENDS JsonQuery
BN == INSTANCE BigNum

IsStr(v) == v[1] = "str"
PubKey(keys, pem) == SelectInSeq(keys, LAMBDA k : k.pub = 1 /\ k.pem = pem)
PrivKey(keys, pem) == SelectInSeq(keys, LAMBDA k : k.priv = 1 /\ k.pem = pem)
KeySize(k) == Len(k.n)

ScryptText(s) == Len(s) <= 160 /\ HX!AllDigits(s)
ValidArgs(name, a, keys) ==
  CASE name = "rsa_encrypt" -> Len(a) >= 2 /\ IsStr(a[1]) /\ IsStr(a[2]) /\ PubKey(keys, a[1][2]) > 0
    [] name = "rsa_decrypt" -> /\ Len(a) >= 2 /\ IsStr(a[1]) /\ IsStr(a[2]) /\ PrivKey(keys, a[1][2]) > 0
                               /\ HX!Decodable(a[2][2])
    [] name = "scrypt" -> Len(a) >= 1 /\ IsStr(a[1]) /\ ScryptText(a[1][2])
    [] name = "reverse" -> Len(a) >= 1 /\ IsStr(a[1])
    [] name = "json" -> /\ Len(a) >= 4 /\ IsStr(a[1]) /\ IsStr(a[2]) /\ a[3][1] = "int" /\ a[4][1] = "int"
                        /\ a[1][2] \in {QString, QArray, QIndex, QKey}
                        /\ a[1][2] = QIndex => Len(a) >= 5 /\ a[5][1] = "int"
                        /\ a[1][2] = QKey => Len(a) >= 5 /\ IsStr(a[5])

GasOf(name, a, keys) ==
  CASE name = "rsa_encrypt" -> 10 * KeySize(keys[PubKey(keys, a[1][2])])
    [] name = "rsa_decrypt" -> 10 * KeySize(keys[PrivKey(keys, a[1][2])])
    [] name = "scrypt" -> ((Len(a[1][2]) + 1) \div 2) * 10
    [] name = "reverse" -> 10 * Len(a[1][2])
    [] name = "json" -> 10 * Len(Answer(a))

Zeros(n) == [i \in 1..n |-> 0]
Below(bytes, k) == BN!CmpN(BN!OfBytesBE(bytes), BN!OfBytesBE(k.n)) < 0
\* a message as the block of the key: zero bytes on the right
Fits(msg, k) == Len(msg) <= KeySize(k) /\ Below(msg \o Zeros(KeySize(k) - Len(msg)), k)
FitsCipher(c, k) == Len(c) <= KeySize(k) /\ Below(c, k)
Sure(k) == k.odd = 0
\* "yes", "no" or "any" (for a key that is none, and for an empty ciphertext, which OpenSSL takes in one direction only)
Produces(name, a, keys) ==
  LET yes(b) == IF b THEN "yes" ELSE "no"
  IN CASE name = "rsa_encrypt" -> LET k == keys[PubKey(keys, a[1][2])] IN IF Sure(k) THEN yes(Fits(a[2][2], k)) ELSE "any"
       [] name = "rsa_decrypt" -> LET k == keys[PrivKey(keys, a[1][2])] IN IF Sure(k) /\ Len(a[2][2]) > 0 THEN yes(FitsCipher(HX!Decode(a[2][2]), k)) ELSE "any"
       [] OTHER -> "yes"

OneText(s) == PrintV(<<"arr", <<<<"str", s>>>>>>)
QuotedHex(res, n) == /\ Len(res) = n + 4 /\ SubSeq(res, 1, 2) = <<91, 34>> /\ SubSeq(res, n + 3, n + 4) = <<34, 93>>
                     /\ HX!AllLowDigits(SubSeq(res, 3, n + 2))
\* what is known of the result without the cryptography
Shape(name, a, keys, res) ==
  CASE name = "rsa_encrypt" -> QuotedHex(res, 2 * KeySize(keys[PubKey(keys, a[1][2])]))
    [] name = "rsa_decrypt" -> LET p == Parse(res) IN /\ p.m = "done" /\ p.v[1] = "arr" /\ Len(p.v[2]) = 1 /\ IsStr(p.v[2][1])
                                                     /\ Len(p.v[2][1][2]) <= KeySize(keys[PrivKey(keys, a[1][2])])
    [] name = "scrypt" -> QuotedHex(res, 64)
    [] name = "reverse" -> res = OneText(Reverse(a[1][2]))
    [] name = "json" -> res = OneText(Answer(a))

DecText(n) == BN!ToDecimal(BN!OfNat(n))
\* the outcome of asking for the gas and the result of an operation
OutcomeOk(name, text, keys, e) ==
  LET p == TLCEval(Parse(text))
      a == p.v[2]
  IN IF p.m # "done" THEN e.st = 87
     ELSE /\ e.st = 0
          /\ IF p.v[1] = "arr" /\ ValidArgs(name, a, keys)
             THEN LET y == Produces(name, a, keys)
                  IN /\ e.gas = DecText(GasOf(name, a, keys))
                     /\ y # "any" => e.has = (IF y = "yes" THEN 1 ELSE 0)
                     /\ e.has = 1 => Shape(name, a, keys, e.res)
             ELSE e.gas = <<49, 53, 48, 48>> /\ e.has = 0
=============================================================================
