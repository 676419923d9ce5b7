------------------------------- MODULE RsaMC -------------------------------
(* Tiny keys, every message: the private operations described by the public exponent are unique, undo the public ones,
   and stripping loses nothing but the zero bytes at the end. *)
EXTENDS Rsa, FiniteSets
CONSTANTS Primes
VARIABLES key, msg
vars == <<key, msg>>
Two(x) == <<x \div 256, x % 256>>
NoLead(b) == SubSeq(b, SelectInSeq(b, LAMBDA c : c # 0), Len(b))
Gcd1(a, b) == \A d \in 2..a : ~(a % d = 0 /\ b % d = 0)
Keys == {[n |-> NoLead(Two(p * q)), e |-> <<e>>] : p \in Primes, q \in Primes, e \in {3, 5, 7}}
OkKey(k) == Len(k.n) = 2 /\ \E p \in Primes, q \in Primes : /\ p < q /\ k.n = NoLead(Two(p * q)) /\ Gcd1(k.e[1], (p - 1) * (q - 1))
Init == key \in {k \in Keys : OkKey(k)} /\ msg = <<>>
Next == Len(msg) < SizeOf(key) /\ \E b \in {0, 1, 2, 127, 255} : msg' = Append(msg, b) /\ UNCHANGED key
Spec == Init /\ [][Next]_vars
RoundTrip == Encryptable(msg, key) =>
  LET c == PubEncrypt(msg, key)
  IN /\ PrivDecryptOk(c, key, Stripped(msg))
     /\ Cardinality({m \in {Two(x) : x \in 0..(key.n[1] * 256 + key.n[2] - 1)} : IsPrivateOf(m, c, key)}) = 1
=============================================================================
