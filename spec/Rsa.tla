-------------------------------- MODULE Rsa --------------------------------
(* Unpadded RSA on blocks of bytes. A key is a record with the fields n and e, big-endian bytes without leading zeros.
   Private operations are described by the public exponent: the result is the number whose power is the argument. *)
EXTENDS BigNum
SizeOf(k) == Len(k.n)
ZeroBytes(n) == [i \in 1..n |-> 0]
Modulus(k) == OfBytesBE(k.n)
Exponent(k) == OfBytesBE(k.e)
BlockOf(msg, k) == msg \o ZeroBytes(SizeOf(k) - Len(msg))
InRange(bytes, k) == IF Len(bytes) > SizeOf(k) THEN FALSE ELSE CmpN(OfBytesBE(bytes), Modulus(k)) < 0
Encryptable(msg, k) == IF Len(msg) > SizeOf(k) THEN FALSE ELSE InRange(BlockOf(msg, k), k)
Power(bytes, k) == PowMod(OfBytesBE(bytes), Exponent(k), Modulus(k))
PublicBlock(block, k) == ToBytesBE(Power(block, k), SizeOf(k))
Stripped(bytes) == SubSeq(bytes, 1, SelectLastInSeq(bytes, LAMBDA c : c # 0))
\* is res the private power of the block?
IsPrivateOf(res, block, k) == Len(res) = SizeOf(k) /\ InRange(res, k) /\ Power(res, k) = OfBytesBE(block)
Unstripped(res, k) == res = Stripped(res) /\ Len(res) <= SizeOf(k)

PubEncrypt(msg, k) == PublicBlock(BlockOf(msg, k), k)
PubDecrypt(c, k) == Stripped(PublicBlock(c, k))
PrivEncryptOk(msg, k, res) == IsPrivateOf(res, BlockOf(msg, k), k)
PrivDecryptOk(c, k, res) == Unstripped(res, k) /\ IsPrivateOf(BlockOf(res, k), c, k)
=============================================================================
