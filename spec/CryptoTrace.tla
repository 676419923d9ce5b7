----------------------------- MODULE CryptoTrace -----------------------------
(* Recorded calls of the cryptographic primitives and of the operations on them.
   memo: hashes already seen, pairs of an input and its hash. In a trace with decide = 1 the first hash is compared with
   the scrypt of the specification; everywhere one input has one hash, whoever computes it. *)
EXTENDS EniOps, Json
SC == INSTANCE Scrypt
RS == INSTANCE Rsa
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, memo
vars == <<tid, l, memo>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ memo = {}

\* ---- hexadecimal coding
Coding(e) == CASE e.op = "enc" -> e.ok = 1 /\ e.out = HX!Encode(e.in)
               [] e.op = "dec" -> IF HX!Decodable(e.in) THEN e.ok = 1 /\ e.out = HX!Decode(e.in) ELSE e.ok = 0

\* ---- key derivation
Derived(e) == LET d == SC!Pbkdf2(e.pw, e.salt, e.c, e.len)
              IN e.out = d \o [i \in 1..16 |-> 90] /\ e.tight = d /\ e.kept = 1

\* ---- scrypt
Complete(s) == IF Len(s) % 2 = 1 THEN <<48>> \o s ELSE s
InputOf(s) == LET b == HX!Decode(Complete(s)) IN b \o Zeros(80 - Len(b))
HashOk(in, out) == /\ \A m \in memo : m[1] = in => m[2] = out
                   /\ (memo = {} /\ Traces[tid].decide = 1) => out = SC!ScryptHash(in)
Learn(in, out) == memo' = memo \cup {<<in, out>>}
ScryptOp(e) == LET a == TLCEval(Parse(e.text).v)
                   ok == Parse(e.text).m = "done" /\ a[1] = "arr" /\ ValidArgs("scrypt", a[2], <<>>)
               IN /\ OutcomeOk("scrypt", e.text, <<>>, e)
                  /\ IF ok THEN LET in == TLCEval(InputOf(a[2][1][2]))  out == TLCEval(HX!Decode(SubSeq(e.res, 3, 66)))
                                IN HashOk(in, out) /\ Learn(in, out)
                     ELSE UNCHANGED memo

\* ---- RSA
Raw(e) == LET k == Traces[tid].keys[e.k]
          IN /\ e.key = 1
             /\ CASE e.fn = "pubenc" -> IF RS!Encryptable(e.msg, k) THEN e.ok = 1 /\ e.res = RS!PubEncrypt(e.msg, k) ELSE e.ok = 0
                  [] e.fn = "pubdec" -> Len(e.msg) > 0 \/ e.ok = 1 => IF RS!InRange(e.msg, k) THEN e.ok = 1 /\ e.res = RS!PubDecrypt(e.msg, k) ELSE e.ok = 0
                  [] e.fn = "privenc" -> IF RS!Encryptable(e.msg, k) THEN e.ok = 1 /\ RS!PrivEncryptOk(e.msg, k, e.res) ELSE e.ok = 0
                  [] e.fn = "privdec" -> Len(e.msg) > 0 \/ e.ok = 1 => IF RS!InRange(e.msg, k) THEN e.ok = 1 /\ RS!PrivDecryptOk(e.msg, k, e.res) ELSE e.ok = 0
Readable(e) == LET kind(k) == IF e.kind = "pub" THEN k.pub ELSE k.priv
                   i == SelectInSeq(Traces[tid].keys, LAMBDA k : k.pem = e.pem)
               IN e.ok = (IF i > 0 THEN kind(Traces[tid].keys[i]) ELSE 0) /\ e.gone = 1
RsaOp(e) == LET keys == Traces[tid].keys
                a == TLCEval(Parse(e.text).v[2])
            IN /\ OutcomeOk(e.name, e.text, keys, e)
               /\ e.has = 1 =>
                    IF e.name = "rsa_encrypt"
                    THEN e.res = OneText(HX!Encode(RS!PubEncrypt(a[2][2], keys[PubKey(keys, a[1][2])])))
                    ELSE RS!PrivDecryptOk(HX!Decode(a[2][2]), keys[PrivKey(keys, a[1][2])], ValueOfText(e.res)[2][1][2])

Step == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
           CASE e.op \in {"enc", "dec"} -> Coding(e) /\ UNCHANGED memo
             [] e.op = "pbk" -> Derived(e) /\ UNCHANGED memo
             [] e.op = "scr" -> e.kept = 1 /\ HashOk(e.in, e.out) /\ Learn(e.in, e.out)
             [] e.op = "here" /\ e.name = "scrypt" -> ScryptOp(e)
             [] e.op = "here" /\ e.name \in {"rsa_encrypt", "rsa_decrypt"} -> RsaOp(e) /\ UNCHANGED memo
             [] e.op = "rsa" -> Raw(e) /\ UNCHANGED memo
             [] e.op = "key" -> Readable(e) /\ UNCHANGED memo
             [] OTHER -> FALSE
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars
TraceNext == Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
