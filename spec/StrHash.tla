------------------------------- MODULE StrHash -------------------------------
(* The string hash functions of libeni as recurrences over the bytes of the string (0..255, taken as signed chars),
   modulo 2^32. *)
EXTENDS Word32, SequencesExt

Fold(Op(_, _, _), s, h0) ==   \* Op(hash, byte, position)
  FoldLeft(LAMBDA acc, c : <<Op(acc[1], OfByteS(c), acc[2]), acc[2] + 1>>, <<h0, 1>>, s)[1]

BKDRStep(h, c, i) == Add(Mul(h, <<0, 131>>), c)
SDBMStep(h, c, i) == Sub(Add(c, Add(Shl(h, 6), Shl(h, 16))), h)
DJBStep(h, c, i) == Add(Add(Shl(h, 5), h), c)
DEKStep(h, c, i) == XorW(XorW(Shl(h, 5), Shr(h, 27)), c)
BPStep(h, c, i) == XorW(Shl(h, 7), c)
FNVStep(h, c, i) == XorW(Mul(h, <<33052, 40389>>), c)            \* 0x811C9DC5
APStep(h, c, i) == IF i % 2 = 1 THEN XorW(h, XorW(Shl(h, 7), Mul(c, Shr(h, 3))))
                   ELSE XorW(h, NotW(Add(Shl(h, 11), XorW(c, Shr(h, 5)))))
JSStep(h, c, i) == XorW(h, Add(Add(Shl(h, 5), c), Shr(h, 2)))
PJWStep(h, c, i) == LET g == Add(Shl(h, 4), c)
                        t == AndW(g, <<61440, 0>>)               \* 0xF0000000
                    IN IF t = Zero THEN g ELSE AndW(XorW(g, Shr(t, 24)), <<4095, 65535>>)
ELFStep(h, c, i) == LET g == Add(Shl(h, 4), c)
                        x == AndW(g, <<61440, 0>>)
                        y == IF x = Zero THEN g ELSE XorW(g, Shr(x, 24))
                    IN AndW(y, NotW(x))
(* RS carries a second accumulator: the multiplier 63689 * 378551^(i-1) *)
RSHash(s) == FoldLeft(LAMBDA acc, c : <<Add(Mul(acc[1], acc[2]), OfByteS(c)), Mul(acc[2], <<5, 50871>>)>>,
                      <<Zero, <<0, 63689>>>>, s)[1]       \* 378551

Hash(name, s) == CASE name = "RS" -> RSHash(s)
                   [] name = "JS" -> Fold(JSStep, s, <<20071, 50855>>)       \* 1315423911
                   [] name = "PJW" -> Fold(PJWStep, s, Zero)
                   [] name = "ELF" -> Fold(ELFStep, s, Zero)
                   [] name = "BKDR" -> Fold(BKDRStep, s, Zero)
                   [] name = "SDBM" -> Fold(SDBMStep, s, Zero)
                   [] name = "DJB" -> Fold(DJBStep, s, <<0, 5381>>)
                   [] name = "DEK" -> Fold(DEKStep, s, OfInt(Len(s)))
                   [] name = "BP" -> Fold(BPStep, s, Zero)
                   [] name = "FNV" -> Fold(FNVStep, s, Zero)
                   [] name = "AP" -> Fold(APStep, s, <<43690, 43690>>)

Names == <<"RS", "JS", "PJW", "ELF", "BKDR", "SDBM", "DJB", "DEK", "BP", "FNV", "AP">>
AllHashes(s) == [i \in 1..11 |-> Hash(Names[i], s)]

(* the characteristic of a string: how many dots (saturating at 15), whether there are digits or underscores, which
   letters regardless of case; and the filter on characteristics *)
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
Chars(s) == {s[i] : i \in 1..Len(s)}
Dots(s) == LET n == Len(SelectSeq(s, LAMBDA c : c = 46)) IN IF n > 15 THEN 15 ELSE n
Traits(s) == {"digit" : c \in {x \in Chars(s) : IsDigit(x)}} \cup {"underscore" : c \in {x \in Chars(s) : x = 95}}
Letters(s) == {IF IsUpper(x) THEN x + 32 ELSE x : x \in {y \in Chars(s) : IsUpper(y) \/ IsLower(y)}}
MayInclude(p, s) == Traits(p) \subseteq Traits(s) /\ Letters(p) \subseteq Letters(s) /\ Dots(p) <= Dots(s)
IsSubstring(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
=============================================================================
