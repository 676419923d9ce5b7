------------------------------- MODULE Scrypt -------------------------------
(* scrypt (RFC 7914) with N = 1024, r = 1, p = 1 and 32 bytes of output, over byte sequences. *)
EXTENDS Sha256

N == 1024
\* the steps of Salsa20: x[a] ^= (x[b] + x[c]) <<< r
ColumnRow == << <<4, 0, 12, 7>>, <<9, 5, 1, 7>>, <<14, 10, 6, 7>>, <<3, 15, 11, 7>>,
                <<8, 4, 0, 9>>, <<13, 9, 5, 9>>, <<2, 14, 10, 9>>, <<7, 3, 15, 9>>,
                <<12, 8, 4, 13>>, <<1, 13, 9, 13>>, <<6, 2, 14, 13>>, <<11, 7, 3, 13>>,
                <<0, 12, 8, 18>>, <<5, 1, 13, 18>>, <<10, 6, 2, 18>>, <<15, 11, 7, 18>>,
                <<1, 0, 3, 7>>, <<6, 5, 4, 7>>, <<11, 10, 9, 7>>, <<12, 15, 14, 7>>,
                <<2, 1, 0, 9>>, <<7, 6, 5, 9>>, <<8, 11, 10, 9>>, <<13, 12, 15, 9>>,
                <<3, 2, 1, 13>>, <<4, 7, 6, 13>>, <<9, 8, 11, 13>>, <<14, 13, 12, 13>>,
                <<0, 3, 2, 18>>, <<5, 4, 7, 18>>, <<10, 9, 8, 18>>, <<15, 14, 13, 18>> >>
Steps8 == TLCEval([i \in 1..128 |-> LET s == ColumnRow[((i - 1) % 32) + 1] IN <<s[1] + 1, s[2] + 1, s[3] + 1, s[4]>>])
Salsa8(x) == LET y == TLCEval(FoldLeft(LAMBDA z, s : [z EXCEPT ![s[1]] = @ ^^ RotlI(Plus(z[s[2]], z[s[3]]), s[4])], x, Steps8))
             IN [i \in 1..16 |-> Plus(x[i], y[i])]
XorWords(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
\* BlockMix for r = 1: two halves
BlockMix(x) == LET y0 == TLCEval(Salsa8(XorWords(SubSeq(x, 1, 16), SubSeq(x, 17, 32))))
                   y1 == TLCEval(Salsa8(XorWords(SubSeq(x, 17, 32), y0)))
               IN y0 \o y1
RoMix(x0) ==
  LET fill == TLCEval(FoldLeft(LAMBDA xv, i : <<TLCEval(BlockMix(xv[1])), Append(xv[2], xv[1])>>, <<x0, <<>>>>, Upto(1, N)))
      v == fill[2]
  IN FoldLeft(LAMBDA x, i : TLCEval(BlockMix(XorWords(x, v[(x[17] & (N - 1)) + 1]))), fill[1], Upto(1, N))
WordLE(m, i) == OfBytes(m[4 * i], m[4 * i - 1], m[4 * i - 2], m[4 * i - 3])
BytesLE(ws) == FoldLeft(LAMBDA a, w : LET b == BytesBE(w) IN a \o <<b[4], b[3], b[2], b[1]>>, <<>>, ws)
ScryptHash(in) ==
  LET b == TLCEval(Pbkdf2(in, in, 1, 128))
      x == TLCEval(RoMix([i \in 1..32 |-> WordLE(b, i)]))
  IN Pbkdf2(in, BytesLE(x), 1, 32)
=============================================================================
