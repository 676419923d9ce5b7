----------------------------- MODULE JsonQuery -----------------------------
(* The structural queries of the json example operation: where the elements of an array or the members of an object are
   in a JSON text. Positions are 0-based, an element occupies [from, to). *)
EXTENDS JsonText
HX == INSTANCE HexCode

IsBlank(c) == c \in {32, 9, 10, 13}
\* one byte of the text between the brackets of a container: depth, inside a string?, after a backslash?, begin of the
\* element that is being read (-1: none), elements found so far
Found(s, to) == [s EXCEPT !.els = Append(@, <<s.from, to>>), !.from = -1]
ScanByte(text, s, i) ==
  LET c == text[i + 1]
      at == IF s.from < 0 THEN i ELSE s.from
  IN CASE s.str -> IF s.esc THEN [s EXCEPT !.esc = FALSE]
                   ELSE IF c = 92 THEN [s EXCEPT !.esc = TRUE]
                   ELSE IF c = 34 THEN (IF s.depth = 0 THEN Found([s EXCEPT !.str = FALSE], i + 1) ELSE [s EXCEPT !.str = FALSE])
                   ELSE s
       [] c = 34 -> [s EXCEPT !.str = TRUE, !.from = at]
       [] c \in {91, 123} -> [s EXCEPT !.depth = @ + 1, !.from = at]
       [] c \in {93, 125} /\ s.depth > 0 -> IF s.depth = 1 THEN Found([s EXCEPT !.depth = 0], i + 1) ELSE [s EXCEPT !.depth = @ - 1]
       [] s.depth > 0 -> s
       [] IsBlank(c) \/ c \in {44, 58, 93, 125} -> IF s.from >= 0 THEN Found(s, i) ELSE s
       [] OTHER -> [s EXCEPT !.from = at]
Blanks(text, from) == LET n == SelectInSeq([i \in 1..(Len(text) - from) |-> text[from + i]], LAMBDA c : ~IsBlank(c))
                      IN IF n = 0 THEN Len(text) ELSE from + n - 1
\* the elements of the container that begins at the first byte that is not blank in [from, to)
Elements(text, from, to) ==
  LET open == TLCEval(Blanks(text, from))
  IN FoldLeft(LAMBDA s, k : IF s.closed THEN s
                            ELSE LET t == TLCEval(ScanByte(text, s, open + k))
                                 IN IF ~s.str /\ s.depth = 0 /\ text[open + k + 1] \in {93, 125} THEN [t EXCEPT !.closed = TRUE] ELSE t,
              [depth |-> 0, str |-> FALSE, esc |-> FALSE, from |-> -1, els |-> <<>>, closed |-> FALSE],
              [k \in 1..(to - open - 1) |-> k]).els
Pos8(n) == [i \in 1..8 |-> HX!LowDigit((n \div (CASE i = 1 -> 268435456 [] i = 2 -> 16777216 [] i = 3 -> 1048576 [] i = 4 -> 65536
                                                   [] i = 5 -> 4096 [] i = 6 -> 256 [] i = 7 -> 16 [] OTHER -> 1)) % 16)]
PosText(e) == Pos8(e[1]) \o Pos8(e[2])
Piece(text, from, to) == SubSeq(text, from + 1, to)

StringAt(text, from) == ValueOfText(Piece(text, from, Len(text)))[2]
ArrayAll(text, from, to) == LET els == TLCEval(Elements(text, from, to)) IN Cat([i \in 1..Len(els) |-> PosText(els[i])])
ArrayOne(text, from, to, index) == PosText(Elements(text, from, to)[index + 1])
\* the value of the last member with the key
ObjectOne(text, from, to, key) ==
  LET els == TLCEval(Elements(text, from, to))
      n == Len(els) \div 2
      m == SelectLastInSeq([i \in 1..n |-> ValueOfText(Piece(text, els[2 * i - 1][1], els[2 * i - 1][2]))[2]], LAMBDA k : k = key)
  IN IF m = 0 THEN PosText(<<0, 0>>) ELSE PosText(els[2 * m])
\* names of the queries
QString == <<112, 97, 114, 115, 101, 83, 116, 114, 105, 110, 103>>
QArray == <<112, 97, 114, 115, 101, 65, 114, 114, 97, 121>>
QIndex == <<97, 114, 114, 97, 121, 71, 101, 116>>
QKey == <<111, 98, 106, 101, 99, 116, 71, 101, 116>>
NatOf(v) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, v[2])
Answer(a) ==
  LET text == TLCEval(a[2][2])  from == NatOf(a[3])  to == NatOf(a[4])
  IN CASE a[1][2] = QString -> StringAt(text, from)
       [] a[1][2] = QArray -> ArrayAll(text, from, to)
       [] a[1][2] = QIndex -> ArrayOne(text, from, to, NatOf(a[5]))
       [] a[1][2] = QKey -> ObjectOne(text, from, to, a[5][2])
=============================================================================
