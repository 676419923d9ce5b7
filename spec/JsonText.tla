------------------------------ MODULE JsonText ------------------------------
(* The JSON texts libeni reads, as a deterministic automaton with a stack that looks at one byte at a time and builds
   the value. It stops at the end of the first complete value: what follows is not looked at. *)
EXTENDS JsonValues

WS == {32, 9, 10, 13}
Start == [m |-> "val", st |-> <<>>, acc |-> <<>>, key |-> FALSE, n |-> 0, v |-> Undef]
Fail(s) == [s EXCEPT !.m = "fail"]

(* a frame of the stack: <<"arr", elements>> or <<"obj", table, current key>> *)
Top(s) == s.st[Len(s.st)]
SetTop(s, f) == [s EXCEPT !.st[Len(s.st)] = f]
Pop(s) == [s EXCEPT !.st = SubSeq(s.st, 1, Len(s.st) - 1)]
Push(s, f, m) == [s EXCEPT !.st = Append(s.st, f), !.m = m]

(* a value is complete *)
Yield(s, v) ==
  IF s.st = <<>> THEN [s EXCEPT !.m = "done", !.v = v]
  ELSE LET f == Top(s)
       IN IF f[1] = "arr" THEN [SetTop(s, <<"arr", Append(f[2], v)>>) EXCEPT !.m = "after"]
          ELSE [SetTop(s, <<"obj", ObjPut(<<"obj", f[2]>>, f[3], v)[2], f[3]>>) EXCEPT !.m = "after"]

CloseTop(s) == LET f == Top(s) IN Yield(Pop(s), <<f[1], f[2]>>)

Value(s, c) ==    \* the first byte of a value
  CASE c \in WS -> s
    [] c = 123 -> Push(s, <<"obj", EmptyObj[2], <<>>>>, "keyfirst")
    [] c = 91 -> Push(s, <<"arr", <<>>>>, "first")
    [] c = 34 -> [s EXCEPT !.m = "str", !.acc = <<>>, !.key = FALSE]
    [] c = 116 -> [s EXCEPT !.m = "true", !.n = 1]
    [] c = 102 -> [s EXCEPT !.m = "false", !.n = 1]
    [] c = 45 -> [s EXCEPT !.m = "neg", !.acc = <<45>>]
    [] c = 48 -> [s EXCEPT !.m = "zero", !.acc = <<48>>]
    [] c \in 49..57 -> [s EXCEPT !.m = "int", !.acc = <<c>>]
    [] OTHER -> Fail(s)

After(s, c) ==    \* after a value inside an array or object
  LET f == Top(s)
  IN CASE c \in WS -> s
       [] c = 44 /\ f[1] = "arr" -> [s EXCEPT !.m = "val"]
       [] c = 44 /\ f[1] = "obj" -> [s EXCEPT !.m = "key"]
       [] c = 93 /\ f[1] = "arr" -> CloseTop(s)
       [] c = 125 /\ f[1] = "obj" -> CloseTop(s)
       [] OTHER -> Fail(s)

(* a byte that ends a number belongs to what follows it *)
EndNumber(s, c) == LET y == Yield(s, IntV(s.acc)) IN IF y.m = "done" THEN y ELSE After(y, c)

Key(s, c) == CASE c \in WS -> s
               [] c = 34 -> [s EXCEPT !.m = "str", !.acc = <<>>, !.key = TRUE]
               [] OTHER -> Fail(s)

EndString(s) == IF s.key THEN [SetTop(s, <<"obj", Top(s)[2], s.acc>>) EXCEPT !.m = "colon"] ELSE Yield(s, StrV(s.acc))

Plain(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
              [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1

Literal(s, c, text, v) ==
  IF c # text[s.n + 1] THEN Fail(s)
  ELSE IF s.n + 1 = Len(text) THEN Yield(s, v) ELSE [s EXCEPT !.n = @ + 1]

PStep(s, c) ==
  CASE s.m \in {"done", "fail"} -> s
    [] s.m = "val" -> Value(s, c)
    [] s.m = "first" -> IF c = 93 THEN CloseTop(s) ELSE Value(s, c)
    [] s.m = "keyfirst" -> IF c = 125 THEN CloseTop(s) ELSE Key(s, c)
    [] s.m = "key" -> Key(s, c)
    [] s.m = "colon" -> IF c \in WS THEN s ELSE IF c = 58 THEN [s EXCEPT !.m = "val"] ELSE Fail(s)
    [] s.m = "after" -> After(s, c)
    [] s.m = "str" -> IF c = 34 THEN EndString(s) ELSE IF c = 92 THEN [s EXCEPT !.m = "esc"] ELSE [s EXCEPT !.acc = Append(@, c)]
    [] s.m = "esc" -> IF c = 117 THEN [s EXCEPT !.m = "hex", !.n = 0, !.acc = Append(@, 0)]
                      ELSE IF Plain(c) >= 0 THEN [s EXCEPT !.m = "str", !.acc = Append(@, Plain(c))] ELSE Fail(s)
    [] s.m = "hex" -> IF HexVal(c) < 0 THEN Fail(s)
                      ELSE [s EXCEPT !.m = IF s.n = 3 THEN "str" ELSE "hex", !.n = @ + 1,
                                     !.acc[Len(s.acc)] = (@ * 16 + HexVal(c)) % 256]
    [] s.m = "neg" -> IF c = 48 THEN [s EXCEPT !.m = "zero", !.acc = Append(@, c)]
                      ELSE IF c \in 49..57 THEN [s EXCEPT !.m = "int", !.acc = Append(@, c)] ELSE Fail(s)
    [] s.m = "zero" -> EndNumber(s, c)
    [] s.m = "int" -> IF c \in 48..57 THEN [s EXCEPT !.acc = Append(@, c)] ELSE EndNumber(s, c)
    [] s.m = "true" -> Literal(s, c, TrueText, BoolV(1))
    [] s.m = "false" -> Literal(s, c, FalseText, BoolV(0))

(* at the end of the text a number is complete *)
Finish(s) == IF s.m \in {"zero", "int"} /\ s.st = <<>> THEN Yield(s, IntV(s.acc)) ELSE IF s.m = "done" THEN s ELSE Fail(s)

Run(s, text) == FoldLeft(LAMBDA a, c : TLCEval(PStep(a, c)), s, text)
Parse(text) == Finish(Run(Start, text))
Accepts(text) == Parse(text).m = "done"
ValueOfText(text) == Parse(text).v
=============================================================================
