--------------------------------- MODULE Cli ---------------------------------
(* The command line tools eni_run and eni_gas: reading the arguments one by one, then loading, finding and calling. *)
EXTENDS EniOps
Dash == 45
IsDouble(a) == a = <<Dash, Dash>>
\* the argument reader: an argument is an option, the end of the options or positional
Fresh == [ended |-> FALSE, pos |-> <<>>, bad |-> FALSE]
Read(m, a) == IF m.bad THEN m
              ELSE IF ~m.ended /\ a # <<>> /\ a[1] = Dash
                   THEN IF IsDouble(a) THEN [m EXCEPT !.ended = TRUE] ELSE m
                   ELSE IF Len(m.pos) = 3 THEN [m EXCEPT !.bad = TRUE] ELSE [m EXCEPT !.pos = Append(@, a)]
ReadAll(args) == FoldLeft(Read, Fresh, args)
Good(m) == ~m.bad /\ Len(m.pos) = 3
\* the same without a machine
EndAt(args) == LET i == SelectInSeq(args, IsDouble) IN IF i = 0 THEN Len(args) + 1 ELSE i
Positional(args) == LET k == EndAt(args)
                    IN SelectSeq(SubSeq(args, 1, k - 1), LAMBDA a : a = <<>> \/ a[1] # Dash) \o SubSeq(args, k + 1, Len(args))

UsageStatus(tool) == IF tool = "run" THEN 1 ELSE 2
LoadError == 3
SymError == 4
RunError == 5
NoResult == <<"none">>
NoSymbol == <<"nosym">>
Told(x) == <<"text", x>>
AnyText == <<"any">>
\* the test library: operation names as bytes
Echo == <<101, 99, 104, 111>>                        \* echo: run gives the parameters, gas their length
None == <<110, 111, 110, 101>>                       \* none: no result
Empty == <<101, 109, 112, 116, 121>>                 \* empty: the empty text, no gas
RunOnly == <<114, 117, 110, 111, 110, 108, 121>>     \* runonly
GasOnly == <<103, 97, 115, 111, 110, 108, 121>>      \* gasonly
Big == <<98, 105, 103>>                              \* big: much text, the most gas
Lines == <<108, 105, 110, 101, 115>>                 \* lines: a text of two lines
Dashed == <<45, 100, 97, 115, 104>>                  \* -dash
Anon == <<>>                                         \* the operation without a name
MaxU64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
StubAnswer(tool, op, par) ==
  CASE op = Echo -> IF tool = "run" THEN Told(par) ELSE Told(DecText(Len(par)))
    [] op = None -> NoResult
    [] op = Empty -> IF tool = "run" THEN Told(<<>>) ELSE Told(<<48>>)
    [] op = RunOnly -> IF tool = "run" THEN Told(<<120>>) ELSE NoSymbol
    [] op = GasOnly -> IF tool = "gas" THEN Told(<<55>>) ELSE NoSymbol
    [] op = Big -> IF tool = "run" THEN Told([i \in 1..3000 |-> 97 + (i % 26)]) ELSE Told(MaxU64)
    [] op = Lines -> IF tool = "run" THEN Told(<<97, 10, 98, 32, 9, 10>>) ELSE Told(<<49, 48>>)
    [] op = Dashed -> IF tool = "run" THEN Told(<<45>>) ELSE Told(<<49>>)
    [] op = Anon -> IF tool = "run" THEN Told(<<97, 110, 111, 110>>) ELSE Told(<<50>>)
    [] OTHER -> NoSymbol
\* a library with the scrypt operation of this repository
ScryptName == <<115, 99, 114, 121, 112, 116>>
EniAnswer(tool, op, par) ==
  IF op # ScryptName THEN NoSymbol
  ELSE LET p == TLCEval(Parse(par))
           ok == p.v[1] = "arr" /\ ValidArgs("scrypt", p.v[2], <<>>)
       IN IF p.m # "done" THEN AnyText
          ELSE IF tool = "gas" THEN Told(IF ok THEN DecText(GasOf("scrypt", p.v[2], <<>>)) ELSE <<49, 53, 48, 48>>)
          ELSE IF ok THEN <<"scrypt">> ELSE NoResult
Within(text, part) == \E i \in 0..(Len(text) - Len(part)) : SubSeq(text, i + 1, i + Len(part)) = part
ToolName(tool) == <<101, 110, 105, 95>> \o (IF tool = "run" THEN <<114, 117, 110>> ELSE <<103, 97, 115>>)
UsageShown(tool, err) == /\ Within(err, ToolName(tool))
                         /\ Within(err, <<76, 73, 66, 80, 65, 84, 72>>) /\ Within(err, <<79, 80>>) /\ Within(err, <<74, 83, 79, 78>>)
\* is this a run of the tool? libs: records [path, what]
RunOk(tool, args, libs, e) ==
  LET m == TLCEval(ReadAll(args))
  IN IF ~Good(m) THEN e.st = UsageStatus(tool) /\ e.out = <<>> /\ UsageShown(tool, e.err)
     ELSE LET i == SelectInSeq(libs, LAMBDA b : b.path = m.pos[1])
          IN IF m.pos[1] = <<>> THEN e.st \in {LoadError, SymError} /\ e.out = <<>>
             ELSE IF i = 0 THEN e.st = LoadError /\ e.out = <<>>
             ELSE LET r == TLCEval(IF libs[i].what = "stub" THEN StubAnswer(tool, m.pos[2], m.pos[3]) ELSE EniAnswer(tool, m.pos[2], m.pos[3]))
                  IN CASE r = NoSymbol -> e.st = SymError /\ e.out = <<>>
                       [] r = NoResult -> e.st = RunError /\ e.out = <<>>
                       [] r = AnyText -> TRUE
                       [] r[1] = "scrypt" -> e.st = 0 /\ Len(e.out) = 69 /\ e.out[69] = 10 /\ QuotedHex(SubSeq(e.out, 1, 68), 64)
                       [] OTHER -> e.st = 0 /\ e.out = Append(r[2], 10)
=============================================================================
