----------------------------- MODULE JsonTextMC -----------------------------
(* All texts over a set of tokens: every text the automaton can still accept, and what becomes of it when a few more
   tokens follow a failure or the end of the value. Each is one test. *)
EXTENDS JsonText, Json
CONSTANTS Tokens, MaxTokens, MaxAfterFail, MaxAfterDone, MaxDepth
VARIABLES text, s, n, over
vars == <<text, s, n, over>>
Init == text = <<>> /\ s = Start /\ n = 0 /\ over = 0
Next == /\ n < MaxTokens
        /\ Len(s.st) <= MaxDepth
        /\ CASE s.m = "fail" -> over < MaxAfterFail [] s.m = "done" -> over < MaxAfterDone [] OTHER -> TRUE
        /\ \E t \in Tokens :
             /\ text' = text \o t
             /\ s' = Run(s, t)
             /\ n' = n + 1
             /\ over' = IF s.m \in {"fail", "done"} THEN over + 1 ELSE 0
Spec == Init /\ [][Next]_vars

F == Finish(s)
Test == [s |-> text, ok |-> IF F.m = "done" THEN 1 ELSE 0,
         tree |-> IF F.m = "done" THEN Dump(F.v) ELSE <<>>,
         print |-> IF F.m = "done" THEN PrintV(F.v) ELSE <<>>]
Emit == PrintT("T@" \o ToJson(Test))

(* C11: the verdict is final once it is reached, and white space before a value does not matter *)
WhiteSpaceFree == \A w \in WS : LET p == Parse(<<w>> \o text) IN p.m = F.m /\ p.v = F.v
(* C13: what is printed parses back to the same value, and printing that gives a text of the same value again *)
PrintParses == F.m = "done" => /\ Accepts(PrintV(F.v))
                               /\ SameValue(ValueOfText(PrintV(F.v)), F.v)
(* the automaton never leaves its modes; a complete value at top level has an empty stack *)
TypeOK == /\ s.m \in {"val", "first", "keyfirst", "key", "colon", "after", "str", "esc", "hex", "neg", "zero", "int", "true", "false", "done", "fail"}
          /\ (s.m = "done" => s.st = <<>>) /\ (s.m \in {"first", "keyfirst", "key", "colon", "after"} => s.st # <<>>)
=============================================================================
