-------------------------------- MODULE Alloc --------------------------------
(* The allocator. A block is <<>> (none) or [kind, objs] where objs[i] is the value of the i-th object, Raw where no object
   has been constructed. Blocks never share storage: an operation on one leaves every other block as it is. *)
EXTENDS Integers, Sequences, FiniteSets
Raw == -1
None == <<>>
Kinds == {"pod", "byte", "cls", "big", "void", "entry"}
Counted == {"cls", "entry"}                  \* objects whose constructions and destructions are counted
Default == 0                                 \* what an object constructed from nothing holds
\* a size is refused when no object of that size can exist; the sizes of the operation "huge": objects beyond max_size()
Enabled(b, e) ==
  CASE e.op = "new" -> b[e.b] = None /\ e.n >= 0
    [] e.op = "huge" -> TRUE
    [] e.op \in {"con", "val"} -> /\ b[e.b] # None /\ b[e.b].kind \notin {"void", "entry"}
                                  /\ e.i \in 1..Len(b[e.b].objs) /\ b[e.b].objs[e.i] = Raw
                                  /\ e.op = "val" => e.x >= 0
    [] e.op = "cpo" -> /\ b[e.b] # None /\ b[e.b].kind \notin {"void", "entry"}   \* construct a copy of another object of the block
                       /\ e.i \in 1..Len(b[e.b].objs) /\ b[e.b].objs[e.i] = Raw
                       /\ e.x \in 1..Len(b[e.b].objs) /\ b[e.b].objs[e.x] # Raw
    [] e.op = "key" -> /\ b[e.b] # None /\ b[e.b].kind = "entry" /\ b[e.b].objs = <<Raw>>
    [] e.op = "set" -> /\ b[e.b] # None /\ e.i \in 1..Len(b[e.b].objs) /\ b[e.b].objs[e.i] # Raw
    [] e.op = "des" -> b[e.b] # None /\ b[e.b].kind # "void" /\ e.i \in 1..Len(b[e.b].objs) /\ b[e.b].objs[e.i] # Raw
    [] e.op = "del" -> b[e.b] # None /\ \A i \in 1..Len(b[e.b].objs) : b[e.b].objs[i] = Raw
    [] OTHER -> FALSE
After(b, e) ==
  CASE e.op = "new" -> [b EXCEPT ![e.b] = [kind |-> e.kind, objs |-> [i \in 1..e.n |-> Raw]]]
    [] e.op = "huge" -> b
    [] e.op \in {"con", "key"} -> [b EXCEPT ![e.b].objs[e.i] = Default]
    [] e.op \in {"val", "set"} -> [b EXCEPT ![e.b].objs[e.i] = e.x]
    [] e.op = "cpo" -> [b EXCEPT ![e.b].objs[e.i] = b[e.b].objs[e.x]]
    [] e.op = "des" -> [b EXCEPT ![e.b].objs[e.i] = Raw]
    [] e.op = "del" -> [b EXCEPT ![e.b] = None]
\* the number of counted objects that exist
Living(b) == Cardinality({<<k, i>> \in (DOMAIN b) \X (1..64) : b[k] # None /\ b[k].kind \in Counted
                                                               /\ i \in 1..Len(b[k].objs) /\ b[k].objs[i] # Raw})
==============================================================================
