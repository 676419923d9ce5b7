-------------------------------- MODULE Diag --------------------------------
(* The diagnostics of ENI and the exceptions that carry them.
   slots: exception objects and captured exceptions, each <<id, kind>> or <<>>. Copying, assigning, moving, capturing,
   rethrowing (in this thread or another) and being caught by a base class never change what an exception is. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Ids == <<"Unknown", "Unimplemented", "NoMemory", "InvalidDelegateAssigned", "InvalidIteratorEmpty", "InvalidStringMapKey",
         "InvalidVectorIndex", "InvalidVectorSize">>
Text(id) == CASE id = "Unknown" -> "unknown"
              [] id = "Unimplemented" -> "not implemented"
              [] id = "NoMemory" -> "no memory"
              [] id = "InvalidDelegateAssigned" -> "invalid delegation: value has been assigned"
              [] id = "InvalidIteratorEmpty" -> "invalid iterator: iterator points to nowhere"
              [] id = "InvalidStringMapKey" -> "invalid access: key does not exist"
              [] id = "InvalidVectorIndex" -> "invalid access: index out of bound"
              [] id = "InvalidVectorSize" -> "invalid reserve: exceed maximum size"
Kinds == <<"exception", "bad_alloc", "bad_cast", "logic_error", "length_error", "out_of_range">>
\* the standard classes an exception of a kind is caught as
Classes(kind) == {"exception"} \cup (CASE kind = "exception" -> {}
                                       [] kind = "bad_alloc" -> {"bad_alloc"}
                                       [] kind = "bad_cast" -> {"bad_cast"}
                                       [] kind = "logic_error" -> {"logic_error"}
                                       [] kind = "length_error" -> {"logic_error", "length_error"}
                                       [] kind = "out_of_range" -> {"logic_error", "out_of_range"})
IdSet == {Ids[i] : i \in 1..Len(Ids)}
KindSet == {Kinds[i] : i \in 1..Len(Kinds)}
Distinct == \A a, b \in IdSet : a # b => Text(a) # Text(b)

\* what the library raises where
Site(s) == CASE s \in {"vec_at", "vec_cat", "vec_ins", "vec_insn", "vec_insr", "vec_insl", "vec_er", "vec_er2", "vec_erempty", "json_idx", "json_cidx"}
                   -> <<"InvalidVectorIndex", "out_of_range">>
             [] s \in {"vec_res", "vec_rsz", "vec_insmax"} -> <<"InvalidVectorSize", "length_error">>
             [] s \in {"vec_nomem"} -> <<"NoMemory", "bad_alloc">>
             [] s \in {"map_at", "map_cat", "json_key", "json_ckey"} -> <<"InvalidStringMapKey", "out_of_range">>
             [] s \in {"it_val", "it_key", "it_arrow", "it_pre", "it_post", "cit_val", "cit_arrow", "cit_pre", "cit_post"} -> <<"InvalidIteratorEmpty", "logic_error">>
             [] s \in {"del_int", "del_obj", "del_arr"} -> <<"InvalidDelegateAssigned", "logic_error">>
             [] s = "hasher" -> <<"Unimplemented", "logic_error">>
Sites == {"vec_at", "vec_cat", "vec_ins", "vec_insn", "vec_insr", "vec_insl", "vec_er", "vec_er2", "vec_erempty", "json_idx", "json_cidx",
          "vec_res", "vec_rsz", "vec_insmax", "vec_nomem", "map_at", "map_cat", "json_key", "json_ckey", "it_val", "it_key", "it_arrow", "it_pre",
          "it_post", "cit_val", "cit_arrow", "cit_pre", "cit_post", "del_int", "del_obj", "del_arr", "hasher"}

\* operations on the slots; "cap" and "thr" capture the exception of another slot while it propagates (through another
\* thread), "base" captures what a handler of the base class rethrows, "nest" captures from within a handler of another
Enabled(s, o, d, a) == CASE o = "make" -> TRUE
                         [] o \in {"copy", "cap", "thr", "base", "nest", "move"} -> s[a] # <<>>
                         [] o = "asg" -> s[a] # <<>> /\ s[d] # <<>> /\ s[d] = s[a]
                         [] o = "drop" -> s[d] # <<>>
                         [] o = "site" -> TRUE
                         [] OTHER -> FALSE
After(s, o, d, a, x) == CASE o \in {"make", "site"} -> [s EXCEPT ![d] = x]
                          [] o \in {"copy", "cap", "thr", "base", "nest", "asg"} -> [s EXCEPT ![d] = s[a]]
                          [] o = "move" -> [[s EXCEPT ![a] = <<>>] EXCEPT ![d] = s[a]]
                          [] o = "drop" -> [s EXCEPT ![d] = <<>>]
=============================================================================
