------------------------------- MODULE Copies -------------------------------
(* A data object (1) and its copies (2..N).  What a user sees are the contents and times of each of them; an          *)
(* operation changes those of the object it is applied to and of nothing else:                                        *)
(*   set     object 1 receives a new value (its own: the array it was given may change afterwards)                    *)
(*   write   the arrays of object o are modified in place or replaced                                                 *)
(*   stamp   object o gets a new generation time                                                                      *)
(*   copy    object o is brought up to date with object f (both contents and time)                                    *)
(*   poke    an array that was given to set is modified by its owner                                                  *)
EXTENDS Integers, Sequences

(* st: [c |-> contents, t |-> times] *)
Apply(st, e) ==
  CASE e.op \in {"set", "write"} -> [st EXCEPT !.c[e.o] = e.v]
    [] e.op = "stamp"            -> [st EXCEPT !.t[e.o] = e.v]
    [] e.op = "copy"             -> [st EXCEPT !.c[e.o] = st.c[e.f], !.t[e.o] = st.t[e.f]]
    [] OTHER                     -> st
=============================================================================
