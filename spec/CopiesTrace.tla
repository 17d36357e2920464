---------------------------- MODULE CopiesTrace ----------------------------
(* Histories of operations on real data objects and their copies (on the host and on a device), checked against       *)
(* Copies.  Contents are numbered by what all arrays of an object hold, on whichever device.                          *)
EXTENDS Copies, TraceBase
VARIABLES tid, i, st, bad
Tr == Traces[tid]
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
        /\ st = [c |-> Tr.c, t |-> Tr.t]
Clause(e, n) ==
  IF "err" \in DOMAIN e THEN "an operation fails"
  ELSE IF e.shared THEN "a copy shares memory with its source"
  ELSE IF e.now # n.c THEN
       IF e.op = "copy" /\ e.now[e.o] # n.c[e.o] THEN "a copy differs from its source after a transfer"
       ELSE IF e.op = "copy" THEN "a transfer changes an object other than the copy"
       ELSE IF e.op = "poke" THEN "changing an array given to set_value changes the object"
       ELSE "an update of one object changes another"
  ELSE IF e.times # n.t THEN "the time of a copy differs from that of its source"
  ELSE IF e.op = "set" /\ e.want # 0 /\ e.got # e.want THEN "set_value does not store the given value"
  ELSE IF ~e.placed THEN "an array is not on the device of its object"
  ELSE ""
Next == /\ i < Len(Tr.ev) /\ bad = ""
        /\ LET e == Tr.ev[i + 1]
               n == IF "err" \in DOMAIN e THEN st ELSE Apply(st, e)
           IN /\ st' = n
              /\ bad' = Clause(e, n)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(Tr.ev)) => Say(Tr.id, i', bad')
=============================================================================
