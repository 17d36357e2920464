---------------------------- MODULE ConnectTrace ----------------------------
(* C08: tr.objs as declared (sequence of [name, ...]); ev: what every object    *)
(* finally holds on each input, then the outcome of the run.                    *)
EXTENDS TraceBase, Connect
VARIABLES tid, i, bad
tr == Traces[tid]
Objs == [n \in {x.name : x \in Rng(tr.objs)} |-> CHOOSE x \in Rng(tr.objs) : x.name = n]
Judge(e) ==
  IF e.k = "end" THEN
    IF e.res = "ok" THEN IF Ok(Objs) THEN "" ELSE "a wrong connection was accepted"
    ELSE IF Ok(Objs) THEN "a correct set of connections was refused"
    ELSE IF e.stepped THEN "refused only after a step had run" ELSE ""
  ELSE \* k = "holds": e.o, e.name, e.items, e.single
    IF ~Has(Objs[e.o].ins, e.name) THEN "an input that does not exist"
    ELSE LET want == Received(Objs, e.o, e.name) IN
      IF e.items = want THEN ""
      ELSE IF Len(e.items) < Len(want) THEN "a connection is missing"
      ELSE IF Len(e.items) > Len(want) THEN "an unwanted or repeated connection"
      ELSE "connections out of order or to the wrong output"
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ bad' = Judge(tr.ev[i+1])
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
