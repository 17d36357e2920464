------------------------------ MODULE MCSensor ------------------------------
(* C35.  Two sensors which take their work arrays from a common store.  A work array has M       *)
(* cells; sensor s writes the first Writes[s] of them whenever it is triggered and transforms    *)
(* all of them, so that the cells it does not write have to be zero.  An array is shared by the  *)
(* sensors that ask for the same key: with KEY = "written" only by those which write the same    *)
(* cells.  Whatever the order in which sensors are built, fields arrive and sensors are           *)
(* triggered, a frame only shows the field its sensor saw last (Own).  With KEY = "size"          *)
(* (MCSensorRival.cfg) a sensor sees what another one left behind.                                *)
(* Every schedule of L steps is replayed with real sensors.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS KEY, L
Sensors == {"s0", "s1"}
M == 2
Writes == [s \in Sensors |-> IF s = "s0" THEN 1 ELSE 2]
VARIABLES store, frame, seen, time, built, hist
vars == <<store, frame, seen, time, built, hist>>
Key(s) == IF KEY = "written" THEN Writes[s] ELSE 0
Zero == [c \in 1..M |-> ""]
Init == store = [k \in 0..M |-> Zero] /\ frame = [s \in Sensors |-> <<>>] /\ seen = [s \in Sensors |-> ""] /\ time = [s \in Sensors |-> 0] /\ built = {"s0"} /\ hist = <<>>
Fill(s, c) == [x \in 1..M |-> IF x <= Writes[s] THEN c ELSE store[Key(s)][x]]
(* sensors polled one after the other in a step with a new field c: they run in this order *)
RECURSIVE Run(_, _, _, _)
Run(o, c, st, fr) == IF o = <<>> THEN <<st, fr>>
                     ELSE LET s == Head(o)
                              a == [x \in 1..M |-> IF x <= Writes[s] THEN c ELSE st[Key(s)][x]]
                          IN Run(Tail(o), c, [st EXCEPT ![Key(s)] = a], [fr EXCEPT ![s] = a])
Orders(B) == {<<>>} \cup {<<s>> : s \in B} \cup {o \in [1..2 -> B] : o[1] # o[2]}
Step(put, o, B) ==
  LET r == IF put = "" THEN <<store, frame>> ELSE Run(o, put, store, frame)
      n == Len(hist) + 1
      ran == IF put = "" THEN {} ELSE {o[j] : j \in 1..Len(o)}
  IN /\ store' = r[1] /\ frame' = r[2] /\ built' = B
     /\ seen' = [s \in Sensors |-> IF s \in ran THEN put ELSE seen[s]]
     /\ time' = [s \in Sensors |-> IF s \in ran THEN n ELSE time[s]]
     /\ hist' = Append(hist, [put |-> put, poll |-> o, built |-> Cardinality(B)])
     /\ (n = L) => PrintT("BEH " \o ToJson(hist'))
Next == /\ Len(hist) < L
        /\ \E B \in {built, Sensors}, put \in {"", "a", "b"} : \E o \in Orders(B) : Step(put, o, B)
Own == \A s \in Sensors : frame[s] = IF seen[s] = "" THEN <<>> ELSE [x \in 1..M |-> IF x <= Writes[s] THEN seen[s] ELSE ""]
Fresh == \A s \in Sensors : (time[s] = 0) = (seen[s] = "")
=============================================================================
