----------------------------- MODULE MCStreams -----------------------------
(* Histories of runs: every run builds some of the objects 1..N (in an order), draws from them in any interleaving,     *)
(* and other consumers use the global generator in between.  Objects 1 and 2 differ in their seed, 3 is of another kind *)
(* with the seed of 1.  Two implementations go along: one generator per object, and one shared by all of them; the      *)
(* first is always accepted, and the judgement rejects the second as soon as an interleaving shows the difference.      *)
EXTENDS Streams, TLC, Json
CONSTANTS Depth
VARIABLES hist, present, count, total, seen, bad, seenS, badS
vars == <<hist, present, count, total, seen, bad, seenS, badS>>
Objs == 1..3
Seed(o) == IF o = 2 THEN 2 ELSE 1
Kind(o) == IF o = 3 THEN "b" ELSE "a"
Key(o) == <<Kind(o), Seed(o)>>
Ev(o, n, c) == [k |-> Key(o), g |-> Kind(o), n |-> n, c |-> c, d |-> TRUE, parts |-> <<>>]
Init == /\ hist = <<>> /\ present = {} /\ count = [o \in Objs |-> 0] /\ total = 0
        /\ seen = {} /\ bad = "" /\ seenS = {} /\ badS = ""
Run(S) == /\ hist' = Append(hist, [op |-> "run", who |-> S])
          /\ present' = S /\ count' = [o \in Objs |-> 0] /\ total' = 0
          /\ UNCHANGED <<seen, bad, seenS, badS>>
Draw(o) == /\ o \in present
           /\ hist' = Append(hist, [op |-> "draw", who |-> {o}])
           /\ count' = [count EXCEPT ![o] = @ + 1] /\ total' = total + 1
           /\ LET e == Ev(o, count[o] + 1, <<Key(o), count[o] + 1>>)
                  s == Ev(o, count[o] + 1, <<Kind(o), total + 1>>)
              IN /\ bad' = (IF bad # "" THEN bad ELSE Judge(seen, e)) /\ seen' = See(seen, e)
                 /\ badS' = (IF badS # "" THEN badS ELSE Judge(seenS, s)) /\ seenS' = See(seenS, s)
           /\ UNCHANGED present
Touch == /\ (IF hist = <<>> THEN FALSE ELSE hist[Len(hist)].op # "touch")
         /\ hist' = Append(hist, [op |-> "touch", who |-> {}])
         /\ total' = total + 1
         /\ UNCHANGED <<present, count, seen, bad, seenS, badS>>
Next == /\ Len(hist) < Depth
        /\ \/ \E S \in SUBSET Objs : S # {} /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "run") /\ Run(S)
           \/ \E o \in Objs : Draw(o)
           \/ Touch
        /\ (Len(hist') = Depth /\ \E k \in 1..Depth : hist'[k].op = "draw") => PrintT("BEH " \o ToJson([hist |-> hist', told |-> badS' # ""]))
Spec == Init /\ [][Next]_vars
OwnAccepted == bad = ""
\* the same stream drawn in the same place of two runs with different neighbours
SharedRejected == (\E a, b \in seenS : a.k = b.k /\ a.n = b.n /\ a.c # b.c) => badS # ""
=============================================================================
