------------------------------- MODULE MCICalib -------------------------------
(* Laws of the dark calibrator over all short histories of commands and frames: the dark     *)
(* frame is always zero, what was loaded, or the mean of consecutive delivered frames that    *)
(* begin at a trigger; commands that cannot be obeyed change nothing.                          *)
EXTENDS ICalib, TLC, Json
CONSTANTS T
VARIABLES s, t, h
Cmds == [nf : {0}, bad : {FALSE}, trig : BOOLEAN, reset : {FALSE}, load : {""}, save : {""}]
        \cup {[NoCmd EXCEPT !.reset = TRUE], [NoCmd EXCEPT !.nf = 1], [NoCmd EXCEPT !.nf = 3, !.trig = TRUE], [NoCmd EXCEPT !.bad = TRUE, !.trig = TRUE],
              [NoCmd EXCEPT !.load = "a"], [NoCmd EXCEPT !.load = "z"], [NoCmd EXCEPT !.save = "a"], [NoCmd EXCEPT !.load = "a", !.trig = TRUE]}
Frame(k) == <<2520 * (2 ^ k)>>
Init == s = DarkInit(1, 2, [f \in {"a"} |-> <<7>>]) /\ t = 0 /\ h = <<>>
Next == /\ t < T
        /\ \E c \in Cmds, fr \in BOOLEAN :
              /\ s' = DarkStep(s, c, fr, Frame(t), t, FALSE)
              /\ h' = Append(h, [c |-> c, fresh |-> fr])
        /\ t' = t + 1
Emit == t = T => PrintT("BEH " \o ToJson([h |-> h]))
\* independent reading of the history
Delivered(a, b) == {k \in a..b : h[k].fresh}
NAt(k) == LET S == {j \in 1..k : h[j].c.nf > 0} IN IF S = {} THEN 2 ELSE h[SetMax(S)].c.nf
Trigs == {k \in 1..Len(h) : h[k].c.trig}
\* the acquisition begun at k finishes at the step of its last frame, unless another begins first
Ends(k) == {j \in k..Len(h) : h[j].fresh /\ Cardinality(Delivered(k, j)) = NAt(k) /\ \A m \in (k+1)..j : ~h[m].c.trig}
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Frame(k - 1)[1] + SumOf(S \ {k})
Changes == \* step -> value, later writers of a step after earlier ones
  {<<2 * k, 0>> : k \in {k \in 1..Len(h) : h[k].c.reset}} \cup {<<2 * k, 7>> : k \in {k \in 1..Len(h) : h[k].c.load = "a"}}
  \cup {<<2 * j + 1, SumOf(Delivered(k, j)) \div NAt(k)>> : <<k, j>> \in {x \in Trigs \X (1..Len(h)) : x[2] \in Ends(x[1])}}
Value == IF Changes = {} THEN 0 ELSE (CHOOSE c \in Changes : \A d \in Changes : d[1] <= c[1])[2]
Mean == s.dark = <<Value>>
Timed == s.when = IF Changes = {} THEN -1 ELSE (SetMax({c[1] : c \in Changes}) \div 2) - 1
Kept == s.files = [f \in {"a"} |-> <<7>>]
=============================================================================
