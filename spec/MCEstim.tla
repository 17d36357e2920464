------------------------------- MODULE MCEstim -------------------------------
(* C36.  The gain loop: two demodulated signals feed the optical gain, the optical gain and the  *)
(* signals of the loop feed the gain optimiser, which sets the gain of the filter.               *)
(* RULE = "both": the optical gain is updated when both signals are of this step (SPECULA);      *)
(* RULE = "either": when either is - then a signal is used twice (violates Once).                *)
EXTENDS Estim, TLC, Json
CONSTANTS RULE, L, PERIOD
VARIABLES t, g, out, d, c, used, gain, n, og, hist
vars == <<t, g, out, d, c, used, gain, n, og, hist>>
Cap == 600000
Cfg == [n |-> 4, limit |-> TRUE, inc |-> 2, safe |-> 3]
K == 2
Start == {OneG, OneG * 2}
None == [t |-> -1, r |-> 0]
Init == /\ t = 0 /\ g \in Start /\ out = g /\ d = None /\ c = None /\ used = {} /\ gain = 300000 /\ n = 0 /\ og = <<>>
        /\ hist = <<[g0 |-> g]>>
Options == {<<FALSE, FALSE, 0, FALSE>>, <<TRUE, FALSE, 0, FALSE>>, <<FALSE, TRUE, 2, FALSE>>, <<TRUE, TRUE, 0, TRUE>>,
            <<TRUE, TRUE, 0, FALSE>>, <<TRUE, TRUE, 3, FALSE>>, <<TRUE, TRUE, -1, FALSE>>}
Tick(o, j) ==
  LET run == o[1] \/ o[2]
      d2 == IF o[1] THEN [t |-> t, r |-> o[3]] ELSE d
      c2 == IF o[2] THEN [t |-> t, r |-> o[3]] ELSE c
      up == run /\ ~o[4] /\ (IF RULE = "both" THEN d2.t = t /\ c2.t = t ELSE d2.t >= 0 /\ c2.t >= 0)
      g2 == IF up THEN OGNext(g, K, d2.r) ELSE g
      out2 == IF run THEN OGOut(g2) ELSE out
      q == IF run THEN Append(og, 4 * out2) ELSE og
      act == run /\ Due(t, PERIOD) /\ n + 1 >= 2
      ratio == IF Len(q) < 2 THEN 4 ELSE IF q[Len(q) - 1] = 0 THEN 4 ELSE (4 * (q[Len(q)] \div 64)) \div (IF q[Len(q) - 1] \div 64 = 0 THEN 1 ELSE q[Len(q) - 1] \div 64)
  IN /\ d' = d2 /\ c' = c2 /\ g' = g2 /\ out' = out2
     /\ used' = IF up THEN used \cup {<<d2.t, c2.t>>} ELSE used
     /\ og' = IF Len(q) > 2 THEN Tail(q) ELSE q
     /\ n' = IF run THEN n + 1 ELSE n
     /\ gain' = IF act THEN NewGain(Cfg, Cap, gain, j, <<4, ratio>>) ELSE gain
     /\ t' = t + 1
     /\ hist' = Append(hist, [t |-> t, dn |-> o[1], cn |-> o[2], r |-> o[3], c0 |-> o[4]])
     /\ (t' = L /\ j = 1) => PrintT("BEH " \o ToJson([what |-> "og", ev |-> hist']))
Next == t < L /\ \E o \in Options : \E j \in (IF Due(t, PERIOD) THEN {1, 2, 4} ELSE {1}) : Tick(o, j)
Spec == Init /\ [][Next]_vars
\* a measurement is used at most once
Once == \A a, b \in used : (a[1] = b[1] \/ a[2] = b[2]) => a = b
Own == \A a \in used : a[1] = a[2]
Bounded == (n > 0 => out <= OneG) /\ gain <= Cap /\ gain >= 0
Quiet == [][gain' # gain => Due(t, PERIOD)]_vars
==============================================================================
