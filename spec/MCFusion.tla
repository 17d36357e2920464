------------------------------ MODULE MCFusion ------------------------------
(* The complementary filter with slow sensors that deliver whenever they please:   *)
(* only the rate-conforming histories are ever accepted, each slow sensor's value   *)
(* is injected exactly once per N frames, and with all sensors constant at c the     *)
(* injected total over a common period is the tracking gain times c times period     *)
(* (weights summing to one).  Histories are printed and replayed into the real code. *)
EXTENDS Multirate, FiniteSets, TLC, Json
CONSTANT Frames
VARIABLES N, h, ok, inj, tot, prev
Rates == {<<1>>, <<2>>, <<3>>, <<2, 3>>, <<2, 2>>, <<1, 2>>}
W == [k \in 1..3 |-> IF k = 1 THEN 2 ELSE 1]            \* quarters; two slow sensors share a half
G == 4
Wt(n) == IF n = 1 THEN <<2, 2>> ELSE <<2, 1, 1>>
F == 1..Frames
Init == N \in Rates /\ h = <<>> /\ ok = TRUE /\ inj = [k \in 1..Len(N) |-> 0] /\ tot = 0 /\ prev = 0
Due1 == Due(N, Len(h) + 1)
Next == /\ ok /\ Len(h) < Frames
        /\ \E v \in [1..Len(N) -> BOOLEAN] :
             LET m == [k \in 1..Len(N) |-> v[k]] f == Len(h) + 1
                 good == Acceptable(N, f, m)
                 c == 16
                 x == Fused(N, G, Wt(Len(N)), f, <<c>>, <<prev>>, [k \in 1..Len(N) |-> <<c>>])[1] IN
             /\ h' = Append(h, m) /\ ok' = good
             /\ inj' = IF good THEN [k \in 1..Len(N) |-> inj[k] + (IF m[k] THEN 1 ELSE 0)] ELSE inj
             /\ tot' = IF good THEN tot + x ELSE tot
             /\ prev' = c
             /\ (f = Frames \/ ~good) => PrintT("BEH " \o ToJson([N |-> N, h |-> h']))
        /\ UNCHANGED N
Once == \A k \in 1..Len(N) : inj[k] = (IF ok THEN Len(h) ELSE Len(h) - 1) \div N[k]
Frm == IF ok THEN Len(h) ELSE Len(h) - 1
\* tracking: after a whole number of periods the accumulated input is c + G*c*frames
Track == (\A k \in 1..Len(N) : Frm % N[k] = 0) /\ Frm > 0 => tot = 16 + (G * 16 * Frm) \div 4
=============================================================================
