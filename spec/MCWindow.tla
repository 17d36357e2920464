------------------------------ MODULE MCWindow ------------------------------
(* Every step at or after the start belongs to exactly one window; a published     *)
(* value is the sum over exactly the steps of its window.                          *)
EXTENDS Window, FiniteSets, TLC
CONSTANT Steps
VARIABLES n, start, t, acc, hist, pubs
Loop == 5
dt == n * Loop
Init == n \in 1..4 /\ start \in {0, Loop, 2 * Loop, 4 * Loop} /\ t = 0 /\ acc = <<0>> /\ hist = <<>> /\ pubs = <<>>
Next == /\ t < Steps * Loop
        /\ \E x \in {0, 1, 3} :
             LET a == Accumulate(acc, t, start, <<x>>) IN
             /\ hist' = Append(hist, x)
             /\ IF Ends(t, start, dt, Loop) THEN pubs' = Append(pubs, <<t, a[1]>>) /\ acc' = <<0>> ELSE pubs' = pubs /\ acc' = a
        /\ t' = t + Loop /\ UNCHANGED <<n, start>>
First == start \div Loop + 1           \* position in hist of the first integrated step
Windows == \A k \in 1..Len(pubs) :
   /\ pubs[k][1] = start + k * dt - Loop
   /\ pubs[k][2] = Sum(SubSeq(hist, First + (k-1) * n, First + k * n - 1))
All == Len(pubs) = IF t <= start THEN 0 ELSE (t - start) \div dt
Rest == acc[1] = IF t <= start THEN 0 ELSE Sum(SubSeq(hist, First + Len(pubs) * n, Len(hist)))
=============================================================================
