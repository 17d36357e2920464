------------------------------ MODULE MCRouting ------------------------------
(* Slices: positions are in range, in arithmetic progression, and maximal; selecting *)
(* what was inserted with the same selector returns it.  Every slice over a small     *)
(* vector is printed and replayed into the real objects.                              *)
EXTENDS Routing, FiniteSets, TLC, Json
CONSTANT Big
VARIABLES n, a, b, s
B == (-Big..Big) \cup {NONE}
Init == n \in 1..(Big - 1) /\ a \in B /\ b \in B /\ s \in {NONE, 1, 2, 3, -1, -2} /\ PrintT("BEH " \o ToJson([n |-> n, v |-> <<a, b, s>>]))
Next == UNCHANGED <<n, a, b, s>>
P == SliceSeq(n, a, b, s)
St == IF s = NONE THEN 1 ELSE s
InRange == \A k \in 1..Len(P) : P[k] \in 0..(n - 1)
Progress == \A k \in 1..(Len(P) - 1) : P[k+1] = P[k] + St
Full == (a = NONE /\ b = NONE /\ St = 1) => P = [k \in 1..n |-> k - 1]
Maximal == (St = 1) => {P[j] : j \in 1..Len(P)} = {k \in 0..(n-1) : (a = NONE \/ k >= Norm(a, n)) /\ (b = NONE \/ k < Norm(b, n))}
Back == (St = -1 /\ a = NONE /\ b = NONE) => P = [k \in 1..n |-> n - k]
Sel == [k |-> "slice", v |-> <<a, b, s>>]
Ins == LET x == [k \in 1..Len(P) |-> 10 + k] IN Select(Sel, Put(Zeros(n), P, x)) = x
=============================================================================
