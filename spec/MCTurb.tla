------------------------------- MODULE MCTurb -------------------------------
(* The displacement shown is the sum of the elementary displacements since the start   *)
(* (or since the last wrap) plus the offset once; the window never leaves the screen;   *)
(* without wrap, layers with the same wind history show the same displacement however   *)
(* the elapsed time is divided into steps.                                              *)
EXTENDS Turb, TLC, Json
CONSTANT Steps
Size == 12
N == 4
VARIABLES w, x, t, last, pos, since, hist
Init == w = 0 /\ x \in 0..1 /\ t = 0 /\ last = 0 /\ pos = 0 /\ since = 0 /\ hist = <<>>
Off(v) == v * x                                   \* offset of x steps at the current speed
Next == /\ t < Steps
        /\ \E v \in {0, 1, 3, 6} : \E run \in BOOLEAN :
             LET d == v * (t - last) p == Advance(pos, d, Off(v), N, Size) IN
             /\ w' = IF run THEN v ELSE w
             /\ last' = IF run THEN t ELSE last
             /\ pos' = IF run THEN p ELSE pos
             /\ since' = IF run THEN (IF p = 0 THEN 0 ELSE since + d) ELSE since
             /\ hist' = Append(hist, IF run THEN v ELSE -1)
        /\ t' = t + 1 /\ UNCHANGED x
        /\ (t' = Steps => PrintT("BEH " \o ToJson([x |-> x, hist |-> hist'])))
Inside == pos + Off(w) + 4 * N < 4 * Size
Total == pos = since
\* rotations: four quarter turns are the identity, and each is a bijection of the window
Turns == \A k \in 0..3 : {From(r, c, N, k) : r \in 0..(N-1), c \in 0..(N-1)} = (0..(N-1)) \X (0..(N-1))
ASSUME Turns /\ From(0, 0, N, 1) = <<0, N-1>> /\ From(1, 2, N, 4) = <<1, 2>> /\ From(1, 2, N, -1) = From(1, 2, N, 3)
=============================================================================
