------------------------------- MODULE MCRecon -------------------------------
(* A reconstructor with two sensors (one slope each) and one command vector, each   *)
(* refreshed or not in each step.  In pseudo-open-loop mode the explicit and         *)
(* implicit formulations agree, and the modes change only when slopes do.  The        *)
(* firing patterns are printed and replayed into the real objects.                   *)
EXTENDS Recon, TLC, Json
CONSTANT Steps
VARIABLES h, s, c, modes, tm, R, P, D
M == {<<<<1, 2>>, <<0, 1>>>>, <<<<1, -1>>, <<2, 3>>>>, <<<<0, 1>>, <<1, 0>>>>}
Init == h = <<>> /\ s = <<0, 0>> /\ c = <<0, 0>> /\ modes = <<0, 0>> /\ tm = -1 /\ R \in M /\ P \in M /\ D \in M
Next == /\ Len(h) < Steps
        /\ \E f \in [1..3 -> BOOLEAN] :
             LET n == Len(h) + 1
                 s1 == [k \in 1..2 |-> IF f[k] THEN 3 * n + k ELSE s[k]]
                 c1 == IF f[3] THEN <<n, -n>> ELSE c
                 go == f[1] \/ f[2] IN
             /\ h' = Append(h, <<f[1], f[2], f[3]>>) /\ s' = s1 /\ c' = c1
             /\ modes' = IF go THEN Polc(P, R, D, s1, c1) ELSE modes
             /\ tm' = IF go THEN n ELSE tm
             /\ (n = Steps /\ R = <<<<1, 2>>, <<0, 1>>>> /\ P = R /\ D = R) => PrintT("BEH " \o ToJson(h'))
        /\ UNCHANGED <<R, P, D>>
Same == tm = Len(h) => modes = Implicit(P, R, D, s, c)
Time == tm = (IF \E k \in 1..Len(h) : h[k][1] \/ h[k][2] THEN CHOOSE k \in 1..Len(h) : (h[k][1] \/ h[k][2]) /\ \A j \in (k+1)..Len(h) : ~(h[j][1] \/ h[j][2]) ELSE -1)
=============================================================================
