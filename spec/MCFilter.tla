------------------------------ MODULE MCFilter ------------------------------
(* Small filters, all input histories over {-1,0,1} with resets: the recursion    *)
(* equals the convolution with the impulse response since the last reset, and     *)
(* the delayed output is the interpolation of the undelayed history.              *)
EXTENDS Filter, FiniteSets, TLC
CONSTANT Steps
VARIABLES ch, d4, m, line, us, ys, outs, since
U == 1024
Cs == {-4, 0, 2, 4}
Init == /\ ch \in {Chan(n, <<a, b, 4>>) : n \in {<<0, 4>>, <<4, 2, 8>>}, a \in {0, -2, 4}, b \in {-4, 0, 2}}
        /\ d4 \in {0, 1, 2, 4, 6, 8}
        /\ m = IirStart(ch) /\ line = LineStart(d4, 1) /\ us = <<>> /\ ys = <<>> /\ outs = <<>> /\ since = 0
Next == /\ Len(us) < Steps
        /\ \E u \in {-1, 0, 1}, r \in BOOLEAN :
             LET m0 == IF r THEN IirStart(ch) ELSE m
                 l0 == IF r THEN LineStart(d4, 1) ELSE line
                 m1 == IirNext(ch, TRUE, m0, u * U, 4)
                 l1 == LinePush(l0, <<IirOut(m1)>>) IN
             /\ (r => Len(us) = 2)
             /\ m' = m1 /\ line' = l1 /\ us' = Append(us, u) /\ ys' = Append(ys, IirOut(m1))
             /\ outs' = Append(outs, Delayed(l1, d4)[1])
             /\ since' = IF r THEN Len(us) ELSE since
        /\ UNCHANGED <<ch, d4>>
RECURSIVE Resp(_, _, _)
Resp(st, n, u) == IF n = 0 THEN <<>> ELSE LET s1 == IirNext(ch, TRUE, st, u, 4) IN <<IirOut(s1)>> \o Resp(s1, n - 1, 0)
H == Resp(IirStart(ch), Steps, U)
Conv == \A k \in (since+1)..Len(us) : ys[k] = SumTo(LAMBDA j : H[j] * us[k - j + 1], k - since)
Y(k) == IF k <= since THEN 0 ELSE ys[k]
Delay == Len(us) > 0 => LET k == Len(us) IN
   outs[k] = ((d4 % 4) * Y(k - (d4 \div 4) - 1) + (4 - (d4 % 4)) * Y(k - (d4 \div 4))) \div 4
=============================================================================
