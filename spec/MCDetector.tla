------------------------------ MODULE MCDetector -------------------------------
(* Laws of the conversion over small configurations and draws: light is conserved without        *)
(* noise, the levels removed are those added, the bias is invisible unless it clips, the          *)
(* quantisation is at most half a unit, every accepted frame is at least the negative bias.       *)
EXTENDS Detector, TLC, Json
VARIABLES d, a, q, done
Base == [nx |-> 2, ny |-> 2, bin |-> 2, qe |-> 4, bg |-> 3, dk |-> 6, bgn |-> FALSE, dkn |-> FALSE, cte |-> FALSE, cl |-> <<4>>, cr |-> <<4>>,
         cic |-> FALSE, ph |-> FALSE, ex |-> FALSE, ro |-> FALSE, delta |-> 1, rl |-> 2, em |-> 4, gains |-> <<>>, g16 |-> 16, bias |-> 4]
Init == /\ \E bgn, dkn, ph, ex, ro \in BOOLEAN, bin \in {1, 2}, qe \in {2, 4}, g16 \in {1, 8, 16, 128}, bias \in {0, 4}, rl \in {2, 9} :
             /\ (ro => ph) /\ (~ro => rl = 2) /\ (~ph => g16 = 16 /\ bias = 4)
             /\ d = [Base EXCEPT !.bin = bin, !.qe = qe, !.bgn = bgn, !.dkn = dkn, !.ph = ph, !.ex = ex, !.ro = ro, !.g16 = g16, !.bias = bias, !.rl = rl]
        /\ a \in {<<0, 0, 0, 0>>, <<1, 5, 0, 3>>}
        /\ LET n == IF d.bin = 1 THEN 4 ELSE 1 IN
           q \in [cic : {[p \in 1..n |-> 0]}, ph : {[p \in 1..n |-> 0], [p \in 1..n |-> p + 4]}, ex : {[p \in 1..n |-> 0], [p \in 1..n |-> (7 * p) + 1]},
                  ro : {[p \in 1..n |-> -9 * p], [p \in 1..n |-> 5]}]
        /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<d, a, q>>
v == Drawn(a, q, d)
Conserved == (~d.ph /\ ~d.ex /\ ~d.ro /\ ~d.bgn /\ ~d.dkn) => Sum(v) * 4 = Sum(a) * d.qe * K
Removed == (d.ph /\ ~d.ex /\ ~d.ro /\ d.g16 \in {16, 128}) => \A p \in 1..Len(v) : Converted(v[p], d) = {(q.ph[p] * K) - (IF d.dkn THEN d.dk * (K \div 4) ELSE 0)}
Abs1(x) == IF x < 0 THEN -x ELSE x
Unit == (16 * (K \div d.g16)) \div Gain(d)
Dark == IF d.dkn THEN d.dk * (K \div 4) ELSE 0
Near == d.ph => \A p \in 1..Len(v) : \A x \in Converted(v[p], d) :
          \/ 2 * Abs1((x + Dark) - (v[p] \div Gain(d))) <= Unit + 2
          \/ x = (-d.bias * Unit) - Dark /\ (v[p] \div Gain(d)) <= x + Dark + Unit
Bias == d.ph => \A p \in 1..Len(v) : LET c == Converted(v[p], [d EXCEPT !.bias = 100000]) IN
          (\A x \in c : x >= (-d.bias * Unit) - Dark) => Converted(v[p], d) = c
Emit == done => PrintT("BEH " \o ToJson([d |-> d, a |-> a, q |-> q]))
=============================================================================
