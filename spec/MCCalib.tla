------------------------------ MODULE MCCalib ------------------------------
(* Any history of commands (idle, or one mode moved by some amplitude) seen by two linear sensors of different rates:  *)
(* whatever the order, the average of the measurements of a mode is the response of that mode alone.                    *)
EXTENDS Calib, TLC, Json
CONSTANTS Depth, First, NModes
VARIABLES st, hist
R == << << <<8, -16, 24>>, <<0, 40, 8>> >>, << <<-8, 8, 16>> >> >>       \* sensor, row (slope), column (mode)
NS == <<2, 1>>
Amps == {4, 8, -4}
Cmds == {[k \in 1..3 |-> 0]} \cup {[k \in 1..3 |-> IF k = m THEN a ELSE 0] : m \in 1..3, a \in Amps}
Resp(c) == [w \in 1..2 |-> DivBy(MatVec(R[w], c), 4)]
Init == st = Start(NS, NModes) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in Cmds, f \in {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>} :
             /\ (f # <<TRUE, TRUE>> => c # [k \in 1..3 |-> 0])
             /\ st' = Frame(st, [cmds |-> <<c>>, sl |-> Resp(c), fresh |-> f], First)
             /\ hist' = Append(hist, [c |-> c, fresh |-> f])
Column == \A w \in 1..2, m \in 1..NModes : st.cnt[w][m] > 0 =>
            Average(st, w, m, 1) = [j \in 1..NS[w] |-> R[w][j][m + First]]
Counted == \A w \in 1..2, m \in 1..NModes : st.cnt[w][m] = SumTo(LAMBDA k : IF hist[k].fresh[w] /\ hist[k].c[m + First] # 0 THEN 1 ELSE 0, Len(hist))
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
