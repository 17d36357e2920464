----------------------------- MODULE MCLongExp ------------------------------
(* The average published at the end is the mean over exactly the frames at or after   *)
(* the start time, each counted once; frames in which the object did not run count not.*)
EXTENDS LongExp, FiniteSets, TLC, Json
CONSTANT Steps
VARIABLES start, t, st, hist
S == 0..(2 * Steps + 2)
Init == start \in {k \in S : k % 2 = 0 \/ k = 3} /\ t = 0 /\ st = Empty(1) /\ hist = <<>>
Sample(f) == <<f * f + 1>>
Next == /\ t < 2 * Steps
        /\ \E f \in {0, 1, 2, 3} :        \* 0: not run in this step, otherwise the number of the field
             /\ hist' = Append(hist, f)
             /\ st' = IF f = 0 THEN st ELSE Frame(st, t, start, Sample(f), Sample(f))
        /\ t' = t + 2 /\ UNCHANGED start
        /\ (t' = 2 * Steps => PrintT("BEH " \o ToJson([start |-> start, hist |-> hist'])))
Used == {k \in 1..Len(hist) : hist[k] # 0 /\ 2 * (k - 1) >= start}
Total == SumTo(LAMBDA k : IF k \in Used THEN Sample(hist[k])[1] ELSE 0, Len(hist))
Mean == st.n = Cardinality(Used) /\ st.sum = <<Total>>
Exact == \A r \in 0..11 : MeanOf([st EXCEPT !.sum = Scale(8, st.sum)], <<8 * r>>) <=> (IF st.n = 0 THEN r = 0 ELSE Abs(8 * (r * st.n - Total)) <= st.n)
=============================================================================
