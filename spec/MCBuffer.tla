------------------------------ MODULE MCBuffer ------------------------------
EXTENDS Buffer, TLC
CONSTANT Steps
VARIABLES size, s, t, hist, done
N == 2
Init == size \in 1..4 /\ s = Start(N) /\ t = 0 /\ hist = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \/ /\ t < Steps /\ t' = t + 1 /\ UNCHANGED <<size, done>>
              /\ \E f \in [1..N -> {0, 1}] : LET g == [k \in 1..N |-> IF f[k] = 1 THEN 10 * k + t ELSE 0] IN
                   s' = Step(N, size, s, t, g) /\ hist' = Append(hist, g)
           \/ /\ t = Steps /\ s' = Finish(N, s, t - 1) /\ done' = TRUE /\ UNCHANGED <<size, t, hist>>
Got(k) == SelectSeq([j \in 1..Len(hist) |-> hist[j][k]], LAMBDA x : x # 0)
Ran == Cardinality({j \in 1..Len(hist) : Any(hist[j])})
\* nothing is lost, repeated, reordered or mixed between inputs
Exact == done => \A k \in 1..N : s.emitted[k] = Got(k)
Order == \A k \in 1..N : LET g == Got(k) IN Len(s.emitted[k]) <= Len(g) /\ s.emitted[k] = SubSeq(g, 1, Len(s.emitted[k]))
\* what is waiting was received in the last (number of runs mod size) runs
Full == ~done => s.ran = Ran % size
Small == \A k \in 1..N : Len(s.mem[k]) <= s.ran /\ Len(s.out[k].v) <= size
=============================================================================
