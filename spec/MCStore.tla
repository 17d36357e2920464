------------------------------- MODULE MCStore ------------------------------
(* All publication histories of two inputs over a few steps, with all small      *)
(* configurations: what is in the chunks is every N-th published sample.          *)
EXTENDS Store, TLC
CONSTANT Steps
VARIABLES c, s, t, hist, done
Init == /\ c \in [n : {2}, start : {0, 1}, factor : {<<1, 1>>, <<2, 1>>, <<3, 2>>}, split : {0, 1, 2, 3}, first : {0, 5}]
        /\ s = Start(c) /\ t = 0 /\ hist = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \/ /\ t < Steps
              /\ \E f \in [1..2 -> {0, 1}] : LET g == [k \in 1..2 |-> IF f[k] = 1 THEN 10 * k + t ELSE 0] IN
                   s' = Step(c, s, t, g) /\ hist' = Append(hist, g)
              /\ t' = t + 1 /\ UNCHANGED <<c, done>>
           \/ /\ t = Steps /\ done' = TRUE
              /\ \E f \in {<<0, 0>>, <<99, 0>>} :
                   LET g == IF hist[Steps][1] = 0 THEN f ELSE <<0, 0>> IN
                   s' = Finish(c, s, t - 1, g) /\ hist' = Append(hist, g)
              /\ UNCHANGED <<c, t>>
\* independent statement: the m-th published sample of input k at or after the start
Times == [j \in 1..Len(hist) |-> IF j <= Steps THEN j - 1 ELSE Steps - 1]
Pub(k) == LET all == SelectSeq([j \in 1..Len(hist) |-> <<Times[j], hist[j][k]>>], LAMBDA p : p[2] # 0 /\ p[1] >= c.start) IN all
Thin(k) == LET p == Pub(k) N == c.factor[k] IN [m \in 1..((Len(p) + N - 1) \div N) |-> p[(m-1)*N + 1]]
Exact == done => \A k \in 1..2 : CatF(s.chunks, k) = Thin(k)
\* every chunk holds the samples of its own range of recorder steps
Active == SelectSeq([j \in 1..Len(hist) |-> <<Times[j], hist[j]>>], LAMBDA p : Any(p[2]) /\ p[1] >= c.start)
Ranges == (done /\ c.split > 0) => \A q \in 1..Len(s.chunks) : \A k \in 1..2 : \A m \in 1..Len(s.chunks[q].files[k]) :
   LET x == s.chunks[q].files[k][m] lo == s.chunks[q].suffix - c.first IN
   \E j \in 1..Len(Active) : Active[j][1] = x[1] /\ Active[j][2][k] = x[2] /\ (x[2] = 99 \/ (j > lo /\ j <= lo + c.split))
Suffixes == \A q \in 1..Len(s.chunks) : c.split > 0 =>
   (s.chunks[q].suffix - c.first) % c.split = 0 /\ \A r \in 1..(q-1) : s.chunks[r].suffix < s.chunks[q].suffix
=============================================================================
