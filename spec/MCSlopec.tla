------------------------------ MODULE MCSlopec -------------------------------
(* The accumulated weights are those of the frames received since the window before the   *)
(* last completed one ended: explicit history against the running state.  Signals do not   *)
(* depend on the light level, change sign when the image is reversed and follow            *)
(* the pixels of their own subaperture only.                                               *)
EXTENDS Slopec, TLC, Json
CONSTANTS T, MaxWin
Idx == << <<1, 2>>, <<4, 3>> >>
Frames == { <<3, 1, 0, 4>>, <<0, 2, 5, 5>>, <<1, 1, 6, 0>> }
GG == [X |-> <<-1, 1>>, Y |-> <<1, -1>>, xd |-> 2, M |-> <<1, 1>>, md |-> 1]
VARIABLES win, th, h, a, t
\* h: frames, one per step, <<>> where none was received
Init == win \in 0..MaxWin /\ th \in {-2 + 1, 3} /\ h = <<>> /\ a = AccInit(Idx) /\ t = 0
Next == /\ t < T
        /\ \E f \in Frames \cup {<<>>} :
             /\ h' = Append(h, f)
             /\ a' = IF f = <<>> THEN a ELSE Accumulate(a, Idx, f, t, win, th)
        /\ t' = t + 1 /\ UNCHANGED <<win, th>>
        /\ (t' = T => PrintT("BEH " \o ToJson([win |-> win, th |-> th, h |-> h'])))
\* steps (from 0) at which a window ended
Ends == {k \in 0..(t - 1) : win > 0 /\ h[k + 1] # <<>> /\ k % win = 0 /\ k >= win}
SumOver(from, to) == LET S == SelectSeq(SubSeq(h, from + 1, to + 1), LAMBDA f : f # <<>>)
                         RECURSIVE add(_)
                         add(q) == IF q = <<>> THEN <<0, 0, 0, 0>> ELSE Add(Head(q), add(Tail(q)))
                     IN add(S)
Weights == IF Ends = {} THEN a.w = WOne(Idx)
           ELSE LET e == SetMax(Ends)
                    P == {k \in Ends : k < e}
                    from == IF P = {} THEN 0 ELSE SetMax(P) + 1
                    s == SumOver(from, e)
                IN a.w = IF th < 0 THEN WMean(Idx, s) ELSE WWindow(Idx, s, th)
S0 == 64
Sig(px, w, thr) == Cog(px, Idx, w, thr, GG, S0)
Level == \A f \in Frames : Sig(f, a.w, 0) = Sig(Scale(7, f), a.w, 0)
Own == \A f \in Frames : \A v \in {2, 9} : LET g == [f EXCEPT ![3] = v] IN Sig(f, a.w, 0).x[1] = Sig(g, a.w, 0).x[1]
Bound == \A f \in Frames : \A s \in 1..2 : Abs(2 * Sig(f, a.w, 1).x[s]) <= S0 + 2
\* four pupils: balanced light gives no signal, exchanging the sides changes the sign
Pi == << <<1>>, <<2>>, <<3>>, <<4>> >>
Flip == \A f \in Frames : LET p == Pyr(f, Pi, 0, "mean", 0, S0)
                              q == Pyr(<<f[4], f[3], f[2], f[1]>>, Pi, 0, "mean", 0, S0)
                          IN Abs(p.x[1] + q.x[1]) <= 1 /\ p.y[1] = q.y[1]
Flat4 == \A v \in 0..3 : Pyr(<<v, v, v, v>>, Pi, 0, "mean", 0, S0) = [x |-> <<0>>, y |-> <<0>>]
=============================================================================
