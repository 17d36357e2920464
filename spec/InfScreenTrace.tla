-------------------------- MODULE InfScreenTrace ---------------------------
(* C22.  Two kinds of trace.                                                            *)
(* kind "screen": operations on a screen; ev: [op "add" | "back", row, after, flush,        *)
(*   sh (shift found, <<999,999>> if the surviving pixels are not a shift), line (identity   *)
(*   of the new line)].  "back" restores the screen as it was before unflushed lines.          *)
(* kind "layer": [layers, xs (offset in steps), tol, ev]; ev: [t, run, w (quarters of a        *)
(*   pixel per step), cr, cc (cosine and sine times 16384), sh (shift found), same (layer        *)
(*   and screen untouched), px (sampled pixels <<before, next in columns, next in rows, shown>>  *)
(*   in 1/1024), ot, zero].                                                                        *)
EXTENDS TraceBase, InfScreen
VARIABLES tid, i, acc, last, wx, ver, memo, seen, bad
tr == Traces[tid]
L == IF tr.kind = "layer" THEN 1..tr.layers ELSE {}
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ last = 0 /\ ver = 0 /\ memo = <<>> /\ seen = {} /\ bad = ""
        /\ acc = [l \in 1..9 |-> <<0, 0>>] /\ wx = [l \in 1..9 |-> 0]
Dir(e) == LET s == IF e.after THEN 1 ELSE -1 IN IF e.row THEN <<0, s>> ELSE <<s, 0>>
\* memo: lines previewed since the last definitive one, with the state they were computed in
Known(e) == {k \in 1..Len(memo) : memo[k][1] = ver /\ memo[k][2] = e.row /\ memo[k][3] = e.after}
Screen(e) ==
  IF e.op = "back" THEN
    /\ ver' = 0 /\ UNCHANGED <<memo, seen>> /\ bad' = IF e.sh # <<0, 0>> THEN "the restored screen differs" ELSE ""
  ELSE
    /\ ver' = IF e.flush THEN 0 ELSE ver + 1
    /\ memo' = IF e.flush THEN <<>> ELSE Append(memo, <<ver, e.row, e.after, e.line>>)
    /\ seen' = seen \cup {e.line}
    /\ bad' = IF e.sh # Dir(e) THEN "surviving pixels are not moved by one pixel in the declared direction"
              ELSE IF ver = 0 /\ (\E k \in Known(e) : memo[k][4] # e.line) THEN "the line that enters is not the one shown before"
              ELSE IF memo = <<>> /\ e.line \in seen THEN "a line already used enters again"
              ELSE ""
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Layer(e) ==
  IF ~e.run THEN UNCHANGED <<acc, last, wx>> /\ bad' = IF ~e.same THEN "a layer changed in a step the object did not run" ELSE ""
  ELSE
    LET d == [l \in L |-> Step(e.w[l], e.t - last, e.w[l] * tr.xs[l], wx[l])]
        tot == [l \in L |-> <<acc[l][1] + d[l] * e.cc[l], acc[l][2] + d[l] * e.cr[l]>>]     \* rows, columns of the array
        ok(l) == \A k \in 1..2 : e.sh[l][k] \in Whole(tot[l][k], One, tr.tol)
        car(l) == <<Carry(tot[l][1], e.sh[l][1], One), Carry(tot[l][2], e.sh[l][2], One)>>
        \* fraction shown, in 1/1024, when the displacement is along an axis
        fr(l, k) == Abs(car(l)[k]) \div 64
        shown(l, q) == LET p == e.px[l][q] IN
          IF Abs(car(l)[1]) <= tr.tol THEN <<p[1], p[2], fr(l, 2)>> ELSE <<p[1], p[3], fr(l, 1)>>
        straight(l) == tr.tol <= 8 /\ (Abs(car(l)[1]) <= tr.tol \/ Abs(car(l)[2]) <= tr.tol)
        fits(l) == straight(l) => \A q \in 1..Len(e.px[l]) : LET s == shown(l, q) IN
                     Abs((1024 - s[3]) * s[1] + s[3] * s[2] - 1024 * e.px[l][q][4]) <= 1024 * 3 + (Abs(s[1]) + Abs(s[2])) * 2
    IN
    /\ last' = e.t
    /\ wx' = [l \in 1..9 |-> IF l \in L THEN e.w[l] * tr.xs[l] ELSE 0]
    /\ acc' = [l \in 1..9 |-> IF l \in L THEN car(l) ELSE <<0, 0>>]
    /\ bad' = IF \E l \in L : e.sh[l] = <<999, 999>> THEN "surviving pixels are not a shift of the previous screen"
              ELSE IF \E l \in L : ~ok(l) THEN "whole shifts do not follow the accumulated displacement"
              ELSE IF e.zero THEN (IF \E l \in L : \E q \in 1..Len(e.px[l]) : e.px[l][q][4] # 0 THEN "turbulence shown with zero seeing" ELSE "")
              ELSE IF \E l \in L : ~fits(l) THEN "a layer does not show its screen at the accumulated displacement"
              ELSE IF \E l \in L : e.ot[l] # e.t THEN "a layer was not published in this step"
              ELSE ""
\* up/down variant: rel is the displacement of the second list against the first, whole pixels
UpDown(e) == /\ UNCHANGED <<acc, last, wx>>
             /\ bad' = IF e.rel # e.want THEN "the second direction does not show the screen displaced by its time offset" ELSE ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the object failed" /\ UNCHANGED <<acc, last, wx, ver, memo, seen>>
           ELSE IF tr.kind = "screen" THEN Screen(e) /\ UNCHANGED <<acc, last, wx>>
           ELSE IF tr.kind = "layer" THEN Layer(e) /\ UNCHANGED <<ver, memo, seen>>
           ELSE UpDown(e) /\ UNCHANGED <<ver, memo, seen>>
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
