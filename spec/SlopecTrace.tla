----------------------------- MODULE SlopecTrace ------------------------------
(* C31.  ev: [t (step), fresh, px (pixels; for "cur" two frames), s (signals x S, rounded), *)
(* nan, f (flux x F), tot, mean (x F), gt (times of the outputs), kept (input unchanged)].   *)
(* tr: kind, idx, thr, norm, nf, win, wth, W (sequence of [from, X, Y, xd, M, md]), inter,    *)
(* sn, A, R, S, F, tol.                                                                       *)
EXTENDS TraceBase, Slopec
VARIABLES tid, i, st, bad
tr == Traces[tid]
Idx == tr.idx
\* geometry in force: the last entry that began before this step
G(t) == tr.W[SetMax({k \in 1..Len(tr.W) : k = 1 \/ tr.W[k].from < t})]
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
        /\ st = [a |-> IF tr.kind = "sh" THEN AccInit(tr.idx) ELSE <<>>, s |-> <<>>, f |-> <<>>, gt |-> <<>>]
Raw(e, w) ==
  CASE tr.kind = "sh" -> Order(Cog(e.px, Idx, w, tr.thr, G(e.t), tr.S), tr.inter)
    [] tr.kind = "pyr" /\ tr.norm = "int" -> PyrInt(e.px, Idx, tr.thr, tr.S)
    [] tr.kind = "pyr" -> Order(Pyr(e.px, Idx, tr.thr, tr.norm, tr.nf, tr.S), tr.inter)
    [] tr.kind = "roof" -> Order(Roof(e.px, Idx, tr.thr, tr.norm, tr.nf, tr.S), tr.inter)
    [] tr.kind = "cur" -> Curv(e.px[1], e.px[2], Idx, tr.S)
    [] tr.kind = "zern" -> Zern(e.px, Idx, tr.thr, tr.S)
    [] tr.kind = "deriv" -> Order(Deriv(e.px, tr.lit, Idx, tr.cols, tr.S), FALSE)
FluxOf(e, w) ==
  CASE tr.kind = "sh" -> CogFlux(e.px, Idx, w, tr.F)
    [] tr.kind \in {"pyr", "roof"} -> Scale(tr.F, PupFlux(Clip(e.px, tr.thr), Idx))
    [] tr.kind = "cur" -> Scale(tr.F, Add(Pick(e.px[1], Idx), Pick(e.px[2], Idx)))
    [] tr.kind = "zern" -> Scale(tr.F, [k \in 1..Len(Idx) |-> e.px[Idx[k]] - tr.thr])
    [] tr.kind = "deriv" -> <<>>
\* signals that are not specified
Free == IF tr.kind = "deriv" THEN {tr.free[k] : k \in 1..Len(tr.free)} ELSE {}
Near(a, b, d) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : k \in Free \/ Abs(a[k] - b[k]) <= d
Judge(e, s, f) ==
  LET n == Len(f) IN
  CASE e.nan -> "a signal is not a number"
    [] ~e.kept -> "the input frame was changed"
    [] ~Near(e.s, s, tr.tol) -> "a signal is not the one of the frame's own pixels"
    [] ~Near(e.f, f, 1) -> "a flux is not the one of the frame's own pixels"
    [] Abs(e.tot - Sum(f)) > n -> "the total counts are not the sum of the fluxes"
    [] Abs(n * e.mean - Sum(f)) > 2 * n -> "the mean counts are not the mean of the fluxes"
    [] \E k \in 1..Len(e.gt) : e.gt[k] # e.t -> "an output does not carry the time of its step"
    [] OTHER -> ""
Ev(e) ==
  IF "err" \in DOMAIN e THEN <<st, "the object failed">>
  ELSE IF ~e.fresh
  THEN <<st, IF st.s # <<>> /\ (e.s # st.s \/ e.f # st.f \/ e.gt # st.gt) THEN "an output changed without a new frame" ELSE "">>
  ELSE LET a == IF tr.kind = "sh" THEN Accumulate(st.a, Idx, e.px, e.t, tr.win, tr.wth) ELSE <<>>
           w == IF tr.kind = "sh" THEN a.w ELSE <<>>
           s == Filtered(Null(Raw(e, w), tr.sn), tr.A, tr.R)
       IN <<[a |-> a, s |-> e.s, f |-> e.f, gt |-> e.gt], Judge(e, s, FluxOf(e, w))>>
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET r == Ev(tr.ev[i+1]) IN st' = r[1] /\ bad' = r[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
