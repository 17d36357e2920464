------------------------------ MODULE EstimTrace ------------------------------
(* C36.  Traces of estimators, by kind:                                                          *)
(*  og    : cfg [k, g0]; ev [t, dn, cn (inputs refreshed), r, c0 (no command), g, out, tg, to]   *)
(*  opt   : cfg [period, n, limit, inc, safe, caps, g0]; ev [t, new, og (quarters; -1: none),    *)
(*          best (per mode: acceptable grid points), gain, fg (gain of the filter), tg]          *)
(*  modal : B, sc, tol; ev [t, jobs: sequence of [f, half (wavelength/2 or 0), full, m, tm]]     *)
(*  cube  : ts, frames, scale, lit; ev [t, outs: sequence of [ph, a, t]] or [t, refused]         *)
(*  spot  : idx; ev [t, new, pix, sum, model, res, chi, fw, fwx, ok, ts]                         *)
EXTENDS TraceBase, Estim
VARIABLES tid, i, s, bad
tr == Traces[tid]
Start == CASE tr.kind = "og"  -> [g |-> tr.cfg.g0, out |-> tr.cfg.g0, d |-> -1, c |-> -1, r |-> 0, tg |-> -1, to |-> -1]
           [] tr.kind = "opt" -> [gain |-> <<>>, fg |-> tr.cfg.g0, tg |-> -1, n |-> 0, og |-> <<>>]
           [] OTHER -> [t |-> -1]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ s = Start

OG(e) ==
  LET d  == IF e.dn THEN e.t ELSE s.d
      c  == IF e.cn THEN e.t ELSE s.c
      run == e.dn \/ e.cn
      up == run /\ d = e.t /\ c = e.t /\ ~e.c0
      g  == IF up THEN OGNext(s.g, tr.cfg.k, e.r) ELSE s.g
      n  == [s EXCEPT !.g = g, !.out = IF run THEN OGOut(g) ELSE @, !.d = d, !.c = c, !.tg = IF up THEN e.t ELSE @, !.to = IF run THEN e.t ELSE @]
  IN <<n, CASE e.g # n.g -> IF up THEN "the optical gain does not follow the demodulated signals" ELSE "the optical gain changed without a measurement"
            [] e.out # n.out -> "the gain given out is not the optical gain, limited to one"
            [] e.tg # n.tg \/ e.to # n.to -> "wrong time of the optical gain"
            [] OTHER -> "">>
Opt(e) ==
  LET K == 1..Len(tr.cfg.g0)
      n == IF e.new THEN s.n + 1 ELSE s.n
      og == IF e.new /\ e.og >= 0 THEN Append(s.og, e.og) ELSE s.og
      act == e.new /\ Due(e.t, tr.cfg.period) /\ n >= 2
      good(k) == \E j \in Rng(e.best[k]) : Near(e.gain[k], NewGain(tr.cfg, tr.cfg.caps[k], s.fg[k], j, og), 3000)
  IN <<[gain |-> e.gain, fg |-> e.fg, tg |-> e.tg, n |-> n, og |-> og],
       IF act THEN CASE \E k \in K : e.gain[k] > tr.cfg.caps[k] + 3000 -> "a gain beyond the stable range"
                     [] \E k \in K : ~good(k) -> "the gain is not the best of its grid, limited as asked"
                     [] \E k \in K : ~Near(e.gain[k], e.fg[k], 2) -> "the filter does not use the optimised gain"
                     [] e.tg # e.t -> "the optimised gain does not carry the time of its step"
                     [] OTHER -> ""
       ELSE CASE e.fg # s.fg -> "the gain of the filter changed without an optimisation"
              [] s.gain # <<>> /\ e.gain # s.gain -> "the optimised gain changed without an optimisation"
              [] e.tg # s.tg -> "a new time without an optimisation"
              [] OTHER -> "">>
Smooth(f, half, n) == \A p \in 1..Len(f) : (p % n # 0 => Abs(f[p] - f[p+1]) < half) /\ (p + n <= Len(f) => Abs(f[p] - f[p+n]) < half)
Job(e, j) ==
  CASE j.tm # e.t -> "modes without the time of their field"
    [] j.half > 0 /\ Smooth(j.f, j.half, tr.n) /\ ~Fits(tr.B, NoPiston(j.f), Scale(Len(j.f), j.m), tr.sc, tr.tol * Len(j.f)) -> "the modes of a wrapped phase are not those of the phase"
    [] j.half = 0 /\ ~Fits(tr.B, j.f, j.m, tr.sc, tr.tol) -> "the modes are not the least squares coefficients of the field"
    [] j.half = 0 /\ j.rms >= 0 /\ ~Near(j.rms, Len(j.f) * Dot(j.f, j.f) - Sum(j.f) * Sum(j.f), 1) -> "wrong rms"
    [] OTHER -> ""
Modal(e) == LET v == [k \in 1..Len(e.jobs) |-> TLCEval(Job(e, e.jobs[k]))] IN
  <<s, IF \E k \in 1..Len(v) : v[k] # "" THEN v[CHOOSE k \in 1..Len(v) : v[k] # ""] ELSE "">>
Cube(e) ==
  <<s, IF e.refused THEN IF Inside(tr.ts, e.t) THEN "a time of the cube is refused" ELSE ""
       ELSE IF ~Inside(tr.ts, e.t) THEN "screens outside the times of the cube"
       ELSE CASE \E o \in Rng(e.outs) : o.t # e.t -> "a screen without the time of its step"
              [] \E o \in Rng(e.outs) : o.a # tr.lit -> "the screen does not have the amplitude of the pupil"
              [] \E o \in Rng(e.outs) : \E p \in 1..Len(o.ph) : tr.lit[p] # 0 /\
                    LET q == Screen(tr.ts, tr.frames, e.t, p) IN o.ph[p] * q[2] # tr.scale * q[1] -> "the screen is not interpolated between the frames around its time"
              [] OTHER -> "">>
Spot(e) ==
  <<[t |-> IF e.new THEN e.t ELSE s.t],
    IF e.ts # (IF e.new THEN e.t ELSE s.t) THEN "the outputs of the monitor do not carry the time of the pixels"
    ELSE IF ~e.new THEN ""
    ELSE CASE \E q \in 1..Len(e.sum) : e.sum[q] # SumSubaps(e.pix, tr.idx, q) -> "the spot is not the sum of the subapertures"
           [] e.ok = 1 /\ \E q \in 1..Len(e.sum) : ~Near(e.model[q] + e.res[q], 10 * e.sum[q], 1) -> "model and residual do not add up to the spot"
           [] e.ok = 1 /\ ~Near(e.chi, Dot(e.res, e.res) \div Len(e.res), Abs(e.chi) \div 50 + 50) -> "the quality is not the mean square of the residual"
           [] e.ok = 1 /\ ~Near(e.fw, e.fwx, 5) -> "the width is not that of the fitted profile"
           [] OTHER -> "">>
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the estimator failed" /\ UNCHANGED s
           ELSE LET x == TLCEval(CASE tr.kind = "og" -> OG(e) [] tr.kind = "opt" -> Opt(e) [] tr.kind = "modal" -> Modal(e)
                                   [] tr.kind = "cube" -> Cube(e) [] OTHER -> Spot(e))
                IN s' = x[1] /\ bad' = x[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
===============================================================================
