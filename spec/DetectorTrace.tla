----------------------------- MODULE DetectorTrace -----------------------------
(* C34.  tr.d: configuration (see Detector) with n steps per frame, start, seeds s (cic, ph,    *)
(* ex, ro) and cp (probability of a clock charge, 16ths); ev: [t, x (light of the step), pt     *)
(* (time of the frame), pix (in 1/K), draws].  draws: of the step, [s (seed of the generator),  *)
(* dist, par (parameters), val (values)].                                                      *)
EXTENDS TraceBase, Detector
VARIABLES tid, i, acc, last, bad
tr == Traces[tid]
d == tr.d
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ acc = Zeros(Traces[tid].d.nx * Traces[tid].d.ny) /\ last = [t |-> -1, pix |-> <<>>]
Draw(e, s) == LET S == {k \in 1..Len(e.draws) : e.draws[k].s = s} IN IF Cardinality(S) # 1 THEN [s |-> -1, dist |-> "", par |-> <<>>, val |-> <<>>] ELSE e.draws[CHOOSE k \in S : TRUE]
Size == (d.nx \div d.bin) * (d.ny \div d.bin)
Drawing(e, a) ==
  LET c == Draw(e, d.s.cic)  p == Draw(e, d.s.ph)  x == Draw(e, d.s.ex)  r == Draw(e, d.s.ro)
      q == [cic |-> c.val, ph |-> p.val, ex |-> x.val, ro |-> r.val]
  IN CASE d.cic /\ ~(c.dist = "binomial" /\ c.par = <<1, d.cp>> /\ Len(c.val) = Size) -> "the clock-induced charges are not drawn as declared"
       [] d.ph /\ ~(p.dist = "poisson" /\ Len(p.val) = Size /\ p.par = PoissonMean(a, q, d)) -> "the photons are not drawn with the mean of their pixel"
       [] d.ex /\ ~(x.dist = "gamma" /\ Len(x.val) = Size /\ x.par = Append(GammaShape(a, q, d), d.em)) -> "the amplification is not drawn as declared"
       [] d.ro /\ ~(r.dist = "normal" /\ Len(r.val) = Size) -> "the read-out noise is not drawn as declared"
       [] ~Frame(a, q, d, e.pix) -> "the frame is not the converted light"
       [] OTHER -> ""
Ev(e) ==
  LET a == IF e.t >= d.start THEN Add(acc, e.x) ELSE acc
      end == e.t >= d.start /\ (e.t - d.start + 1) % d.n = 0
  IN IF end
     THEN <<Zeros(d.nx * d.ny), [t |-> e.t, pix |-> e.pix], IF e.pt # e.t THEN "no frame at the end of a window" ELSE Drawing(e, a)>>
     ELSE <<a, last, IF e.pt # last.t THEN "a frame although no window ends" ELSE IF last.t >= 0 /\ e.pix # last.pix THEN "a frame changed after it was read out" ELSE "">>
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the detector failed" /\ UNCHANGED <<acc, last>>
           ELSE LET r == TLCEval(Ev(e)) IN acc' = r[1] /\ last' = r[2] /\ bad' = r[3]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
