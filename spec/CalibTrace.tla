----------------------------- MODULE CalibTrace -----------------------------
(* C19.  kind "im": [first, nmodes, ns, p (generator parameters, or n = 0), ev].  ev: [cmds, sl, fresh], and at the end *)
(* [fin, im (per sensor, per mode; x 1000), saved (the same from the files), full, fullsaved].                          *)
(* kind "sn": ev: [sl (refreshed slopes)], and [fin, mean, saved].  kind "rec": ev: [prod (rec x im, x 1000), sym,      *)
(* saved].  kind "keep": ev: [before, between (a file exists at construction, at saving), ow, ctor, fin, same, saved].   *)
EXTENDS TraceBase, Calib, PushPull
VARIABLES tid, i, st, bad
Tr == Traces[tid]
Unit == 1000
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
        /\ st = IF Traces[tid].kind = "im" THEN Start(Traces[tid].ns, Traces[tid].nmodes)
                ELSE IF Traces[tid].kind = "sn" THEN [sum |-> Zeros(Traces[tid].ns), cnt |-> 0] ELSE 0
\* v is sum/n in units of 1/Unit, rounded
Mean(v, sum, n) == /\ Len(v) = Len(sum)
                   /\ \A j \in 1..Len(v) : IF n = 0 THEN v[j] = 0 ELSE Abs(v[j] * n - Unit * sum[j]) <= n
Columns(im) == /\ Len(im) = Len(Tr.ns)
               /\ \A w \in 1..Len(Tr.ns) : /\ Len(im[w]) = Tr.nmodes
                                           /\ \A m \in 1..Tr.nmodes : Mean(im[w][m], st.sum[w][m], st.cnt[w][m])
Stacked(e) == [m \in 1..Tr.nmodes |-> Flat([w \in 1..Len(Tr.ns) |-> e.im[w][m]])]
Im(e) ==
  IF "fin" \in DOMAIN e THEN
       IF ~Columns(e.im) THEN "a column is not the average response to its mode"
       ELSE IF e.saved # e.im THEN "the saved matrix is not the measured one"
       ELSE IF e.full # <<>> /\ e.full # Stacked(e) THEN "the full matrix does not stack those of the sensors"
       ELSE IF e.full # e.fullsaved THEN "the saved full matrix is not the measured one"
       ELSE ""
  ELSE IF Tr.p.n > 0 /\ e.cmds[1] # Commands(Tr.p)[i + 1] THEN "the generator does not follow its sequence"
  ELSE ""
Sn(e) ==
  IF "fin" \in DOMAIN e THEN
       IF ~Mean(e.saved, st.sum, st.cnt) THEN "the saved slope null is not the average of the slopes"
       ELSE ""
  ELSE ""
Rec(e) ==
  IF e.prod # [r \in 1..Len(e.prod) |-> [c \in 1..Len(e.prod) |-> IF r = c THEN 1000 ELSE 0]] THEN "the reconstructor does not invert the interaction matrix"
  ELSE IF ~e.sym THEN "the reconstructor is not the pseudo-inverse"
  ELSE IF Len(e.prod) # e.nmodes THEN "the reconstructor has another number of modes"
  ELSE ""
Keep(e) ==
  IF e.ctor = "failed" \/ e.fin = "failed" THEN "a calibrator fails"
  ELSE IF e.ctor = "refused" THEN
       IF ~MustRefuse(e.before, e.ow) THEN "a calibration is refused without a file in the way"
       ELSE IF ~e.same THEN "an existing file is overwritten with overwriting off" ELSE ""
  ELSE IF MustRefuse(e.between, e.ow) THEN (IF ~e.same THEN "an existing file is overwritten with overwriting off" ELSE "")
  ELSE IF e.fin = "refused" THEN "a calibration cannot be saved"
  ELSE IF ~e.saved THEN "the saved calibration is not the measured one"
  ELSE ""
Next == /\ i < Len(Tr.ev) /\ bad = ""
        /\ LET e == Tr.ev[i + 1] IN
           IF "err" \in DOMAIN e THEN bad' = "a calibrator fails" /\ UNCHANGED st
           ELSE /\ bad' = CASE Tr.kind = "im" -> Im(e) [] Tr.kind = "sn" -> Sn(e) [] Tr.kind = "rec" -> Rec(e) [] OTHER -> Keep(e)
                /\ st' = IF "fin" \in DOMAIN e THEN st
                         ELSE IF Tr.kind = "im" THEN Frame(st, e, Tr.first)
                         ELSE IF Tr.kind = "sn" THEN [sum |-> Add(st.sum, e.sl), cnt |-> st.cnt + 1] ELSE st
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(Tr.ev)) => Say(Tr.id, i', bad')
=============================================================================
