------------------------------ MODULE PropTrace -------------------------------
(* C32.  tr.kind:                                                                           *)
(* "prop": w, src, ls, U, tolA, tolP, refused; ev: [fresh, A, P (contents of the layers), got *)
(*   (per source [A, P], scaled), gt, kept].                                                *)
(* "dm": sign, m2c, modes, ifn, idx, npix; ev: [fresh, c, P, A, gt, kept]; mask.             *)
(* "combine", "reflect", "flatten": ev: [fresh, in (fields), got, gt, kept].                  *)
EXTENDS TraceBase, Prop
VARIABLES tid, i, last, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ last = <<>> /\ bad = ""
Near(a, b, d) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= d
Expect(e) ==
  CASE tr.kind = "prop" -> [k \in 1..Len(tr.src) |-> Field(tr.w, tr.src[k], tr.ls, e.A, e.P, tr.U)]
    [] tr.kind = "dm" -> <<[A |-> tr.mask, P |-> Shape(tr.npix, tr.idx, Surface(e.c, tr.sign, tr.m2c, tr.modes, tr.ifn))]>>
    [] tr.kind = "combine" -> <<Combine(e.in)>>
    [] tr.kind = "reflect" -> <<Reflect(e.in[1])>>
    [] tr.kind = "flatten" -> <<Flatten(e.in[1])>>
Light == tr.kind \in {"combine", "reflect", "flatten"}
Judge(e) ==
  LET x == Expect(e) IN
  CASE Len(x) # Len(e.got) -> "a source has no field"
    [] ~e.kept -> "an input was changed"
    [] \E k \in 1..Len(x) : ~Near(e.got[k].A, x[k].A, tr.tolA) -> "the amplitude is not the declared one"
    [] \E k \in 1..Len(x) : ~Near(e.got[k].P, x[k].P, tr.tolP) -> "the phase is not the declared one"
    [] Light /\ (\E k \in 1..Len(x) : Abs(e.got[k].S - x[k].S) > 1) -> "the flux is not the declared one"
    [] \E k \in 1..Len(e.gt) : e.gt[k] # e.t -> "an output does not carry the time of its step"
    [] OTHER -> ""
Ev(e) ==
  IF "err" \in DOMAIN e THEN <<last, "the object failed">>
  ELSE IF "refused" \in DOMAIN e
  THEN <<last, IF e.refused # Refused(tr.w, tr.src, tr.ls) THEN "a geometry was accepted or refused wrongly" ELSE "">>
  ELSE IF ~e.fresh
  THEN <<last, IF last # <<>> /\ last # <<e.got, e.gt>> THEN "an output changed without new data" ELSE "">>
  ELSE << <<e.got, e.gt>>, Judge(e)>>
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET r == Ev(tr.ev[i+1]) IN last' = r[1] /\ bad' = r[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
