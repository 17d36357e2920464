------------------------------ MODULE ICalibTrace ------------------------------
(* C30.  tr.kind:                                                                            *)
(* "dark": n, N, over, files; ev: [t, c, fresh, frame, ran, dark, sub, when, files].           *)
(* "pyr": h, w, t1, t2, dt, tag, own, over; ev: [t, c, fresh, frame, ran, pup (four sequences  *)
(*   of indices without padding), geo (n, sx, sy), when, ok, par <<t1, t2, dt>>, files, tag].   *)
EXTENDS TraceBase, ICalib
VARIABLES tid, i, s, bad
tr == Traces[tid]
Pairs(q) == [f \in {q[k][1] : k \in 1..Len(q)} |-> (CHOOSE k \in 1..Len(q) : q[k][1] = f)]
Files(q) == [f \in DOMAIN Pairs(q) |-> q[Pairs(q)[f]][2]]
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
        /\ s = IF tr.kind = "dark" THEN DarkInit(tr.n, tr.N, Files(tr.files))
               ELSE PyrInit(tr.t1, tr.t2, tr.dt, tr.tag, tr.h * tr.w)
DarkC(c) == c.nf # 0 \/ c.bad \/ c.trig \/ c.reset \/ c.load # "" \/ c.save # ""
PyrC(c) == c.any
DarkJudge(e, x) ==
  CASE e.ran /\ e.sub # Subtracted(s, e.c, e.fresh, e.frame, e.t) -> "the subtracted frame is not the frame minus the dark frame"
    [] e.dark # x.dark -> "the dark frame is not the one commanded"
    [] e.when # x.when -> "the dark frame does not carry the time of its last change"
    [] Files(e.files) # x.files -> "the files are not the ones commanded"
    [] OTHER -> ""
Sorted(S) == \* of a set of indices, as a sequence
  LET RECURSIVE F(_)
      F(X) == IF X = {} THEN <<>> ELSE LET m == SetMin(X) IN <<m>> \o F(X \ {m})
  IN F(S)
SetsOf(q) == [k \in 1..Len(q) |-> Rng(q[k])]
PyrJudge(e, x) ==
  CASE e.ran /\ e.ok # x.ok -> "the status does not tell how the last measurement went"
    [] e.when # x.when -> "the pupils do not carry the time of their last measurement"
    [] x.res.ok /\ SetsOf(e.pup) # x.res.pup -> "the pixels of a pupil are not the measured ones"
    [] x.res.ok /\ (\E k \in 1..4 : Len(e.pup[k]) # Cardinality(Rng(e.pup[k]))) -> "a pixel occurs twice in a pupil"
    [] x.res.ok /\ (\E k \in 1..4 : e.geo[k] # <<x.res.geo[k].n, x.res.geo[k].sx, x.res.geo[k].sy>>) -> "the centre or radius of a pupil is not the measured one"
    [] e.ran /\ e.par # <<x.t1, x.t2, x.dt>> -> "the parameters are not the ones commanded"
    [] [f \in DOMAIN Files(e.files) |-> SetsOf(Files(e.files)[f])] # x.files -> "the files are not the ones commanded"
    [] OTHER -> ""
Exit(e) == \* the end of the simulation saves the last measurement under the tag in force
  CASE tr.kind = "dark" -> ""
    [] OTHER -> LET w == IF tr.exit /\ s.res.ok THEN [f \in DOMAIN s.files \cup {s.tag} |-> IF f = s.tag THEN s.res.pup ELSE s.files[f]] ELSE s.files
                IN IF [f \in DOMAIN Files(e.files) |-> SetsOf(Files(e.files)[f])] # w THEN "the last measurement is not saved under its tag" ELSE ""
Ev(e) ==
  IF "err" \in DOMAIN e THEN <<s, "the object failed">>
  ELSE IF "exit" \in DOMAIN e THEN <<s, Exit(e)>>
  ELSE IF tr.kind = "dark"
  THEN IF e.ran # (e.fresh \/ DarkC(e.c)) THEN <<s, "the object did not run when asked to">>
       ELSE IF ~e.ran THEN <<s, DarkJudge(e, s)>>
       ELSE LET x == DarkStep(s, e.c, e.fresh, e.frame, e.t, tr.over) IN <<x, DarkJudge(e, x)>>
  ELSE IF e.ran # (e.fresh \/ PyrC(e.c)) THEN <<s, "the object did not run when asked to">>
       ELSE IF ~e.ran THEN <<s, PyrJudge(e, s)>>
       ELSE LET x == PyrStep(s, e.c, e.fresh, e.frame, e.t, tr.h, tr.w, tr.own, tr.over) IN <<x, PyrJudge(e, x)>>
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET r == Ev(tr.ev[i+1]) IN s' = r[1] /\ bad' = r[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
