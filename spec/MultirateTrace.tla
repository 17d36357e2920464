--------------------------- MODULE MultirateTrace ---------------------------
(* C17.  tr.kind:                                                                  *)
(* "rec": masks, mats, sizes, nm; ev [fresh, slopes, fail, out (per sensor), ot,     *)
(*   now]: one step of the reconstructor.                                            *)
(* "cf": N, g, w, n, num, den, sync; ev [fresh, yf, ys, gm, fail, nd]: one run of    *)
(*   the complementary filter (fast sensor fresh); idle runs [idle, nd].              *)
(* "conf": ev [masks, rows, cols, nm, sizes, refused] configurations.                *)
(* "cfconf": ev [nw (weights), nn (slow rates), ny (slow inputs), mode, idx, refused] *)
EXTENDS TraceBase, Multirate
F == INSTANCE Filter
VARIABLES tid, i, st, bad
tr == Traces[tid]
Start(t) == CASE t.kind = "rec" -> [out |-> [k \in 1..Len(t.sizes) |-> Zeros(t.nm)], t |-> -1]
              [] t.kind = "cf" -> [f |-> 0, prev |-> Zeros(t.n), out |-> Zeros(t.n),
                                   m |-> [c \in 1..t.n |-> F!IirStart(F!Chan(t.num[c], t.den[c]))]]
              [] OTHER -> 0
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ st = Start(Traces[tid])
Some(v) == \E k \in 1..Len(v) : v[k]
Rec(e) ==
  IF ~Some(e.fresh)
  THEN /\ st' = st
       /\ bad' = IF e.fail THEN "the reconstructor failed without new data"
                 ELSE IF e.out # st.out \/ \E k \in 1..Len(e.ot) : e.ot[k] # st.t THEN "an output changed in a step without new data" ELSE ""
  ELSE IF ~Known(tr.masks, e.fresh)
  THEN st' = st /\ bad' = IF e.fail THEN "" ELSE "a set of sensors without a matrix was accepted"
  ELSE LET want == Project(tr.masks, tr.mats, tr.sizes, tr.nm, e.fresh, e.slopes) IN
       /\ st' = [out |-> want, t |-> e.now]
       /\ bad' = IF e.fail THEN "the reconstructor failed on a configured set of sensors"
                 ELSE IF \E k \in 1..Len(e.ot) : e.ot[k] # e.now THEN "an output does not carry the time of its step"
                 ELSE IF \E k \in 1..Len(want) : ~e.fresh[k] /\ e.out[k] # want[k] THEN "a sensor without new data contributes"
                 ELSE IF e.out # want THEN "a sensor is not projected with its block of the matrix of this set"
                 ELSE ""
Cf(e) ==
  IF "idle" \in DOMAIN e
  THEN st' = st /\ bad' = IF e.nd = st.out THEN "" ELSE "the command changed without new input"
  ELSE LET f == st.f + 1 IN
  IF tr.sync /\ ~Acceptable(tr.N, f, e.fresh)
  THEN st' = st /\ bad' = IF e.fail THEN "" ELSE "input timing contradicting the rates was accepted"
  ELSE LET u == Fused(tr.N, tr.g, tr.w, f, e.yf, st.prev, e.ys)
           g == IF e.gm = <<>> THEN Repeat(4, tr.n) ELSE IF Len(e.gm) = 1 THEN Repeat(e.gm[1], tr.n) ELSE e.gm
           m == [c \in 1..tr.n |-> F!IirNext(F!Chan(tr.num[c], tr.den[c]), TRUE, st.m[c], u[c], g[c])]
           y == [c \in 1..tr.n |-> F!IirOut(m[c])] IN
       /\ st' = [f |-> f, prev |-> e.yf, out |-> y, m |-> m]
       /\ bad' = IF e.fail THEN "input timing matching the rates was refused"
                 ELSE IF e.nd # y THEN IF Some(Due(tr.N, f)) THEN "wrong command in a frame of a slow sensor" ELSE "wrong command in a frame without slow sensor"
                 ELSE ""
Conf(e) == st' = st /\ bad' = IF Config(e.masks, e.rows, e.cols, e.nm, e.sizes) = e.refused
                              THEN IF e.refused THEN "a consistent configuration was refused" ELSE "an inconsistent configuration was accepted" ELSE ""
CfConf(e) == LET good == e.nw = e.nn + 1 /\ CASE e.mode = "vec" -> e.idx [] e.mode = "sep" -> e.ny = e.nn [] OTHER -> FALSE IN
  st' = st /\ bad' = IF good = e.refused THEN IF e.refused THEN "a consistent filter configuration was refused" ELSE "an inconsistent filter configuration was accepted" ELSE ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the object failed" /\ st' = st
           ELSE CASE tr.kind = "rec" -> Rec(e) [] tr.kind = "cf" -> Cf(e) [] tr.kind = "conf" -> Conf(e) [] tr.kind = "cfconf" -> CfConf(e)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
