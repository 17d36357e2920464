---------------------------- MODULE WindowTrace -----------------------------
(* C15: detectors and windowed integrations, step by step (input refreshed in      *)
(* every step).  tr.kind: "ccd" | "win" | "refuse".                                *)
(* ccd: ev [t, x, pix, pt, int, it]: pixels and integrated intensity with times.    *)
(*   units: x integers, int in 1/wd, pix in 1/(wd*4*4); weight wn/wd,        *)
(*   quantum efficiency qe/4, pixel gains gain[p]/4.                                 *)
(* win: ev [t, x, out, ot]: out in units of 1, x multiples of the window length.     *)
EXTENDS TraceBase, Window
VARIABLES tid, i, acc, pub, bad
tr == Traces[tid]
NoPub == [t |-> -1, pix |-> <<>>, int |-> <<>>]
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
        /\ acc = (IF Traces[tid].kind = "refuse" THEN <<>> ELSE Zeros(Traces[tid].size))
        /\ pub = NoPub
Pix(a) == LET b == Binned(a, tr.nx, tr.ny, tr.bin) IN [p \in 1..Len(b) |-> b[p] * tr.wn * tr.qe * tr.gain[p]]
Ccd(e) ==
  LET a == Accumulate(acc, e.t, tr.start, e.x)
      end == Ends(e.t, tr.start, tr.dt, tr.loop)
      p == IF end THEN [t |-> e.t, pix |-> Pix(a), int |-> Scale(tr.wn, a)] ELSE pub
  IN /\ acc' = IF end THEN Zeros(tr.size) ELSE a
     /\ pub' = p
     /\ bad' = IF e.pt # p.t THEN IF e.pt = e.t THEN "a frame was published although no window ends" ELSE "no frame was published at the end of a window"
               ELSE IF e.it # p.t THEN "the integrated intensity does not carry the time of its frame"
               ELSE IF p.t >= 0 /\ e.int # p.int THEN "the integrated intensity is not the sum over its window"
               ELSE IF p.t >= 0 /\ e.pix # p.pix THEN "a frame is not the sum over its window"
               ELSE ""
Win(e) ==
  LET a == Accumulate(acc, e.t, tr.start, e.x)
      end == Ends(e.t, tr.start, tr.dt, tr.loop)
      want == IF end THEN DivBy(a, tr.dt \div tr.loop) ELSE Zeros(tr.size)
      wt == IF tr.ondt THEN IF end THEN e.t ELSE pub.t ELSE e.t
  IN /\ acc' = IF end THEN Zeros(tr.size) ELSE a
     /\ pub' = [pub EXCEPT !.t = wt]
     /\ bad' = IF e.ot # wt THEN "the average carries the wrong time"
               ELSE IF e.out # want THEN IF end THEN "an average is not taken over its window" ELSE "a value was published although no window ends"
               ELSE ""
Refuse(e) == /\ UNCHANGED <<acc, pub>>
             /\ bad' = IF Valid(e.dt, e.loop) = e.refused THEN IF e.refused THEN "a valid window was refused" ELSE "an invalid window was accepted" ELSE ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the object failed" /\ UNCHANGED <<acc, pub>>
           ELSE CASE tr.kind = "ccd" -> Ccd(e) [] tr.kind = "win" -> Win(e) [] tr.kind = "refuse" -> Refuse(e)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
