----------------------------- MODULE ReconTrace ------------------------------
(* C27.  tr.kind "plain" (R), "polc" (R, P, D), "implicit" (R, P, D), "mvm" (R):   *)
(* ev [fresh (slopes), cf (commands fresh), s (concatenated slopes), c (commands,     *)
(* <<>> if none yet), modes, t, pol, pt, now].                                        *)
(* R is R0 with the truncations ops applied in order.                               *)
(* "edit": m0, ev [op, refused, m] edits of a matrix.                                  *)
EXTENDS TraceBase, Recon
VARIABLES tid, i, st, bad
tr == Traces[tid]
Start(t) == IF t.kind = "edit" THEN t.m0 ELSE [modes |-> Zeros(t.nout), t |-> -1, pol |-> Zeros(t.npol), pt |-> -1]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ st = Start(Traces[tid])
RECURSIVE Fold(_, _)
Fold(m, ops) == IF ops = <<>> THEN m ELSE Fold(Edit(m, Head(ops)), Tail(ops))
R == Fold(tr.R0, tr.ops)
Step(e) ==
  LET c == IF e.c = <<>> THEN Zeros(tr.ncomm) ELSE e.c
      new == CASE tr.kind = "plain" \/ tr.kind = "mvm" -> [st EXCEPT !.modes = Direct(R, e.s), !.t = e.now]
               [] tr.kind = "polc" -> [modes |-> Polc(tr.P, R, tr.D, e.s, c), t |-> e.now, pol |-> PseudoOL(R, tr.D, e.s, c), pt |-> e.now]
               [] tr.kind = "implicit" -> [st EXCEPT !.modes = Implicit(tr.P, R, tr.D, e.s, c), !.t = e.now]
      w == IF e.fresh THEN new ELSE st
  IN /\ st' = w
     /\ bad' = IF e.t # w.t THEN IF e.fresh THEN "the modes were not updated although slopes were" ELSE "the modes were updated although no slopes were"
               ELSE IF e.modes # w.modes THEN IF e.fresh THEN "the modes are not the configured matrices applied to the current data" ELSE "the modes changed without an update"
               ELSE IF tr.kind = "polc" /\ (e.pol # w.pol \/ e.pt # w.pt) THEN "wrong pseudo-open-loop modes"
               ELSE ""
EditEv(e) ==
  LET ok == EditOk(st, e.op) w == IF ok THEN Edit(st, e.op) ELSE st IN
  /\ st' = w
  /\ bad' = IF e.refused = ok THEN IF ok THEN "a valid truncation was refused" ELSE "a truncation to nothing was accepted"
            ELSE IF e.m # w THEN "a matrix edit changed other rows or columns than it names"
            ELSE ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the object failed" /\ st' = st
           ELSE IF tr.kind = "edit" THEN EditEv(e) ELSE Step(e)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
