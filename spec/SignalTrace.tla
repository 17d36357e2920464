---------------------------- MODULE SignalTrace ------------------------------
(* C18: ev [now, out, ot] one per step.  tr.kind "sched" (values, times, groups),   *)
(* "pp" (p), "ppr" (p, amplitudes scaled: out is sign times radial order, 0 if zero), *)
(* "hist" (rows), "wave" (wave: type, turns, amp, slope, const; out within 1 of ...). *)
(* "conf": ev [nv, nt, groups (sizes), refused].                                      *)
EXTENDS TraceBase, Signal
VARIABLES tid, i, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
Want(e) == CASE tr.kind = "sched" -> Scheduled(tr.values, tr.times, tr.groups, e.now)
             [] tr.kind = "pp" -> PushPull(tr.p, i)
             [] tr.kind = "ppr" -> [c \in 1..tr.p.nm |-> IF c - 1 = PokeMode(tr.p, i) THEN PokeSign(tr.p, i) * Radial(c - 1) ELSE 0]
             [] tr.kind = "hist" -> Row(tr.rows, i)
             [] tr.kind = "wave" -> [c \in 1..tr.n |-> LET w(f) == IF Len(tr[f]) = 1 THEN tr[f][1] ELSE tr[f][c] IN
                                       Wave(tr.type, w("turn8") * i + w("off8"), w("amp"), w("slope"), w("const"), i)]
Close(a, b) == Len(a) = Len(b) /\ \A c \in 1..Len(a) : Abs(a[c] - b[c]) <= (IF tr.kind = "wave" THEN 4 ELSE 0)
Step(e) == IF e.ot # e.now THEN "the output does not carry the time of its step"
           ELSE IF ~Close(e.out, Want(e)) THEN
             CASE tr.kind = "sched" -> "not the value scheduled for this time" [] tr.kind \in {"pp", "ppr"} -> "not the declared push-pull sequence"
               [] tr.kind = "hist" -> "not the recorded row" [] OTHER -> "not the declared wave"
           ELSE ""
Conf(e) == IF (e.nv = e.nt + 1 /\ \A k \in 1..Len(e.sizes) : e.sizes[k] = e.ng) = e.refused THEN "wrong verdict on a schedule" ELSE ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ bad' = (LET e == tr.ev[i+1] IN IF "err" \in DOMAIN e THEN "the generator failed" ELSE IF tr.kind = "conf" THEN Conf(e) ELSE Step(e))
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
