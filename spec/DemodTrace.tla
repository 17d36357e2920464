----------------------------- MODULE DemodTrace -----------------------------
(* C16: ev [t, run (1 if a sample arrived), ot (time of the output), match]:        *)
(* match[k] = list of <<first, last, channel>> whose demodulated amplitude (of the   *)
(* samples first..last of that channel, carrier k) equals the k-th published value.   *)
EXTENDS TraceBase, Window
VARIABLES tid, i, from, pt, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ from = 1 /\ pt = -1 /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1]
               end == Ends(e.t, 0, tr.dt, tr.loop)
               ok(k) == <<from, i + 1, tr.modes[k]>> \in Rng(e.match[k])
           IN /\ from' = IF end THEN i + 2 ELSE from
              /\ pt' = IF end THEN e.t ELSE pt
              /\ bad' = IF "err" \in DOMAIN e THEN "the demodulator failed"
                        ELSE IF e.ot # pt' THEN IF end THEN "nothing was published at the end of a window" ELSE "something was published although no window ends"
                        ELSE IF end /\ \E k \in 1..Len(tr.modes) : ~ok(k) THEN "a published amplitude is not that of its mode and window"
                        ELSE IF ~end /\ e.changed THEN "the output changed although no window ends"
                        ELSE ""
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
