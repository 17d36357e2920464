----------------------------- MODULE TurbTrace ------------------------------
(* C21: trace [n (window), size, layers (number), xs (time offsets, in steps, per     *)
(* output layer), ev].  ev: [t (step), run, w (wind, quarter pixels per step, per        *)
(* layer), k (quarter turns per layer), zero (no turbulence), out (4 x content per        *)
(* output layer), ot].  Output layer j shows layer ((j-1) % layers) + 1.                    *)
EXTENDS TraceBase, Turb
VARIABLES tid, i, pos, last, K, flip, prev, bad
tr == Traces[tid]
O == 1..Len(tr.xs)
Of(j) == ((j - 1) % tr.layers) + 1
Init == tid \in 1..Len(Traces) /\ i = 0 /\ pos = [j \in 1..Len(Traces[tid].xs) |-> 0] /\ last = 0
        /\ K = <<>> /\ flip = <<>> /\ prev = <<>> /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "the turbulence object failed" /\ UNCHANGED <<pos, last, K, flip, prev>>
           ELSE IF ~e.run THEN
             /\ UNCHANGED <<pos, last, K, flip, prev>>
             /\ bad' = IF prev # <<>> /\ (e.out # prev[1] \/ e.ot # prev[2]) THEN "a layer changed in a step the object did not run" ELSE ""
           ELSE
             LET x(j) == e.w[Of(j)] * tr.xs[j]
                 np == [j \in O |-> Advance(pos[j], e.w[Of(j)] * (e.t - last), x(j), tr.n, tr.size)]
                 want(j, f) == Shown(tr.n, np[j] + x(j), tr.size, f, e.k[Of(j)])
                 diff(j, f) == e.out[j][1] - want(j, f)[1]
                 fits(j, f) == LET v == want(j, f) d == diff(j, f) IN \A q \in 1..Len(v) : e.out[j][q] - v[q] = d
             IN
             /\ pos' = np /\ last' = e.t /\ prev' = <<e.out, e.ot>>
             /\ IF e.zero THEN UNCHANGED <<K, flip>> /\ bad' = IF \E j \in O : \E q \in 1..Len(e.out[j]) : e.out[j][q] # 0 THEN "turbulence shown with zero seeing" ELSE ""
                ELSE IF K = <<>> THEN      \* the first frame tells the constant and the orientation of each screen
                  LET fl == [j \in O |-> ~fits(j, FALSE)] IN
                  /\ flip' = fl /\ K' = [j \in O |-> diff(j, fl[j])]
                  /\ bad' = IF \E j \in O : ~fits(j, fl[j]) THEN "a layer does not show its screen at the position of the first step" ELSE ""
                ELSE /\ UNCHANGED <<K, flip>>
                     /\ bad' = IF \E j \in O : ~fits(j, flip[j]) \/ diff(j, flip[j]) # K[j] THEN "a layer is not displaced by wind times elapsed time" ELSE ""
             \* evaluated last: publication
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ LET e == tr.ev[i+1] late == "err" \notin DOMAIN e /\ e.run /\ \E j \in O : e.ot[j] # e.t IN
           (bad' # "" \/ late \/ i' = Len(tr.ev)) => Say(tr.id, i', IF bad' = "" /\ late THEN "a layer was not published in this step" ELSE bad')
=============================================================================
