---------------------------- MODULE FilterTrace -----------------------------
(* C14: ev "run" [u, g, gain (new gains per channel or <<>>; 999 keeps), all      *)
(* (one gain for all), reset, nd], "stale" [nd], "err" [msg].                      *)
(* tr.kind "iir": rows (num, den, ordnum, ordden) and n_modes; "ssr": blocks.      *)
EXTENDS TraceBase, Filter
VARIABLES tid, i, f, last, bad
tr == Traces[tid]
KEEP == 999
NC == Sum(tr.modes)
IirChans(t) == Spread([k \in 1..Len(t.num) |-> Chan(Align(t.num[k], t.ordnum[k]), Align(t.den[k], t.ordden[k]))], t.modes)
SsrChans(t) == Spread(t.blocks, t.modes)
St(t) == IF t.kind = "iir"
  THEN LET c == IirChans(t) IN [ch |-> c, m |-> [k \in 1..Len(c) |-> IirStart(c[k])], shape |-> [k \in 1..Len(c) |-> Shape(c[k].num)]]
  ELSE LET c == SsrChans(t) IN [ch |-> c, m |-> [k \in 1..Len(c) |-> SsrStart(c[k])], shape |-> <<>>]
Full(v, n) == IF Len(v) = 1 THEN Repeat(v[1], n) ELSE v
Gained(s, e) ==
  IF e.gain = <<>> THEN s
  ELSE LET n == Len(s.ch)
           new(k) == IF e.all THEN e.gain[1] ELSE IF k <= Len(e.gain) THEN e.gain[k] ELSE KEEP
       IN [s EXCEPT !.ch = [k \in 1..n |-> IF new(k) = KEEP THEN s.ch[k]
                                           ELSE [s.ch[k] EXCEPT !.num = WithGain(s.shape[k], new(k))]]]
Reset(s) == IF tr.kind = "iir" THEN [s EXCEPT !.m = [k \in 1..Len(s.ch) |-> IirStart(s.ch[k])]]
            ELSE [s EXCEPT !.m = [k \in 1..Len(s.ch) |-> SsrStart(s.ch[k])]]
Run(s, e) ==
  LET n == Len(s.ch) u == Full(e.u, n) g == IF e.g = <<>> THEN Repeat(Q, n) ELSE Full(e.g, n) IN
  IF tr.kind = "iir"
  THEN LET m1 == [k \in 1..n |-> IirNext(s.ch[k], tr.integ, s.m[k], u[k], g[k])]
       IN <<[s EXCEPT !.m = m1], [k \in 1..n |-> IirOut(m1[k])]>>
  ELSE LET m1 == [k \in 1..n |-> SsrNext(s.ch[k], s.m[k], u[k], g[k])]
       IN <<[s EXCEPT !.m = m1], [k \in 1..n |-> SsrOut(s.ch[k], tr.new, s.m[k], m1[k], u[k], g[k])]>>
Init == tid \in 1..Len(Traces) /\ i = 0 /\ f = St(Traces[tid]) /\ last = <<>> /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           CASE e.k = "run" ->
                  LET s0 == IF e.reset THEN Reset(f) ELSE f
                      p == Run(Gained(s0, e), e) IN
                  /\ f' = p[1] /\ last' = p[2]
                  /\ bad' = IF p[2] = e.nd THEN ""
                            ELSE IF e.reset THEN "wrong response after a reset"
                            ELSE IF e.gain # <<>> THEN "a gain update is not effective in its own frame"
                            ELSE IF Len(p[2]) # Len(e.nd) THEN "wrong number of channels"
                            ELSE "the output does not follow the difference equation"
             [] e.k = "stale" -> f' = f /\ last' = last /\ bad' = IF last = <<>> \/ e.nd = last THEN "" ELSE "the output changed without new input"
             [] e.k = "err" -> f' = f /\ last' = last /\ bad' = "the filter failed"
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
