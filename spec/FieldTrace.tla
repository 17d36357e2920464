------------------------------ MODULE FieldTrace -------------------------------
(* C33.  D: directions of interest (milli-units: arcsec, degrees); ev of a run:                *)
(* [op "ask", kind, dirs (indices of D), k (request), force, run (the run's own files are       *)
(* unchanged), is (per direction: the <<direction, request>> pairs whose true result equals the *)
(* answer), pol (direction reported with each answer), times (cubes: the times are the run's),  *)
(* stats (modes: <<series, average, variance>>, scaled by 8 and 64)], or [op "lost"], or        *)
(* [op "refused", run].  tr.decim: something to be replayed was recorded only now and then.     *)
EXTENDS TraceBase, Field, Vec
VARIABLES tid, i, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
Stat(q) == \* [c series, a average, v variance]
  LET n == Len(q.c)
      s == SumV(q.c, n)
      m == SetMax({Abs(q.c[k]) : k \in 1..n})
  IN /\ Abs(s - n * q.a) <= n + 1
     /\ Abs((n * SumSq(q.c, n)) - (s * s) - (n * n * q.v)) <= n * n * ((2 * m) + 4)
Judge(e) ==
  CASE ~e.run -> "an analysis changed the files of the run"
    [] e.op = "refused" -> IF tr.decim THEN "" ELSE "an analysis of a complete run failed"
    [] tr.decim -> "a run recorded only now and then was analysed as if complete"
    [] Len(e.is) # Len(e.dirs) -> "there is not one answer for each direction"
    [] \E k \in 1..Len(e.dirs) : e.pol[k] # tr.D[e.dirs[k]] -> "an answer is reported with another direction"
    [] \E k \in 1..Len(e.dirs) : ~ \E q \in Rng(e.is[k]) : q = <<e.dirs[k], e.k>> -> "the answer is not what the run computed for this direction and request"
    [] e.kind = "cube" /\ ~e.times -> "the times of a cube are not those of the run"
    [] e.kind = "modal" /\ (\E k \in 1..Len(e.stats), m \in 1..2 : ~Stat(e.stats[k][m])) -> "the statistics are not those of the series"
    [] OTHER -> ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ bad' = (IF tr.ev[i+1].op = "lost" THEN "" ELSE Judge(tr.ev[i+1]))
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
