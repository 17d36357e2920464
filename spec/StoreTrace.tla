----------------------------- MODULE StoreTrace -----------------------------
(* C09: what a real DataStore wrote.  ev: "step" [t, f], "finish" [t, f] and one  *)
(* final "dirs" [dirs]: what is on disk, [suffix, files], files = [name, data].   *)
EXTENDS TraceBase, Store
VARIABLES tid, i, s, bad
tr == Traces[tid]
c == tr.c
Has(files, n) == \E k \in 1..Len(files) : files[k].k = n
Get(files, n) == files[CHOOSE k \in 1..Len(files) : files[k].k = n].data
FilesOk(want, files) ==
  /\ Len(files) = Cardinality({k \in 1..c.n : want[k] # <<>>})
  /\ \A k \in 1..c.n : want[k] # <<>> => Has(files, k) /\ Get(files, k) = want[k]
Toks(q) == [m \in 1..Len(q) |-> q[m][2]]
Why(want, files) ==
  LET bads == {k \in 1..c.n : IF want[k] = <<>> THEN Has(files, k) ELSE ~Has(files, k) \/ Get(files, k) # want[k]}
  IN IF bads = {} THEN "files that were not expected"
     ELSE LET k == CHOOSE x \in bads : TRUE IN
       IF ~Has(files, k) THEN "no file for an input that published"
       ELSE IF Len(Get(files, k)) < Len(want[k]) THEN "a sample is missing"
       ELSE IF Len(Get(files, k)) > Len(want[k]) THEN "a sample that should not be there"
       ELSE IF Toks(Get(files, k)) # Toks(want[k]) THEN "a stored value is not the one published" ELSE "a stored time is wrong"
Dirs(e) ==
  IF e.err # "" THEN "the run failed"
  ELSE IF {e.dirs[q].suffix : q \in 1..Len(e.dirs)} # {s.chunks[q].suffix : q \in 1..Len(s.chunks)} \/ Len(e.dirs) # Len(s.chunks)
       THEN "wrong set of directories"
  ELSE LET D(x) == e.dirs[CHOOSE q \in 1..Len(e.dirs) : e.dirs[q].suffix = x]
           bads == {q \in 1..Len(s.chunks) : ~FilesOk(s.chunks[q].files, D(s.chunks[q].suffix).files)}
       IN IF bads = {} THEN "" ELSE LET q == CHOOSE x \in bads : TRUE IN Why(s.chunks[q].files, D(s.chunks[q].suffix).files)
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[tid].c) /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           CASE e.k = "step" -> s' = Step(c, s, e.t, e.f) /\ bad' = ""
             [] e.k = "finish" -> s' = Finish(c, s, e.t, e.f) /\ bad' = ""
             [] e.k = "dirs" -> s' = s /\ bad' = Dirs(e)
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
