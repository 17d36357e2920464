-------------------------------- MODULE Field ---------------------------------
(* Analyses of other directions after a run (C33).  A run has a set of directions of interest *)
(* and a list of possible requests R[k] = [kind, wl, start, mod].  What is computed for        *)
(* direction d is kept in a file with a name; a later request finds the file of that name.     *)
(* An answer is right iff its file holds what the run itself would have computed.               *)
EXTENDS Integers, Sequences, FiniteSets
\* what the result depends on: phases are in nm, so their modes and cubes do not depend on the wavelength
Depends(r) == CASE r.kind = "psf" -> [start |-> TRUE, wl |-> TRUE, mod |-> TRUE]
                [] r.kind = "modal" -> [start |-> FALSE, wl |-> FALSE, mod |-> TRUE]
                [] OTHER -> [start |-> FALSE, wl |-> FALSE, mod |-> FALSE]
Value(d, r) == LET u == Depends(r) IN <<r.kind, d, IF u.wl THEN r.wl ELSE 0, IF u.start THEN r.start ELSE 0, IF u.mod THEN r.mod ELSE 0>>
\* names: the parameters in use (NameUses[kind] = set of parameter names)
Name(d, r, uses) == <<r.kind, IF "dir" \in uses THEN d ELSE 0, IF "wl" \in uses THEN r.wl ELSE 0,
                      IF "start" \in uses THEN r.start ELSE 0, IF "mod" \in uses THEN r.mod ELSE 0>>
NoFiles == [n \in {} |-> <<>>]
\* a request: all results are recomputed unless all are there
Found(files, ds, r, uses) == \A k \in 1..Len(ds) : Name(ds[k], r, uses) \in DOMAIN files
Recomputes(files, ds, r, force, uses) == force \/ ~Found(files, ds, r, uses)
Compute(files, ds, r, uses) ==
  LET new == {Name(ds[k], r, uses) : k \in 1..Len(ds)}
      last(n) == CHOOSE k \in 1..Len(ds) : Name(ds[k], r, uses) = n /\ \A m \in (k+1)..Len(ds) : Name(ds[m], r, uses) # n
  IN [n \in DOMAIN files \cup new |-> IF n \in new THEN Value(ds[last(n)], r) ELSE files[n]]
After(files, ds, r, force, uses) == IF Recomputes(files, ds, r, force, uses) THEN Compute(files, ds, r, uses) ELSE files
Answer(files, ds, r, uses) == [k \in 1..Len(ds) |-> files[Name(ds[k], r, uses)]]
Truth(ds, r) == [k \in 1..Len(ds) |-> Value(ds[k], r)]
\* the statistics of a series v of scaled coefficients: n * mean and n^2 * variance
RECURSIVE SumV(_, _), SumSq(_, _)
SumV(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumV(v, n - 1)
SumSq(v, n) == IF n = 0 THEN 0 ELSE v[n] * v[n] + SumSq(v, n - 1)
=============================================================================
