---------------------------- MODULE RoutingTrace -----------------------------
(* C26: ev "run" [x (inputs: list of vectors), out (list of vectors), t, now],      *)
(* "look" [out, x]: after the inputs were changed in place / without new data.       *)
(* tr.kind "slice" (sel), "insert" (pairs, size), "const" (op, c), "two" (op, how,    *)
(* map), "concat", "mirror" (dl, od, kv, A, p), "linear" (nf, nl, psi, coeff);        *)
(* "conf" events [ok, refused].  tr.sc: output units.                                 *)
EXTENDS TraceBase, Routing
VARIABLES tid, i, last, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ last = <<>> /\ bad = ""
Want(x) ==
  CASE tr.kind = "slice" -> <<Select(tr.sel, x[1])>>
    [] tr.kind = "insert" -> <<InsertAll(Zeros(tr.size), tr.pairs, x[1])>>
    [] tr.kind = "const" -> <<Elem(tr.op, x[1], tr.c)>>
    [] tr.kind = "two" -> <<Elem(tr.op, x[1], Widen(tr.op, Len(x[1]), tr.how, tr.map, x[2]))>>
    [] tr.kind = "concat" -> <<x[1] \o x[2]>>
    [] tr.kind = "mirror" -> Combine(x[1], x[2], x[3], IF tr.p THEN x[4] ELSE <<>>, tr.dl, tr.od, tr.kv, tr.A)
    [] tr.kind = "linear" -> LET nf == tr.nf nl == tr.nl IN
         <<Linear(x[1], IF nf THEN <<>> ELSE x[2], IF nl THEN <<>> ELSE x[IF nf THEN 2 ELSE 3], x[Len(x)], tr.psi, tr.coeff)>>
Ev(e) ==
  CASE "err" \in DOMAIN e -> <<last, "the object failed">>
    [] e.k = "conf" -> <<last, IF e.ok = e.refused THEN "wrong verdict on a configuration" ELSE "">>
    [] e.k = "run" -> LET w == Want(e.x) IN
         <<w, IF e.after # e.x THEN "an input was changed" ELSE IF \E k \in 1..Len(e.t) : e.t[k] # e.now THEN "an output does not carry the time of its step"
              ELSE IF e.out # w THEN "an output element is not the declared function of the inputs" ELSE "">>
    [] e.k = "look" -> <<last, IF last # <<>> /\ e.out # last THEN "an output changed without a run" ELSE "">>
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET r == Ev(tr.ev[i+1]) IN last' = r[1] /\ bad' = r[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
