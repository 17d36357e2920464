---------------------------- MODULE ParamsTrace -----------------------------
(* C06: tr.base is the first file, tr.ev the operations of the further files    *)
(* and of the command line in order, ending with what the run used.             *)
EXTENDS TraceBase, Params
VARIABLES tid, i, st, bad
tr == Traces[tid]
MapOf(m) == ToFun([k \in 1..Len(m) |-> [k |-> m[k].k, v |-> [single |-> m[k].single, refs |-> m[k].refs, txt |-> m[k].txt]]])
EntryOf(e) == IF e.kind = "map" THEN [kind |-> "map", map |-> MapOf(e.map)] ELSE [kind |-> "val", val |-> e.val]
BlockFun(b) == ToFun([k \in 1..Len(b) |-> [k |-> b[k].k, v |-> EntryOf(b[k])]])
SetFun(p) == ToFun([k \in 1..Len(p) |-> [k |-> p[k].k, v |-> BlockFun(p[k].block)]])
Parse(op) == CASE op.kind = "remove" -> op
               [] op.kind \in {"override", "add"} -> [op EXCEPT !.block = BlockFun(@)]
               [] op.kind = "cmd2" -> [op EXCEPT !.value = EntryOf(@)]
               [] op.kind = "cmd3" -> [op EXCEPT !.value = [single |-> @.single, refs |-> @.refs, txt |-> @.txt]]
Result(e) ==
  IF e.refused THEN IF st.ok THEN "a legal combination was refused" ELSE ""
  ELSE IF ~st.ok THEN "naming a missing object, or adding an existing one, was not refused"
  ELSE LET P == SetFun(e.params) IN
       IF Len(e.params) # Cardinality(DOMAIN P) THEN "duplicate object"
       ELSE IF DOMAIN P # DOMAIN st.P THEN "wrong set of objects"
       ELSE IF \E n \in DOMAIN P : DOMAIN P[n] # DOMAIN st.P[n] THEN "wrong entries in an object"
       ELSE IF \E n \in DOMAIN P : \E e2 \in DOMAIN P[n] \ {"inputs"} : P[n][e2] # st.P[n][e2] THEN "wrong value of an entry"
       ELSE IF P # st.P THEN "wrong connections" ELSE ""
Init == tid \in 1..Len(Traces) /\ i = 0 /\ st = Good(SetFun(Traces[tid].base)) /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF e.kind = "result" THEN bad' = Result(e) /\ st' = st
           ELSE /\ st' = Step(st, Parse(e), tr.idx)
                /\ bad' = IF e.kind \in {"cmd2", "cmd3"} \/ Promise(st, Parse(e), tr.idx, st') THEN "" ELSE "specification"
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
