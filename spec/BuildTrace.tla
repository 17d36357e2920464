----------------------------- MODULE BuildTrace -----------------------------
(* C07: tr.blocks as declared, tr.args the arguments each class accepts;        *)
(* ev: one "built" event per constructor call and one final "end".              *)
EXTENDS TraceBase, Build
VARIABLES tid, i, done, bad
tr == Traces[tid]
B == tr.blocks
ArgSet == [c \in DOMAIN tr.args |-> Rng(tr.args[c])]
ByUid(u) == {b \in Rng(B) : b.uid = u}
Built(e) ==
  IF ByUid(e.uid) = {} THEN "an object that is not configured was built"
  ELSE LET b == CHOOSE x \in ByUid(e.uid) : TRUE
           A == Rng(e.args)
           Decl(a) == {p \in Pars(b) : p.arg = a.arg}
           Wrong(a) == IF Decl(a) = {} THEN a.form # "default"
                       ELSE LET p == CHOOSE x \in Decl(a) : TRUE IN
                            a.form # p.form \/ a.v # p.v \/ a.names # p.names
           w == {a \in A : Wrong(a)}
       IN IF e.uid \in done THEN "built twice"
          ELSE IF e.cls # b.cls THEN "built from another class"
          ELSE IF {a.arg : a \in A} # ArgSet[b.cls] \ {"uid"} THEN "harness: arguments"
          ELSE IF w = {} THEN ""
          ELSE IF \E a \in w : Decl(a) = {} THEN "a parameter that is not in the block was given"
          ELSE IF \E a \in w : a.form \in {"ref", "list", "dict"} THEN "a reference is not the instance built for that name"
          ELSE "a parameter differs from the block"
End(e) ==
  IF e.res = "ok" THEN
    IF ~Legal(B, ArgSet) THEN "an illegal block was accepted"
    ELSE IF done # {b.uid : b \in {x \in Rng(B) : x.probe}} THEN "not every configured object was built"
    ELSE IF {o.name : o \in Rng(e.objs)} # NameSet(B) \/ Len(e.objs) # Len(B) THEN "object names"
    ELSE IF \E o \in Rng(e.objs) : LET b == B[Index(B, o.name)] IN
              o.uid # b.uid \/ o.cls # b.cls \/ o.v # b.v \/ o.selfname # o.name
         THEN "an object is not the one built for its name"
    ELSE ""
  ELSE IF Legal(B, ArgSet) THEN "a legal configuration was refused"
  ELSE IF e.stepped THEN "refused only after a step had run" ELSE ""
Init == tid \in 1..Len(Traces) /\ i = 0 /\ done = {} /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
             IF e.k = "built" THEN bad' = Built(e) /\ done' = done \cup {e.uid}
             ELSE bad' = End(e) /\ UNCHANGED done
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
