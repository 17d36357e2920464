------------------------------ MODULE MCParams ------------------------------
(* Every sequence of three operations of further files (one per file), over     *)
(* objects a, b (present) and c (absent), for selected index 0.                 *)
EXTENDS Params, TLC, Json
VARIABLES st, hist, prev
Val(x) == [kind |-> "val", val |-> x]
In(single, refs) == [single |-> single, refs |-> refs, txt |-> ""]
R(o, t) == [o |-> o, t |-> t]
BlockOf(n, tag) == [class |-> Val("C"), p |-> Val(tag),
   inputs |-> [kind |-> "map", map |->
     IF n = "b" THEN [i |-> In(TRUE, <<R("a", "a.o")>>), l |-> In(FALSE, <<R("a", "a.o"), R("c", "c.o:-1"), R("a", "a.o:-1")>>)]
     ELSE [i |-> In(TRUE, <<R("b", "b.o:-1")>>)]]]
Base == [n \in {"a", "b"} |-> BlockOf(n, "base")]
Ops(k) == [kind : {"remove"}, names : {<<n>> : n \in {"a","b","c"}} \cup {<<"a", "b">>}, idx : {-1, 0, 1}]
     \cup {[kind |-> "add", name |-> n, block |-> BlockOf(n, ToString(k)), idx |-> x] : n \in {"a","b","c"}, x \in {-1, 0, 1}}
     \cup {[kind |-> "override", name |-> n, block |-> [p |-> Val(ToString(k))], idx |-> x] : n \in {"a","b","c"}, x \in {-1, 0, 1}}
     \cup {[kind |-> "override", name |-> "a", block |-> [q |-> Val(ToString(k)), inputs |-> [kind |-> "map", map |-> [j |-> In(TRUE, <<R("c", "c.o")>>)]]], idx |-> -1]}
Init == st = Good(Base) /\ hist = <<>> /\ prev = Good(Base)
Next == /\ Len(hist) < 3 /\ st.ok
        /\ \E op \in Ops(Len(hist) + 1) :
             /\ hist' = Append(hist, op) /\ prev' = st /\ st' = Step(st, op, 0)
             /\ PrintT("BEH " \o ToJson(hist'))
Kept == hist # <<>> => Promise(prev, hist[Len(hist)], 0, st)
=============================================================================
