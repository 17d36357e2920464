------------------------------- MODULE MCFlow -------------------------------
(* The step loop over any valid schedule (Sched!Verdict = "") of any graph of   *)
(* N objects: group by group check, trigger, post.  Objects publish or not,     *)
(* nondeterministically.  Shows that group-wise execution of a valid schedule   *)
(* delivers exactly the values C02 promises, for every graph and history.       *)
EXTENDS Flow, Sched, TLC
CONSTANTS N, Steps

VARIABLES g, order, grp, t, gi, ph, val, prev, seen, ready
vars == <<g, order, grp, t, gi, ph, val, prev, seen, ready>>

Pairs == {<<p, c>> : p \in 1..N, c \in 1..N}
Graph(f) == [n |-> N, imm |-> {e \in Pairs : f[e] = "imm"}, del |-> {e \in Pairs : f[e] = "del"}]
Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
Grps == {p \in [1..N -> 0..(N-1)] : p[1] = 0 /\ \A k \in 1..(N-1) : p[k+1] \in {p[k], p[k] + 1}}
Init == /\ \E f \in [Pairs -> {"no", "imm", "del"}] : g = Graph(f)
        /\ order \in Perms /\ grp \in Grps
        /\ Verdict(g, "ok", order, grp) = ""
        /\ t = 0 /\ gi = 0 /\ ph = "check"
        /\ val = [o \in 1..N |-> 0 - o] /\ prev = val       \* published tokens
        /\ seen = {} /\ ready = {}
Group == {order[k] : k \in {j \in 1..N : grp[j] = gi}}
Last == grp[N]
Token(o) == o + 10 * (t + 1)
Fresh(o) == \E p \in Producers(g, o) : val[p] = Token(p)
Check == /\ ph = "check"
         /\ ready' = {o \in Group : (Producers(g, o) = {} /\ \A p \in Objs(g) : <<p, o>> \notin g.del) \/ Fresh(o)}
         /\ ph' = "trigger" /\ UNCHANGED <<g, order, grp, t, gi, val, prev, seen>>
\* triggered in schedule order; each reads all its inputs, then writes (or not) at once
RECURSIVE Run(_, _, _, _)
Run(seq, v, s, pub) == IF seq = <<>> THEN <<v, s>>
  ELSE LET o == Head(seq) IN
       Run(Tail(seq), IF o \in pub THEN [v EXCEPT ![o] = Token(o)] ELSE v,
           s \cup {<<o, p, 0, v[p]>> : p \in Producers(g, o)}
             \cup {<<o, p, -1, v[p]>> : p \in {q \in Objs(g) : <<q, o>> \in g.del}}, pub)
Trigger == /\ ph = "trigger"
           /\ \E pub \in SUBSET ready :
                LET r == Run(SelectSeq(order, LAMBDA o : o \in ready), val, seen, pub)
                IN val' = r[1] /\ seen' = r[2]
           /\ ph' = "post" /\ UNCHANGED <<g, order, grp, t, gi, prev, ready>>
Post == /\ ph = "post" /\ ready' = {}
        /\ IF gi < Last THEN gi' = gi + 1 /\ ph' = "check" ELSE gi' = gi /\ ph' = "end"
        /\ UNCHANGED <<g, order, grp, t, val, prev, seen>>
Step == /\ ph = "end" /\ t + 1 < Steps
        /\ t' = t + 1 /\ gi' = 0 /\ ph' = "check" /\ prev' = val /\ seen' = {}
        /\ UNCHANGED <<g, order, grp, val, ready>>
Next == Check \/ Trigger \/ Post \/ Step
Spec == Init /\ [][Next]_vars
Promise == ph = "end" => \A r \in seen : r[4] = (IF r[3] = 0 THEN val[r[2]] ELSE prev[r[2]])
=============================================================================
