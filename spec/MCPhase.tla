------------------------------- MODULE MCPhase -------------------------------
(* The life-cycle automaton as a generator: an abstract loop over N objects in *)
(* groups, with nondeterministic readiness, drives Phase!Event; every run the  *)
(* abstract loop can make is accepted, and every run has ceil(T/dt) steps,     *)
(* all of them completed.                                                      *)
EXTENDS Phase, TLC
CONSTANTS N, MaxT
VARIABLES T, dt, s, bad, grp, k, gi, ph, todo, rdy, steps
vars == <<T, dt, s, bad, grp, k, gi, ph, todo, rdy, steps>>
c == [n |-> N, T |-> T, dt |-> dt, t0 |-> 0, boom |-> ""]
Ev(kk, o, r) == [k |-> kk, o |-> o, t |-> k * dt, ready |-> r, res |-> "ok"]
Feed(e) == LET r == Event(c, s, e) IN s' = r[2] /\ bad' = r[1]
Group(j) == {o \in 1..N : grp[o] = j}
Groups == {grp[o] : o \in 1..N}
Init == /\ T \in 0..MaxT /\ dt \in 1..3 /\ s = Start /\ bad = "" /\ grp \in {f \in [1..N -> 0..1] : f[1] = 0}
        /\ k = 0 /\ gi = 0 /\ ph = "setup" /\ todo = 1..N /\ rdy = {} /\ steps = 0
Keep == UNCHANGED <<T, dt, grp>>
Setup == /\ ph = "setup" /\ Keep
         /\ IF todo # {} THEN \E o \in todo : Feed(Ev("setup", o, FALSE)) /\ todo' = todo \ {o} /\ UNCHANGED <<k, gi, ph, rdy, steps>>
            ELSE /\ ph' = IF T > 0 THEN "check" ELSE "fin"
                 /\ todo' = IF T > 0 THEN Group(0) ELSE 1..N
                 /\ UNCHANGED <<s, bad, k, gi, rdy, steps>>
Check == /\ ph = "check" /\ Keep
         /\ IF todo # {} THEN \E o \in todo : Feed(Ev("check", o, FALSE)) /\ ph' = "checked" /\ todo' = {o} /\ UNCHANGED <<k, gi, rdy, steps>>
            ELSE ph' = "trigger" /\ todo' = rdy /\ UNCHANGED <<s, bad, k, gi, rdy, steps>>
Checked == /\ ph = "checked" /\ Keep
           /\ \E r \in BOOLEAN, o \in todo :
                Feed(Ev("checked", o, r)) /\ rdy' = (IF r THEN rdy \cup {o} ELSE rdy)
                /\ todo' = (Group(gi) \ s.seen) /\ ph' = "check" /\ UNCHANGED <<k, gi, steps>>
Trigger == /\ ph = "trigger" /\ Keep
           /\ IF todo # {} THEN \E o \in todo : Feed(Ev("trigger", o, FALSE)) /\ todo' = todo \ {o} /\ UNCHANGED <<k, gi, ph, rdy, steps>>
              ELSE ph' = "post" /\ todo' = rdy /\ UNCHANGED <<s, bad, k, gi, rdy, steps>>
Post == /\ ph = "post" /\ Keep
        /\ IF todo # {} THEN \E o \in todo : Feed(Ev("post", o, FALSE)) /\ todo' = todo \ {o} /\ UNCHANGED <<k, gi, ph, rdy, steps>>
           ELSE /\ rdy' = {} /\ UNCHANGED <<s, bad>>
                /\ IF gi = 0 /\ 1 \in Groups THEN gi' = 1 /\ ph' = "check" /\ todo' = Group(1) /\ k' = k /\ steps' = steps
                   ELSE /\ gi' = 0 /\ k' = k + 1 /\ steps' = steps + 1
                        /\ ph' = IF (k + 1) * dt < T THEN "check" ELSE "fin"
                        /\ todo' = IF (k + 1) * dt < T THEN Group(0) ELSE 1..N
Fin == /\ ph = "fin" /\ Keep
       /\ IF todo # {} THEN \E o \in todo : Feed(Ev("finalize", o, FALSE)) /\ todo' = todo \ {o} /\ ph' = ph
          ELSE Feed(Ev("end", 0, FALSE)) /\ ph' = "over" /\ todo' = {}
       /\ UNCHANGED <<k, gi, rdy, steps>>
Next == Setup \/ Check \/ Checked \/ Trigger \/ Post \/ Fin
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
Complete == ph = "over" => steps = NSteps(T, dt) /\ s.fin = 1..N
=============================================================================
