------------------------------- MODULE MCGate -------------------------------
(* The readiness protocol as a closed system: an object with two inputs, time  *)
(* that advances, producers that refresh, and a caller that may call check,    *)
(* trigger and completion in any order.  Shows that the protocol runs the      *)
(* object only with fresh data, and enumerates the call sequences that are     *)
(* replayed into the real objects.                                             *)
EXTENDS Flow, TLC, Json
CONSTANTS MaxOps
VARIABLES ops, t, gen, flag, chkt, runs, last
vars == <<ops, t, gen, flag, chkt, runs, last>>
In == <<[opt |-> FALSE, single |-> TRUE, vals |-> <<gen[1]>>], [opt |-> TRUE, single |-> TRUE, vals |-> <<gen[2]>>]>>
Init == ops = <<>> /\ t = 0 /\ gen = <<0 - 1, 0 - 1>> /\ flag = FALSE /\ chkt = 0 - 1 /\ runs = 0 /\ last = "ok"
Do(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
\* useless repetitions are cut to keep the enumeration small
Adv == Do("adv") /\ t < 2 /\ (ops # <<>> => ops[Len(ops)] # "adv") /\ t' = t + 1 /\ UNCHANGED <<gen, flag, chkt, runs, last>>
Fresh(j) == Do("fresh" \o ToString(j)) /\ gen[j+1] # t /\ gen' = [gen EXCEPT ![j+1] = t] /\ UNCHANGED <<t, flag, chkt, runs, last>>
Check == Do("check") /\ flag' = ReadyRule(In, t) /\ chkt' = t /\ last' = "ok" /\ UNCHANGED <<t, gen, runs>>
Trigger == /\ Do("trigger")
           /\ last' = IF flag THEN "ok" ELSE "refused"
           /\ runs' = IF flag THEN runs + 1 ELSE runs
           /\ UNCHANGED <<t, gen, flag, chkt>>
Post == /\ Do("post") /\ last' = (IF flag THEN "ok" ELSE "refused") /\ flag' = FALSE
        /\ UNCHANGED <<t, gen, chkt, runs>>
Next == \/ /\ (Adv \/ Fresh(0) \/ Fresh(1) \/ Check \/ Trigger \/ Post)
           /\ (Len(ops') = MaxOps => PrintT("BEH " \o ToJson([ops |-> ops'])))
Spec == Init /\ [][Next]_vars
\* whoever is ready has data at least as new as the step of its last check
FreshWhenReady == flag => \E j \in 1..2 : gen[j] >= chkt
=============================================================================
