----------------------------- MODULE DisplayTrace -----------------------------
(* C23.  mode, clock0, params (names of the parameters shown to clients), front (whether a       *)
(* front end listens); ev:                                                                      *)
(* [k "on", c] [k "off", c] [k "ask", c, names] [k "params", c]                                 *)
(* [k "step", objs (pairs name, object), clock, info, kept, failed]                             *)
(* [k "seen", got (pairs client, messages), st (reports), more (whether answers may be missing)] *)
EXTENDS TraceBase, Display
VARIABLES tid, i, s, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ s = Start(tr.clock0)
Objs(q) == [n \in {q[j][1] : j \in 1..Len(q)} |-> q[CHOOSE j \in 1..Len(q) : q[j][1] = n][2]]
Hello == <<[n |-> "", t |-> "params", a |-> tr.params]>>
Seen(e) ==
  LET G == Objs(e.got) IN
  CASE \E c \in DOMAIN s.due : c \notin DOMAIN G -> "a client received nothing"
    [] \E c \in DOMAIN G \ DOMAIN s.due : G[c] # <<>> -> "an unknown client received something"
    [] \E c \in DOMAIN s.due : ~Prefix(G[c], s.due[c]) -> "an answer is wrong, out of order or sent to another client"
    [] \E c \in s.on : Len(G[c]) # Len(s.due[c]) -> "an answer is missing"
    [] tr.front /\ e.st # s.st -> "the reports of the speed are wrong"
    [] OTHER -> ""
Ev(e) ==
  CASE e.k = "err" -> <<s, "the display failed">>
    [] e.k = "on" -> <<Connect(s, e.c, Hello), "">>
    [] e.k = "params" -> <<[s EXCEPT !.due[e.c] = @ \o Hello], "">>
    [] e.k = "off" -> <<Gone(s, e.c), "">>
    [] e.k = "ask" -> <<Ask(s, e.c, e.names), "">>
    [] e.k = "step" -> <<Step(s, tr.mode, Objs(e.objs), e.clock, e.info),
                         IF e.failed THEN "the simulation was stopped by the display"
                         ELSE IF ~e.kept THEN "an object of the simulation was changed by the display" ELSE "">>
    [] OTHER -> <<s, Seen(e)>>
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET r == Ev(tr.ev[i+1]) IN s' = r[1] /\ bad' = r[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
