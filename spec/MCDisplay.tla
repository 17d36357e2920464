------------------------------ MODULE MCDisplay ------------------------------
(* The channel between the simulation and the web process, with every interleaving of          *)
(* requests, steps, deliveries and disconnections.  Each client receives, at any time, a        *)
(* prefix of what Display says it is due, and all of it once the channel is empty.  With        *)
(* Rivals = TRUE two consumers share the channel and put back what is meant for the other       *)
(* (as the code once did): TLC then finds answers out of order.                                 *)
EXTENDS Display, TLC, Json
CONSTANTS MaxEv, Rivals
Clients == {1, 2}
Menu == {<<"v">>, <<"v", "z", "v">>, <<>>}
Obj(v) == [n \in {"v"} |-> [k |-> "one", a |-> <<[s |-> <<1>>, d |-> <<v>>]>>]]
VARIABLES s, v, clock, chan, got, st, h
vars == <<s, v, clock, chan, got, st, h>>
Init == /\ s = Connect(Connect(Start(0), 1, <<>>), 2, <<>>) /\ v = 0 /\ clock = 0
        /\ chan = <<>> /\ got = [c \in Clients |-> <<>>] /\ st = <<>> /\ h = <<>>
Log(e) == h' = Append(h, e)
Small == Len(h) < MaxEv
Request == /\ Small
           /\ \E c \in s.on, m \in Menu : s' = Ask(s, c, m) /\ Log([k |-> "ask", c |-> c, names |-> m])
           /\ UNCHANGED <<v, clock, chan, got, st>>
RECURSIVE Sent(_, _)
Sent(q, o) == IF q = <<>> THEN <<>>
  ELSE LET a == Answers("image", o, q[1][2]) IN [j \in 1..Len(a) |-> [c |-> q[1][1], m |-> a[j]]] \o Sent(Tail(q), o)
DoStep == /\ Small
          /\ \E d \in 0..1 :
               LET cl == clock + d
                   s1 == Step(s, "image", Obj(v + 1), cl, v + 1)
                   rep == IF Len(s1.st) > Len(s.st) THEN <<[c |-> 0, m |-> s1.st[Len(s1.st)]]>> ELSE <<>>
               IN /\ s' = s1 /\ v' = v + 1 /\ clock' = cl /\ chan' = chan \o rep \o Sent(s.q, Obj(v + 1))
                  /\ Log([k |-> "step", dt |-> d])
          /\ UNCHANGED <<got, st>>
Deliver == /\ chan # <<>> /\ UNCHANGED <<s, v, clock, h>> /\ chan' = Tail(chan)
           /\ LET x == chan[1] IN
              IF x.c = 0 THEN st' = Append(st, x.m) /\ UNCHANGED got
              ELSE IF x.c \in s.on THEN got' = [got EXCEPT ![x.c] = Append(@, x.m)] /\ UNCHANGED st ELSE UNCHANGED <<got, st>>
PutBack == Rivals /\ Len(chan) > 1 /\ chan' = Append(Tail(chan), chan[1]) /\ UNCHANGED <<s, v, clock, got, st, h>>
Leave == /\ Small /\ 2 \in s.on /\ s' = Gone(s, 2) /\ Log([k |-> "off", c |-> 2]) /\ UNCHANGED <<v, clock, chan, got, st>>
Next == Request \/ DoStep \/ Deliver \/ PutBack \/ Leave
InOrder == \A c \in Clients : Prefix(got[c], s.due[c])
Complete == chan = <<>> => \A c \in s.on : got[c] = s.due[c]
Reports == Prefix(st, s.st) /\ (chan = <<>> => st = s.st)
\* the number of end marks due to a client is the number of its requests served
Ends == \A c \in Clients : Cardinality({j \in 1..Len(s.due[c]) : s.due[c][j].t = "end"})
                           + Cardinality({j \in 1..Len(s.q) : s.q[j][1] = c}) = Cardinality({j \in 1..Len(h) : h[j].k = "ask" /\ h[j].c = c})
Emit == (Len(h) = MaxEv /\ chan = <<>> /\ s.q = <<>>) => PrintT("BEH " \o ToJson([h |-> h]))
=============================================================================
