-------------------------------- MODULE Phase --------------------------------
(* Life cycle of a run (C04) as an automaton over the calls its objects see.     *)
(* s.ph    "setup", "step", "fin", "over"                                        *)
(* s.k     index of the current step        s.seen  objects checked in this step *)
(* s.blk   "check", "trigger", "post": sub-phase of the current group            *)
(* s.ready ready objects of the group       s.trg, s.pst  those triggered, posted*)
EXTENDS Integers, Sequences, FiniteSets
Start == [ph |-> "setup", k |-> -1, seen |-> {}, set |-> {}, blk |-> "none",
          ready |-> {}, trg |-> {}, pst |-> {}, fin |-> {}, chk |-> 0]
\* number of steps of a run of total time T with step dt, both in time units
NSteps(T, dt) == (T + dt - 1) \div dt

GroupDone(s) == s.trg = s.ready /\ s.pst = s.ready
\* next state and verdict of one event;  c = [n, T, dt, t0]
NewGroup(s) == [s EXCEPT !.blk = "check", !.ready = {}, !.trg = {}, !.pst = {}]
OnCheck(c, s, e) ==
  LET first == s.ph = "setup"
      newstep == first \/ s.seen = 1..c.n
      k == IF newstep THEN s.k + 1 ELSE s.k
      s1 == IF newstep THEN [NewGroup(s) EXCEPT !.seen = {}, !.k = k, !.ph = "step"]
            ELSE IF s.blk = "check" THEN s ELSE NewGroup(s)
      v == IF s.ph \notin {"setup", "step"} THEN "step after the end of the run"
           ELSE IF first /\ s.set # 1..c.n THEN "step started before every object was set up"
           ELSE IF s.chk # 0 THEN "check inside another check"
           ELSE IF ~first /\ s.blk # "check" /\ ~GroupDone(s) THEN "next group started before the previous one completed"
           ELSE IF ~first /\ newstep /\ ~GroupDone(s) THEN "next step started before the previous one completed"
           ELSE IF e.o \in s1.seen THEN "object visited twice in a step"
           ELSE IF k >= NSteps(c.T, c.dt) THEN "more steps than the run time allows"
           ELSE IF e.t # c.t0 + k * c.dt THEN "step time is not t0 + k*dt"
           ELSE ""
  IN <<v, [s1 EXCEPT !.seen = @ \cup {e.o}, !.chk = e.o]>>
OnChecked(c, s, e) ==
  IF s.chk # e.o THEN <<"check result without check", s>>
  ELSE <<"", [s EXCEPT !.chk = 0, !.ready = IF e.ready THEN @ \cup {e.o} ELSE @]>>
OnTrigger(c, s, e) ==
  LET v == IF s.ph # "step" THEN "trigger outside a step"
           ELSE IF e.o \notin s.ready THEN "triggered an object that is not ready in this group"
           ELSE IF e.o \in s.trg THEN "object triggered twice in a step"
           ELSE IF s.pst # {} THEN "trigger after a completion in the same group"
           ELSE IF e.t # c.t0 + s.k * c.dt THEN "object triggered with another time"
           ELSE ""
  IN <<v, [s EXCEPT !.blk = "trigger", !.trg = @ \cup {e.o}]>>
OnPost(c, s, e) ==
  LET v == IF s.ph # "step" THEN "completion outside a step"
           ELSE IF e.o \notin s.ready THEN "completed an object that is not ready in this group"
           ELSE IF s.trg # s.ready THEN "completion before the whole group was triggered"
           ELSE IF e.o \in s.pst THEN "object completed twice in a step"
           ELSE ""
  IN <<v, [s EXCEPT !.blk = "post", !.pst = @ \cup {e.o}]>>
OnSetup(c, s, e) ==
  IF s.ph # "setup" THEN <<"set up after the first step", s>>
  ELSE IF e.o \in s.set THEN <<"object set up twice", s>>
  ELSE <<"", [s EXCEPT !.set = @ \cup {e.o}]>>
OnFinalize(c, s, e) ==
  LET v == IF s.ph = "setup" /\ NSteps(c.T, c.dt) > 0 THEN "finalized before the first step"
           ELSE IF s.ph = "step" /\ s.k + 1 # NSteps(c.T, c.dt) THEN "finalized before the last step"
           ELSE IF s.ph = "step" /\ (s.seen # 1..c.n \/ ~GroupDone(s)) THEN "finalized before the last step completed"
           ELSE IF e.o \in s.fin THEN "object finalized twice"
           ELSE ""
  IN <<v, [s EXCEPT !.ph = "fin", !.fin = @ \cup {e.o}]>>
\* the injected error of the trace, if any, must be what ends the run, at once
OnEnd(c, s, e) ==
  IF c.boom # "" THEN IF e.res = c.boom THEN <<"", s>> ELSE <<"the error of an object did not end the run", s>>
  ELSE IF e.res # "ok" THEN <<"run failed without an error in any object", s>>
  ELSE IF s.fin # 1..c.n THEN <<"object not finalized", s>>
  ELSE <<"", [s EXCEPT !.ph = "over"]>>
Event(c, s, e) ==
  IF s.ph = "dead" /\ e.k # "end" THEN <<"run continued after an error", s>>
  ELSE CASE e.k = "setup" -> OnSetup(c, s, e)
    [] e.k = "check" -> OnCheck(c, s, e)
    [] e.k = "checked" -> OnChecked(c, s, e)
    [] e.k = "trigger" -> OnTrigger(c, s, e)
    [] e.k = "post" -> OnPost(c, s, e)
    [] e.k = "finalize" -> OnFinalize(c, s, e)
    [] e.k = "boom" -> <<"", [s EXCEPT !.ph = "dead"]>>
    [] e.k = "end" -> OnEnd(c, s, e)
    [] OTHER -> <<"unknown event", s>>
=============================================================================
