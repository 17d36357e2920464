------------------------------- MODULE MCMpi -------------------------------
(* A run split over processes, at the level of messages.  Each rank runs a      *)
(* fixed program (generated below from graph, ranks and step groups):          *)
(*   send what is read with ':-1'; barrier; per group: receive, set up, send;  *)
(*   barrier; per step and group: receive and read, trigger, send              *)
(*   at the end per group: receive, finalize, send (not for ':-1').            *)
(* A message is a whole object ("obj") until its connection has carried an     *)
(* array, then a buffer.  All graphs of N objects, all assignments to Ranks    *)
(* ranks, all interleavings: no deadlock, a buffer always finds the object it  *)
(* belongs to, nothing is left over, and every read - also the ones at set-up  *)
(* - is the one a single process would make (Flow).                            *)
EXTENDS Mpi, TLC, Json
CONSTANTS N, Ranks, Steps, Kinds, EdgeKinds
VARIABLES g, rk, grp, kd, pc, val, net, valid, clone, pub, wrong, prog
vars == <<g, rk, grp, kd, pc, val, net, valid, clone, pub, wrong, prog>>

Obj == 1..N
R == 0..(Ranks - 1)
Pairs == {<<a, b>> \in Obj \X Obj : a < b}
\* edge kinds between a < b: "no", "imm" (a -> b now), "del" (b -> a, ':-1'), "both"
Conns == {<<a, b, 0>> : a \in Obj, b \in Obj} \cup {<<b, a, 1>> : a \in Obj, b \in Obj}
Has(c) == IF c[3] = 0 THEN c[1] < c[2] /\ g[<<c[1], c[2]>>] \in {"imm", "both"}
          ELSE c[1] > c[2] /\ g[<<c[2], c[1]>>] \in {"del", "both"}
Edges == {c \in Conns : Has(c)}
Remote(c) == rk[c[1]] # rk[c[2]]
\* kinds of objects: initially empty or not, publishing always, late or never
Fires(o, k) == CASE kd[o] = "full" -> TRUE [] kd[o] = "late" -> k > 1 [] OTHER -> FALSE
Init0(o) == IF kd[o] \in {"late", "never"} THEN 0 ELSE o
Raw(o) == IF Init0(o) = 0 THEN 0 ELSE 500 + o       \* before its own set-up
Token(o, k) == o + 10 * k

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])))
                 IN <<x>> \o SeqOf(S \ {x})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Op(k, c, o, s) == [k |-> k, c |-> c, o |-> o, s |-> s]
None == <<0, 0, 0>>
Sends(o, s, dl) == LET q == SeqOf({c \in Edges : c[1] = o /\ Remote(c) /\ (dl = "all" \/ (dl = "only" /\ c[3] = 1) \/ (dl = "skip" /\ c[3] = 0))})
                   IN [k \in 1..Len(q) |-> Op("send", q[k], o, s)]
Recvs(o, s) == LET q == SeqOf({c \in Edges : c[2] = o /\ Remote(c)}) IN [k \in 1..Len(q) |-> Op("recv", q[k], o, s)]
Mine(r, j) == SelectSeq([o \in Obj |-> o], LAMBDA o : rk[o] = r /\ (j = 0 \/ grp[o] = j))
Map(sq, F(_)) == Cat([k \in 1..Len(sq) |-> F(sq[k])])
Bar == <<Op("bar", None, 0, 0)>>
Group(r, s, j) == LET m == Mine(r, j) IN
     Map(m, LAMBDA o : Recvs(o, s) \o <<Op("read", None, o, s)>>)
  \o Map(m, LAMBDA o : <<Op("trig", None, o, s)>>)
  \o Map(m, LAMBDA o : Sends(o, s, "all"))
Setup(r, j) == Map(Mine(r, j), LAMBDA o : Recvs(o, 0) \o <<Op("setup", None, o, 0)>> \o Sends(o, 0, "all"))
Finish(r, j) == Map(Mine(r, j), LAMBDA o : Recvs(o, Steps + 1) \o <<Op("read", None, o, Steps + 1)>>
                                       \o <<Op("trig", None, o, Steps + 1)>> \o Sends(o, Steps + 1, "skip"))
Prog(r) == Map(Mine(r, 0), LAMBDA o : Sends(o, 0, "only")) \o Bar
        \o Cat([j \in 1..N |-> Setup(r, j)]) \o Bar
        \o Cat([s \in 1..Steps |-> Cat([j \in 1..N |-> Group(r, s, j)])])
        \o Cat([j \in 1..N |-> Finish(r, j)])

\* the step groups of the trigger order: after all immediate producers, not before a ':-1' reader
RECURSIVE Level(_, _)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Level(gg, o) == Max({1} \cup {Level(gg, p[1]) + 1 : p \in {q \in Pairs : q[2] = o /\ gg[q] \in {"imm", "both"}}}
                      \cup {Level(gg, p[1]) : p \in {q \in Pairs : q[2] = o /\ gg[q] = "del"}})
Init == /\ g \in [Pairs -> EdgeKinds]
        /\ g # [p \in Pairs |-> "no"]
        /\ rk \in [Obj -> R] /\ rk[1] = 0 /\ rk # [o \in Obj |-> 0]
        /\ grp = [o \in Obj |-> Level(g, o)]
        /\ kd \in [Obj -> Kinds]
        /\ pc = [r \in R |-> 1] /\ val = [o \in Obj |-> Raw(o)] /\ net = <<>>
        /\ valid = [c \in Edges |-> FALSE] /\ clone = [c \in Edges |-> -1]
        /\ pub = [o \in Obj |-> [k \in 0..(Steps + 1) |-> IF k = 0 THEN Init0(o) ELSE -1]] /\ wrong = "" /\ prog = [r \in R |-> Prog(r)]
        /\ PrintT("BEH " \o ToJson([n |-> N, steps |-> Steps, kd |-> kd, rk |-> rk,
                                    edges |-> SeqOf(Edges)]))

Next1(r) == prog[r][pc[r]]
Done(r) == pc[r] > Len(prog[r])
Adv(r) == pc' = [pc EXCEPT ![r] = @ + 1]
AtBar(r) == ~Done(r) /\ Next1(r).k = "bar"
Chan(c) == SelectSeq(net, LAMBDA m : m.c = c)
DoSend(r) == /\ ~Done(r) /\ Next1(r).k = "send"
             /\ LET c == Next1(r).c IN
                /\ net' = Append(net, [c |-> c, kind |-> IF valid[c] THEN "buf" ELSE "obj", v |-> val[c[1]]])
                /\ valid' = [valid EXCEPT ![c] = val[c[1]] # 0]
             /\ Adv(r) /\ UNCHANGED <<prog, g, rk, grp, kd, val, clone, pub, wrong>>
DoRecv(r) == /\ ~Done(r) /\ Next1(r).k = "recv" /\ Chan(Next1(r).c) # <<>>
             /\ LET c == Next1(r).c
                    m == Head(Chan(c))
                    k == CHOOSE k \in 1..Len(net) : net[k] = m /\ \A j \in 1..(k-1) : net[j].c # c
                IN /\ net' = Without(net, k) /\ clone' = [clone EXCEPT ![c] = m.v]
                   /\ wrong' = IF m.kind = "buf" /\ clone[c] <= 0 THEN "kind" ELSE wrong
             /\ Adv(r) /\ UNCHANGED <<prog, g, rk, grp, kd, val, valid, pub>>
DoRead(r) == /\ ~Done(r) /\ Next1(r).k = "read"
             /\ LET o == Next1(r).o
                    s == Next1(r).s
                    Sees(c) == IF Remote(c) THEN clone[c] ELSE val[c[1]]
                IN wrong' = IF \E c \in Edges : c[2] = o /\ Sees(c) # pub[c[1]][s - c[3]] THEN "read" ELSE wrong
             /\ Adv(r) /\ UNCHANGED <<prog, g, rk, grp, kd, val, net, valid, clone, pub>>
DoSetup(r) == /\ ~Done(r) /\ Next1(r).k = "setup"
              /\ LET o == Next1(r).o
                     Sees(c) == IF Remote(c) THEN clone[c] ELSE val[c[1]]
                 IN /\ val' = [val EXCEPT ![o] = Init0(o)]
                    /\ wrong' = IF \E c \in Edges : c[2] = o /\ Sees(c) # (IF c[3] = 0 THEN Init0(c[1]) ELSE Raw(c[1]))
                                 THEN "setup" ELSE wrong
              /\ Adv(r) /\ UNCHANGED <<prog, g, rk, grp, kd, net, valid, clone, pub>>
DoTrig(r) == /\ ~Done(r) /\ Next1(r).k = "trig"
             /\ LET o == Next1(r).o
                    s == Next1(r).s
                    v == IF Fires(o, s) THEN Token(o, s) ELSE val[o]
                IN val' = [val EXCEPT ![o] = v] /\ pub' = [pub EXCEPT ![o][s] = v]
             /\ Adv(r) /\ UNCHANGED <<prog, g, rk, grp, kd, net, valid, clone, wrong>>
Barrier == /\ \A r \in R : AtBar(r)
           /\ pc' = [r \in R |-> pc[r] + 1] /\ UNCHANGED <<prog, g, rk, grp, kd, val, net, valid, clone, pub, wrong>>
Next == Barrier \/ \E r \in R : DoSend(r) \/ DoRecv(r) \/ DoRead(r) \/ DoSetup(r) \/ DoTrig(r)
Spec == Init /\ [][Next]_vars

NoDeadlock == (\A r \in R : Done(r)) \/ ENABLED Next
Right == wrong = ""
Clean == (\A r \in R : Done(r)) => net = <<>>
=============================================================================
