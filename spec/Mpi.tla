-------------------------------- MODULE Mpi --------------------------------
(* Point-to-point messages between processes (C05).  net = messages sent and   *)
(* not yet received, in order of sending, each                                 *)
(*   [src, dst, tag, kind ("obj" or "buf:..."), size, id].                     *)
(* A receive takes the first message of its source and tag, and must expect    *)
(* the kind (and, for buffers, the size) that was sent.                        *)
EXTENDS Integers, Sequences, FiniteSets

Matches(m, e) == m.src = e.src /\ m.dst = e.dst /\ m.tag = e.tag
First(net, e) == CHOOSE k \in 1..Len(net) : Matches(net[k], e) /\ \A j \in 1..(k-1) : ~Matches(net[j], e)
Without(net, k) == SubSeq(net, 1, k - 1) \o SubSeq(net, k + 1, Len(net))

RecvVerdict(net, e) ==
  IF ~\E k \in 1..Len(net) : Matches(net[k], e) THEN "a message is received that was never sent"
  ELSE LET m == net[First(net, e)] IN
    IF m.id # e.id THEN "messages overtake one another"
    ELSE IF m.kind # e.kind THEN "a message is received as a different kind than it was sent"
    ELSE IF m.kind # "obj" /\ m.size # e.size THEN "a message has a different size than its receiver expects"
    ELSE ""
=============================================================================
