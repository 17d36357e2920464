------------------------------ MODULE MpiTrace ------------------------------
(* C05: one split run.  Events, in the order the broker saw them: send, recv,   *)
(* barrier, stuck (an operation that can never complete); then one read event  *)
(* per object, step and phase with the values in one process (a) and split (b).*)
(* tr.res[r] = "" if rank r ended normally.                                     *)
EXTENDS TraceBase, Mpi
VARIABLES tid, i, net, bad
tr == Traces[tid]
Failed == \E r \in 1..Len(tr.res) : tr.res[r] # ""
Judge(e) ==
  IF e.op = "send" THEN <<"", Append(net, e)>>
  ELSE IF e.op = "recv" THEN
    LET v == RecvVerdict(net, e) IN
      <<v, IF v = "" THEN Without(net, First(net, e)) ELSE net>>
  ELSE IF e.op = "stuck" THEN <<"a process waits for something that never happens", net>>
  ELSE IF e.op = "read" THEN
    <<IF Failed THEN "a process failed"
      ELSE IF e.a # e.b THEN "an input differs from the run in one process" ELSE "", net>>
  ELSE <<"", net>>
Init == tid \in 1..Len(Traces) /\ i = 0 /\ net = <<>> /\ bad = ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET j == Judge(tr.ev[i+1])
               end == i + 1 = Len(tr.ev)
               w == IF j[1] # "" THEN j[1]
                    ELSE IF end /\ Failed THEN "a process failed"
                    ELSE IF end /\ j[2] # <<>> THEN "a message is never received" ELSE ""
           IN bad' = w /\ net' = j[2]
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
