----------------------------- MODULE SensorTrace -----------------------------
(* C35.  Two kinds of traces.  kind = "bench": sensors share one field; ev: [t, put (content and *)
(* light of the field refreshed at this step, or ""), S, poll (sensors polled, in order), obs    *)
(* (after the step: name -> frame and its time), same (the field was left as it was)].           *)
(* kind = "grid": [tok, full (no light is lost), ev: [S, g, blocks]].                            *)
EXTENDS TraceBase, Sensor
VARIABLES tid, i, c, mem, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ c = "" /\ mem = <<>>
New == [n |-> 0, t |-> -1, bins |-> <<>>, tot |-> 0]
Old(x) == IF x \in DOMAIN mem THEN mem[x] ELSE New
(* a sensor runs if it is polled in a step at which the field was refreshed *)
Runs(e, x) == e.put # "" /\ x \in Rng(e.poll)
Judge(e, x) ==
  LET o == e.obs[x]  s == tr.sensors[x]  m == Old(x) IN
  IF Runs(e, x)
  THEN IF o.t # e.t THEN "the frame does not carry the time of its step" ELSE Frame(s, tr.ref, m.n, e.put, e.S, tr.lit, o)
  ELSE IF o.t # m.t THEN "a frame without a new field" ELSE IF m.n > 0 /\ (o.bins # m.bins \/ o.tot # m.tot) THEN "a frame changed without a new field" ELSE ""
Bench(e) ==
  LET N == DOMAIN e.obs
      v == [x \in N |-> TLCEval(Judge(e, x))]
  IN <<[x \in N |-> [n |-> Old(x).n + (IF Runs(e, x) THEN 1 ELSE 0), t |-> e.obs[x].t, bins |-> e.obs[x].bins, tot |-> e.obs[x].tot]],
       IF ~e.same THEN "a sensor changed the field it looked at" ELSE IF \E x \in N : v[x] # "" THEN v[CHOOSE x \in N : v[x] # ""] ELSE "">>
GridEv(e) == CASE ~Spots(tr.tok) -> "a tilted patch does not move the spot accordingly"
               [] ~Grid(tr.tok, e.g, e.blocks) -> "a spot is not that of its own patch of the field"
               [] tr.full /\ ~Shares(tr.tok, e.g, e.blocks, e.S) -> "a spot does not have the light of its patch"
               [] OTHER -> ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF "err" \in DOMAIN e THEN bad' = "a sensor failed" /\ UNCHANGED <<c, mem>>
           ELSE IF tr.kind = "grid" THEN bad' = GridEv(e) /\ UNCHANGED <<c, mem>>
           ELSE LET r == TLCEval(Bench(e)) IN mem' = r[1] /\ bad' = r[2] /\ c' = e.put
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
