----------------------------- MODULE SubapTrace -------------------------------
(* C31, calibration of the subapertures: an n x n image is divided into nl x nl blocks;       *)
(* those with more than th/8 of the light of the brightest one become subapertures, each       *)
(* with the pixels of its own block and its own place in the map.                              *)
(* ev: [px, ok, got (sequence of [m, p]), nx, ny].                                             *)
EXTENDS TraceBase, Vec, FiniteSets
VARIABLES tid, i, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
B == tr.n \div tr.nl
\* pixels of the block in row r, column c (from 0), row after row
Block(r, c) == [k \in 1..(B * B) |-> (r * B + ((k - 1) \div B)) * tr.n + c * B + ((k - 1) % B) + 1]
Places == (0..(tr.nl - 1)) \X (0..(tr.nl - 1))
Light(px, q) == SumTo(LAMBDA k : px[Block(q[1], q[2])[k]], B * B)
Valid(px) == LET m == SetMax({Light(px, q) : q \in Places}) IN {q \in Places : 8 * Light(px, q) > tr.th * m}
Want(px) == {[m |-> q[1] * tr.nl + q[2], p |-> Block(q[1], q[2])] : q \in Valid(px)}
Ev(e) ==
  IF "err" \in DOMAIN e THEN "the object failed"
  ELSE LET w == Want(e.px) got == {e.got[k] : k \in 1..Len(e.got)} IN
  CASE e.ok # (w # {}) -> "wrong verdict on an image"
    [] ~e.ok -> ""
    [] e.nx # tr.nl \/ e.ny # tr.nl -> "wrong size of the map"
    [] Len(e.got) # Cardinality(got) -> "a subaperture occurs twice"
    [] got # w -> "a subaperture is not a block with enough light, or not in its place"
    [] OTHER -> ""
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ bad' = Ev(tr.ev[i+1])
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
