---------------------------- MODULE MCMultirate -----------------------------
(* Firing histories of three sensors through the reconstructor: the sum of the     *)
(* partial projections is the configured matrix applied to the vector in which the *)
(* stale sensors are zero, and nothing of a stale sensor ever leaks.  Every history *)
(* is printed and replayed into the real object.                                    *)
EXTENDS Multirate, TLC, Json
CONSTANT Len3
VARIABLES h, out, slopes
Sizes == <<1, 2, 1>>
Masks == << <<TRUE,TRUE,TRUE>>, <<TRUE,FALSE,FALSE>>, <<TRUE,TRUE,FALSE>>, <<FALSE,TRUE,TRUE>> >>
Mats == [k \in 1..4 |-> << <<k, 2, -k, 1>>, <<0, k, 1, 3>> >>]
V == [1..3 -> BOOLEAN]
Seq3(v) == <<v[1], v[2], v[3]>>
Cat(s) == Flat(s)
Init == h = <<>> /\ out = <<>> /\ slopes = <<<<1>>, <<2, 3>>, <<4>>>>
Next == /\ Len(h) < Len3
        /\ \E v \in V : LET m == Seq3(v) n == Len(h) + 1
                             s == [k \in 1..3 |-> IF v[k] THEN [j \in 1..Sizes[k] |-> 10 * n + k + j] ELSE slopes[k]] IN
             /\ h' = Append(h, m) /\ slopes' = s
             /\ out' = IF (\A k \in 1..3 : ~v[k]) THEN out ELSE IF Known(Masks, m) THEN Project(Masks, Mats, Sizes, 2, m, s) ELSE <<"refused">>
             /\ n = Len3 => PrintT("BEH " \o ToJson(h'))
Leak == LET m == h[Len(h)] IN
  (h # <<>> /\ Known(Masks, m)) =>
     /\ \A k \in 1..3 : ~m[k] => out[k] = Zeros(2)
     /\ Add(Add(out[1], out[2]), out[3]) = MatVec(MatrixFor(Masks, Mats, m), Cat([k \in 1..3 |-> IF m[k] THEN slopes[k] ELSE Zeros(Sizes[k])]))
Refused == (h # <<>> /\ ~Known(Masks, h[Len(h)]) /\ \E k \in 1..3 : h[Len(h)][k]) => out = <<"refused">>
Inv == IF h = <<>> THEN TRUE ELSE Leak /\ Refused
=============================================================================
