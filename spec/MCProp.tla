------------------------------- MODULE MCProp --------------------------------
(* Laws of the propagation, over all small geometries: content is only interpolated, never   *)
(* created; moving the layer is moving the line of sight the other way; a quarter turn of     *)
(* layer and content together changes nothing; equal layers add up; far sources see cylinders. *)
EXTENDS Prop, TLC, Json
CONSTANTS MaxU, MaxS
W == [N |-> 2, Q |-> 4, am |-> 1, pp |-> <<>>]
n == 5
Ramp == [k \in 1..(n * n) |-> ((k * k * 7 + 3 * k) % 11)]
One == [k \in 1..(n * n) |-> 1]
VARIABLES s, l, w
Init == /\ s \in [ux : {0 - MaxU, 0, 1, MaxU}, uy : {0, 2}, H : {0, 1, 2, 4}]
        /\ l \in [n : {n}, h : {0, 1, 2}, sx : {0, MaxS, 0 - MaxS}, sy : {0, 3}, rot : 0..3, mag : {1, 2}]
        /\ w \in {W, [W EXCEPT !.am = 2], [W EXCEPT !.pp = <<2, -2>>]}
Ok == ~Refused(w, <<s>>, <<l>>)
Exact == \* positions are multiples of the unit
  \/ s.H = 0 \/ l.h = 0 \/ l.h < s.H
Next == FALSE /\ UNCHANGED <<s, l, w>>
Emit == (Ok /\ Exact) => PrintT("BEH " \o ToJson([s |-> s, l |-> l, w |-> w]))
V(v) == OnPupil(w, s, l, v)
Content == (Ok /\ Exact) => \A k \in 1..4 : V(Ramp)[k] >= 0 /\ V(Ramp)[k] <= 16 * 10 /\ V(One)[k] = 16
Linear == (Ok /\ Exact) => V(Add(Ramp, One)) = Add(V(Ramp), V(One))
\* shift against displacement (off the clamped border both are the same place)
Moved == (Ok /\ Exact /\ l.h = 1 /\ w.am = 1 /\ w.pp = <<>> /\ (~Cut(w, s, l)))
  => LET s2 == [s EXCEPT !.ux = 0, !.uy = 0]
         l2 == [l EXCEPT !.sx = l.sx - s.ux, !.sy = l.sy - s.uy]
     IN (~Cut(w, s2, l2)) => OnPupil(w, s2, l2, Ramp) = V(Ramp)
\* turning the content back by a quarter turn and the layer forward is the identity
Turned(v) == [k \in 1..(n * n) |-> LET x == (k - 1) % n  y == (k - 1) \div n IN v[(n - 1 - x) * n + y + 1]]
Turn == (Ok /\ Exact /\ (~Cut(w, s, l)))
  => LET l2 == [l EXCEPT !.rot = (l.rot + 1) % 4] IN (~Cut(w, s, l2)) => OnPupil(w, s, l2, Ramp) = V(Turned(Ramp))
Twice == (Ok /\ Exact) => Field(w, s, <<l, l>>, <<One, One>>, <<Ramp, Ramp>>, 1).P
                          = Field(w, s, <<l>>, <<One>>, <<Scale(2, Ramp)>>, 1).P
=============================================================================
