------------------------------- MODULE MCShapes -------------------------------
(* C37.  Small worlds of the declared geometry: apertures, frames resampled in two steps, and    *)
(* the numbering of the Zernike polynomials.  RULE = "area": light is spread over the areas of   *)
(* the pixels (SPECULA); RULE = "point": the pixel under the centre is taken (loses light).      *)
EXTENDS Shapes, TLC, Json
CONSTANTS RULE, NMAX
VARIABLES st
Frames(r, c) == { [x \in 1..r |-> [y \in 1..c |-> ((x * f + y * y) % 5) + (IF x = 1 /\ y = 1 THEN 1 ELSE 0)]] : f \in 1..3 }
Mk(n, d, o, cx, cy, sq, inv) == [n |-> n, dd |-> d, p |-> o[1], q |-> o[2], cx |-> cx, cy |-> cy, square |-> sq, inverse |-> inv, arms |-> <<>>, width |-> 0, off |-> 0]
Worlds == { Mk(n, d, o, cx, cy, sq, inv) : n \in 2..NMAX, d \in {0, 1, 2}, o \in {<<0, 1>>, <<1, 3>>, <<3, 5>>}, cx \in {0, 1}, cy \in {0, -2}, sq \in BOOLEAN, inv \in BOOLEAN }
Real(w) == [w EXCEPT !.dd = IF @ = 0 THEN 2 * w.n ELSE IF @ = 1 THEN 2 * w.n - 1 ELSE 2 * ((w.n + 1) \div 2) + 1]
Masks == { Real(w) : w \in { v \in Worlds : v.dd # 0 \/ (v.cx = 0 /\ v.cy = 0) } }
Init == st \in [k : {"mask"}, w : Masks] \cup [k : {"frame"}, a : UNION { Frames(r, c) : r \in 1..5, c \in 1..3 }, nr : {0}, nc : {0}, v : {<<>>}]
                \cup [k : {"zern"}, j : 1..66]
Value(a, nr, nc, x, y) == IF RULE = "area" THEN Resampled(a, nr, nc, x, y)
                          ELSE a[((2 * x + 1) * Len(a)) \div (2 * nr) + 1][((2 * y + 1) * Len(a[1])) \div (2 * nc) + 1] * Len(a) * Len(a[1])
Next == /\ st.k = "frame" /\ st.nr = 0
        /\ \E nr \in 1..6 : \E nc \in 1..4 :
             st' = [st EXCEPT !.nr = nr, !.nc = nc, !.v = TLCEval([x \in 1..nr |-> [y \in 1..nc |-> Value(st.a, nr, nc, x - 1, y - 1)]])]
Spec == Init /\ [][Next]_st
px(n) == (0..n-1) \X (0..n-1)
\* the light is conserved, and shrinking by whole factors is a block mean
Conserved == st.k = "frame" /\ st.nr > 0 => Total(st.v) = st.nr * st.nc * Total(st.a)
Blocks == st.k = "frame" /\ st.nr > 0 /\ Len(st.a) % st.nr = 0 /\ Len(st.a[1]) % st.nc = 0 /\ RULE = "area" =>
            \A x \in 0..st.nr-1 : \A y \in 0..st.nc-1 : st.v[x+1][y+1] = st.nr * st.nc * BlockSum(st.a, Len(st.a) \div st.nr, Len(st.a[1]) \div st.nc, x, y)
\* apertures: a disc lies within the square, a centred one is symmetric, the obstruction is inside
Inside == st.k = "mask" => \A q \in px(st.w.n) : InMask([st.w EXCEPT !.square = FALSE, !.p = 0], q[1], q[2]) => InMask([st.w EXCEPT !.square = TRUE, !.p = 0], q[1], q[2])
Obstructed == st.k = "mask" => \A q \in px(st.w.n) : InMask(st.w, q[1], q[2]) => InMask([st.w EXCEPT !.p = 0], q[1], q[2])
Symmetric == st.k = "mask" /\ st.w.cx = 0 /\ st.w.cy = 0 => \A q \in px(st.w.n) :
                InMask(st.w, q[1], q[2]) = InMask(st.w, q[2], q[1]) /\ InMask(st.w, q[1], q[2]) = InMask(st.w, st.w.n - 1 - q[1], q[2])
\* every (order, azimuthal order, cosine or sine) has exactly one index; piston, tip and tilt come first
Numbered == st.k = "zern" => /\ AzOrder(st.j) <= RadialOrder(st.j) /\ (RadialOrder(st.j) - AzOrder(st.j)) % 2 = 0
                            /\ \A l \in 1..66 : l # st.j /\ RadialOrder(l) = RadialOrder(st.j) /\ AzOrder(l) = AzOrder(st.j) => AzOrder(l) > 0 /\ l % 2 # st.j % 2
\* the sum of the second derivatives of a harmonic polynomial vanishes: its gradient is that of (x+iy)^n
Gradient == st.k = "zern" /\ st.j <= 15 /\ RadialOrder(st.j) = AzOrder(st.j) /\ st.j > 1 =>
              \A x, y \in -3..3 : ZD(st.j, x, y, 4, 1) * x + ZD(st.j, x, y, 4, 2) * y = RadialOrder(st.j) * Z0(st.j, x, y, 4)
Emit == /\ st.k = "mask" => PrintT("BEH " \o ToJson([what |-> "mask", w |-> st.w]))
        /\ st.k = "frame" /\ st.nr > 0 => PrintT("BEH " \o ToJson([what |-> "frame", a |-> st.a, nr |-> st.nr, nc |-> st.nc]))
==============================================================================
