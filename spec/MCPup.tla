-------------------------------- MODULE MCPup --------------------------------
(* Laws of the measurement of four pupils, over small images: brightness does not matter; the *)
(* pupils of a common mask are translations of each other; the transposed image gives the      *)
(* transposed pupils; every threshold keeps the brightest pixel.                               *)
EXTENDS ICalib, TLC, Json
CONSTANTS H, T1s, T2s
Shapes == << {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>},
             {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>},
             {<<x, y>> : x \in -1..1, y \in -1..1} >>
VARIABLES a, pos, t1, t2, own, halo, on
q == Quadrants(H, H)
Centre(k) == <<q[k][1] + 1 + (pos[k] % 2), q[k][2] + 1 + (pos[k] \div 2)>>
Val(x, y) == IF \E k \in 1..4 : <<x - Centre(k)[1], y - Centre(k)[2]>> \in Shapes[a[k]] THEN 8 ELSE halo * ((x + (2 * y)) % 3)
Img == [k \in 1..(H * H) |-> Val((k - 1) % H, (k - 1) \div H)]
Trans == [k \in 1..(H * H) |-> Val((k - 1) \div H, (k - 1) % H)]
Init == a = <<1, 1, 1, 3>> /\ pos = <<0, 0, 0, 0>> /\ t1 = 6 /\ t2 = 16 /\ own = FALSE /\ halo = 0 /\ on = FALSE
Next == /\ ~on /\ on' = TRUE
        /\ a' \in [1..4 -> 1..3] /\ pos' \in [1..4 -> {0, 3}] /\ t1' \in T1s /\ t2' \in T2s /\ own' \in BOOLEAN /\ halo' \in {0, 1}
        /\ a'[1] <= a'[2] /\ a'[4] = 3 /\ pos'[4] = 0
M == Measure(Img, H, H, t1, t2, own)
Emit == on => PrintT("BEH " \o ToJson([img |-> Img, t1 |-> t1, t2 |-> t2, own |-> own]))
Found == on => M.ok
Bright == on => Measure(Scale(3, Img), H, H, t1, t2, own) = M
Alike == (on /\ ~own) => LET m == M IN \A k \in 1..4 : Cardinality(m.pup[k]) <= Cardinality(m.pup[2])
Tr(k) == ((k % H) * H) + (k \div H)
Swapped == (on /\ own) => LET N == Measure(Trans, H, H, t1, t2, TRUE)  O == M
           IN \* order of the output is (bottom right, bottom left, top left, top right)
              /\ {Tr(k) : k \in N.pup[1]} = O.pup[3] /\ {Tr(k) : k \in N.pup[2]} = O.pup[2] /\ {Tr(k) : k \in N.pup[4]} = O.pup[4]
=============================================================================
