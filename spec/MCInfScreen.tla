---------------------------- MODULE MCInfScreen -----------------------------
(* One layer, quarters of a pixel: the carried fraction stays below one pixel, no       *)
(* displacement is lost, whole shifts equal the integer part of the displacement while   *)
(* the wind does not reverse, and every pixel that survives a shift keeps its content.     *)
EXTENDS InfScreen, TLC, Json, Sequences, Integers
CONSTANTS Steps, Winds
WindSet == {-5, -2, 0, 1, 3, 4}
N == 3
VARIABLES acc, total, shifts, org, grid, made, rev, hist
vars == <<acc, total, shifts, org, grid, made, rev, hist>>
\* the grid holds the coordinates in the plane, and how often each cell was made
Init == /\ acc = 0 /\ total = 0 /\ shifts = 0 /\ org = 0 /\ made = 0 /\ rev = FALSE /\ hist = <<>>
        /\ grid = [p \in (1..N) \X (1..N) |-> <<p[1], p[2], 0>>]
Next == /\ Len(hist) < Steps
        /\ \E d \in Winds : \E ax \in {1} :
             LET a == acc + d k == Trunc(a, 4)
                 New(r, c) == <<r + org, c, made + 1>> IN
             /\ acc' = Carry(a, k, 4) /\ total' = total + d /\ shifts' = shifts + k
             /\ rev' = (rev \/ (d > 0 /\ total < 0) \/ (d < 0 /\ total > 0) \/ (\E j \in 1..Len(hist) : hist[j] * d < 0))
             /\ grid' = ShiftGrid(grid, N, k, 0, New)
             /\ org' = org + k /\ made' = made + 1
             /\ hist' = Append(hist, d)
             /\ (Len(hist') = Steps => PrintT("BEH " \o ToJson(hist')))
Lost == total = 4 * shifts + acc
Below == Abs(acc) < 4 /\ Abs(4 * shifts - total) < 4
IntPart == ~rev => shifts = Trunc(total, 4)
\* each pixel shows the cell of the plane at its position
Moved == \A p \in DOMAIN grid : grid[p][1] = p[1] + org /\ grid[p][2] = p[2]
\* cells made at different times are never mixed in a row across the wind
Lines == \A r \in 1..N : \A c \in 1..N : grid[<<r, c>>][3] = grid[<<r, 1>>][3]
=============================================================================
