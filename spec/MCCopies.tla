----------------------------- MODULE MCCopies -----------------------------
(* The memory behind the objects: each points to a cell.  Transfers write into the cell of the copy, or give it a     *)
(* fresh one; set writes into the object's cell, or (first value) into a fresh one.  Checked: no two of the objects    *)
(* and the caller's array ever share a cell, and every step is the step Apply of Copies on what a user sees.           *)
EXTENDS Copies, FiniteSets, TLC, Json
CONSTANTS N, Depth
VARIABLES heap, ptr, tm, hist, given
vars == <<heap, ptr, tm, hist, given>>
Objs == 1..N
Fresh == Len(heap) + 1
See == [c |-> [o \in Objs |-> heap[ptr[o]]], t |-> tm]
V == Len(hist) + 10                      \* a value never used before

Init == /\ heap = [o \in 1..(N + 1) |-> o] /\ ptr = [o \in Objs |-> o] /\ given = N + 1
        /\ tm = [o \in Objs |-> o] /\ hist = <<>>

Put(o, v, realloc) == IF realloc THEN /\ heap' = Append(heap, v) /\ ptr' = [ptr EXCEPT ![o] = Fresh]
                                 ELSE /\ heap' = [heap EXCEPT ![ptr[o]] = v] /\ UNCHANGED ptr
Set == /\ heap' = Append([heap EXCEPT ![ptr[1]] = V], V)      \* the caller's array is a cell of its own
       /\ given' = Fresh /\ UNCHANGED <<ptr, tm>>
       /\ hist' = Append(hist, [op |-> "set", o |-> 1, f |-> 0, v |-> V, re |-> FALSE])
Poke == /\ heap' = [heap EXCEPT ![given] = V] /\ UNCHANGED <<ptr, tm, given>>
        /\ hist' = Append(hist, [op |-> "poke", o |-> 1, f |-> 0, v |-> V, re |-> FALSE])
Write(o, re) == /\ Put(o, V, re) /\ UNCHANGED <<tm, given>>
                /\ hist' = Append(hist, [op |-> "write", o |-> o, f |-> 0, v |-> V, re |-> re])
Stamp(o) == /\ tm' = [tm EXCEPT ![o] = V] /\ UNCHANGED <<heap, ptr, given>>
            /\ hist' = Append(hist, [op |-> "stamp", o |-> o, f |-> 0, v |-> V, re |-> FALSE])
Copy(o, f, re) == /\ Put(o, heap[ptr[f]], re) /\ tm' = [tm EXCEPT ![o] = tm[f]] /\ UNCHANGED given
                  /\ hist' = Append(hist, [op |-> "copy", o |-> o, f |-> f, v |-> 0, re |-> re])
Next == /\ Len(hist) < Depth
        /\ \/ Set \/ Poke
           \/ \E o \in Objs, re \in BOOLEAN : Write(o, re)
           \/ \E o \in Objs : o < 3 /\ Stamp(o)
           \/ \E o \in 2..N, f \in Objs, re \in BOOLEAN : f < o /\ Copy(o, f, re)
Spec == Init /\ [][Next]_vars

NoSharing == Cardinality({given} \cup {ptr[o] : o \in Objs}) = N + 1
Steps == [][See' = Apply(See, hist'[Len(hist')])]_vars
AfterCopy == LET n == Len(hist) IN n > 0 /\ hist[n].op = "copy" =>
             /\ See.c[hist[n].o] = See.c[hist[n].f] /\ See.t[hist[n].o] = See.t[hist[n].f]
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
=============================================================================
