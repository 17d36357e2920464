----------------------------- MODULE MCArchive ------------------------------
(* Two objects, two paths: a restored content is always one that was saved there last,   *)
(* a refused save changes nothing, and saving never changes the object.                    *)
EXTENDS Archive, TLC, Json, Integers
CONSTANT Steps
VARIABLES obj, file, next, hist, got, writes
vars == <<obj, file, next, hist, got, writes>>
Init == obj = <<1, 2>> /\ file = <<0, 0>> /\ next = 3 /\ hist = <<>> /\ got = <<0, 0>> /\ writes = <<>>
Log(h) == hist' = Append(hist, h) /\ (Len(hist') = Steps => PrintT("BEH " \o ToJson(hist')))
Save(o, p, ow) == /\ UNCHANGED <<obj, next, got>>
                  /\ IF MayWrite(file[p] # 0, ow) THEN file' = [file EXCEPT ![p] = obj[o]] /\ writes' = Append(writes, <<p, obj[o]>>)
                     ELSE UNCHANGED <<file, writes>>
                  /\ Log([op |-> "save", o |-> o, p |-> p, ow |-> ow])
Restore(p) == file[p] # 0 /\ got' = <<p, file[p]>> /\ UNCHANGED <<obj, file, next, writes>> /\ Log([op |-> "restore", o |-> 0, p |-> p, ow |-> ""])
Change(o) == obj' = [obj EXCEPT ![o] = next] /\ next' = next + 1 /\ UNCHANGED <<file, got, writes>> /\ Log([op |-> "change", o |-> o, p |-> 0, ow |-> ""])
Next == Len(hist) < Steps /\ (\/ \E o \in 1..2, p \in 1..2, ow \in {"on", "off"} : Save(o, p, ow)
                              \/ \E p \in 1..2 : Restore(p)
                              \/ \E o \in 1..2 : Change(o))
LastWrite(p) == LET S == {k \in 1..Len(writes) : writes[k][1] = p} IN
                IF S = {} THEN 0 ELSE writes[CHOOSE k \in S : \A m \in S : m <= k][2]
Holds == \A p \in 1..2 : file[p] = LastWrite(p)
\* with saves that never overwrite, a file keeps its first content
First == (\A k \in 1..Len(hist) : hist[k].ow # "on") => \A p \in 1..2 : Len(SelectSeq(writes, LAMBDA w : w[1] = p)) <= 1
=============================================================================
