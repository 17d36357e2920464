---------------------------- MODULE ArchiveTrace ----------------------------
(* C25: trace [objs (identities of the contents at the start), ev].  Contents and file  *)
(* bytes are numbered by the harness: equal numbers, equal arrays and attributes.          *)
(* ev: [op "save", o, p, ow, res "ok" | "refused" | "failed", now (contents of all objects    *)
(* afterwards), bytes (of all files)], [op "restore", p, res, got, now, bytes],                *)
(* [op "change", o, now].                                                                        *)
EXTENDS TraceBase, Archive
VARIABLES tid, i, obj, file, bytes, bad
tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ obj = Traces[tid].objs /\ file = [p \in 1..3 |-> 0] /\ bytes = [p \in 1..3 |-> 0] /\ bad = ""
Others(e, p) == \A q \in 1..3 : q # p => e.bytes[q] = bytes[q]
Next == /\ bad = "" /\ i < Len(tr.ev)
        /\ LET e == tr.ev[i+1] IN
           IF e.op = "change" THEN obj' = e.now /\ UNCHANGED <<file, bytes>> /\ bad' = ""
           ELSE IF e.op = "save" THEN
             LET ex == file[e.p] # 0 IN
             /\ obj' = e.now /\ bytes' = e.bytes
             /\ file' = IF e.res = "ok" THEN [file EXCEPT ![e.p] = obj[e.o]] ELSE file
             /\ bad' = IF e.now # obj THEN "saving changed an object"
                       ELSE IF ~Others(e, e.p) THEN "saving changed another file"
                       ELSE IF e.res = "ok" /\ ~MayWrite(ex, e.ow) THEN "a file was overwritten with overwriting off"
                       ELSE IF e.res # "ok" /\ ~MayRefuse(ex, e.ow) THEN "an object could not be saved"
                       ELSE IF e.res # "ok" /\ e.bytes[e.p] # bytes[e.p] THEN "a refused save changed the file"
                       ELSE ""
           ELSE
             /\ UNCHANGED <<obj, file, bytes>>
             /\ bad' = IF e.now # obj THEN "restoring changed an object"
                       ELSE IF e.bytes # bytes THEN "restoring changed a file"
                       ELSE IF e.res # "ok" THEN "a saved object could not be restored"
                       ELSE IF e.got # file[e.p] THEN "the restored object differs from the saved one"
                       ELSE ""
        /\ i' = i + 1 /\ UNCHANGED tid
        /\ (bad' # "" \/ i' = Len(tr.ev)) => Say(tr.id, i', bad')
=============================================================================
