-------------------------------- MODULE MCField --------------------------------
(* Laws of the kept results over all short histories of requests, forced requests and losses   *)
(* of files (an interrupted analysis, a cleaned directory): every answer is the true one,       *)
(* whatever was asked before, and an answered request is found again.  MCFieldRival: names      *)
(* without the start time, for which TLC finds a wrong answer.                                  *)
EXTENDS Field, TLC, Json
CONSTANTS T, Uses
VARIABLES files, h, ans
Dirs == {<<1>>, <<2>>, <<1, 2>>, <<2, 3>>}
R == << [kind |-> "psf", wl |-> 1, start |-> 1, mod |-> 1], [kind |-> "psf", wl |-> 1, start |-> 2, mod |-> 1],
        [kind |-> "psf", wl |-> 2, start |-> 1, mod |-> 1], [kind |-> "modal", wl |-> 1, start |-> 1, mod |-> 1],
        [kind |-> "modal", wl |-> 1, start |-> 1, mod |-> 2], [kind |-> "cube", wl |-> 1, start |-> 1, mod |-> 1] >>
Init == files = NoFiles /\ h = <<>> /\ ans = [k \in {} |-> 0]
Ask == \E k \in 1..Len(R), ds \in Dirs, force \in BOOLEAN :
          /\ (force => h # <<>>)
          /\ files' = After(files, ds, R[k], force, Uses)
          /\ ans' = [got |-> Answer(files', ds, R[k], Uses), want |-> Truth(ds, R[k])]
          /\ h' = Append(h, [lose |-> FALSE, k |-> k, ds |-> ds, force |-> force])
Lose == \E n \in DOMAIN files :
          /\ files' = [m \in DOMAIN files \ {n} |-> files[m]]
          /\ ans' = [k \in {} |-> 0]
          /\ h' = Append(h, [lose |-> TRUE, k |-> 0, ds |-> <<>>, force |-> FALSE])
Next == Len(h) < T /\ (Ask \/ Lose)
Emit == (Len(h) = T /\ ~h[T].lose) => PrintT("BEH " \o ToJson([h |-> h]))
Right == "got" \in DOMAIN ans => ans.got = ans.want
Kept == \A n \in DOMAIN files : \E k \in 1..Len(R), d \in 1..3 : files[n] = Value(d, R[k]) /\ n = Name(d, R[k], Uses)
Again == (h # <<>> /\ ~h[Len(h)].lose) => ~Recomputes(files, h[Len(h)].ds, R[h[Len(h)].k], FALSE, Uses)
=============================================================================
