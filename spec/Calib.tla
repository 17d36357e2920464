------------------------------- MODULE Calib -------------------------------
(* Push-pull calibration.  In every step the sensors that measured (fresh) contribute their response to each command   *)
(* vector that moves a mode: the response divided by the amplitude is one measurement of that mode.  The column of     *)
(* mode first + m - 1 in the interaction matrix is the average of its measurements, or zero without any.                *)
(* Commands are in units of 1/4, responses in units of 1; quotients are exact by construction.                          *)
EXTENDS Vec, Integers, Sequences

Moved(c) == {k \in 1..Len(c) : c[k] # 0}
Quot(s, a) == [j \in 1..Len(s) |-> IF a > 0 THEN (4 * s[j]) \div a ELSE 0 - ((4 * s[j]) \div (0 - a))]

(* st: [sum |-> per sensor, per mode, vector; cnt |-> per sensor, per mode] *)
Start(ns, nmodes) == [sum |-> [w \in 1..Len(ns) |-> [m \in 1..nmodes |-> Zeros(ns[w])]],
                      cnt |-> [w \in 1..Len(ns) |-> [m \in 1..nmodes |-> 0]]]
Measure(st, w, m, q) == [sum |-> [st.sum EXCEPT ![w][m] = Add(@, q)], cnt |-> [st.cnt EXCEPT ![w][m] = @ + 1]]
RECURSIVE Each(_, _, _, _, _, _)
Each(st, cmds, sl, fresh, first, k) ==        \* k runs over pairs of command and sensor
  IF k > Len(cmds) * Len(sl) THEN st
  ELSE LET c == cmds[((k - 1) \div Len(sl)) + 1]
           w == ((k - 1) % Len(sl)) + 1
           mv == Moved(c)
           i == SetMin(mv)
           m == i - first
       IN Each(IF fresh[w] /\ mv # {} /\ m \in 1..Len(st.sum[w]) THEN Measure(st, w, m, Quot(sl[w], c[i])) ELSE st, cmds, sl, fresh, first, k + 1)
Frame(st, e, first) == Each(st, e.cmds, e.sl, e.fresh, first, 1)
Average(st, w, m, unit) == IF st.cnt[w][m] = 0 THEN st.sum[w][m] ELSE [j \in 1..Len(st.sum[w][m]) |-> (unit * st.sum[w][m][j]) \div st.cnt[w][m]]

(* Files: a calibration that may not overwrite leaves existing files as they are, and says so.                          *)
MustRefuse(existed, ow) == existed /\ ~ow
=============================================================================
