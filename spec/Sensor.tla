------------------------------- MODULE Sensor -------------------------------
(* C35.  What a wavefront sensor sees.  A frame is a function of the field in front of the     *)
(* sensor when it was last triggered, and of nothing else: neither of the frames before it,    *)
(* nor of other sensors.  Contents of the field are tokens; the frame of a sensor for a        *)
(* content is given by reference frames, taken by one new sensor that never saw anything else. *)
(*   sensor:  parts  sequence, by trigger number modulo its length, of sequences of            *)
(*                   [cfg, w, map]: the frame is the sum, weighted with w, of the frames of    *)
(*                   the parts, part p seeing content map[c] where the sensor sees c           *)
(*            light  "field": the total of the frame is the light of the field; "scale": it is *)
(*                   proportional to it; "dark": a perfect coronagraph, which shows nothing of *)
(*                   a flat field f; "": none of these                                         *)
(*   frame:   bins   sums over fixed groups of pixels, relative to the total (Unit)            *)
(*            dist   [cfg -> [content -> distance]]: largest difference of any value of any    *)
(*                   output from the reference, in millionths                                  *)
(*            tot    total, in 1/1000 of the light of one pixel and S = 1                      *)
(*            pass   fraction of the light which the sensor declares to pass (Unit)            *)
EXTENDS Vec
Unit == 100000
Near(x, y, tol) == Abs(x - y) <= tol
Part(s, k) == s.parts[(k % Len(s.parts)) + 1]
(* a part contributes according to its weight and to the light it passes *)
W(x, ref, c) == x.w * (ref[x.cfg][x.map[c]].pass \div 100)
Weight(ps, ref, c) == Sum([j \in 1..Len(ps) |-> W(ps[j], ref, c)])
(* weighted sum of the reference frames of the parts *)
Mixed(ps, ref, c) == [b \in 1..Len(ref[ps[1].cfg][ps[1].map[c]].bins) |-> Sum([j \in 1..Len(ps) |-> W(ps[j], ref, c) * ref[ps[j].cfg][ps[j].map[c]].bins[b]])]
SameBins(ps, ref, c, bins) ==
  IF Len(ps) = 1 THEN LET r == ref[ps[1].cfg][ps[1].map[c]].bins IN Len(bins) = Len(r) /\ \A b \in 1..Len(r) : Near(bins[b], r[b], 2)
  ELSE LET m == Mixed(ps, ref, c)  w == Weight(ps, ref, c)
       IN Len(bins) = Len(m) /\ \A b \in 1..Len(m) : IF Abs(bins[b]) > 2 * Unit THEN FALSE ELSE Near(w * bins[b], m[b], 3 * w + m[b] \div 200)
(* a sensor that is not composed shows one of its reference frames, exactly *)
SameFrame(ps, c, o) == Len(ps) > 1 \/ o.dist[ps[1].cfg][ps[1].map[c]] <= 1
Total(s, ps, ref, c, S, lit, o) ==
  CASE s.light = "field" -> IF o.pass > 2 * Unit THEN FALSE ELSE Near(o.tot, (S * lit * (o.pass \div 10)) \div 10, 5 + (S * lit) \div 10)
    [] s.light = "scale" -> Near(o.tot, (S * ref[ps[1].cfg][ps[1].map[c]].pass) \div 100, 5 + S)
    [] s.light = "dark" -> ps[1].map[c] # "f" \/ o.tot = 0
    [] OTHER -> TRUE
Frame(s, ref, k, c, S, lit, o) ==
  LET ps == Part(s, k) IN
  CASE ~SameFrame(ps, c, o) -> "the frame is not that of a sensor which only sees this field"
    [] ~SameBins(ps, ref, c, o.bins) -> "the frame is not composed of those of its parts"
    [] ~Total(s, ps, ref, c, S, lit, o) -> "the light of the frame is not that of the field"
    [] OTHER -> ""
(* A Shack-Hartmann sensor is a grid of single lenslets: tok[k] the frame of one lenslet for    *)
(* the patch k of a field (shape: pixels relative to their total; lit: its light; c: centroid,  *)
(* in 1/1000 pixels; d: displacement due to its tilt), g the patches in front of each lenslet.  *)
Spots(tok) == \A k \in 1..Len(tok) : \A a \in 1..2 : Near(tok[k].c[a] - tok[1].c[a], tok[k].d[a], 150 + Abs(tok[k].d[a]) \div 5)
Grid(tok, g, blocks) == \A l \in 1..Len(g) : \A p \in 1..Len(tok[g[l]].shape) : Near(blocks[l].shape[p], tok[g[l]].shape[p], 2)
Shares(tok, g, blocks, S) == \A l \in 1..Len(g) : Near(blocks[l].tot, 1000 * S * tok[g[l]].lit, 1 + S * tok[g[l]].lit)
=============================================================================
