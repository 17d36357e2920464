------------------------------ MODULE MCSignal -------------------------------
(* The push-pull sequence pokes every actuated mode equally often with every        *)
(* element of the pattern, modes in increasing order within a pass, each poke held    *)
(* ns samples; a schedule has one entry per time and never goes back.                 *)
EXTENDS Signal, FiniteSets, TLC, Json
VARIABLES p, k, times
Init == /\ p \in [nm : 1..3, first : 0..2, amps : {<<1, 2, 3>>}, pat : {<<1>>, <<1, -1>>, <<-1, 1>>, <<1, -2, 1>>}, nc : 1..3, ns : 1..2, rep : BOOLEAN, full : BOOLEAN]
        /\ p.first < p.nm /\ k = 0 /\ times \in [1..3 -> 0..4]
        /\ (times[1] <= times[2] /\ times[2] <= times[3])
        /\ (k = 0 => PrintT("BEH " \o ToJson(p)))
Next == k < 12 /\ k' = k + 1 /\ UNCHANGED <<p, times>>
Once == k = 0 => \A m \in p.first..(p.nm - 1) : \A s \in 1..Len(p.pat) :
     Cardinality({j \in 0..(Length(p) - 1) : PokeMode(p, j) = m /\ PokeSign(p, j) = p.pat[s]})
       = p.nc * p.ns * Cardinality({r \in 1..Len(p.pat) : p.pat[r] = p.pat[s]})
Ordered == k + 1 < Length(p) => PokeMode(p, k + 1) >= PokeMode(p, k) \/ (p.full /\ PokeMode(p, k + 1) = p.first)
Held == (k + 1 < Length(p) /\ (k + 1) % p.ns # 0) => PushPull(p, k) = PushPull(p, k + 1)
Grp == (k < Length(p) /\ p.rep /\ ~p.full /\ (k \div p.ns) % p.nc # p.nc - 1) => PokeSign(p, k) = PokeSign(p, k + p.ns)
Sched == k < 6 => /\ Entry(times, k) <= Entry(times, k + 1)
                  /\ \A j \in 1..3 : (times[j] = k) => Entry(times, k) >= j + 1
                  /\ \A j \in 1..3 : (times[j] = k + 1) => Entry(times, k) <= j
Done == Entry(times, 5) = 4 /\ Entry(times, -1) = 1
=============================================================================
