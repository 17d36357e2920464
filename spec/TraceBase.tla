----------------------------- MODULE TraceBase -----------------------------
(* Common shape of the trace specifications: a batch of recorded traces, one   *)
(* behaviour per trace, a total verdict naming the failing clause.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
Rng(s) == {s[k] : k \in 1..Len(s)}
Say(id, k, clause) == PrintT(<<"VERDICT", id, k, clause>>)
=============================================================================
