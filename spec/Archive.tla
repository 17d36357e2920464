------------------------------ MODULE Archive -------------------------------
(* C25: objects with a content, and files that hold contents.  0 is "no file".  *)
EXTENDS Naturals, Sequences
\* what a save may do: write the content, or refuse; "class" leaves the choice for an existing
\* file to the class
MayWrite(exists, ow) == ~exists \/ ow \in {"on", "class"}
MayRefuse(exists, ow) == exists /\ ow \in {"off", "class"}
=============================================================================
