----------------------------- MODULE SceneTrace -----------------------------
(* Scene documents and what the real parsers made of them. *)
EXTENDS TraceBase, Scene
Init == l = 1
Next == l' = l + 1 /\ IsEvent("scene") /\ Holds(Read(Ev))
=============================================================================
