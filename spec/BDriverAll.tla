----------------------------- MODULE BDriverAll -----------------------------
(* BDriver on the whole space of BDriverSpace: Scenarios is Space. *)
EXTENDS BDriver, BDriverSpace
=============================================================================
