----------------------------- MODULE BDriverRun -----------------------------
(* BDriver on scenarios of a file; the outcomes are printed. *)
EXTENDS BDriver
FromFile == LET s == JsonDeserialize("scenarios.json") IN {s[i] : i \in DOMAIN s}
=============================================================================
