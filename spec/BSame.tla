------------------------------- MODULE BSame -------------------------------
(***************************************************************************)
(* Outputs and diagnostics are a function of the inputs and options.       *)
(* Observations of runs of the compiler are read one at a time; what was   *)
(* observed for a key must be what was observed for it before.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Obs == JsonDeserialize("observations.json")

VARIABLES k, seen
Init == k = 0 /\ seen = <<>>
Next == /\ k < Len(Obs)
        /\ k' = k + 1
        /\ seen' = IF Obs[k'].key \in DOMAIN seen THEN seen ELSE (Obs[k'].key :> Obs[k'].value) @@ seen
Spec == Init /\ [][Next]_<<k, seen>>
View == k
Report == k > 0 => (seen[Obs[k].key] = Obs[k].value \/ PrintT("DIFFERS " \o ToString(k)))
=============================================================================
