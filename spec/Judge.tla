-------------------------------- MODULE Judge ------------------------------
(***************************************************************************)
(* Checks recorded calls of the implementation against the contract.  One  *)
(* behaviour per recorded call: observed -> judged.                        *)
(***************************************************************************)
EXTENDS Contract, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, verdict

Init == case \in 1..Len(Cases) /\ verdict = "observed"

Next ==
    /\ verdict = "observed"
    /\ LET v == Verdict(Cases[case])
       IN  /\ PrintT("JUDGED|" \o ToString(case) \o "|" \o (IF v = "" THEN "ok" ELSE v) \o "|" \o Substance(Cases[case]))
           /\ verdict' = IF v = "" THEN "ok" ELSE v
    /\ UNCHANGED case

Spec == Init /\ [][Next]_<<case, verdict>>

\* The property, as an invariant over all recorded calls.
Conforms == verdict \in {"observed", "ok"}
=============================================================================
