------------------------------ MODULE GenBase ------------------------------
(* Export of scenarios: TLC evaluates the ASSUME of the generator module    *)
(* and writes the set of scenarios as JSON.  Random choices use TLC's -seed *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt

Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Pickn(q, t) == IF Thorough THEN t ELSE q
\* k random elements of S (all of it when it is smaller)
Sample(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
CONSTANT Scenarios      \* the set to export (see the .cfg files)
Export(S) == JsonSerialize(IOEnv.OUT, SetToSeq(S))
ASSUME Export(Scenarios)
=============================================================================
