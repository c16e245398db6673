----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation of independent executions.  Every line of the recorded *)
(* trace is one execution of the implementation with its inputs, PyCO2SYS's *)
(* answers (environment) and its outcome.  A step consumes one line and    *)
(* records the clauses of the specification it violates; clauses starting  *)
(* with "~" are notes (the specification does not determine the outcome).  *)
(* Lines are dealt to Shards independent chains so that TLC's workers      *)
(* share them; every line is consumed exactly once.                        *)
(***************************************************************************)
EXTENDS Vec, Json, IOUtils, FiniteSets

CONSTANT Failing(_)     \* event -> set of violated clauses
CONSTANT Shards
Trace == LoadNdJson(IOEnv.TRACE)
VARIABLE l
Judge(e) == IF Has(e, "died") THEN {"died"} ELSE Failing(e)
Init == l \in (1 - Shards)..0
Next == l + Shards <= Len(Trace) /\ l' = l + Shards
Spec == Init /\ [][Next]_l
\* The verdict on the line just consumed: reported, not fatal, so that one
\* run judges every line.  (State level: TLC caches LETs only there.)
Verdict ==
  l <= 0 \/ LET e == Trace[l]
                bad == TLCEval(Judge(e))
            IN  PrintT(<<"VERDICT", ToJson([id |-> e.id, bad |-> bad])>>)

\* helper: the clause is violated unless the condition holds
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
