------------------------------ MODULE SpecGen ------------------------------
(* Scenarios for speciation (C03) and electrode conversions (C17).          *)
EXTENDS GenBase

Tot == {"dic", "total_borate", "total_phosphate", "total_silicate", "total_ammonia", "total_sulfide",
        "total_alpha", "total_beta", "total_fluoride", "total_sulfate"}
\* every subset of the totals, on every scale; shapes and pK classes vary with
\* the subset so that each occurs with each family
Shapes == {"int", "scalar", "array", "k_array", "t_array", "all_array"}
PK == {"below", "above", "at", "mixed"}
C03Full == {[kind |-> "speciation", totals |-> t, scale |-> s, water |-> TRUE,
             shape |-> RandomElement(Shapes), pk |-> RandomElement(PK)] : t \in SUBSET Tot, s \in {1, 2, 3}}
C03Single == {[kind |-> "speciation", totals |-> t, scale |-> s, water |-> w, shape |-> h, pk |-> p] :
               t \in {{x} : x \in Tot} \cup {{}, Tot}, s \in {1, 2, 3}, w \in {TRUE, FALSE}, h \in Shapes, p \in PK}
C03Default == {[kind |-> "default_scale", totals |-> t, scale |-> 3, water |-> TRUE, shape |-> "array", pk |-> "mixed"] :
               t \in {{x} : x \in Tot} \cup {{}, Tot}}
C03Bad == {[kind |-> "bad_scale", totals |-> Tot, scale |-> s, water |-> TRUE, shape |-> "array", pk |-> "above"] : s \in {0, 4, 5, 7}}
C03S == C03Full \cup C03Single \cup C03Default \cup C03Bad

C17S == {[kind |-> "nernst", fn |-> f, shape |-> h, t |-> t, rep |-> k] :
           f \in {"emf_to_h", "emf_to_pH", "h_to_emf", "pH_to_emf", "f_to_demf0"},
           h \in {"scalar", "array", "emf_array", "t_array", "emf0_array", "matrix", "int"},
           t \in {"cold", "room", "hot", "sub"}, k \in 1..Pickn(6, 60)}
============================================================================
