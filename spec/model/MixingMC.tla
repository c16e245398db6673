------------------------------ MODULE MixingMC -----------------------------
(***************************************************************************)
(* Mass balance of every solute through a titration, for all subsets of    *)
(* titrant-borne solutes; adding for one molinity after another, as a      *)
(* calibration does, must leave no trace (every guess starts from the      *)
(* analyte's own contents).                                                *)
(***************************************************************************)
EXTENDS Mixing
VARIABLES k, adds, hist     \* point; solutes the titrant brings; molinities tried (unit 0.02 mol/kg)
vars == <<k, adds, hist>>
Factors == {"total_sulfate", "total_phosphate", "total_fluoride"}
Env == [total_borate |-> R("415"), total_fluoride |-> R("68"), total_sulfate |-> R("28200")]
Cfg == ("dic" :> R("2000")) @@ ("total_silicate" :> R("10")) @@ ("total_alpha" :> R("0"))
T0 == AnalyteTotals(Cfg, Env)
am == R("0.1")
Tm == <<R("0"), R("0.0004"), R("0.0021"), R("0.01")>>
Add(S) == [f \in S |-> IF f = "total_sulfate" THEN One ELSE R("0.25")]
Init == k \in 1..4 /\ adds \in SUBSET Factors /\ hist = <<>>
Next == Len(hist) < 3 /\ \E m \in {0, 3, 5, 10} : hist' = Append(hist, m) /\ UNCHANGED <<k, adds>>
Spec == Init /\ [][Next]_vars
D == DilutedTotals(T0, Tm, am)
Mol(m) == R(m) \otimes R("0.02")
\* contents after the last guess of the history, each evaluated on the analyte's own
W == IF hist = <<>> THEN D ELSE WithTitrant(D, Tm, am, Mol(hist[Len(hist)]), Add(adds))
\* the same by adding and taking away along the history
RECURSIVE Walk(_, _)
Walk(T, i) == IF i > Len(hist) THEN T
              ELSE LET back == IF i = 1 THEN T ELSE WithTitrant(T, Tm, am, RNeg(Mol(hist[i - 1])), Add(adds))
                   IN  Walk(WithTitrant(back, Tm, am, Mol(hist[i]), Add(adds)), i + 1)
Mass == Tm[k] \oplus am
Brought(f) == IF f \in adds /\ hist # <<>> THEN (Tm[k] \otimes Mol(hist[Len(hist)])) \otimes Add(adds)[f] ELSE Zero
Near(a, b) == Close(a, b, R("1e-17"), R("1e-12"))
Own(f) == IF f \in DOMAIN T0 THEN T0[f] ELSE Zero
Balance == \A f \in DOMAIN W : Near(W[f][k] \otimes Mass, (Own(f) \otimes am) \oplus Brought(f))
NothingLost == DOMAIN T0 \subseteq DOMAIN W /\ (hist # <<>> => DOMAIN W = DOMAIN T0 \cup adds)
AtStart == k = 1 => \A f \in DOMAIN W : Near(W[f][1], Own(f))
NoTrace == hist # <<>> => \A f \in DOMAIN W : Near(Walk(D, 1)[f][k], W[f][k])
Given == Near(T0["dic"], R("2e-3")) /\ "total_silicate" \in DOMAIN T0 /\ "total_alpha" \notin DOMAIN T0 /\ Near(T0["total_sulfate"], R("28.2e-3"))
Inv == Balance /\ NothingLost /\ AtStart /\ NoTrace /\ Given
=============================================================================
