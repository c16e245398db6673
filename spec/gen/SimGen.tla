------------------------------- MODULE SimGen ------------------------------
(* Scenarios for simulated titrations and DIC-loss models (C16).            *)
EXTENDS GenBase

\* arguments of the simulator that are given (the others are defaults)
SimArgs == {"analyte_mass", "dic", "emf0", "fCO2_air", "salinity", "temperature", "start", "grid", "molinity",
            "total_alpha", "total_ammonia", "total_beta", "total_borate", "total_fluoride", "total_phosphate",
            "total_silicate", "total_sulfate", "total_sulfide", "opt_k_carbonic", "opt_k_bisulfate", "opt_k_fluoride", "opt_total_borate"}
Losses == {"none", "zero", "weak", "strong"}
Temps == {"scalar", "array", "int"}
Sim(given, los, t, k) == [kind |-> "sim", given |-> given, loss |-> los, temp |-> t, rep |-> k]
SimSingles == {Sim({x, y}, l, t, 0) : x \in SimArgs, y \in {"dic", "grid"}, l \in Losses, t \in Temps}
SimPlain == {Sim({}, "none", t, 0) : t \in Temps} \cup {Sim({}, "weak", "scalar", 0)}
SimRand == {Sim(RandomSubset(RandomElement(2..Cardinality(SimArgs)), SimArgs) \cup {"dic", "grid"}, RandomElement(Losses), RandomElement(Temps), k) :
              k \in 1..Pickn(20, 500)}
Fun == {[kind |-> "fun", fn |-> f, n |-> n, rate |-> r, rep |-> k] :
          f \in {"fitted", "future", "fco2"}, n \in {1, 2, 7, 30}, r \in {"zero", "weak", "strong", "negative"}, k \in 1..Pickn(3, 40)}
Loss == {[kind |-> "loss", n |-> n, spacing |-> s, start |-> st, nan |-> x, split |-> p, air |-> a, temp |-> t, trend |-> d, rep |-> k] :
           n \in {5, 9, 14}, s \in {"even", "uneven", "mixed"}, st \in {"zero", "late"}, x \in {"none", "tail"},
           p \in {"default", "high", "low"}, a \in {"default", "other"}, t \in {"constant", "drift"}, d \in {"loss", "gain"}, k \in 1..Pickn(1, 6)}
LossOK == {s \in Loss : ~(s.n = 5 /\ s.split = "low")}
C16S == Sample(Pickn(40, 100000), {s \in SimSingles : s.loss = "none"}) \cup Sample(Pickn(26, 1200), {s \in SimSingles : s.loss # "none"}) \cup SimPlain \cup SimRand \cup Fun \cup Sample(Pickn(130, 100000), LossOK) \cup {[kind |-> "known"]}
=============================================================================
