------------------------------- MODULE RunGen ------------------------------
(***************************************************************************)
(* Scenarios for single titrations: every dimension of a titration that     *)
(* the solver's behaviour can depend on, as a finite set of classes.  The   *)
(* driver turns a class into numbers (VERIF_SEED).                          *)
(***************************************************************************)
EXTENDS GenBase

Modes == {"emf", "pH_adjust", "pH", "pH_gran"}
UnitsD == {"ml", "g", "kg", "ML", "KG"}
Comps == {<<>>, <<"dic">>, <<"dic", "po4", "si">>, <<"dic", "nh3", "h2s">>, <<"dic", "alpha">>,
          <<"dic", "alpha", "beta">>, <<"po4">>, <<"dic", "po4", "si", "nh3", "h2s", "alpha", "beta">>}
Adds == {<<>>, <<"sulfate">>, <<"phosphate">>, <<"fluoride">>, <<"sulfate", "phosphate", "fluoride">>}
SUBSET1 == {<<"sulfate">>, <<"phosphate">>, <<"fluoride">>, <<"sulfate", "phosphate">>, <<"sulfate", "fluoride">>,
            <<"phosphate", "fluoride">>, <<"sulfate", "phosphate", "fluoride">>}
Windows == {"default", "low", "narrow", "wide", "high", "min", "max", "thin", "upper", "all", "any"}
\* the rows of the file: some amounts twice, out of order, with faulty points
DataD == {"repeat", "shuffle", "spikes", "tail"}
Salts == {<<>>, <<"total_sulfate">>, <<"total_borate", "total_fluoride">>,
          <<"total_borate", "total_fluoride", "total_sulfate">>}
KGiven == {<<>>, <<"k_bisulfate">>, <<"k_fluoride", "k_carbonic_1">>, <<"k_water", "k_borate", "k_carbonic_2">>,
           <<"k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3", "k_silicate", "k_ammonia", "k_sulfide">>}
\* constants that can be given or not whatever the composition
KFree == {"k_ammonia", "k_bisulfate", "k_borate", "k_carbonic_1", "k_carbonic_2", "k_fluoride", "k_phosphoric_1", "k_phosphoric_2", "k_phosphoric_3",
          "k_silicate", "k_sulfide", "k_water"}
AllComp == <<"dic", "po4", "si", "nh3", "h2s", "alpha", "beta">>
None == [x \in {} |-> 0]
\* extremes of the inputs' ranges
Exts == {"tiny", "bigtot", "fresh", "salty", "cold", "hot", "freezing", "lowalk", "highalk", "smallmass", "bigmass",
         "strong", "weak", "many", "late", "integers", "acidic"}
Opts == {None, [opt_total_borate |-> 2], [opt_k_bisulfate |-> 2], [opt_k_carbonic |-> 4],
         [opt_k_fluoride |-> 2, opt_k_carbonic |-> 13], [opt_k_carbonic |-> 7]}

\* a random titration (the product has about 2e9 elements)
RandRun(modes) ==
  [mode |-> RandomElement(modes), unit |-> RandomElement(UnitsD), dens |-> RandomElement({"calc", "given"}),
   titrant |-> RandomElement({"HCl", "H2SO4"}), mol |-> RandomElement({"default", "given"}),
   analyte |-> RandomElement({"mass", "volume", "both"}), temp |-> RandomElement({"const", "ramp", "override"}),
   nu |-> RandomElement({"1", "2", "1.5", "0.8"}), window |-> RandomElement(Windows),
   comp |-> RandomElement(Comps), adds |-> RandomElement(Adds), salts |-> RandomElement(Salts),
   kgiven |-> RandomElement(KGiven), opts |-> RandomElement(Opts),
   noise |-> RandomElement({"none", "small", "big"}), double |-> RandomElement({"default", "yes", "no"}),
   init |-> RandomElement({"none", "alk", "emf0", "both"}), logic |-> RandomElement({"default", "v23.7+", "legacy"}),
   ext |-> IF RandomElement(1..3) = 1 THEN RandomElement(Exts) ELSE "",
   data |-> IF RandomElement(1..5) = 1 THEN RandomElement(DataD) ELSE "plain"]
RandRuns(k, modes) == {RandRun(modes) : i \in 1..k}
\* The same with one class everywhere, for one-factor-at-a-time scenarios
\* fields that only some generators vary default in the driver
Plain == [mode |-> "emf", unit |-> "g", dens |-> "calc", titrant |-> "HCl", mol |-> "default",
          analyte |-> "mass", temp |-> "const", nu |-> "1", window |-> "default", comp |-> <<"dic">>,
          adds |-> <<>>, salts |-> <<>>, kgiven |-> <<>>, opts |-> None, noise |-> "none",
          double |-> "default", init |-> "none", logic |-> "default", ext |-> "", data |-> "plain"]
\* every single deviation from Plain, in every mode
Singles(modes, noise) ==
  LET B(m) == [Plain EXCEPT !.mode = m, !.noise = noise] IN
  UNION {
    {B(m)}
    \cup {[B(m) EXCEPT !.unit = x] : x \in UnitsD}
    \cup {[B(m) EXCEPT !.unit = "ml", !.dens = x, !.titrant = y, !.mol = z] :
            x \in {"calc", "given"}, y \in {"HCl", "H2SO4"}, z \in {"default", "given"}}
    \cup {[B(m) EXCEPT !.analyte = x] : x \in {"volume", "both"}}
    \cup {[B(m) EXCEPT !.temp = x] : x \in {"ramp", "override"}}
    \cup {[B(m) EXCEPT !.nu = x] : x \in {"2", "1.5", "0.8"}}
    \cup {[B(m) EXCEPT !.window = x] : x \in Windows}
    \cup {[B(m) EXCEPT !.comp = x] : x \in Comps}
    \cup {[B(m) EXCEPT !.adds = x] : x \in Adds}
    \cup {[B(m) EXCEPT !.salts = x] : x \in Salts}
    \cup {[B(m) EXCEPT !.kgiven = x] : x \in KGiven}
    \cup {[B(m) EXCEPT !.opts = x] : x \in Opts}
    \cup {[B(m) EXCEPT !.double = x] : x \in {"yes", "no"}}
    \cup {[B(m) EXCEPT !.init = x] : x \in {"alk", "emf0", "both"}}
    \cup {[B(m) EXCEPT !.logic = x] : x \in {"v23.7+", "legacy"}}
    \cup {[B(m) EXCEPT !.data = x, !.temp = "ramp"] : x \in DataD}
    \cup {[B(m) EXCEPT !.ext = x, !.comp = <<"dic", "po4", "si", "nh3", "h2s", "alpha", "beta">>] : x \in Exts}
    : m \in modes}

\* the options that decide which points an EMF solution is made of, all together
Guesses(noise) == {[Plain EXCEPT !.mode = m, !.noise = noise, !.window = w, !.double = d, !.init = i, !.logic = l] :
                     m \in {"emf", "pH_adjust"}, w \in {"default", "narrow", "thin", "any", "upper"}, d \in {"default", "no"},
                     i \in {"none", "alk", "emf0"}, l \in {"default", "legacy"}}

\* ---- per property ----------------------------------------------------------
C01S == Singles(Modes, "small") \cup RandRuns(Pickn(120, 1500), Modes) \cup Sample(Pickn(48, 120), Guesses("small")) \cup Sample(Pickn(40, 120), Guesses("big"))
        \cup {[s EXCEPT !.noise = "big", !.double = "no", !.init = "none", !.logic = "legacy", !.data = "tail"] : s \in RandRuns(Pickn(60, 500), {"emf"})}

C02Modes == {"emf", "pH_adjust", "pH"}
C02S == {[s EXCEPT !.noise = "none", !.data = IF @ \in {"spikes", "tail"} THEN "plain" ELSE @] : s \in Singles(C02Modes, "none") \cup RandRuns(Pickn(150, 2500), C02Modes)}

\* C04: noisy data, and exact hits of the window's edges
With(s, f, v) == f :> v @@ s
C04S == {With(s, "kind", "run") : s \in Singles(Modes, "big") \cup RandRuns(Pickn(200, 2500), Modes) \cup Sample(Pickn(60, 120), Guesses("big"))}
        \cup {With([Plain EXCEPT !.mode = m, !.noise = "small", !.nu = n, !.temp = t], "kind", k) :
                m \in {"pH", "pH_gran"}, n \in {"1", "2"}, t \in {"const", "ramp"},
                k \in {"edge_lo", "edge_hi", "edge_both", "inside", "outside"}}
        \cup {With([Plain EXCEPT !.mode = m, !.noise = "small", !.nu = n], "kind", k) :
                m \in {"pH", "pH_gran"}, n \in {"1", "2"}, k \in {"few1", "few2", "few3", "few4"}}
        \cup {With([Plain EXCEPT !.mode = m, !.double = d], "kind", k) :
                m \in {"emf", "pH_adjust"}, d \in {"default", "yes", "no"}, k \in {"few2", "few3", "few4"}}
        \cup {With([Plain EXCEPT !.mode = m, !.double = "no", !.init = "emf0"], "kind", "few1") : m \in {"emf", "pH_adjust"}}
        \cup {With([Plain EXCEPT !.mode = m, !.data = x, !.noise = "big", !.window = w, !.nu = n], "kind", "run") :
                m \in Modes, x \in DataD, w \in {"default", "wide", "upper"}, n \in {"1", "2"}}
        \cup {With([Plain EXCEPT !.mode = "emf", !.noise = "none"], "kind", k) :
                k \in {"emf_edge_lo", "emf_edge_hi"}}

\* C09: the whole product of the conversion's classes
C09Direct ==
  {[kind |-> "direct", unit |-> u, dens |-> d, titrant |-> t, mol |-> m, analyte |-> a, temp |-> x, tint |-> i] :
     u \in {"none", "ml", "mL", "ML", "g", "G", "kg", "KG", "Kg", "l", ""}, d \in {"calc", "given"},
     t \in {"none", "HCl", "hcl", "H2SO4", "h2so4", "HNO3"}, m \in {"default", "given", "both"},
     a \in {"mass", "volume", "both", "none", "nanmass"}, x \in {"const", "ramp", "override"}, i \in {FALSE, TRUE}}
C09Density == {[kind |-> "density", which |-> w, k |-> k] : w \in {"sw", "hcl", "h2so4"}, k \in 1..Pickn(12, 100)}
C09Runs == {With(s, "kind", "run") : s \in
             {[Plain EXCEPT !.unit = u, !.dens = d, !.titrant = t, !.mol = m, !.analyte = a, !.temp = x, !.mode = y] :
                u \in {"ml", "g", "kg"}, d \in {"calc", "given"}, t \in {"HCl", "H2SO4"}, m \in {"default", "given"},
                a \in {"mass", "volume", "both"}, x \in {"const", "ramp", "override"}, y \in {"emf", "pH", "pH_adjust"}}}
C09S == C09Direct \cup C09Density \cup Sample(Pickn(90, 1000), C09Runs)

\* C10
OptsAll == {[opt_total_borate |-> b, opt_k_carbonic |-> c, opt_k_bisulfate |-> s, opt_k_fluoride |-> f] :
              b \in {1, 2}, c \in {1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17}, s \in {1, 2}, f \in {1, 2}}
C10S ==
  {With(With(s, "kind", "totals"), "dil", FALSE) : s \in Singles({"emf"}, "none")}
  \cup {With(With([Plain EXCEPT !.opts = o, !.temp = "ramp"], "kind", "totals"), "dil", FALSE) : o \in OptsAll}
  \cup {With(With([RandRun(Modes) EXCEPT !.opts = RandomElement(OptsAll \cup {None})], "kind", "totals"), "dil", RandomElement({TRUE, FALSE}))
           : i \in 1..Pickn(160, 3000)}
  \cup {With(With(With([Plain EXCEPT !.comp = <<"dic", "po4", "si", "nh3", "h2s", "alpha", "beta">>], "kind", "totals"), "dil", x), "zero", z) :
           x \in {TRUE, FALSE}, z \in {"po4", "si", "nh3", "h2s", "alpha", "beta", "dic", "borate", "fluoride", "sulfate"}}
  \* constants given, alone and in any combination; all totals there
  \cup {With(With([Plain EXCEPT !.comp = AllComp, !.kgiven = k, !.temp = "ramp"], "kind", "totals"), "dil", RandomElement({TRUE, FALSE})) :
           k \in {<<x>> : x \in KFree} \cup {SetToSeq(RandomSubset(i, KFree)) : i \in 2..11} \cup {SetToSeq(RandomSubset(RandomElement(2..11), KFree)) : i \in 1..Pickn(30, 300)}}
  \cup {With(With(With([Plain EXCEPT !.temp = t, !.salts = y], "kind", "totals"), "dil", x), "scale", z) :
           t \in {"const", "ramp"}, x \in {TRUE, FALSE}, y \in Salts, z \in {1, 2, 3}}

\* C11
C11S ==
  {With(s, "kind", "run") : s \in
    {[Plain EXCEPT !.mode = m, !.adds = a, !.comp = c, !.nu = n, !.noise = "small"] :
       m \in Modes, a \in SUBSET1, c \in {<<"dic">>, <<"dic", "po4", "si">>}, n \in {"1", "2"}}
    \cup {[RandRun(Modes) EXCEPT !.adds = RandomElement(SUBSET1)] : i \in 1..Pickn(40, 1500)}}
  \cup {[kind |-> "helper", which |-> w, k |-> k] : w \in {"h2so4", "pyco2", "plain", "plain_pyco2", "add", "readd"}, k \in 1..Pickn(10, 100)}

\* C18
C18S == {With(With(s, "kind", "gran"), "shape", RandomElement({"plain", "late", "spikes", "dips", "few"})) :
           s \in RandRuns(Pickn(150, 2500), {"emf", "pH_adjust"})
                 \cup {[Plain EXCEPT !.logic = l, !.noise = n, !.nu = u, !.temp = t] :
                         l \in {"default", "v23.7+", "legacy"}, n \in {"none", "small", "big"}, u \in {"1", "2"}, t \in {"const", "ramp"}}}
        \cup {With(With([Plain EXCEPT !.logic = l, !.noise = "small"], "kind", "gran"), "shape", h) :
           l \in {"default", "legacy", "nonsense"}, h \in {"plain", "late", "spikes", "dips", "few"}}

\* C19
ModeNames == {<<"emf", "emf">>, <<"emf", "EMF">>, <<"emf", "Emf">>, <<"pH_adjust", "pH_adjust">>, <<"pH_adjust", "PH_ADJUST">>,
              <<"pH_adjust", "ph_adjust">>, <<"pH", "pH">>, <<"pH", "ph">>, <<"pH", "PH">>, <<"pH_gran", "pH_gran">>,
              <<"pH_gran", "ph_gran">>, <<"pH_gran", "PH_Gran">>}
C19S == {With(With([Plain EXCEPT !.mode = x[1], !.noise = "small"], "modename", x[2]), "kind", "run") : x \in ModeNames}
        \cup {With(s, "kind", "run") : s \in Singles(Modes, "small")}
        \cup {With(s, "kind", "run") : s \in RandRuns(Pickn(40, 1200), Modes)}
        \cup {With(With([Plain EXCEPT !.noise = "small"], "modename", x), "kind", "badmode") : x \in {"pHgran", "gran", "emf ", "nernst", "pH_emf"}}
=============================================================================
