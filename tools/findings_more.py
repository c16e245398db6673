FINDINGS += [
 {"property": "C06", "case": "emf-zero-window", "clauses": ["1:not_null:alkalinity@row1", "2:not_null:alkalinity@row2"],
  "what": "in the EMF modes a row without a single point in [pH_min, pH_max] gets the solver's first guess (the Gran estimate, or the certified value when calibrating) as alkalinity with alkalinity_npts 0, instead of null as in pH mode (core.solve_emf; input: pH_min 0.5, pH_max 0.9 on an ordinary EMF titration)"},
 {"property": "C16", "case": "simulate-titration", "clauses": ["titration_raised"],
  "what": "simulate.titration(...) raises NameError: it builds a Titration with an interface (simulate_alkalinity, calkulate method) that the Titration class no longer has; simulate._titration works"},
]
