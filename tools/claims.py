SPEC = "TLA+ specification of the speciation and electrode equations; full product of the scenario classes generated by TLC, replayed on the code, recorded outcomes validated by TLC"
claim("C03 C17", SPEC)
TAB = "TLA+ specification of option resolution, files and dataset operations; TLC generates scenarios, they are replayed on real Datasets, and TLC validates every recorded step against the specification"
claim("C05 C06 C07", TAB)
SES = "symbolic TLA+ state machine of a dataset under histories of operations and edits, model-checked exhaustively by TLC; histories generated by TLC are replayed on real Datasets and every step is validated by TLC, numerically and against the state machine"
claim("C08", SES)
FIL = "TLA+ specification of the file formats, of write_dat as a state machine over files, and of dbs lines; TLC generates scenario classes and write histories, they are replayed on real files, and TLC validates the recorded outcomes"
claim("C12 C13 C14", FIL)
TIT = "TLA+ specification of solving, of kwargs-over-row resolution and of every column of the titration table; TLC generates datasets and overrides, they are replayed, and TLC recomputes the Titration's results and table"
claim("C15", TIT)
SIM = "TLA+ specification of the simulator's mass balance, the DIC-loss recurrences and shape-preserving interpolation; TLC generates scenarios, they are replayed on the code, and TLC recomputes and validates every returned value"
claim("C16", SIM)
PLT = "TLA+ specification of what every plot draws (series, lines, ranges, title values, axes) as a function of the solved titration or dataset; TLC generates scenarios, the real plotting functions are run on Agg axes, and TLC validates the recorded drawing"
claim("C20", PLT)
