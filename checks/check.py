"""usage: check.py PROPERTY [--quick|--thorough] [--keep]

Each property: the design models checked first (exhaustively, by TLC), the
module that generates the scenarios, the driver that replays them on the
code, and the module that validates the recorded executions.
"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib

PLAN = {
    #       generator     driver       trace           design models (quick cfg, thorough cfg)
    "C01": ("RunGen",     "drv_run",   "RunTrace",     ["SolverMC"]),
    "C02": ("RunGen",     "drv_run",   "RunTrace",     ["SolverMC"]),
    "C03": ("SpecGen",    "drv_spec",  "SpecTrace",    ["ChemMC"]),
    "C04": ("RunGen",     "drv_run",   "RunTrace",     ["SolverMC"]),
    "C05": ("TableGen",   "drv_table", "TableTrace",   ["OptionsMC", "PrepareMC"]),
    "C06": ("TableGen",   "drv_table", "TableTrace",   ["PrepareMC"]),
    "C07": ("TableGen",   "drv_table", "TableTrace",   ["BatchMC"]),
    "C08": ("SessionGen", "drv_table", "SessionTrace", [("SessionMC", "SessionMC", "SessionMCdeep")]),
    "C09": ("RunGen",     "drv_run",   "RunTrace",     ["UnitsMC"]),
    "C10": ("RunGen",     "drv_run",   "RunTrace",     ["MixingMC"]),
    "C11": ("RunGen",     "drv_run",   "RunTrace",     ["MixingMC"]),
    "C12": ("FileGen",    "drv_file",  "FileTrace",    [("ReaderMC", "ReaderMC", "ReaderMCdeep")]),
    "C13": ("FileGen",    "drv_file",  "FileTrace",    [("WriteMC", "WriteMC", "WriteMCdeep")]),
    "C14": ("FileGen",    "drv_file",  "FileTrace",    ["DbsMC"]),
    "C15": ("TitGen",     "drv_tit",   "TitTrace",     ["OptionsMC"]),
    "C16": ("SimGen",     "drv_sim",   "SimTrace",     ["PchipMC", "LossMC"]),
    "C17": ("SpecGen",    "drv_spec",  "SpecTrace",    ["NernstMC"]),
    "C18": ("RunGen",     "drv_run",   "RunTrace",     ["GranMC"]),
    "C19": ("RunGen",     "drv_run",   "RunTrace",     ["SolverMC"]),
    "C20": ("PlotGen",    "drv_plot",  "PlotTrace",    []),
}


def body(ck):
    gen, drv, trace, models = PLAN[prop]
    for m in models:
        name, quick, deep = (m, m, m) if isinstance(m, str) else m
        ck.model(name, cfg=deep if ck.thorough else quick, timeout=3000)
    ck.run(gen, f"{drv}:{prop.lower()}", trace)


if __name__ == "__main__":
    prop = sys.argv[1]
    vlib.main(prop, "model_checking", body)
