"""Writes known_findings.json (by hand, never at run time)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.split(" ", 2) for l in """
C15 4a415d4 the Titration table was all null when the analyte was given by volume
C15 ed2dbeb Titration used null option cells as values (C05 too)
C15 9531f5d the Titration table ignored titrant_normality
C15 f19844f str/repr of a Titration without file_path raised
C15 d8cf352 copying or unpickling a Titration recursed for ever
C20 f4ecd5c the documented plot_gran_alkalinity and plot_gran_emf0 methods did not exist
C19 4723883 calkulate.calkulate was not exported at the top level
C05 0160deb total salts and opt_total_borate given as dataset-level kwargs were ignored (C10 too)
C18 3b58b07 gran_logic was dropped by calibrate_emf and by the second pass of solve_emf (C01 too)
C12 658c6d8 the warning about an unknown file_type named the fallback instead
C12 7486467 read_dat_pclims dropped data lines with negative values
C14 2d6a5d0 read_dbs lost leading zeros of numeric bottle IDs in file names
C05 a652b6e a null read_dat_method cell overrode the file_type kwarg
C11 6bddad3 KeyError for a titrant solute that is not in the analyte
C07 36678ff a null analysis_batch cell stopped the whole calibration
C09 3d11874 temperature_override was truncated where the file has integer temperatures
C15 42ed741 a read_dat_method cell overrode the file_type kwarg given to Titration (C05 too)
C04 78276b7 the solver did not adjust EMF0 in pH_adjust mode (C02 too)
C05 2413d94 the read_dat_method kwarg was reported as ignored
C05 3c91f22 the titrant_amount_unit kwarg was ignored for rows with a null unit cell
""".strip().splitlines()]
tip = subprocess.run("git -C /repo log --format=%h --grep='integer reading options'", shell=True, capture_output=True, text=True).stdout.strip()
FIXED.append(["C05", tip, "integer reading options in a column with null cells (floats) made every row fail"])
FIXED += [["C12", "692e558", "a titration file with a single data row could not be read (C13 too)"],
          ["C12", "ead1da7", "read_dat_pclims took lines with empty or text fields for data"],
          ["C12", "66cc2df", "read_dat_pclims failed on reports that contain a backslash"],
          ["C14", "67160ab", "read_dbs put a decimal point in CRM file names when another line has no batch"],
          ["C14", "93c2489", "read_dbs failed on a line with a date but no time"],
          ["C15", "a619819", "str/repr of a Titration with a null file_path cell raised"],
          ["C15", "3edb0c0", "a Titration made with overriding kwargs kept emf0, Gran, std and offset results of the dataset's own solve"],
          ["C04", "33fac9d", "solve_emf accepted a first guess far from the optimum (gradient below gtol by chance); calibrate could settle there (C01, C15 too)"]]
FIXED += [["C16", "e6cf505", "get_dic_loss and get_dic_loss_hires always raised (size-1 array assigned to an array element)"],
          ["C16", "4664686", "with k_dic_loss, DIC of a simulation starting at a titrant mass above zero was not diluted"]]
FIXED += [["C20", "7e7dcd9", "plot_components did not return the axes"],
          ["C20", "1a60726", "plot_pH failed with null pH_min or pH_max cells"],
          ["C20", "ec6850c", "dataset plots failed where reference_good has nulls or object dtype"],
          ["C20", "cd2a6c9", "the alkalinity_offset plot labelled values in umol/kg as mol/kg"]]
FIXED += [["C01", "a506a4e", "calibrate_emf stopped up to several umol/kg (rarely hundreds) from the certified value: the difference step was below the tolerance of solve_emf, so the derivative was noise (about 1% of noisy EMF titrations; C11 too)"]]
FIXED += [["C10", "4b55258", "the salts a dataset fills in ignored opt_k_carbonic, unlike those of files.solve (options with their own borate or fresh water; C19 too)"]]
FIXED += [["C11", "1c794c1", "a calibration that could not be finished left the titrant's solutes in the caller's totals"],
          ["C07", "bc41fea", "calibrate crashed on a reference_good column of 0/1 as floats or with empty cells next to floats"],
          ["C07", "88bb7b0", "calibrate crashed when no cell of the analysis_batch column is filled in"],
          ["C05", "78e083d", "nullable integer columns of total salts with empty cells crashed the dataset"]]
FINDINGS = []
exec(open(os.path.join(V, "tools", "findings_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "findings_more.py")) else None
json.dump({"findings": FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
