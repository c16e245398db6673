From 4a415d42a122878f216971deede816ab2ae0bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:54 +0000
Subject: [PATCH 01/41] fix: Titration table was all null when the analyte was
 given by volume

The row's analyte_mass stays null in that case; use the mass that the
solver worked with.
---
 calkulate/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..c676666 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -181,6 +181,7 @@ class Titration:
             "used": self.sr.used,
         }
         self.row = add_solve_results(self.row, self.sr)
+        self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
                 {
-- 
2.43.0


From ed2dbebdccab7f726a37cc65285d0899b7f56e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:54 +0000
Subject: [PATCH 02/41] fix: Titration must ignore null option cells, like
 Dataset.solve does

np.nan in a row means 'not given' (docs/metadata.md), but the whole row
including nulls was passed to the solver, giving errors or null results.
---
 calkulate/classes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index c676666..de27789 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -6,7 +6,8 @@ import PyCO2SYS as pyco2
 from .convert import get_dilution_factor
 from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .dataset import _backcompat, add_solve_results
-from .files import solve
+from .files import keys_solve, solve
+from .meta import _get_kwargs_for
 
 
 def to_Titration(ds, index, **kwargs):
@@ -173,7 +174,12 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        self.sr = solve(
+            self.row.file_name,
+            self.row.titrant_molinity,
+            self.row.salinity,
+            **_get_kwargs_for(keys_solve, {}, self.row),
+        )
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From 9531f5dcefe82fbf0264c3a36e98f1d1ca0a7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:54 +0000
Subject: [PATCH 03/41] fix: Titration table ignored titrant_normality

The solver accounts for it but alkalinity_from_acid and
alkalinity_estimate did not.
---
 calkulate/classes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index de27789..8548135 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -241,10 +241,18 @@ class Titration:
             f = self.ro.file_name
         return f'calkulate.Titration for file "{f}"'
 
+    def get_titrant_normality(self):
+        if "titrant_normality" in self.row:
+            if pd.notnull(self.row["titrant_normality"]):
+                return self.row["titrant_normality"]
+        return 1
+
     def get_alkalinity_from_acid(self):
         self.titration["alkalinity_from_acid"] = (
             1e-6 * self.alkalinity * self.analyte_mass
-            - self.titration.titrant_mass * self.titrant_molinity
+            - self.titration.titrant_mass
+            * self.titrant_molinity
+            * self.get_titrant_normality()
         ) / (self.analyte_mass + self.titration.titrant_mass)
 
     def do_CO2SYS(self):
@@ -304,6 +312,7 @@ class Titration:
             st.alkalinity_from_pH
             + st.titrant_mass
             * self.titrant_molinity
+            * self.get_titrant_normality()
             / (st.titrant_mass + self.analyte_mass)
         ) / st.dilution_factor
 
-- 
2.43.0


From f19844f3fb23ba764bad9e456b06bf9875528ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:54 +0000
Subject: [PATCH 04/41] fix: str and repr of a Titration without file_path

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8548135..8535992 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -231,14 +231,14 @@ class Titration:
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
         if "file_path" in self.row:
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def get_titrant_normality(self):
-- 
2.43.0


From d8cf3528849fa59d9301b75cd7827dddcacc2524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:54 +0000
Subject: [PATCH 05/41] fix: infinite recursion when copying or unpickling a
 Titration

---
 calkulate/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8535992..a7f41cb 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -212,6 +212,8 @@ class Titration:
 
     def __getattr__(self, attr):
         # Enable using self.attr as a shortcut for self.row.attr
+        if attr == "row":
+            raise AttributeError(attr)  # not set yet, e.g. when copying
         try:
             return object.__getattribute__(self, attr)
         except AttributeError:
-- 
2.43.0


From f4ecd5c9b43a8776d4d9b8ccd297166c5908e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:54 +0000
Subject: [PATCH 06/41] fix: documented Titration methods plot_gran_alkalinity
 and plot_gran_emf0 did not exist

---
 calkulate/classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index a7f41cb..e6c1fd1 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -326,3 +326,7 @@ class Titration:
         gran_emf0 as plot_emf0_gran,
         pH as plot_pH,
     )
+
+    # Names used in the documentation
+    plot_gran_alkalinity = plot_alkalinity_gran
+    plot_gran_emf0 = plot_emf0_gran
-- 
2.43.0


From 4723883dca108d66c10eb7836d739c51b83a24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:54 +0000
Subject: [PATCH 07/41] fix: export calkulate at the top level as documented

---
 calkulate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/__init__.py b/calkulate/__init__.py
index 146e88f..0b94fc5 100644
--- a/calkulate/__init__.py
+++ b/calkulate/__init__.py
@@ -16,7 +16,7 @@
 """Determine (sea)water total alkalinity from titration data."""
 
 from .classes import Dataset, Titration, to_Titration
-from .dataset import calibrate, solve
+from .dataset import calibrate, calkulate, solve
 from .meta import __author__, __version__, hello
 from .read.metadata import (
     read_clipboard,
@@ -38,6 +38,7 @@ __all__ = [
     "say_hello",
     "Dataset",
     "calibrate",
+    "calkulate",
     "solve",
     "read_dat",
     "read_clipboard",
-- 
2.43.0


From 0160deb3f48396563f40a6bdfa171c5671cfc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:11 +0000
Subject: [PATCH 08/41] fix: dataset-level total salt and opt_total_borate
 kwargs were silently ignored

---
 calkulate/dataset.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..f64f6f3 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -13,25 +13,30 @@ from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
 
-def get_total_salts(ds):
+def get_total_salts(ds, **kwargs):
     """Estimate total salt contents from salinity using PyCO2SYS without
     overwriting existing values.  Operates in-place.
+
+    Values given as kwargs are not filled in, so that the kwargs are used.
     """
     assert "salinity" in ds, 'Dataset must contain a "salinity" column.'
+    salts = ["total_sulfate", "total_borate", "total_fluoride"]
+    salts = [s for s in salts if kwargs.get(s) is None]
     # Use opt_total_borate = 1 where it's not provided
-    if "opt_total_borate" in ds:
+    if kwargs.get("opt_total_borate") is not None:
+        salts = [s for s in salts if s != "total_borate"]
+    elif "opt_total_borate" in ds:
         ds["opt_total_borate"] = ds.opt_total_borate.where(
             ds.opt_total_borate.notnull(), 1
         )
     else:
         ds["opt_total_borate"] = 1
-    salts = ["total_sulfate", "total_borate", "total_fluoride"]
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
-        results = pyco2.sys(
-            salinity=ds.salinity.values,
-            opt_total_borate=ds.opt_total_borate.values,
-        )
+        kwargs_pyco2 = {}
+        if "total_borate" in salts:
+            kwargs_pyco2["opt_total_borate"] = ds.opt_total_borate.values
+        results = pyco2.sys(salinity=ds.salinity.values, **kwargs_pyco2)
         for salt in salts:
             if salt not in ds:
                 ds[salt] = np.nan
@@ -107,8 +112,8 @@ def get_batches(ds):
     return batches
 
 
-def prepare(ds):
-    get_total_salts(ds)
+def prepare(ds, **kwargs):
+    get_total_salts(ds, **kwargs)
     # Get analyte_mass from analyte_volume if required
     if "analyte_mass" not in ds:
         assert "analyte_volume" in ds, (
@@ -145,7 +150,7 @@ def calibrate(ds, verbose=False, **kwargs):
         The titration metadataset with additional columns found by the solver.
     """
     print("Calkulate: calibrating titrant_molinity...")
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "alkalinity_certified" in ds, (
         'ds must contain an "alkalinity_certified" column!'
     )
@@ -254,7 +259,7 @@ def solve(ds, verbose=False, **kwargs):
             "kwargs not recognised, being ignored: "
             + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
         )
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "titrant_molinity" in ds, (
         'ds must contain an "titrant_molinity" column!'
     )
-- 
2.43.0


From 3b58b073e00fb084daa527e8347408953b0c7449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 09/41] fix: gran_logic was dropped by calibrate_emf and by the
 second pass of solve_emf

---
 calkulate/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..1a3f204 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -706,6 +706,7 @@ def solve_emf(
             alkalinity_init=sr.alkalinity,
             double=False,  # if True this becomes an infinite loop, so don't
             emf0_init=sr.emf0,
+            gran_logic=gran_logic,
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
@@ -875,6 +876,7 @@ def _lsqfun_calibrate_emf(
     alkalinity_init,
     double,
     emf0_init,
+    gran_logic,
     pH_min,
     pH_max,
     titrant_normality,
@@ -902,6 +904,7 @@ def _lsqfun_calibrate_emf(
         alkalinity_init=alkalinity_init,
         double=double,
         emf0_init=emf0_init,
+        gran_logic=gran_logic,
         pH_min=pH_min,
         pH_max=pH_max,
         titrant_normality=titrant_normality,
@@ -933,6 +936,7 @@ def calibrate_emf(
     pH_max=4,
     titrant_molinity_init=0.1,
     titrant_normality=1,
+    gran_logic="v23.7+",
     **titrant_totals,
 ):
     """Solve for `titrant_molinity` given `alkalinity_certified`.
@@ -997,6 +1001,7 @@ def calibrate_emf(
             alkalinity_init,
             double,
             emf0_init,
+            gran_logic,
             pH_min,
             pH_max,
             titrant_normality,
-- 
2.43.0


From 658c6d8fd6e77c656c8029428e25347cdc3e367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 10/41] fix: read_dat warning named the fallback instead of the
 unrecognised file_type

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..77d3607 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -171,8 +171,8 @@ keys_read_dat = {
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
     """Import a titration dataset from a .dat file."""
     if file_type not in file_types:
-        file_type = "genfromtxt"
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
+        file_type = "genfromtxt"
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From 74864679b06d168257bfe794fde73002063b4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 11/41] fix: read_dat_pclims dropped data lines with negative
 values

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 77d3607..b66293e 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -46,7 +46,7 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
     data = []
     i = 0
     stop = False
-- 
2.43.0


From 2d6a5d02e6112d05d73f2bb94b942fcb199a398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 12/41] fix: read_dbs lost leading zeros of numeric bottle IDs
 in the file names

---
 calkulate/read/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 71c6477..0d78629 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -114,7 +114,11 @@ def read_dbs(
     """
     headers = np.genfromtxt(fname, delimiter="\t", dtype=str, max_rows=1)
     dbs = pd.read_table(
-        fname, header=0, names=headers, usecols=headers
+        fname,
+        header=0,
+        names=headers,
+        usecols=headers,
+        dtype={"bottle": str},
     ).rename(columns={"run type": "run_type"})
     dbs["dbs_fname"] = fname
     dbs = add_func_cols(dbs, dbs_datetime)
-- 
2.43.0


From a652b6e57d9a369c3d38e806891611f0f8596514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 13/41] fix: a null read_dat_method cell overrode the file_type
 kwarg

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index f64f6f3..e44050f 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -57,7 +57,7 @@ def _backcompat(kwargs, row):
     for old, new in old2new.items():
         if old in kwargs:
             kwargs[new] = kwargs[old]
-        if "read_dat_method" in row:
+        if old in row and pd.notnull(row[old]):
             kwargs[new] = row[old]
     return kwargs
 
-- 
2.43.0


From 6bddad3731b86e9a9feff30fb039956efc5ffb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 14/41] fix: KeyError for a titrant solute that is not in the
 analyte

---
 calkulate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 1a3f204..c21adaa 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -509,7 +509,7 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] += (
+        totals[total] = totals.get(total, 0) + (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
-- 
2.43.0


From 36678fff0be26899d3740a7c7be3df69fae5795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 15/41] fix: a null analysis_batch cell stopped the whole
 calibration

---
 calkulate/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index e44050f..97ae842 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -164,9 +164,9 @@ def calibrate(ds, verbose=False, **kwargs):
     if "reference_good" not in ds:
         ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    ds["titrant_molinity"] = ds.analysis_batch.map(
+        batches["titrant_molinity"]
+    ).to_numpy(dtype=float)
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0


From 3d11874ec21a47c1740ad50fd0d3b1af8b7d46cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 16/41] fix: temperature_override was truncated where the file
 has integer temperatures

---
 calkulate/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/convert.py b/calkulate/convert.py
index c8798de..52a1bf4 100644
--- a/calkulate/convert.py
+++ b/calkulate/convert.py
@@ -206,7 +206,9 @@ def amount_units(
     dd = dat_data
     # Overwrite temperature, if requested
     if temperature_override is not None:
-        temperature = np.full_like(dd.temperature, temperature_override)
+        temperature = np.full_like(
+            dd.temperature, temperature_override, dtype=float
+        )
     else:
         temperature = dd.temperature
     # Get titrant mass
-- 
2.43.0


From 42ed7410f78810b6bc9d24c494ed21f2953a7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:49 +0000
Subject: [PATCH 17/41] fix: a read_dat_method cell overrode the file_type
 given to Titration

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index e6c1fd1..dcb2684 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -171,14 +171,14 @@ class Titration:
 
     def __init__(self, row, **kwargs):
         self.row = row.copy()
-        self.kwargs = _backcompat(kwargs, row)
+        self.kwargs = _backcompat(kwargs, [])
         for k, v in kwargs.items():
             self.row[k] = v
         self.sr = solve(
             self.row.file_name,
             self.row.titrant_molinity,
             self.row.salinity,
-            **_get_kwargs_for(keys_solve, {}, self.row),
+            **_get_kwargs_for(keys_solve, _backcompat({}, row), self.row),
         )
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
-- 
2.43.0


From 78276b7515b3faa93778823bfc0c806b7396aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:32 +0000
Subject: [PATCH 18/41] fix: the solver did not adjust EMF0 in pH_adjust mode

With SciPy's default scaling the initial trust region is as small as the alkalinity
in mol/kg, so least_squares stopped on the gradient before EMF0 had moved from
zero and alkalinity was off by tens of umol/kg.
---
 calkulate/settings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calkulate/settings.py b/calkulate/settings.py
index 4563be3..160429c 100644
--- a/calkulate/settings.py
+++ b/calkulate/settings.py
@@ -1 +1,4 @@
-kwargs_least_squares = {}
+# Alkalinity (mol/kg) and EMF0 (mV) differ by orders of magnitude, so the solver
+# must scale them by their influence.  Otherwise, it stops before EMF0 has moved if
+# it starts from zero (as it always does for solve_mode="pH_adjust").
+kwargs_least_squares = {"x_scale": "jac"}
-- 
2.43.0


From 2413d946511eda067181e71fb6f3ae49b012e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:23 +0000
Subject: [PATCH 19/41] fix: do not report the read_dat_method kwarg as ignored

---
 calkulate/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 97ae842..b690c71 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -252,7 +252,11 @@ def solve(ds, verbose=False, **kwargs):
     # Check for bad kwargs, but don't break on them
     kwargs_ignored = []
     for k in _backcompat(kwargs.copy(), []):
-        if k not in files.keys_calibrate | {"pH_range", "read_dat_kwargs"}:
+        if k not in files.keys_calibrate | {
+            "pH_range",
+            "read_dat_kwargs",
+            "read_dat_method",
+        }:
             kwargs_ignored.append(k)
     if len(kwargs_ignored) > 0:
         warn(
-- 
2.43.0


From 3c91f22cee13b09a8e89cf7ce4da93db24ac247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 20/41] fix: titrant_amount_unit kwarg was ignored for rows
 with a null titrant_amount_unit

---
 calkulate/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index b690c71..dfc8435 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -122,7 +122,9 @@ def prepare(ds, **kwargs):
         ds["analyte_mass"] = np.nan
     # Check essential columns are present
     assert "salinity" in ds, 'ds must contain a "salinity" column!'
-    if "titrant_amount_unit" in ds:
+    if "titrant_amount_unit" in ds and (
+        kwargs.get("titrant_amount_unit") is None
+    ):
         ds["titrant_amount_unit"] = np.where(
             pd.isnull(ds.titrant_amount_unit),
             "ml",
-- 
2.43.0


From a5d5fb856babbb889569f99426d7d68b2df767ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:35 +0000
Subject: [PATCH 21/41] fix: integer reading options in a column with null
 cells made every row fail

---
 calkulate/read/titrations.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index b66293e..a6eae2b 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -166,6 +166,13 @@ keys_read_dat = {
     "n_cols",
     "skip_header",
 }
+keys_read_dat_int = {
+    "col_measurement",
+    "col_temperature",
+    "col_titrant_amount",
+    "n_cols",
+    "skip_header",
+}
 
 
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
@@ -173,6 +180,9 @@ def read_dat(file_name, file_type="genfromtxt", **kwargs):
     if file_type not in file_types:
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
         file_type = "genfromtxt"
+    # Integer options are floats if they come from a column with null cells
+    for k in keys_read_dat_int & kwargs.keys():
+        kwargs[k] = int(kwargs[k])
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From 692e558ad4a1307a90a4785cfc897c704b9f0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 22/41] fix: a titration file with a single data row could not
 be read

---
 calkulate/read/titrations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index a6eae2b..95c23bd 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -26,7 +26,11 @@ def read_dat_genfromtxt(
 ):
     """Import a titration dataset from a .dat file with numpy.genfromtxt."""
     data = np.genfromtxt(
-        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
+        file_name,
+        delimiter=delimiter,
+        skip_header=skip_header,
+        ndmin=2,
+        **kwargs,
     )
     titrant_amount = data[:, col_titrant_amount]
     measurement = data[:, col_measurement]
-- 
2.43.0


From ead1da7287d9f86788f477b60b41c6fb6c6aad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:11 +0000
Subject: [PATCH 23/41] fix: read_dat_pclims took lines with empty or text
 fields for data

---
 calkulate/read/titrations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 95c23bd..b4c97df 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -50,7 +50,9 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(
+        r"-?[\d\.]+" + r"\t-?[\d\.]+" * (n_cols - 1) + r"(\s|$)"
+    )
     data = []
     i = 0
     stop = False
-- 
2.43.0


From 66cc2dfd20f767165c626ea3514ec8fed43fe0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:25 +0000
Subject: [PATCH 24/41] fix: read_dat_pclims failed on reports that contain a
 backslash

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index b4c97df..e92e01d 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -47,7 +47,7 @@ def read_dat_pclims(
 ):
     """Import a titration dataset from a PC LIMS Report."""
     # Import full data file
-    with open(file_name, mode="r", encoding="unicode-escape") as f:
+    with open(file_name, mode="r", encoding="latin-1") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
     re_data = re.compile(
-- 
2.43.0


From 67160ab7962f001319e0929b23553d8b30446555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:38 +0000
Subject: [PATCH 25/41] fix: read_dbs put a decimal point in CRM file names
 when another line has no batch

---
 calkulate/read/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 0d78629..f6cc559 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -70,7 +70,11 @@ def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
                 b=row.bottle,
             )
         elif row.run_type == "CRM":
-            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
+            # The batches are floats if any of them is missing
+            batch = row.batch
+            if isinstance(batch, float) and batch.is_integer():
+                batch = int(batch)
+            dbs.loc[i, "file_name"] = f"CRM{batch}{row.bottle}.dat"
             dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
         else:
             dbs.loc[i, "file_good"] = False
-- 
2.43.0


From 93c2489fd938ba23ab0b983c6eac58a8e59fd9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:38 +0000
Subject: [PATCH 26/41] fix: read_dbs failed on a line with a date but no time

---
 calkulate/read/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index f6cc559..1f72652 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -44,7 +44,7 @@ def dbs_datetime(dbs_row):
             + "T"
             + dbs_row["time"]
         )
-    except AttributeError:
+    except (AttributeError, TypeError):
         analysis_datetime = np.datetime64("NaT")
     return pd.Series(
         {
-- 
2.43.0


From a61981911f3658e9a7771220daa986b9f2b0040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:38 +0000
Subject: [PATCH 27/41] fix: str and repr of a Titration failed when its
 file_path was null

---
 calkulate/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index dcb2684..f14e130 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -230,14 +230,14 @@ class Titration:
             raise AttributeError(key)
 
     def __str__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
             f = self.row.file_name
-- 
2.43.0


From 3edb0c092acc6bafa2ba6e334d29204b260a9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:55 +0000
Subject: [PATCH 28/41] fix: Titration with overriding kwargs kept results of
 the dataset's own solve

---
 calkulate/classes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index f14e130..b1e394d 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -1,5 +1,6 @@
 import os
 
+import numpy as np
 import pandas as pd
 import PyCO2SYS as pyco2
 
@@ -186,7 +187,15 @@ class Titration:
             "pH": self.sr.pH,
             "used": self.sr.used,
         }
+        # Results in the row may come from another solve_mode
+        for k in ["alkalinity_std", "emf0", "gran_alkalinity", "gran_emf0"]:
+            if k in self.row:
+                self.row[k] = np.nan
         self.row = add_solve_results(self.row, self.sr)
+        if "alkalinity_offset" in self.row and "alkalinity_certified" in self.row:
+            self.row["alkalinity_offset"] = (
+                self.row.alkalinity - self.row.alkalinity_certified
+            )
         self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
-- 
2.43.0


From 33fac9dd5324fd23b5bffdb16b37d245e7c06da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:57 +0000
Subject: [PATCH 29/41] fix: solve_emf could stop at its first guess, far from
 the solution

SciPy's default gtol (1e-8) is for gradients of order one, but here they are in
mol/kg, so the solver could accept a first guess (alkalinity_init or Gran) that is
tens of umol/kg off, and calibrate could settle on such a point.
---
 calkulate/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index c21adaa..d433099 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -556,6 +556,7 @@ def solve_emf(
     pH_min=3,
     pH_max=4,
     titrant_normality=1,
+    _gtol=None,
 ):
     """Solve for alkalinity and EMF0 using the complete-calculation method
     when EMF is known.
@@ -658,6 +659,9 @@ def solve_emf(
             ks_used,
             titrant_normality,
         ),
+        # The gradient (in mol/kg) can be tiny far from the solution, so it does
+        # not show convergence when starting from a guess
+        gtol=_gtol,
         **kwargs_least_squares,
     )
     # Unpack and process results
@@ -710,6 +714,7 @@ def solve_emf(
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
+            _gtol=1e-8,
         )
     return sr
 
-- 
2.43.0


From e6cf50586ff20875dd9569e5192f4276d514bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:34 +0000
Subject: [PATCH 30/41] fix: DIC loss models raised with current NumPy (size-1
 array assigned to an element)

---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..1c53b28 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From 4664686302c7f5eafb40803b8b493d255bf250e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:34 +0000
Subject: [PATCH 31/41] fix: simulated DIC with k_dic_loss ignored dilution by
 the starting titrant mass

---
 calkulate/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/simulate.py b/calkulate/simulate.py
index e4643a0..d08d0ab 100644
--- a/calkulate/simulate.py
+++ b/calkulate/simulate.py
@@ -235,7 +235,7 @@ def _titration(
     # Model DIC loss
     if k_dic_loss is not None:
         dic_titration = np.full_like(titrant_mass, np.nan)
-        dic_titration[0] = dic
+        dic_titration[0] = dic * dilution_factor[0]
         for i in range(len(dic_titration) - 1):
             kwargs_i = {
                 k: v if np.isscalar(v) else v[i]
-- 
2.43.0


From 7e7dcd99e1676ffbba8913a43ee0ca0d4127b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 32/41] fix: plot_components did not return its axes

---
 calkulate/plot/titration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 9fe2ff4..891332b 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -419,3 +419,4 @@ def components(tt, ax=None, log_scale=True):
         ax.set_ylabel("Content / μmol/kg-sw")
     ax.legend(bbox_to_anchor=(1.05, 1))
     add_credit(ax)
+    return ax
-- 
2.43.0


From 1a607264de2ee8fe9e61180346bfb192b0b26e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 33/41] fix: plot_pH did not show the pH range where pH_min or
 pH_max is null

---
 calkulate/plot/titration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/titration.py b/calkulate/plot/titration.py
index 891332b..a784656 100644
--- a/calkulate/plot/titration.py
+++ b/calkulate/plot/titration.py
@@ -1,4 +1,5 @@
 import numpy as np
+import pandas as pd
 from matplotlib import pyplot as plt
 from scipy.interpolate import pchip_interpolate
 
@@ -94,8 +95,11 @@ def pH(tt, ax=None, show_gran=True):
         label="Final, used",
         **final_styler.scatter(),
     )
-    pH_min = tt.pH_min if hasattr(tt, "pH_min") else 3
-    pH_max = tt.pH_max if hasattr(tt, "pH_max") else 4
+    pH_min = getattr(tt, "pH_min", None)
+    pH_max = getattr(tt, "pH_max", None)
+    # Null cells mean the default, as when solving
+    pH_min = 3 if pd.isnull(pH_min) else pH_min
+    pH_max = 4 if pd.isnull(pH_max) else pH_max
     xlim = ax.get_xlim()
     ax.fill_between(
         xlim,
-- 
2.43.0


From ec6850ce11ce3047b15f1d3e29ae29ccc1c72cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 34/41] fix: dataset plots failed where reference_good has null
 cells

---
 calkulate/plot/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index cca12ae..7ed6928 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -24,7 +24,7 @@ def titrant_molinity(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        G = data.reference_good.eq(True).to_numpy()
     else:
         G = np.full(np.size(xdata), True)
     # Draw the figure
@@ -80,7 +80,7 @@ def alkalinity_offset(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        G = data.reference_good.eq(True).to_numpy()
     else:
         G = np.full(np.size(xdata), True)
     if show_batches:
-- 
2.43.0


From cd2a6c99af0ad517b4c303afb52d5b34aee36080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 35/41] =?UTF-8?q?fix:=20alkalinity=5Foffset=20plot=20was?=
 =?UTF-8?q?=20labelled=20in=20mol/kg=20although=20it=20shows=20=CE=BCmol/k?=
 =?UTF-8?q?g?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 calkulate/plot/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index 7ed6928..cd0ee94 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -119,7 +119,7 @@ def alkalinity_offset(
     misc.add_credit(ax)
     ax.set_xlabel(xlabel)
     ax.set_ylabel(
-        r"$\Delta$ Alkalinity (measured $-$ certified) / mol$\cdot$kg$^{-1}$"
+        r"$\Delta$ Alkalinity (measured $-$ certified) / μmol$\cdot$kg$^{-1}$"
     )
     plt.tight_layout()
     if figure_fname is not None:
-- 
2.43.0


From a506a4e0324544b20618e0f742ea6b8fd411d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:30 +0000
Subject: [PATCH 36/41] fix: calibrate_emf could stop far from the certified
 value (difference step below the solver's tolerance)

---
 calkulate/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index d433099..4d1342d 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -1012,6 +1012,9 @@ def calibrate_emf(
             titrant_normality,
         ),
         kwargs=titrant_totals,
+        # The default step is so small that the change in the solved alkalinity
+        # is lost in the tolerance of solve_emf
+        diff_step=1e-4,
         **kwargs_least_squares,
     )
 
-- 
2.43.0


From 4b552589e04c2f3902cb953ef9933d8ea386732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 37/41] fix: datasets' salts ignored opt_k_carbonic, unlike
 files.solve (GEOSECS and freshwater options)

---
 calkulate/dataset.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index dfc8435..f67762f 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -8,7 +8,7 @@ import numpy as np
 import pandas as pd
 import PyCO2SYS as pyco2
 
-from . import files
+from . import default, files
 from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
@@ -36,7 +36,19 @@ def get_total_salts(ds, **kwargs):
         kwargs_pyco2 = {}
         if "total_borate" in salts:
             kwargs_pyco2["opt_total_borate"] = ds.opt_total_borate.values
-        results = pyco2.sys(salinity=ds.salinity.values, **kwargs_pyco2)
+        # Some carbonic acid options (GEOSECS, freshwater) come with their own salts
+        opt_k_carbonic = kwargs.get("opt_k_carbonic")
+        if opt_k_carbonic is None:
+            opt_k_carbonic = default.opt_k_carbonic
+        if "opt_k_carbonic" in ds:
+            opt_k_carbonic = ds.opt_k_carbonic.where(
+                ds.opt_k_carbonic.notnull(), opt_k_carbonic
+            ).to_numpy()
+        results = pyco2.sys(
+            salinity=ds.salinity.values,
+            opt_k_carbonic=opt_k_carbonic,
+            **kwargs_pyco2,
+        )
         for salt in salts:
             if salt not in ds:
                 ds[salt] = np.nan
-- 
2.43.0


From 1c794c1a53743db1c878b74c791528dd1b5893f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 38/41] fix: an interrupted calibration left titrant additions
 in the caller's totals

---
 calkulate/core.py | 33 +++------------------------------
 1 file changed, 3 insertions(+), 30 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 4d1342d..107986c 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -890,7 +890,7 @@ def _lsqfun_calibrate_emf(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -914,15 +914,6 @@ def _lsqfun_calibrate_emf(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1036,7 +1027,7 @@ def _lsqfun_calibrate_pH(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1056,15 +1047,6 @@ def _lsqfun_calibrate_pH(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1156,7 +1138,7 @@ def _lsqfun_calibrate_pH_gran(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1176,15 +1158,6 @@ def _lsqfun_calibrate_pH_gran(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
-- 
2.43.0


From bc41feafcd7a9c2dde2d2df6f655b099d11822e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:59 +0000
Subject: [PATCH 39/41] fix: calibrate crashed on a reference_good column with
 empty or 0/1.0 cells

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index f67762f..3f063cb 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -103,7 +103,7 @@ def calibrate_row(row, verbose=False, **kwargs):
 def get_group_calibration(ds_group):
     """Get mean titrant molinity and statistics for each analysis_batch group."""
     titrant_molinities = ds_group.titrant_molinity_here[
-        ds_group.reference_good & ~np.isnan(ds_group.titrant_molinity_here)
+        ds_group.reference_good.eq(True) & ds_group.titrant_molinity_here.notnull()
     ]
     return pd.Series(
         {
-- 
2.43.0


From 88bb7b061853f41f20cfa929590fb43ec23cf164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:01 +0000
Subject: [PATCH 40/41] fix: calibrate crashed when the analysis_batch column
 is empty throughout

---
 calkulate/dataset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 3f063cb..9ce4234 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -120,6 +120,13 @@ def get_batches(ds):
         ds[["analysis_batch", "titrant_molinity_here", "reference_good"]]
         .groupby(by="analysis_batch")
         .apply(get_group_calibration, include_groups=False)
+        .reindex(
+            columns=[
+                "titrant_molinity",
+                "titrant_molinity__std",
+                "titrant_molinity__count",
+            ]
+        )
     )
     return batches
 
-- 
2.43.0


From 78e083d4461226ef626776cb313bbff0300d1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:22 +0000
Subject: [PATCH 41/41] fix: nullable integer total salt columns with empty
 cells crashed the dataset

---
 calkulate/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 9ce4234..a023aac 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -52,6 +52,7 @@ def get_total_salts(ds, **kwargs):
         for salt in salts:
             if salt not in ds:
                 ds[salt] = np.nan
+            ds[salt] = ds[salt].astype(float)
             ds[salt] = ds[salt].where(ds[salt].notnull(), other=results[salt])
     return ds
 
-- 
2.43.0

