From ee736a430cab18d55aff3f0ed1d309f36a91d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 01/24] fix: write checkpoint and results files atomically

A job interrupted while writing checkpoint.parquet left a truncated file that
made every restart fail and lost all earlier progress; an interrupted or failed
final write left a truncated results file.
---
 .../postprocess/postprocess_cli.py            | 41 +++++++++++++++----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 76186e5..958831a 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -5,6 +5,7 @@ import importlib
 import importlib.util
 import json
 import logging
+import os
 import time
 from pathlib import Path
 from typing import TypedDict, Callable
@@ -165,14 +166,36 @@ def extract_batch_data(
 # ---------------------------------------------------------------------------
 
 def write_df(df: pd.DataFrame, path: str, fmt: str) -> None:
-    if fmt == "json":
-        df.to_json(path)
-    elif fmt == "csv":
-        df.to_csv(path, index=False)
-    elif fmt == "parquet":
-        df.to_parquet(path)
-    else:
-        raise ValueError(f"Unsupported output format: {fmt!r}")
+    """Write ``df`` to ``path``, replacing an existing file atomically.
+
+    The data are written to a temporary file in the same directory which takes
+    the place of ``path`` only once it is complete and on disk. Hence, whenever
+    the job is interrupted or the write fails, ``path`` holds either its
+    previous contents or all of the new ones.
+    """
+    tmp_path = f"{path}.tmp"
+    try:
+        if fmt == "json":
+            df.to_json(tmp_path)
+        elif fmt == "csv":
+            df.to_csv(tmp_path, index=False)
+        elif fmt == "parquet":
+            df.to_parquet(tmp_path)
+        else:
+            raise ValueError(f"Unsupported output format: {fmt!r}")
+        with open(tmp_path, "rb+") as f:
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        Path(tmp_path).unlink(missing_ok=True)
+        raise
+    if hasattr(os, "O_DIRECTORY"):
+        # Make the replacement itself durable.
+        dir_fd = os.open(os.path.dirname(path) or ".", os.O_RDONLY | os.O_DIRECTORY)
+        try:
+            os.fsync(dir_fd)
+        finally:
+            os.close(dir_fd)
 
 
 def load_checkpoint(checkpoint_path: str) -> pd.DataFrame | None:
@@ -186,7 +209,7 @@ def save_checkpoint(results: list, config: PostProcessConfig) -> None:
     """Save results to checkpoint file (parquet format)."""
     results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()
     checkpoint_path = f"{config['output_dir']}/checkpoint.parquet"
-    results_df.to_parquet(checkpoint_path)
+    write_df(results_df, checkpoint_path, "parquet")
     logger.info("Checkpoint saved: %s", checkpoint_path)
 
 
-- 
2.43.0


From b7343adda8291c366ce2c0f60f7fcb3fa5ff7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/24] fix: end the whole job when one rank fails

An error on one rank (unreadable posterior, invalid sample index, disk error,
KeyboardInterrupt, generator that cannot be imported on one node, ...) left all
other ranks waiting for messages for ever.
---
 .../postprocess/postprocess_cli.py            | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 958831a..229d3cb 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -582,18 +582,29 @@ def main() -> None:
         datefmt="%H:%M:%S",
     )
     # Each rank parses CLI independently — callables cannot be bcast'd.
-    config = build_config_from_cli()
+    config = None
+    try:
+        config = build_config_from_cli()
 
-    if rank == MASTER:
-        if config["posterior_type"] == "bilby":
-            posterior = get_bilby_posterior(
-                config["posterior_path"], config["parameter_columns"]
-            )
+        if rank == MASTER:
+            if config["posterior_type"] == "bilby":
+                posterior = get_bilby_posterior(
+                    config["posterior_path"], config["parameter_columns"]
+                )
+            else:
+                raise ValueError(f"Unsupported posterior type: {config['posterior_type']!r}")
+            master(posterior, config)
         else:
-            raise ValueError(f"Unsupported posterior type: {config['posterior_type']!r}")
-        master(posterior, config)
-    else:
-        worker(config)
+            worker(config)
+    except BaseException as exc:
+        if isinstance(exc, SystemExit) and not exc.code and config is None:
+            raise  # --help: every rank exits by itself
+        # A rank that ends early would leave the others waiting for its
+        # messages for ever.
+        if size > 1:
+            logger.exception("Rank %d failed, aborting the job.", rank)
+            comm.Abort(1)
+        raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 1273a794dcab652b3a9bead61246c87d7e5fc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 03/24] fix: reject --batch-size below 1

A batch size of zero sent empty batches for ever and the job never ended.
---
 gw_eccentricity/postprocess/postprocess_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 229d3cb..c5c8546 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -541,6 +541,8 @@ def build_config_from_cli() -> PostProcessConfig:
     # Should specify either fref or tref, but not both
     if not ((args.tref is None) ^ (args.fref is None)):
         parser.error("Provide exactly one of --fref or --tref, but not both.")
+    if args.batch_size < 1:
+        parser.error("--batch-size must be at least 1.")
 
     # Each rank loads its own callable — callables cannot survive comm.bcast.
     return {
-- 
2.43.0


From fe1448eaa7582ef296bd3f7e9f5ab9557155bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 04/24] fix: write an empty results table for an empty sample
 selection

Saving zero results raised KeyError: 'sample_index'.
---
 gw_eccentricity/postprocess/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index bf2a628..e4b2144 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -1,6 +1,6 @@
 """Core postprocessing functions for measuring eccentricity from waveform modes."""
 from __future__ import annotations
-from dataclasses import dataclass
+from dataclasses import dataclass, fields
 import logging
 import pandas as pd
 from ..gw_eccentricity import measure_eccentricity
@@ -21,7 +21,9 @@ class PostProcessResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of PostProcessResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame(
+            [result.__dict__ for result in self.results],
+            columns=[field.name for field in fields(PostProcessResult)])
 
     def success_only(self) -> list[PostProcessResult]:
         """Filter successful results."""
@@ -53,7 +55,9 @@ class FrefBoundsResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of FrefBoundsResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame(
+            [result.__dict__ for result in self.results],
+            columns=[field.name for field in fields(FrefBoundsResult)])
     
     def success_only(self) -> list[FrefBoundsResult]:
         """Filter successful results."""
-- 
2.43.0


From cfba9226e976097dac2064a4ccdead849fafddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 05/24] fix: process each requested sample once

Repeating an index in --samples multiplied its rows in the final merge
(2 requests -> 4 rows) and reported missing results under MPI.
---
 gw_eccentricity/postprocess/postprocess_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index c5c8546..adb59cf 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -330,6 +330,7 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
     samples = config["samples"]
     if samples is None:
         samples = list(posterior.index)
+    samples = list(dict.fromkeys(samples))  # a sample given twice is still one sample
     selected_posterior = posterior.loc[samples]
     row_indices = list(selected_posterior.index)
     param_list = selected_posterior.to_dict(orient="records")
-- 
2.43.0


From 43139d86dc5121f1041f3d4b84aa0ad6296c8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 06/24] fix: keep checkpointed samples that the current run
 does not select

Checkpointing a run over a subset of the samples dropped the results recorded
for all other samples.
---
 .../postprocess/postprocess_cli.py            | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index adb59cf..fafa42e 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -358,20 +358,24 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
     if checkpoint_df is not None or size > 1:
         sample_index_to_pos = {idx: pos for pos, idx in enumerate(row_indices)}
 
-    # Load prior checkpoint rows into the positional ``results`` array.
+    # Load prior checkpoint rows into the positional ``results`` array. Rows of
+    # samples that are not selected now are kept for later runs.
+    other_results = []
     if checkpoint_df is not None and sample_index_to_pos is not None:
         for row_dict in checkpoint_df.to_dict('records'):
             sample_idx = row_dict["sample_index"]
+            res = PostProcessResult(
+                sample_index=int(sample_idx),
+                status=row_dict["status"],
+                egw=row_dict.get("egw"),
+                lgw=row_dict.get("lgw"),
+                error_message=row_dict.get("error_message"),
+            )
             if sample_idx in sample_index_to_pos:
                 pos = sample_index_to_pos[sample_idx]
-                res = PostProcessResult(
-                    sample_index=int(sample_idx),
-                    status=row_dict["status"],
-                    egw=row_dict.get("egw"),
-                    lgw=row_dict.get("lgw"),
-                    error_message=row_dict.get("error_message"),
-                )
                 results[pos] = res
+            else:
+                other_results.append(res)
 
     n_to_process = len(to_process)
     logger.info(
@@ -403,11 +407,11 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             progress.tick()
 
             if checkpoint_interval and samples_since_checkpoint >= checkpoint_interval:
-                save_checkpoint(results, config)
+                save_checkpoint(results + other_results, config)
                 samples_since_checkpoint = 0
 
         if checkpoint_interval and samples_since_checkpoint > 0:
-            save_checkpoint(results, config)
+            save_checkpoint(results + other_results, config)
 
         save_final(results, row_indices, selected_posterior, config)
         return
@@ -441,7 +445,7 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             progress.tick()
 
             if checkpoint_interval and samples_since_checkpoint >= checkpoint_interval:
-                save_checkpoint(results, config)
+                save_checkpoint(results + other_results, config)
                 samples_since_checkpoint = 0
 
         # Send next batch to the freed worker
@@ -455,7 +459,7 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             comm.send(_STOP, dest=worker_rank)
 
     if checkpoint_interval and samples_since_checkpoint > 0:
-        save_checkpoint(results, config)
+        save_checkpoint(results + other_results, config)
 
     save_final(results, row_indices, selected_posterior, config)
 
-- 
2.43.0


From 95ef6301a19b51204edd6adcbc2930a0419267a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 07/24] fix: report a message for failures whose exception has
 none

A sample failing with, for example, a bare assert was recorded with an empty
error message.
---
 gw_eccentricity/postprocess/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index e4b2144..b3e1e1c 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -203,7 +203,7 @@ def get_fref_bounds_for_sample(
             status="fail",
             fref_min=None,
             fref_max=None,
-            error_message=str(e))
+            error_message=str(e) or repr(e))
 
 def postprocess_sample(
         sample_index: int,
@@ -285,4 +285,4 @@ def postprocess_sample(
             status="fail",
             egw=None,
             lgw=None,
-            error_message=str(e))
+            error_message=str(e) or repr(e))
-- 
2.43.0


From fbd56edece209bcd3b4fced84c7e00e1810419cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 08/24] fix: do not truncate the user's omegalm modes in place

---
 gw_eccentricity/eccDefinition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 977294e..12a7c35 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -645,7 +645,9 @@ class eccDefinition:
         amp_phase_omega_dict.update(self.get_phaselm_from_dataDict(dataDict))
         # add omegalm
         if "omegalm" in dataDict:
-            amp_phase_omega_dict.update({"omegalm": dataDict["omegalm"]})
+            # use a copy since the modes in it may get truncated later
+            amp_phase_omega_dict.update(
+                {"omegalm": dataDict["omegalm"].copy()})
         else:
             # compute it from phaselm that is already in amp_phase_omega_dict
             amp_phase_omega_dict.update(
@@ -656,7 +658,7 @@ class eccDefinition:
         # add omegalm_zeroecc if zeroecc data is provided
         if "omegalm_zeroecc" in dataDict:
             amp_phase_omega_dict.update(
-                {"omegalm_zeroecc": dataDict["omegalm_zeroecc"]})
+                {"omegalm_zeroecc": dataDict["omegalm_zeroecc"].copy()})
         # Look for zeroecc phaselm is amp_phase_omega_dict and compute
         # omegalm_zeroecc from it if phaselm_zeroecc is present
         elif "phaselm_zeroecc" in amp_phase_omega_dict \
-- 
2.43.0


From 35c4caf0dbdb8b7fe28887809d8e2108f62aa1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 09/24] fix: do not modify the user's dataDict when rotating
 modes to the coprecessing frame

---
 gw_eccentricity/eccDefinition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 12a7c35..65aefae 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -949,6 +949,8 @@ class eccDefinition:
         data_dict with the inertial modes replaced by the corresponding
         modes in the coprecessing frame.
         """
+        # work on a copy so that the user's dictionary is not modified
+        data_dict = data_dict.copy()
         if ("hlm" + tag) in data_dict:
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
         # if hlm is not in data_dict, get it from amplm and phaselm.
-- 
2.43.0


From 94a9e1befa16bea522643e4665f940a33d8a48f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 10/24] fix: do not write filter_kwargs defaults into the
 user's extra_kwargs

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 65aefae..071d72f 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -476,9 +476,9 @@ class eccDefinition:
         # `spin_filter.py`.
         if self.precessing:
             # set extra_kwargs to empty dict if it is None to avoid issues when
-            # trying to access or set keys in extra_kwargs.
-            if extra_kwargs is None:
-                extra_kwargs = {}
+            # trying to access or set keys in extra_kwargs. Otherwise use a
+            # copy so that the dictionary passed by the user is not modified.
+            extra_kwargs = {} if extra_kwargs is None else deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
             filter_kwargs = check_kwargs_and_set_defaults(
-- 
2.43.0


From 40ba16949bc9c30421a74aa3b26e8480caf50a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 11/24] fix: compute the apocenter phase ratios whenever they
 are missing in the diagnostic plot

---
 gw_eccentricity/eccDefinition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 071d72f..a20b27d 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -4108,6 +4108,7 @@ class eccDefinition:
                 = self.check_extrema_separation(self.pericenters_location,
                                                 "pericenters",
                                                 always_return=True)
+        if self.orb_phase_diff_ratio_at_apocenters is None:
             self.orb_phase_diff_at_apocenters, \
                 self.orb_phase_diff_ratio_at_apocenters \
                 = self.check_extrema_separation(self.apocenters_location,
-- 
2.43.0


From 7d0d1824134a7037a95f78e54fbbd04ff8ff13d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 12/24] fix: do not shift the user's time array in place in the
 Fits methods

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 959b610..1dabf61 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -182,7 +182,10 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         # axis such that merger occurs at t=0.
         # After the peaks are found, the time is reshifted to to its original
         # values at the end of this function so the merger is again at t_merger.
-        self.t -= self.t_merger
+        # Use a new array for the shifted times: self.t shares its memory with
+        # the time array provided by the user, which must not be modified.
+        t_original = self.t
+        self.t = self.t - self.t_merger
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
@@ -450,7 +453,7 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
 
         # Now that we are done with finding peaks, we shift the time axis to
         # it's original values
-        self.t += self.t_merger
+        self.t = t_original
         return np.array(extrema)
 
         # Procedure:
-- 
2.43.0


From cbf486f5efaf8f6521f75dc6e4d837576200ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 13/24] fix: use the range of the right averaging method when
 converting fref_in to tref_in

---
 gw_eccentricity/eccDefinition.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index a20b27d..e6be0d9 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3312,6 +3312,13 @@ class eccDefinition:
         """
         method = self.extra_kwargs["omega_gw_averaging_method"]
         if method in self.available_averaging_methods:
+            # We get omega_gw_average by evaluating the omega_gw_average(t)
+            # on t, from tmin_for_fref to tmax_for_fref. This is done first, so
+            # that the allowed range used below is the one for this method even
+            # if omega_gw_average was computed earlier using another method.
+            self.t_for_omega_gw_average, self.omega_gw_average \
+                = self.get_omega_gw_average(method)
+
             # The fref_in array could have frequencies that is outside the
             # range of frequencies in omega_gw average. Therefore, we want to
             # create a separate array of frequencies fref_out which is created
@@ -3324,10 +3331,6 @@ class eccDefinition:
             # tref_in such that omega_gw_average(tref_in) = fref_out * 2 * pi
             # This is done by first creating an interpolant of time as function
             # of omega_gw_average.
-            # We get omega_gw_average by evaluating the omega_gw_average(t)
-            # on t, from tmin_for_fref to tmax_for_fref
-            self.t_for_omega_gw_average, self.omega_gw_average \
-                = self.get_omega_gw_average(method)
 
             # check that omega_gw_average is monotonically increasing
             self.check_monotonicity_of_omega_gw_average(
-- 
2.43.0


From 494ac81143612e01fab1b3481b2dcd5d86302465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 14/24] fix: always plot omega_gw_average of the method in use

---
 gw_eccentricity/eccDefinition.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index e6be0d9..ae69bc4 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3935,12 +3935,14 @@ class eccDefinition:
             figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
-        # check if omega_gw_average is already available. If not
-        # available, compute it.
+        # compute omega_gw_average using `omega_gw_averaging_method`. The one
+        # which is already available might be from a different method.
+        t_for_omega_gw_average, omega_gw_average = self.get_omega_gw_average()
         if self.omega_gw_average is None:
-            self.t_for_omega_gw_average, self.omega_gw_average = self.get_omega_gw_average()
-        ax.plot(self.t_for_omega_gw_average,
-                self.omega_gw_average,
+            self.t_for_omega_gw_average, self.omega_gw_average \
+                = t_for_omega_gw_average, omega_gw_average
+        ax.plot(t_for_omega_gw_average,
+                omega_gw_average,
                 c=colorsDict["default"],
                 label="omega_gw_average",
                 **kwargs)
-- 
2.43.0


From 553c13e059986938999c3201f74f1a70f4227b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 15/24] fix: summarise an empty list of results instead of
 dividing by zero

---
 gw_eccentricity/postprocess/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index b3e1e1c..2b2725e 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -35,7 +35,7 @@ class PostProcessResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0.0,
             'egw': [r.egw for r in successful],
             'lgw': [r.lgw for r in successful]
         }
@@ -69,7 +69,7 @@ class FrefBoundsResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0.0,
             'fref_min': [r.fref_min for r in successful],
             'fref_max': [r.fref_max for r in successful]
         }
-- 
2.43.0


From 5911513b805552a3caafae25ad6d85983b644d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 16/24] fix: close waveform and metadata files when reading
 them fails

---
 gw_eccentricity/load_data.py | 103 ++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 51 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e2a8a16..e828abd 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -644,13 +644,14 @@ def load_lvcnr_waveform(**kwargs):
     dist_mpc = 1  # will be factored out
     f_low = kwargs["Momega0"] / np.pi / time_dimless_to_mks(M)
 
-    NRh5File = h5py.File(filepath, "r")
+    with h5py.File(filepath, "r") as NRh5File:
+        attrs_NR = dict(NRh5File.attrs)
     params_NR = lal.CreateDict()
     lalsim.SimInspiralWaveformParamsInsertNumRelData(params_NR, filepath)
 
     # Metadata parameters masses:
-    m1 = NRh5File.attrs["mass1"]
-    m2 = NRh5File.attrs["mass2"]
+    m1 = attrs_NR["mass1"]
+    m2 = attrs_NR["mass2"]
     m1SI = m1 * M / (m1 + m2) * lal.MSUN_SI
     m2SI = m2 * M / (m1 + m2) * lal.MSUN_SI
 
@@ -658,7 +659,7 @@ def load_lvcnr_waveform(**kwargs):
     # If f_low == 0, update it to the start frequency so that
     # we get the right start frequency
     if f_low == 0:
-        f_low = NRh5File.attrs["f_lower_at_1MSUN"] / M
+        f_low = attrs_NR["f_lower_at_1MSUN"] / M
     f_ref = 0  # Non zero f_ref is not supported since the lvcnr format of the
     # files we are testing is format 1.
     spins = lalsim.SimInspiralNRWaveformGetSpinsFromHDF5File(f_ref, M,
@@ -705,16 +706,14 @@ def load_lvcnr_waveform(**kwargs):
 
     q = m1SI/m2SI
     try:
-        eccentricity = float(NRh5File.attrs["eccentricity"])
+        eccentricity = float(attrs_NR["eccentricity"])
     except ValueError:
         eccentricity = None
     try:
-        mean_anomaly = float(NRh5File.attrs["mean_anomaly"])
+        mean_anomaly = float(attrs_NR["mean_anomaly"])
     except ValueError:
         mean_anomaly = None
 
-    NRh5File.close()
-
     # remove junk from the begining of the data
     t, modes_dict = reomve_junk_from_nr_data(
         t,
@@ -1200,13 +1199,16 @@ def get_modes_dict_from_sxs_catalog_old_format(**kwargs):
     """
     # load modes
     modes_dict = {}
-    data = h5py.File(os.path.join(
-        kwargs["data_dir"],
-        "rhOverM_Asymptotic_GeometricUnits_CoM.h5"), "r")
-    waveform_data = data[f"Extrapolated_N{kwargs['extrap_order']}.dir"]
+    modes_data = []
+    with h5py.File(os.path.join(
+            kwargs["data_dir"],
+            "rhOverM_Asymptotic_GeometricUnits_CoM.h5"), "r") as data:
+        waveform_data = data[f"Extrapolated_N{kwargs['extrap_order']}.dir"]
+        for ell, m in kwargs["mode_array"]:
+            modes_data.append(waveform_data[f"Y_l{ell}_m{m}.dat"][:])
     for idx, mode in enumerate(kwargs["mode_array"]):
         ell, m = mode
-        mode_data = waveform_data[f"Y_l{ell}_m{m}.dat"]
+        mode_data = modes_data[idx]
         # create the time array only once
         if idx == 0:
             time = mode_data[:, 0]
@@ -1286,9 +1288,8 @@ def get_params_dict_from_sxs_metadata(metadata_path):
     related to the NR simulation performed to obtain the waveform modes.
     """
     if "metadata.txt" in metadata_path:
-        fl = open(metadata_path, "r")
-        lines = fl.readlines()
-        fl.close()
+        with open(metadata_path, "r") as fl:
+            lines = fl.readlines()
         for line in lines:
             if "reference-dimensionless-spin1" in line:
                 chi1 = [float(x.strip()) for x in line.split("=")[-1].split(",")]
@@ -1301,9 +1302,8 @@ def get_params_dict_from_sxs_metadata(metadata_path):
             if "relaxation-time" in line:
                 t_relax = float(line.split("=")[-1].strip())
     if "metadata.json" in metadata_path:
-        fl = open(metadata_path, "r")
-        data = json.load(fl)
-        fl.close()
+        with open(metadata_path, "r") as fl:
+            data = json.load(fl)
         chi1 = data["reference_dimensionless_spin1"]
         chi2 = data["reference_dimensionless_spin2"]
         m1 = data["reference_mass1"]
@@ -1529,9 +1529,9 @@ def get_num_orbits_duration_from_horizon_data(horizon_filepath, num_orbits):
     num_obits_duration : float
         Duration of first `num_orbits`.
     """
-    horizons_data = h5py.File(horizon_filepath, "r")
-    xA_data = horizons_data["AhA.dir"]["CoordCenterInertial.dat"]
-    xB_data = horizons_data["AhB.dir"]["CoordCenterInertial.dat"]
+    with h5py.File(horizon_filepath, "r") as horizons_data:
+        xA_data = horizons_data["AhA.dir"]["CoordCenterInertial.dat"][:]
+        xB_data = horizons_data["AhB.dir"]["CoordCenterInertial.dat"][:]
     time = xA_data[:, 0]
     separion_vec = xA_data[:, 1:] - xB_data[:, 1:]
     # We will use the x-y coordinates, i.e., the motion projected
@@ -1678,16 +1678,15 @@ def get_coprecessing_data_dict(data_dict, ell_min=2, ell_max=2, tag=""):
 
 def load_h22_from_EOBfile(EOB_file):
     """Load data from EOB files."""
-    fp = h5py.File(EOB_file, "r")
-    t_ecc = fp['data/t'][:]
-    amp22_ecc = fp['data/hCoOrb/Amp_l2m2'][:]
-    phi22_ecc = fp['data/hCoOrb/phi_l2m2'][:]
+    with h5py.File(EOB_file, "r") as fp:
+        t_ecc = fp['data/t'][:]
+        amp22_ecc = fp['data/hCoOrb/Amp_l2m2'][:]
+        phi22_ecc = fp['data/hCoOrb/phi_l2m2'][:]
 
-    t_nonecc = fp['data/t'][:]
-    amp22_nonecc = fp['nonecc_data/hCoOrb/Amp_l2m2'][:]
-    phi22_nonecc = fp['nonecc_data/hCoOrb/phi_l2m2'][:]
+        t_nonecc = fp['data/t'][:]
+        amp22_nonecc = fp['nonecc_data/hCoOrb/Amp_l2m2'][:]
+        phi22_nonecc = fp['nonecc_data/hCoOrb/phi_l2m2'][:]
 
-    fp.close()
     dataDict = {"t": t_ecc, "hlm": amp22_ecc * np.exp(1j * phi22_ecc),
                 "t_zeroecc": t_nonecc,
                 "hlm_zeroecc": amp22_nonecc * np.exp(1j * phi22_nonecc)}
@@ -1710,9 +1709,9 @@ def load_EOB_EccTest_file(**kwargs):
         Path to the waveform file containing quasicircular waveform
         modes. Required only if include_zero_ecc is True.
     """
-    f = h5py.File(kwargs["filepath"], "r")
-    t = f["t"][:]
-    hlm = {(2, 2): f["(2, 2)"][:]}
+    with h5py.File(kwargs["filepath"], "r") as f:
+        t = f["t"][:]
+        hlm = {(2, 2): f["(2, 2)"][:]}
     # make t = 0 at the merger
     t = t - peak_time_via_quadratic_fit(
         t,
@@ -1826,12 +1825,13 @@ def load_lvcnr_hack(**kwargs):
         get_load_waveform_defaults("LVCNR_hack"),
         "LVCNR hack kwargs",
         "`load_data.get_defaults_for_nr`")
-    f = h5py.File(kwargs["filepath"])
-    t_for_amp22 = f["amp_l2_m2"]["X"][:]
-    amp22 = f["amp_l2_m2"]["Y"][:]
+    with h5py.File(kwargs["filepath"]) as f:
+        t_for_amp22 = f["amp_l2_m2"]["X"][:]
+        amp22 = f["amp_l2_m2"]["Y"][:]
 
-    t_for_phase22 = f["phase_l2_m2"]["X"][:]
-    phase22 = f["phase_l2_m2"]["Y"][:]
+        t_for_phase22 = f["phase_l2_m2"]["X"][:]
+        phase22 = f["phase_l2_m2"]["Y"][:]
+        attrs = dict(f.attrs)
 
     tstart = max(t_for_amp22[0], t_for_phase22[0])
     tend = min(t_for_amp22[-1], t_for_phase22[-1])
@@ -1856,17 +1856,16 @@ def load_lvcnr_hack(**kwargs):
                    "hlm": modes_dict}
 
     # params
-    s1x = f.attrs["spin1x"]
-    s1y = f.attrs["spin1y"]
-    s1z = f.attrs["spin1z"]
-    s2x = f.attrs["spin2x"]
-    s2y = f.attrs["spin2y"]
-    s2z = f.attrs["spin2z"]
-    m1 = f.attrs["mass1"]
-    m2 = f.attrs["mass2"]
-    ecc = f.attrs["eccentricity"]
-    mean_ano = f.attrs["mean_anomaly"]
-    f.close()
+    s1x = attrs["spin1x"]
+    s1y = attrs["spin1y"]
+    s1z = attrs["spin1z"]
+    s2x = attrs["spin2x"]
+    s2y = attrs["spin2y"]
+    s2z = attrs["spin2z"]
+    m1 = attrs["mass1"]
+    m2 = attrs["mass2"]
+    ecc = attrs["eccentricity"]
+    mean_ano = attrs["mean_anomaly"]
 
     if kwargs["include_zero_ecc"] or kwargs["include_params_dict"]:
         params_dict = {"q": m1/m2,
@@ -1928,7 +1927,8 @@ def load_EMRI_waveform(**kwargs):
         "load_data.get_load_waveform_defaults")
     if kwargs["filepath"] is None:
         raise KeyError("path to the eccentric EMRI waveform cannot be None.")
-    emri_data = h5py.File(kwargs["filepath"], "r")["Dataset1"]
+    with h5py.File(kwargs["filepath"], "r") as f:
+        emri_data = f["Dataset1"][:]
     t = emri_data[:, 0]
     h22 = emri_data[:, 1] + 1j * emri_data[:, 2]
     tpeak = peak_time_via_quadratic_fit(
@@ -1974,7 +1974,8 @@ def load_EMRI_waveform(**kwargs):
                             / np.sqrt(2*np.pi)}})
     if kwargs["include_geodesic_ecc"]:
         e_geodesic_file = kwargs["filepath"][:-3] + "_ecc.h5"
-        e_geodesic_data = h5py.File(e_geodesic_file, "r")["Dataset1"]
+        with h5py.File(e_geodesic_file, "r") as f:
+            e_geodesic_data = f["Dataset1"][:]
         e_geodesic = e_geodesic_data[:, 1][start: end]
         dataDict.update({"e_geodesic": e_geodesic})
         if kwargs["deltaT"] is not None:
-- 
2.43.0


From 03d49623b31d7e13b238b8737a80bc3f82d0e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 17/24] fix: look for the eccentricity in the EMRI file name,
 not in its directory

---
 gw_eccentricity/load_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e828abd..14273de 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1961,9 +1961,10 @@ def load_EMRI_waveform(**kwargs):
 
     if kwargs["include_zero_ecc"]:
         if kwargs["filepath_zero_ecc"] is None:
-            idx = kwargs["filepath"].find("e0")
-            kwargs["filepath_zero_ecc"] = (
-                kwargs["filepath"][:idx] + "e0.000.h5")
+            directory, filename = os.path.split(kwargs["filepath"])
+            idx = filename.find("e0")
+            kwargs["filepath_zero_ecc"] = os.path.join(
+                directory, filename[:idx] + "e0.000.h5")
         kwargs_zero_ecc = {
             "filepath": kwargs["filepath_zero_ecc"],
             "include_zero_ecc": False}
-- 
2.43.0


From 039cb14c0277c8a7b84a69b997707d39d3dfddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 18/24] fix: do not take a truncated download for a complete
 file

---
 gw_eccentricity/load_data.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 14273de..362528c 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -817,8 +817,21 @@ def download_sxs_waveform(sxs_id, lev, data_dir, extrap_order=2,
         dest = os.path.join(target_dir, filename)
         if os.path.exists(dest):
             continue  # already present, skip
-        url = sim_files[f"Lev{lev}:{filename}"]["link"]
-        download_file(url, dest, progress=False)
+        file_info = sim_files[f"Lev{lev}:{filename}"]
+        # A connection lost before the length of the file was known looks like
+        # the end of the file.  Therefore, check the size before the file
+        # appears under its final name.
+        incomplete = dest + ".incomplete"
+        download_file(file_info["link"], incomplete, progress=False,
+                      if_newer=False)
+        size = os.path.getsize(incomplete)
+        expected_size = file_info.get("size", size)
+        if size != expected_size:
+            os.remove(incomplete)
+            raise RuntimeError(
+                f"Download of `{filename}` is incomplete: got {size} of "
+                f"{expected_size} bytes.")
+        os.replace(incomplete, dest)
 
     return target_dir
 
-- 
2.43.0


From 52dfdad301921bc00eed12732690432333805eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 19/24] fix: do not round results written as JSON to 10
 decimals

---
 gw_eccentricity/postprocess/postprocess_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index fafa42e..f176882 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -176,7 +176,8 @@ def write_df(df: pd.DataFrame, path: str, fmt: str) -> None:
     tmp_path = f"{path}.tmp"
     try:
         if fmt == "json":
-            df.to_json(tmp_path)
+            # the default would round to 10 decimals
+            df.to_json(tmp_path, double_precision=15)
         elif fmt == "csv":
             df.to_csv(tmp_path, index=False)
         elif fmt == "parquet":
-- 
2.43.0


From 89c1d20dfdb3f6dd0a181eaaa9a62688e09b2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 20/24] fix: do not require LaTeX for debug figures

Three debug figures asked for LaTeX: without it the measurement failed, and
text.usetex stayed on for all later figures.
---
 gw_eccentricity/eccDefinition.py | 4 ++--
 gw_eccentricity/spin_filter.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index ae69bc4..31f3e88 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2141,7 +2141,7 @@ class eccDefinition:
     def _plot_debug_segment(self, t_left, t_right, t_for_debug, amp_for_debug, omega_for_debug):
         """Plot full waveform vs selected segment for debugging."""
         style = "APS"
-        use_fancy_plotsettings(style=style)
+        use_fancy_plotsettings(usetex=False, style=style)
         nrows = 2
 
         fig, axes = plt.subplots(
@@ -3100,7 +3100,7 @@ class eccDefinition:
                 - omega_gw_average[first_idx])
             if self.debug_plots:
                 style = "APS"
-                use_fancy_plotsettings(style=style)
+                use_fancy_plotsettings(usetex=False, style=style)
                 nrows = 4
                 fig, axes = plt.subplots(
                     nrows=nrows,
diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 1ae3066..fe68f1f 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -198,7 +198,7 @@ def check_filter_requirement(t, data_copr_22, data_copr_2m2,
     ratio = max_asym_amp / max_res_amp
 
     if debug_plots:
-        use_fancy_plotsettings(style=style)
+        use_fancy_plotsettings(usetex=False, style=style)
         fig, ax = plt.subplots(
             figsize=(figWidthsTwoColDict[style], figHeightsDict[style]))
         ax.plot(t, asymmetry, label="Asymmetry")
-- 
2.43.0


From 75fae56b30a1c799923fb3789c64598cf2540c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 21/24] fix: print debug messages of the spin filter in ASCII

Symbols that the terminal's encoding lacks raised UnicodeEncodeError, which
made the measurement fail.
---
 gw_eccentricity/spin_filter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index fe68f1f..be092fa 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -297,7 +297,7 @@ def _get_fcut_fecc_fspin(t, data, f_spin_guess,
     if np.any(mask_spin):
         f_spin = freqs[mask_spin][np.argmax(spectrum[mask_spin])]
         if verbose:
-            print(f"✓ f_spin={f_spin:.5f}")
+            print(f"f_spin={f_spin:.5f}")
     else:
         f_spin = f_spin_guess
         if verbose:
@@ -313,10 +313,10 @@ def _get_fcut_fecc_fspin(t, data, f_spin_guess,
         if verbose:
             spin_ratio = f_spin / f_ecc
             if spin_ratio < 3.0:
-                print(f"✓ f_ecc={f_ecc:.5f}, ratio f_spin/f_ecc={f_spin/f_ecc:.2f}")
+                print(f"f_ecc={f_ecc:.5f}, ratio f_spin/f_ecc={f_spin/f_ecc:.2f}")
             else:
                 print(
-                    f"⚠️ f_ecc={f_ecc:.5f}, ratio f_spin/f_ecc={f_spin/f_ecc:.2f} "
+                    f"Warning: f_ecc={f_ecc:.5f}, ratio f_spin/f_ecc={f_spin/f_ecc:.2f} "
                     "is quite large, which may indicate that the identified "
                     "f_ecc is not the true eccentricity peak. This segment may not "
                     "be reliable for eccentricity estimation.")
@@ -332,7 +332,7 @@ def _get_fcut_fecc_fspin(t, data, f_spin_guess,
     if np.any(mask_trough):
         f_cutoff = freqs[mask_trough][np.argmin(spectrum[mask_trough])]
         if verbose:
-            print(f"✓ f_cutoff={f_cutoff:.5f} (trough between f_ecc and f_spin)")
+            print(f"f_cutoff={f_cutoff:.5f} (trough between f_ecc and f_spin)")
     else:
         f_cutoff = 0.5 * (f_spin + f_ecc)
         if verbose:
@@ -908,7 +908,7 @@ def check_and_filter_spin_induced_oscillations(data_dict, data_tag, t_merger,
 
         if filter_obj.filtering_required and not filter_kwargs["do_not_filter"]:
             if filter_kwargs["debug_level"] > 0:
-                print(f"✅ Filter requirements are met for {data_type}, applying filter.")
+                print(f"Filter requirements are met for {data_type}, applying filter.")
 
             filtered = filter_obj.apply_filter(
                 padding_length=filter_kwargs["padding_length"],
@@ -925,7 +925,7 @@ def check_and_filter_spin_induced_oscillations(data_dict, data_tag, t_merger,
             filter_data_dict[f"{base_key}_filter_segment_results"] = filter_obj.filter_segment_results
 
             if filter_kwargs["debug_level"] > 0:
-                print(f"✅ Finished filtering {data_type}.")
+                print(f"Finished filtering {data_type}.")
         else:
             filter_data_dict[base_key]                             = original
             filter_data_dict[f"{base_key}_original"]               = original
-- 
2.43.0


From a76b0be0d432d77646787d31fa8be650c38c663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 22/24] fix: do not let LaTeX of an earlier plot stick

A plot asked for with usetex=False after one with usetex=True still needed
LaTeX: the setting was never switched off, and was applied only after the
axes had been made.
---
 gw_eccentricity/eccDefinition.py | 40 ++++++++++++++++----------------
 gw_eccentricity/plot_settings.py |  2 +-
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 31f3e88..621e95c 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3609,10 +3609,10 @@ class eccDefinition:
         Returns:
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         default_kwargs = {"c": colorsDict["default"]}
         for key in default_kwargs:
             if key not in kwargs:
@@ -3678,10 +3678,10 @@ class eccDefinition:
         Returns:
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         default_kwargs = {"c": colorsDict["default"]}
         for key in default_kwargs:
             if key not in kwargs:
@@ -3755,10 +3755,10 @@ class eccDefinition:
         --------
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         default_kwargs = {"c": colorsDict["default"]}
         for key in default_kwargs:
             if key not in kwargs:
@@ -3826,10 +3826,10 @@ class eccDefinition:
         --------
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         ax.plot(self.t_for_checks,
                 self.omega_gw_pericenters_interp(self.t_for_checks),
                 c=colorsDict["pericenter"],
@@ -3931,10 +3931,10 @@ class eccDefinition:
         --------
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         # compute omega_gw_average using `omega_gw_averaging_method`. The one
         # which is already available might be from a different method.
         t_for_omega_gw_average, omega_gw_average = self.get_omega_gw_average()
@@ -4029,10 +4029,10 @@ class eccDefinition:
         -------
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         ax.plot(self.t, self.amp_gw,
                 c=colorsDict["default"], label=labelsDict["amp_gw"])
         ax.plot(self.t[self.pericenters_location],
@@ -4102,10 +4102,10 @@ class eccDefinition:
         --------
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         tpericenters = self.t[self.pericenters_location[1:]]
         if self.orb_phase_diff_ratio_at_pericenters is None:
             self.orb_phase_diff_at_pericenters, \
@@ -4191,10 +4191,10 @@ class eccDefinition:
         --------
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         ax.plot(self.t, self.res_omega_gw, c=colorsDict["default"])
         ax.plot(self.t[self.pericenters_location],
                 self.res_omega_gw[self.pericenters_location],
@@ -4261,10 +4261,10 @@ class eccDefinition:
         --------
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         ax.plot(self.t, self.res_amp_gw, c=colorsDict["default"])
         ax.plot(self.t[self.pericenters_location],
                 self.res_amp_gw[self.pericenters_location],
@@ -4338,10 +4338,10 @@ class eccDefinition:
         Returns:
         fig, ax
         """
-        if fig is None or ax is None:
-            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         if use_fancy_settings:
             use_fancy_plotsettings(usetex=usetex, style=style)
+        if fig is None or ax is None:
+            figNew, ax = plt.subplots(figsize=(figWidthsTwoColDict[style], 4))
         ax.plot(self.t, self.data_for_finding_extrema,
                 c=colorsDict["default"])
         ax.plot(
diff --git a/gw_eccentricity/plot_settings.py b/gw_eccentricity/plot_settings.py
index 4447a3c..cf27839 100644
--- a/gw_eccentricity/plot_settings.py
+++ b/gw_eccentricity/plot_settings.py
@@ -112,8 +112,8 @@ fontSizeDict = {"APS": 9.0,
 def use_fancy_plotsettings(usetex=True, style="Notebook"):
     """Use fancy plot settings."""
     # Text
+    rc("text", usetex=usetex)
     if usetex:
-        rc("text", usetex=usetex)
         rc("text.latex", preamble=r"\usepackage{amsmath}")
         rc("text.latex", preamble=r"\usepackage{txfonts}")
         rc("text.latex",
-- 
2.43.0


From 6048af89c8be5cd43ba8ee9838f7216300fbf5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:41 +0000
Subject: [PATCH 23/24] fix: do not return the caller's own reference array as
 the result

When return_zero_if_small_ecc_failure sets the eccentricity to zero,
tref_out/fref_out was the array given as tref_in/fref_in: changing that
array later changed the returned result.
---
 gw_eccentricity/eccDefinition.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 621e95c..c3b0fa6 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2485,12 +2485,13 @@ class eccDefinition:
         if self.domain == "time":
             # This function sets eccentricity and mean anomaly to zero when a
             # method fails to detect any extrema, and therefore, in such cases,
-            # we can set tref_out to be the same as tref_in.
-            self.tref_out = self.tref_in
+            # we can set tref_out to be the same as tref_in. It has to be a copy:
+            # tref_in may be the very array that belongs to the user.
+            self.tref_out = self.tref_in.copy()
             out_len = len(self.tref_out)
         else:
             # similarly we can set fref_out to be the same as fref_in
-            self.fref_out = self.fref_in
+            self.fref_out = self.fref_in.copy()
             out_len = len(self.fref_out)
         self.eccentricity = np.zeros(out_len)
         self.mean_anomaly = np.zeros(out_len)
-- 
2.43.0


From 84d061f4ec5125e2ca2bd4c9864d165bf6972af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 24/24] fix: do not mix the data of simultaneous downloads of a
 file

Processes downloading the same file wrote to the same temporary file, and
what one of them had written so far could end up under the final name.
---
 gw_eccentricity/load_data.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 362528c..d37fdcd 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -8,6 +8,7 @@ import lal
 import lalsimulation as lalsim
 import warnings
 import json
+import tempfile
 import spherical_functions as sf
 from copy import deepcopy
 from .utils import peak_time_via_quadratic_fit
@@ -820,18 +821,20 @@ def download_sxs_waveform(sxs_id, lev, data_dir, extrap_order=2,
         file_info = sim_files[f"Lev{lev}:{filename}"]
         # A connection lost before the length of the file was known looks like
         # the end of the file.  Therefore, check the size before the file
-        # appears under its final name.
-        incomplete = dest + ".incomplete"
-        download_file(file_info["link"], incomplete, progress=False,
-                      if_newer=False)
-        size = os.path.getsize(incomplete)
-        expected_size = file_info.get("size", size)
-        if size != expected_size:
-            os.remove(incomplete)
-            raise RuntimeError(
-                f"Download of `{filename}` is incomplete: got {size} of "
-                f"{expected_size} bytes.")
-        os.replace(incomplete, dest)
+        # appears under its final name.  Use a directory of our own until then,
+        # as other processes may be downloading the same file.
+        with tempfile.TemporaryDirectory(
+                prefix=".incomplete_", dir=target_dir) as incomplete_dir:
+            incomplete = os.path.join(incomplete_dir, filename)
+            download_file(file_info["link"], incomplete, progress=False,
+                          if_newer=False)
+            size = os.path.getsize(incomplete)
+            expected_size = file_info.get("size", size)
+            if size != expected_size:
+                raise RuntimeError(
+                    f"Download of `{filename}` is incomplete: got {size} of "
+                    f"{expected_size} bytes.")
+            os.replace(incomplete, dest)
 
     return target_dir
 
-- 
2.43.0

