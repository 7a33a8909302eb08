From 8c969cd70df55becb5cc5ca6a9ce2ba885673c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 01/21] fix: restart from an existing output file

The output files carry a time dimension of length one, which made assigning
the restart states fail with a shape mismatch.
---
 src/wam2layers/tracking/backtrack.py    | 4 ++--
 src/wam2layers/tracking/forwardtrack.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..6aa541a 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -139,8 +139,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
         # Reload last state from existing output
         date = config.tracking_end_date
         ds = xr.open_dataset(output_path(date, config))
-        output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
-        output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
+        output["s_track_upper_restart"].values = ds.s_track_upper_restart.squeeze("time").values
+        output["s_track_lower_restart"].values = ds.s_track_lower_restart.squeeze("time").values
 
     logger.info(f"Output will be written to {config.output_folder.absolute()}.")
     return config, output, grid
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..23cd820 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -142,8 +142,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
         # Reload last state from existing output
         date = config.tracking_start_date
         ds = xr.open_dataset(output_path(date, config))
-        output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
-        output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
+        output["s_track_upper_restart"].values = ds.s_track_upper_restart.squeeze("time").values
+        output["s_track_lower_restart"].values = ds.s_track_lower_restart.squeeze("time").values
 
     logger.info(f"Output will be written to {config.output_folder.absolute()}.")
     return config, output, grid
-- 
2.43.0


From eb5de0a2d5f6ede2b7f7a3bfcc124b7268d1391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 02/21] fix: keep fluxes defined where both horizontal
 components are zero

fillna does not work in place, so the result was lost.
---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From e182c282211aeb756e9d937ea487c2d539506cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 03/21] fix: use the latitude spacing for the northern and
 southern cell edges

---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..6f14f95 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -51,8 +51,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -64,8 +64,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From b74535742ae9cb2107284f4bb7d55863dc3d2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 04/21] fix: subtract numerically gained moisture in the
 tagging closure

Gained moisture ends up in the tracked, stored or lost terms, so adding it
once more counted it double.
---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From ebe4af658d150d8709cf0f2f388bf5afd3a858f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 05/21] fix: include the edges when the tracking domain crosses
 the dateline

Label based selection includes both edges when it does not.
---
 src/wam2layers/tracking/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..69c7ea0 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -56,10 +56,10 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         # Need to roll coordinates to maintain a continuous longitude
         # Roll the first lon that's NOT in the bbox to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude < east) | (ds.longitude > west)
+        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
         n_roll = in_bbox.argmin().item()  # first false value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
-        in_bbox = (ds_rolled.longitude < east) | (ds_rolled.longitude > west)
+        in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
 
 
-- 
2.43.0


From e960620f8dde2b452c06ca1817c9a91c88dde669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 06/21] fix: wrap horizontal divergence at the seam of a
 periodic grid

The horizontal transport wraps around in periodic mode, but the vertical
flux closure used one-sided differences in the first and last column.
---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/core.py         | 15 +++++++++++----
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 6aa541a..4150bcd 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -194,7 +194,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S1, progress_tracker, config, t1)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # Inside backtrack the "output" dictionary is updated
         backtrack(F, S1, S0, tagging_mask, output, config)
diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index dbda23d..025fbfb 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -162,12 +162,15 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         F["fy_" + level] = np.sign(fy) * fy_stable / config.timestep
 
 
-def divergence(fx, fy):
+def divergence(fx, fy, periodic_x=False):
     # Note: latitude decreasing, hence negative fy gradient is divergence
+    if periodic_x:
+        dfx = np.gradient(pad_x_wrap(fx), axis=-1)[:, 1:-1]
+        return dfx - np.gradient(fy, axis=-2)
     return np.gradient(fx, axis=-1) - np.gradient(fy, axis=-2)
 
 
-def calculate_fz(F, S0, S1, dt, kvf):
+def calculate_fz(F, S0, S1, dt, kvf, periodic_x=False):
     """Calculate the vertical fluxes.
 
     The vertical flux is calculated as a closure term. Residuals are distributed
@@ -182,6 +185,7 @@ def calculate_fz(F, S0, S1, dt, kvf):
         dt: timestep
         kvf: net to gross vertical flux multiplication parameter. With the a value of 0,
             the net and gross fluxes are equal.
+        periodic_x: whether the grid is periodic in the x direction
 
     Returns:
         fz: vertical flux, positive downward
@@ -226,10 +230,13 @@ def calculate_fz(F, S0, S1, dt, kvf):
 
     # Evaluate all terms in the moisture balance execpt the unknown Fz and err
     foo_upper = (S1 - S0).s_upper + dt * (
-        divergence(F.fx_upper, F.fy_upper) + F.precip.values * s_rel.s_upper
+        divergence(F.fx_upper, F.fy_upper, periodic_x)
+        + F.precip.values * s_rel.s_upper
     ) / a[:, None]
     foo_lower = (S1 - S0).s_lower + dt * (
-        divergence(F.fx_lower, F.fy_lower) + F.precip.values * s_rel.s_lower - F.evap
+        divergence(F.fx_lower, F.fy_lower, periodic_x)
+        + F.precip.values * s_rel.s_lower
+        - F.evap
     ) / a[:, None]
 
     # compute the resulting vertical moisture flux; the vertical velocity so
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 23cd820..b1312da 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -202,7 +202,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S0, progress_tracker, config, t0)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # TODO: consider changing signature to F, S0, S1
         # Inside forwardtrack the "output" dictionary is updated
-- 
2.43.0


From 42d2c0db67fc117bfebfa88d1e42df4951298962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 07/21] fix: add condensation to CMIP precipitation instead of
 subtracting it

---
 src/wam2layers/preprocessing/cmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..af28c03 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,7 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From b86160289c4ff8b315a38bdbff169bd5e107bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 08/21] fix: write preprocessed data with decreasing latitude

---
 src/wam2layers/preprocessing/shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 0c60073..e728ff4 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -216,6 +216,7 @@ def preprocess(
         )
 
         ds = shift_longitude(ds)
+        ds = ds.sortby("latitude", ascending=False)
         add_bounds(ds)
 
         # Add attributes
-- 
2.43.0


From dbb0daaaa1da646e85990833194535be780c3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 09/21] fix: support using all levels

---
 src/wam2layers/config.py             | 2 +-
 src/wam2layers/preprocessing/arco.py | 3 ++-
 src/wam2layers/preprocessing/era5.py | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..ee431ee 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -383,7 +383,7 @@ class Config(BaseModel):
 
     """
 
-    levels: "Union[List[int], Literal['All']]"
+    levels: "Union[List[int], Literal['All', 'all']]"
     """Which levels to use from the raw input data.
 
     A list of integers corresponding to the levels in the input data, or a
diff --git a/src/wam2layers/preprocessing/arco.py b/src/wam2layers/preprocessing/arco.py
index 9f8d713..4cb7cc8 100644
--- a/src/wam2layers/preprocessing/arco.py
+++ b/src/wam2layers/preprocessing/arco.py
@@ -73,7 +73,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     ds = open_arco_pl()
     data = ds.sel(time=datetime).compute()
 
-    data = data.sel(level=config.levels)  # Only select wanted levels
+    if isinstance(config.levels, list):
+        data = data.sel(level=config.levels)  # Only select wanted levels
 
     data["qs"] = calculate_humidity(
         data["2m_dewpoint_temperature"], data["surface_pressure"]
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 513ad57..57259d2 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -155,7 +155,7 @@ def get_edges(era5_modellevels):
     """Get the values of a and b at the edges of a subset of ERA5 modellevels."""
     a, b = load_era5_ab()
 
-    if era5_modellevels == "all":
+    if isinstance(era5_modellevels, str):  # all levels
         return a, b
 
     # With python indexing starting at 0 and 137 full levels,
@@ -180,6 +180,8 @@ def get_edges(era5_modellevels):
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
     a, b = get_edges(levels)
+    if isinstance(levels, str):  # all levels
+        levels = np.arange(1, len(a))
 
     # Use dummy level -1 to avoid collision with existing levels
     # first coord will be discarded anyway on taking the diff below.
-- 
2.43.0


From 501c092bdd1361f98caeca2e4f966460f80d4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 10/21] fix: raise an error when a download fails

---
 src/wam2layers/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..4a84f7e 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -69,6 +69,7 @@ def download(url, destination, local_filename=None):
 
     logging.info(f"Downloading {local_filename}")
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         with open(local_path, "wb") as f:
             shutil.copyfileobj(r.raw, f)
 
-- 
2.43.0


From 87924971bffbc221185d6d00893196b8225877c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 11/21] fix: keep the seconds of dates when exporting the
 configuration

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index ee431ee..8e19ab2 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -605,5 +605,5 @@ class Config(BaseModel):
         jsondict = json.loads(jsonconfig)
 
         for date in dates:
-            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M")
+            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
         return json.dumps(jsondict)
-- 
2.43.0


From e49857bd412060052ceda9de7feefae123132fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 12/21] fix: resolve ~ in input and output folders

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 8e19ab2..41cf63a 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -526,7 +526,7 @@ class Config(BaseModel):
     def _expanduser(cls, path):
         """Resolve ~ in input paths."""
         if isinstance(path, Path):
-            return path.absolute()
+            return path.expanduser().absolute()
         return path  # Leave URLs untouched
 
     @field_validator("preprocessed_data_folder", "output_folder")
-- 
2.43.0


From fded4797c3c61af694b491537ba2e713bce2fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 13/21] fix: allow the configuration file to be in the output
 folder

---
 src/wam2layers/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index 6c6cf71..bc32d97 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -63,6 +63,9 @@ def setup_logging(log_path: Union[str, Path], debug: bool):
 
 def _copy_config_yaml(yaml_path, target_path):
     """Copy config file to the output path."""
+    target = Path(target_path, Path(yaml_path).name)
+    if target.exists() and target.samefile(yaml_path):
+        return  # it is there already
     shutil.copy(yaml_path, target_path)
 
 
-- 
2.43.0


From 60484974ea4cea01d0c959268bdcd37e309764c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 14/21] fix: report input data that are out of range or not
 uniformly spaced

---
 src/wam2layers/analysis/checks.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index a5c78c1..50fa243 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -64,7 +64,7 @@ def check_nonnegative(data):
 
 def check_order_of_magnitude(data, order):
     """Check if data is within the given order of magnitude."""
-    if not data.min() >= 10 ** order and data.max() <= 10**order:
+    if not (data.min() >= 10**order and data.max() <= 10 ** (order + 1)):
         warnings.warn(
             f"Data  for {data.name}is not within the order of magnitude {order}."
         )
@@ -80,20 +80,22 @@ def check_frequency(data, frequency):
 
 def check_shape(data, ndim):
     if data.ndim != ndim:
-        warnings.warn("Expected 3 dimensions, found {data.ndim} for {data.name}.")
+        warnings.warn(
+            f"Expected {ndim} dimensions, found {data.ndim} for {data.name}."
+        )
 
 
 def check_range(data, range):
-    if not data.min() >= range[0] and data.max() <= range[1]:
-        warnings.warn(f"Data for {data.name} is not within the range {min} to {max}.")
+    if not (data.min() >= range[0] and data.max() <= range[1]):
+        warnings.warn(
+            f"Data for {data.name} is not within the range {range[0]} to {range[1]}."
+        )
 
 
 def check_uniform(coord):
     spacing = np.diff(coord)
     if not spacing.min() == spacing.max():
-        warnings.warn(
-            f"Coordinate spacing is not uniform for coord {coord} of {data.name}"
-        )
+        warnings.warn(f"Coordinate spacing is not uniform for coord {coord.name}")
 
 
 def check_coords(data, coords):
-- 
2.43.0


From cec4e144faafc7bd1458e4692ee2dae63851a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 15/21] fix: tag all moisture in each of several named regions

---
 src/wam2layers/utils/tagging_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 3cd74e2..3f45585 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -94,7 +94,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
     new_masks = np.where(
         new_masks == False, 0, 1
     )  # Replace True and False by 1 and 0's
-    new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+    new_masks = np.max(new_masks, axis=0)  # Multiple masks into one
 
     # Export as tagging region for WAM2layers
 
@@ -200,7 +200,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.max(new_masks, axis=0)  # Multiple masks into one
     else:
         new_masks = mask.isel(region=[0]).values
 
@@ -208,7 +208,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.max(new_masks, axis=0)  # Multiple masks into one
 
     # Export as tagging region for WAM2layers
 
-- 
2.43.0


From e7ebc61a32af8f9687e66fc7a140a1c6e677df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 16/21] fix: keep regions at their own position when some lie
 outside of the grid

---
 src/wam2layers/utils/tagging_region.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 3f45585..6ecec70 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -64,8 +64,9 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
                 'region_source not specified correctly, please check the "regionmask.defined_regions" options in the Region Mask documentation for more details'
             )
 
-    # create (a) mask(s) of the required region(s):
-    mask = getattr(available_regions, "mask_3D")(longitude, latitude)
+    # create (a) mask(s) of the required region(s), keeping those outside of the grid
+    # such that regions stay at their own position
+    mask = getattr(available_regions, "mask_3D")(longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     region_ids = np.array(regions)
@@ -181,8 +182,9 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
     # Read shapefile
     ds = gpd.read_file(shapefile)  # load shape file
 
-    # Generate mask
-    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude)
+    # Generate mask, keeping regions outside of the grid such that regions stay at
+    # their own position
+    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     if regions != False:
-- 
2.43.0


From 24db73c4b7f40340c726331dd2f9b512b28dee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:51 +0000
Subject: [PATCH 17/21] fix: accept days in lower case as frequency, as
 documented

---
 src/wam2layers/utils/calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5246a64..459267c 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -91,9 +91,11 @@ def fix_deprecated_frequency(freq: str) -> str:
     > Deprecated since version 2.2.0: Aliases H, BH, CBH, T, S, L, U, and N are
     > deprecated in favour of the aliases h, bh, cbh, min, s, ms, us, and ns.
 
-    This fix recognizes the old format and converts it to the new one.
+    This fix recognizes the old format and converts it to the new one. Days are only
+    recognized in upper case by xarray, so a lower case "d" is converted as well.
     """
     deprecated_map = {
+        r"(?i)^(\d*)D$": r"\1D",
         r"(?i)^(\d*)CBH$": r"\1cbh",
         r"(?i)^(\d*)BH$": r"\1bh",
         r"(?i)^(\d*)H$": r"\1h",
-- 
2.43.0


From a0e74471d2d7871add9b22c11390e3c039356d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:15 +0000
Subject: [PATCH 18/21] fix: show all input of the tagging period; the view of
 the input crashed

---
 src/wam2layers/analysis/visualization.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 68df185..35af607 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -17,6 +17,7 @@ from wam2layers.tracking.io import (
     write_output,
 )
 from wam2layers.tracking.shared import initialize_tagging_region
+from wam2layers.utils.calendar import round_cftime
 from wam2layers.utils.grid import get_boundary, get_grid_info
 
 logger = logging.getLogger(__name__)
@@ -82,26 +83,29 @@ def _plot_input(config: Config, ax):
     # Load data
     start = config.tagging_start_date
     end = config.tagging_end_date
-    dates = pd.date_range(
-        start=start,
+    # Input is stored in one file per day
+    days = xr.cftime_range(
+        start=round_cftime(start, "1D", "floor"),
         end=end,
-        freq=config.output_frequency,
-        inclusive="left",
+        freq="1D",
     )
 
     input_files = []
-    for date in dates[:-1]:
+    for day in days:
         input_files.append(
-            input_path(date, config.preprocessed_data_folder)
+            input_path(day, config.preprocessed_data_folder)
         )  # takes current directory but needs a better fix
-    ds = xr.open_mfdataset(input_files, combine="nested", concat_dim="time")
+    ds = xr.open_mfdataset(
+        input_files, combine="nested", concat_dim="time", use_cftime=True
+    )
     if config.tracking_direction == "backward":
         subset = ds.precip.sel(time=slice(start, end))
     else:
         subset = ds.evap.sel(time=slice(start, end))
 
     # TODO: check if backtrack files or forwardtrack files were in output
-    input = (subset * region * 3600).sum("time").compute()
+    seconds = pd.Timedelta(config.input_frequency).total_seconds()
+    input = (subset * region * seconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
-- 
2.43.0


From 682d4fc8a74b18062e9bbc7b72b23d214edbda19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 19/21] fix: show the output of the whole tracking period

---
 src/wam2layers/analysis/visualization.py | 34 ++++++++++++++++--------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 35af607..340ef06 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -113,6 +113,28 @@ def _plot_input(config: Config, ax):
     polish(ax, region.where(region > 0, drop=True))
 
 
+def get_output_dates(config: Config) -> xr.CFTimeIndex:
+    """Return the times for which a run writes output.
+
+    These are the ends of time steps that are a multiple of the output frequency, and
+    the end of the last time step.
+    """
+    start, end = config.tracking_start_date, config.tracking_end_date
+    dt = pd.Timedelta(seconds=config.timestep)
+    duration = (end - start) // dt * dt  # only complete time steps are made
+
+    if config.tracking_direction == "backward":
+        start = last = end - duration
+        inclusive = "left"
+    else:
+        end = last = start + duration
+        inclusive = "right"
+
+    times = xr.cftime_range(start, end, freq=f"{config.timestep}s", inclusive=inclusive)
+    is_output_time = times == times.floor(config.output_frequency)
+    return times[is_output_time | (times == last)]
+
+
 def _plot_output(config: Config, ax):
     """
     Return subplot with tracked moisture
@@ -135,17 +157,7 @@ def _plot_output(config: Config, ax):
     # region = load_tagging_region(config)
 
     # Load data
-    dates = xr.cftime_range(
-        start=config.tracking_start_date,
-        end=config.tracking_end_date,
-        freq=config.output_frequency,
-        inclusive="left",
-    )
-
-    if config.tracking_direction == "backward":
-        output_files = [output_path(date, config) for date in dates[:-1]]
-    else:
-        output_files = [output_path(date, config) for date in dates[1:]]
+    output_files = [output_path(date, config) for date in get_output_dates(config)]
 
     if not all([Path(file).exists() for file in output_files]):
         raise FileNotFoundError(f"Could not find all files: {output_files}.")
-- 
2.43.0


From 4fab7813e5ee863734e69647db3f655ecbd5acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:12 +0000
Subject: [PATCH 20/21] fix: show tagging regions that vary in time

The view of the input left out all times without a region of their own, and the view
of the output stopped with an error.
---
 src/wam2layers/analysis/visualization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 340ef06..b820471 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -103,6 +103,12 @@ def _plot_input(config: Config, ax):
     else:
         subset = ds.evap.sel(time=slice(start, end))
 
+    if "time" in region.dims:
+        # As in tracking, use the region nearest in time
+        masks = [load_tagging_region(config, t) for t in subset.indexes["time"]]
+        masks = [mask.drop_vars("time") for mask in masks]
+        region = xr.concat(masks, dim=subset["time"])
+
     # TODO: check if backtrack files or forwardtrack files were in output
     seconds = pd.Timedelta(config.input_frequency).total_seconds()
     input = (subset * region * seconds).sum("time").compute()
@@ -182,6 +188,8 @@ def _plot_output(config: Config, ax):
     ax.set_title("Accumulated tracked moisture [mm]", loc="left")
 
     # Add source/tagged region outline
+    if "time" in region.dims:
+        region = region.max("time")
     region.plot.contour(ax=ax, levels=[0.5], colors="k")
     polish(ax, region)
 
-- 
2.43.0


From 335b1a28661714a28f39f107518b7220ae929098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 21/21] fix: size of grid cells when the dateline follows the
 first longitude

The spacing was taken as nearly 360 degrees, so that cells were far too large.
---
 src/wam2layers/utils/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 6f14f95..78560d8 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,7 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    dx_deg = np.minimum(dx_deg, 360 - dx_deg)  # in case the dateline is in between
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0

