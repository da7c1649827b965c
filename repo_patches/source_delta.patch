From 514ce87b3fe0da77baf126c000be9e3c9884e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 01/20] fix: report subsurface melt relative to the layer
 height before melting

---
 cosipy/modules/penetratingRadiation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index 0ce21f2..c2b61f8 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -94,6 +94,11 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             dtheta_i = (water_density / ice_density) * -dtheta_w
             dh = -dtheta_i / GRID.get_node_ice_fraction(idxNode)
 
+            # Volume fractions refer to the layer height before melting
+            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
+                idxNode
+            )
+
             if dh >= 1.0:
                 list_of_layers_to_remove.append(idxNode)
             else:
@@ -111,10 +116,6 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
                 GRID.set_node_liquid_water_content(
                     idxNode, LWC_temp / GRID.get_node_height(idxNode)
                 )
-
-            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
-                idxNode
-            )
         else:
             GRID.set_node_temperature(idxNode, T_rad)
 
-- 
2.43.0


From 9891272579cbaaee28ab02199ab6705ad46cab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:37 +0000
Subject: [PATCH 02/20] fix: treat missing total precipitation as no rain when
 only snowfall is given

---
 cosipy/cpkernel/cosipy_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index b4aa2fb..3aee0b0 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -182,7 +182,6 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
     elif 'SNOWFALL' in DATA:
         SNOWF = DATA.SNOWFALL.values * mult_factor_RRR
         RRR = None
-        RAIN = None
     else:
         SNOWF = None
         RRR = DATA.RRR.values * mult_factor_RRR
@@ -248,6 +247,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
             RAIN = RRR[t]-SNOWFALL*(density_fresh_snow/water_density) * 1000.0
         elif SNOWF is not None:
             SNOWFALL = SNOWF[t]
+            RAIN = 0.0
         elif RRR is not None:
             # Else convert total precipitation [mm] to snowheight [m]; liquid/solid fraction
             SNOWFALL = (RRR[t]/1000.0)*(water_density/density_fresh_snow)*(0.5*(-np.tanh(((T2[t]-zero_temperature) - center_snow_transfer_function) * spread_snow_transfer_function) + 1.0))
-- 
2.43.0


From 1d468127bfefcba42f2380eec229c9d07bdb7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 03/20] fix: compare restart times as datetime objects

numpy timestamps have no strftime, so every restarted run stopped before the
restart file was opened.
---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 302df91..ac9990c 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -135,8 +135,8 @@ class IOClass:
             # Load the restart file
             time_start = Config.time_start
             time_end = Config.time_end
-            start_timestamp = self.get_datetime(time_start)
-            end_timestamp = self.get_datetime(time_end)
+            start_timestamp = self.get_datetime(time_start, use_np=False)
+            end_timestamp = self.get_datetime(time_end, use_np=False)
             timestamp = start_timestamp.strftime("%Y-%m-%dT%H-%M")
             restart_path = os.path.join(
                 Config.data_path, "restart", f"restart_{timestamp}.nc"
-- 
2.43.0


From f47646e33afed4509b3e2349fed5f0cd1cdb45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 04/20] fix: return restart layer data under the names the
 model reads

The restart file stores the fresh snow properties in upper case, while
load_snowpack and the result dataset use lower-case names.
---
 cosipy/cpkernel/io.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index ac9990c..14b510b 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -198,9 +198,16 @@ class IOClass:
         """Create and initialise the GRID_RESTART structure.
 
         This contains the layer state of the last time step, which is
-        required for the restart option.
+        required for the restart option. The fresh snow properties are
+        stored under different names than those read by the model.
         """
-        return self.GRID_RESTART
+        return self.GRID_RESTART.rename(
+            {
+                "NEWSNOWHEIGHT": "new_snow_height",
+                "NEWSNOWTIMESTAMP": "new_snow_timestamp",
+                "OLDSNOWTIMESTAMP": "old_snow_timestamp",
+            }
+        )
 
     def create_nan_array(self) -> np.ndarray:
         """Create and fill a NaN array with time, (x,y) dimensions.
-- 
2.43.0


From 9ca81964d9f43f90d5a0032ea2535b0535cbd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 05/20] fix: order the plausible slope range like the others
 (maximum, minimum)

With the bounds swapped every slope was reported as implausible.
---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 14b510b..6d919f4 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -256,7 +256,7 @@ class IOClass:
             "PRES": (1080.0, 400.0),
             "LWin": (400.0, 200.0),
             "SNOWFALL": (0.1, 0.0),
-            "SLOPE": (0.0, 90.0),
+            "SLOPE": (90.0, 0.0),
         }
 
         for key, bounds in data_bounds.items():
-- 
2.43.0


From 2dffca32b672989837806eb46d5fd4a8e9c0b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 06/20] fix: sort the whole input by time, not only the time
 labels

Sorting only the coordinate attached the records of an unordered input to the
wrong timestamps.
---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 6d919f4..74b6c5b 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -288,7 +288,7 @@ class IOClass:
             raise SystemExit(f"Input file not found at: {input_path}")
 
 
-        self.DATA["time"] = np.sort(self.DATA["time"].values)
+        self.DATA = self.DATA.sortby("time")
         minimum_time = str(self.DATA.time.values[0])[0:16]
         maximum_time = str(self.DATA.time.values[-1])[0:16]
         start_interval = self.get_datetime(minimum_time)
-- 
2.43.0


From ec4aada4f20f9286706ef52626c669abd8f7d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 07/20] fix: write unit and long name of missing RRR and N
 fields in order

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 74b6c5b..c276787 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -555,16 +555,16 @@ class IOClass:
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "RRR",
-                spatiotemporal["RRR"][1],
                 spatiotemporal["RRR"][0],
+                spatiotemporal["RRR"][1],
             )
         if "N" not in self.DATA:
             self.add_variable_along_latlontime(
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "N",
-                spatiotemporal["N"][1],
                 spatiotemporal["N"][0],
+                spatiotemporal["N"][1],
             )
 
         print(f"\nOutput dataset ... ok")
-- 
2.43.0


From 695c72e8f681e6e3f9fed78f579bcd8c12964387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 08/20] fix: select only layer fields the model writes in the
 default settings

LAYER_LW is never produced, so a run with full_field enabled stopped with a
KeyError.
---
 config.toml                               | 2 +-
 cosipy/utilities/setup_cosipy/config.toml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.toml b/config.toml
index eaf9009..d3820f5 100644
--- a/config.toml
+++ b/config.toml
@@ -60,4 +60,4 @@ yend = 40
 # Select which output variables are written to disk. Comma-separated. Edit with caution.
 output_atm = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS"
 output_internal = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS"
-output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
+output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
diff --git a/cosipy/utilities/setup_cosipy/config.toml b/cosipy/utilities/setup_cosipy/config.toml
index eaf9009..d3820f5 100644
--- a/cosipy/utilities/setup_cosipy/config.toml
+++ b/cosipy/utilities/setup_cosipy/config.toml
@@ -60,4 +60,4 @@ yend = 40
 # Select which output variables are written to disk. Comma-separated. Edit with caution.
 output_atm = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS"
 output_internal = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS"
-output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
+output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
-- 
2.43.0


From ba921607e0cc6a601e0c6d2102b33d7ed13c5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 09/20] fix: divide by cos(latitude) sin(zenith) before taking
 the solar azimuth

---
 cosipy/modules/radCor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index ff81a0c..49770f0 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -55,7 +55,10 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     zeni = math.pi/2.0 - beta
     
     # Azimuth angle (radians)
-    azi = math.acos((math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)))/math.cos(lat*FAC)*math.sin(zeni)
+    cos_azi = (math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)) / (
+        math.cos(lat * FAC) * math.sin(zeni)
+    )
+    azi = math.acos(max(-1.0, min(1.0, cos_azi)))
     
     if solartime < solarnoon:
         azi = azi * -1.0
-- 
2.43.0


From 66fc1664ef706d3657f79842cd2cb3bb04d54667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 10/20] fix: apply longitude correction and equation of time to
 the solar position

---
 cosipy/modules/radCor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 49770f0..aba4be9 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -41,11 +41,11 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
         math.cos(teta) - 2.0 * math.cos(2.0 * teta) + 19.3 * math.cos(3.0 * teta)) / 3600.0
 
     # Longitude correction (hours)
-    LC = (timezone_lon - lon) / 15.0
+    LC = (lon - timezone_lon) / 15.0
 
     # Solar noon (hours) / solar time (hours)
-    solarnoon = 12.0 - LC - timeEq 
-    solartime = hour - LC - timeEq
+    solarnoon = 12.0
+    solartime = hour + LC + timeEq
 
     # Solar elevation
     beta = math.asin(math.sin(lat * FAC) * math.sin(dec) + math.cos(lat * FAC) * 
-- 
2.43.0


From e285145a9887f5043deaa9eec0541a91337eb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:46 +0000
Subject: [PATCH 11/20] fix: use one barometric exponent so pressure is kept at
 station altitude

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index e2c4208..25999a1 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -233,7 +233,7 @@ def get_pressure_bias(data, height):
     slp = data / np.power(
         (1 - (0.0065 * _cfg.station["stationAlt"]) / (288.15)), 5.255
     )
-    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.22)
+    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.255)
 
     return pressure
 
-- 
2.43.0


From bff7bf5d1275626cc41d6357650c73e52c8f50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:46 +0000
Subject: [PATCH 12/20] fix: store latitudes as lat and longitudes as lon on
 WRF grids

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index 25999a1..da24ce3 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -214,8 +214,8 @@ def get_variable_metadata(name: str) -> dict:
 def set_dataset_coordinates(dataset, latitude, longitude):
 
     x, y = np.meshgrid(longitude, latitude)
-    dataset.coords["lat"] = (("south_north", "west_east"), x)
-    dataset.coords["lon"] = (("south_north", "west_east"), y)
+    dataset.coords["lat"] = (("south_north", "west_east"), y)
+    dataset.coords["lon"] = (("south_north", "west_east"), x)
 
     return dataset
 
@@ -305,8 +305,8 @@ def create_1D_input(cs_file, cosipy_file, static_file, start_date, end_date):
     if _cfg.coords["WRF"]:
         ds = xr.Dataset()
         lon, lat = np.meshgrid(_cfg.points["plon"], _cfg.points["plat"])
-        ds.coords["lat"] = (("south_north", "west_east"), lon)
-        ds.coords["lon"] = (("south_north", "west_east"), lat)
+        ds.coords["lat"] = (("south_north", "west_east"), lat)
+        ds.coords["lon"] = (("south_north", "west_east"), lon)
 
     else:
         if static_file:
-- 
2.43.0


From b995fb619f2b484df0321c39f591d8697757c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:46 +0000
Subject: [PATCH 13/20] fix: replace missing pressure before it is converted

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index da24ce3..a65a37e 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -96,6 +96,9 @@ def set_order_and_type(
     Returns:
         Ordered dataframe.
     """
+    if (replace_pressure) and (_cfg.names["PRES_var"] not in dataframe):
+        dataframe[_cfg.names["PRES_var"]] = 660.00
+
     for name in ["T2_var", "RH2_var", "U2_var", "G_var", "PRES_var"]:
         dataframe[_cfg.names[name]] = convert_to_numeric(
             series=dataframe[_cfg.names[name]]
@@ -106,9 +109,6 @@ def set_order_and_type(
             dataframe[_cfg.names["RRR_var"]]
         )
 
-    if (replace_pressure) and (_cfg.names["PRES_var"] not in dataframe):
-        dataframe[_cfg.names["PRES_var"]] = 660.00
-
     if (_cfg.names["LWin_var"] not in dataframe) and (
         _cfg.names["N_var"] not in dataframe
     ):
-- 
2.43.0


From 8a1e6676ed23fafdb2f89a5a35645ead623994d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:46 +0000
Subject: [PATCH 14/20] fix: convert cloud cover also when longwave radiation
 is given

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index a65a37e..943cf1b 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -115,11 +115,11 @@ def set_order_and_type(
         raise ValueError(
             "No data for either incoming longwave radiation or cloud cover."
         )
-    elif _cfg.names["LWin_var"] in dataframe:
+    if _cfg.names["LWin_var"] in dataframe:
         dataframe[_cfg.names["LWin_var"]] = convert_to_numeric(
             dataframe[_cfg.names["LWin_var"]]
         )
-    elif _cfg.names["N_var"] in dataframe:
+    if _cfg.names["N_var"] in dataframe:
         dataframe[_cfg.names["N_var"]] = convert_to_numeric(
             dataframe[_cfg.names["N_var"]]
         )
-- 
2.43.0


From 299d69e836dea485759a9bb8e680f2263c507c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:05 +0000
Subject: [PATCH 15/20] fix: give the unit of the WRF air temperature as K

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 67bfef4..4270eda 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -67,7 +67,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
  
     # Add variables to file 
     dso = add_variable_along_latlon(dso, ds.HGT[0].values, 'HGT', 'm', 'Elevation')
-    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'm', 'Temperature at 2 m')
+    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'K', 'Temperature at 2 m')
     dso = add_variable_along_timelatlon(dso, wrf_rh(ds.T2.values, ds.Q2.values, ds.PSFC.values), 'RH2', '%', 'Relative humidity at 2 m')
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
-- 
2.43.0


From 549e19ce34e0529c5ddfd8cff5d65b73061e0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:05 +0000
Subject: [PATCH 16/20] fix: scale WRF wind from the configured measurement
 height

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 4270eda..094aca0 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -82,7 +82,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     z  = _cfg.constants["hu"]     # Height of measurement
     z0 = 0.0040 # Roughness length for momentum
     umag = np.sqrt(ds.V10.values**2+ds.U10.values**2)   # Mean wind velocity
-    U2 = umag * (np.log(2 / z0) / np.log(10 / z0))
+    U2 = umag * (np.log(2 / z0) / np.log(z / z0))
     dso = add_variable_along_timelatlon(dso, U2, 'U2', 'm s^-1', 'Wind velocity at 2 m')
 
     # Add glacier mask to file (derived from the land use category)
-- 
2.43.0


From deb1da8958c7913a246027348a5c06b4e296a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 17/20] fix: give the sample utilities settings the path of the
 look-up tables

---
 cosipy/utilities/setup_cosipy/utilities_config.toml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosipy/utilities/setup_cosipy/utilities_config.toml b/cosipy/utilities/setup_cosipy/utilities_config.toml
index f358b03..c6defc3 100644
--- a/cosipy/utilities/setup_cosipy/utilities_config.toml
+++ b/cosipy/utilities/setup_cosipy/utilities_config.toml
@@ -31,6 +31,7 @@ delimiter = ','
 [aws2cosipy.radiation]
 radiationModule = 'Wohlfahrt2016' # 'Moelg2009', 'Wohlfahrt2016', 'none'
 LUT = false  # If there is already a Look-up-table for topographic shading and sky-view-factor built for this area, set to True
+LUT_path = "./data/static/LUT_Rad.nc"
 dtstep = 10800  # time step (s)
 tcart = 26  # Station time correction in hour angle units (1 is 4 min)
 timezone_lon = 90.0  # Longitude of station
-- 
2.43.0


From 477d7d8bcff939267300ae0126e0aff9df24957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 18/20] fix: give converted utilities settings the path of the
 look-up tables

---
 convert_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convert_config.py b/convert_config.py
index 984e21d..ceabf30 100644
--- a/convert_config.py
+++ b/convert_config.py
@@ -225,6 +225,8 @@ def get_aws2cosipy_params() -> dict:
     params = set_module_params(
         module=module, parameters=params, key_pairs=table_keys
     )
+    # Not part of the old configuration
+    params["radiation"]["LUT_path"] = "./data/static/LUT_Rad.nc"
 
     return params
 
-- 
2.43.0


From eabb7844d6a8e2b8e123ea0b176f0ae0d747c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 19/20] fix: accept a static folder without trailing slash

---
 cosipy/utilities/createStatic/create_static_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/createStatic/create_static_file.py b/cosipy/utilities/createStatic/create_static_file.py
index 6ee3823..2ba8878 100644
--- a/cosipy/utilities/createStatic/create_static_file.py
+++ b/cosipy/utilities/createStatic/create_static_file.py
@@ -92,7 +92,7 @@ def load_config(module_name: str) -> tuple:
 def main():
     _, _cfg = load_config(module_name="create_static")
 
-    static_folder = _cfg.paths["static_folder"]
+    static_folder = check_folder_path(_cfg.paths["static_folder"])
     tile = _cfg.coords["tile"]
     aggregate = _cfg.coords["aggregate"]
 
-- 
2.43.0


From 7071f45bb55bbf226bfc0a1e4fc8924bae6c708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:50 +0000
Subject: [PATCH 20/20] fix: store WRF fields by value, labelled arrays are
 refused by xarray

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 094aca0..084388d 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -72,11 +72,11 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.PSFC.values/100.0, 'PRES', 'hPa', 'Atmospheric Pressure')
-    dso = add_variable_along_latlon(dso, ds.SNOWH[0], 'SNOWHEIGHT', 'm', 'Initial snowheight')
-    dso = add_variable_along_latlon(dso, ds.SNOW[0], 'SWE', 'kg m^-2', 'Snow Water Equivalent')
-    dso = add_variable_along_latlon(dso, ds.SNOWC[0], 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
-    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0], 'LU_INDEX', '-', 'Land use category')
-    dso = add_variable_along_latlon(dso, ds.TSK[0], 'TSK', 'K', 'Skin temperature')
+    dso = add_variable_along_latlon(dso, ds.SNOWH[0].values, 'SNOWHEIGHT', 'm', 'Initial snowheight')
+    dso = add_variable_along_latlon(dso, ds.SNOW[0].values, 'SWE', 'kg m^-2', 'Snow Water Equivalent')
+    dso = add_variable_along_latlon(dso, ds.SNOWC[0].values, 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
+    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0].values, 'LU_INDEX', '-', 'Land use category')
+    dso = add_variable_along_latlon(dso, ds.TSK[0].values, 'TSK', 'K', 'Skin temperature')
     
     # Wind velocity at 2 m (assuming neutral stratification)
     z  = _cfg.constants["hu"]     # Height of measurement
@@ -117,8 +117,8 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     HGT.attrs['res'] = (DX,DY)
     slope = xrs.slope(HGT)
     aspect = xrs.aspect(HGT)
-    dso = add_variable_along_latlon(dso, slope, 'SLOPE', 'degrees', 'Slope')
-    dso = add_variable_along_latlon(dso, aspect, 'ASPECT', 'degrees', 'Aspect')
+    dso = add_variable_along_latlon(dso, slope.values, 'SLOPE', 'degrees', 'Slope')
+    dso = add_variable_along_latlon(dso, aspect.values, 'ASPECT', 'degrees', 'Aspect')
 
     # Write file
     dso.to_netcdf(cosipy_file)
-- 
2.43.0

