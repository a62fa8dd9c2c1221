From d40851c448520f651686afbff915952072f9d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 01/30] fix: Sunpos accessors return copies instead of views of
 the stored arrays

Writing in place to sw.eot, sw.ecf, sw.latitude or sw.longitude, or to the
latitude/longitude coordinates of sw.zenith and sw.azimuth, silently changed
every quantity derived from the same result afterwards (true solar time,
sunrise, sunset, incidence, ...).
---
 src/sunwhere/_base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..b012f46 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -170,13 +170,13 @@ class Sunpos:
     @property
     def latitude(self):
         """DataArray: Latitudes where solar geometry is evaluated, degrees."""
-        return self._latitude.rename('latitude').assign_attrs(
+        return self._latitude.copy(deep=True).rename('latitude').assign_attrs(
             units='degrees north')
 
     @property
     def longitude(self):
         """DataArray: Longitudes where solar geometry is evaluated, degrees."""
-        return self._longitude.rename('longitude').assign_attrs(
+        return self._longitude.copy(deep=True).rename('longitude').assign_attrs(
             units='degrees east')
 
     @property
@@ -236,7 +236,7 @@ class Sunpos:
     @property
     def ecf(self):
         """DataArray: sun-earth orbit's eccentricity correction factor."""
-        return self._ecf.rename('ecf').assign_attrs(
+        return self._ecf.copy(deep=True).rename('ecf').assign_attrs(
             units='-',
             description='sun-earth distance correction factor'
         )
@@ -244,14 +244,14 @@ class Sunpos:
     @property
     def eot(self):
         """DataArray: equation of time, in minutes."""
-        return self._eot.rename('eot').assign_attrs(
+        return self._eot.copy(deep=True).rename('eot').assign_attrs(
             units='minutes',
             description='equation of time')
 
     @property
     def declination(self):
         """DataArray: solar declination, in degrees."""
-        return np.degrees(self._declination).rename('declination').assign_attrs(
+        return np.degrees(self._declination.copy(deep=True)).rename('declination').assign_attrs(
             units='degrees',
             description='solar declination')
 
@@ -263,7 +263,7 @@ class Sunpos:
     @property
     def zenith(self):
         """DataArray: solar zenith angle, in degrees [0, 180]."""
-        return np.degrees(self._zenith).rename('zenith').assign_attrs(
+        return np.degrees(self._zenith.copy(deep=True)).rename('zenith').assign_attrs(
             units='degrees',
             range='[0, 180]',
             description='solar zenith angle')
@@ -284,7 +284,7 @@ class Sunpos:
     @property
     def azimuth(self):
         """DataArray: solar azimuth angle, in degrees [-180\u00b0, 180\u00b0], zero south."""
-        return np.degrees(self._azimuth).rename('azimuth').assign_attrs(
+        return np.degrees(self._azimuth.copy(deep=True)).rename('azimuth').assign_attrs(
             units='degrees',
             range='(-180 am, 180 pm)',
             description='solar azimuth angle'
@@ -298,7 +298,7 @@ class Sunpos:
     @property
     def cosz(self):
         """DataArray: cosine of solar zenith angle."""
-        return np.cos(self._zenith).rename('cosz').assign_attrs(
+        return np.cos(self._zenith.copy(deep=True)).rename('cosz').assign_attrs(
             units='-',
             range='[-1, 1]',
             description='solar zenith angle\'s cosine')
-- 
2.43.0


From 0e6fc78725e475cc43092981a642640ff40fd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 02/30] fix: Sunpos keeps the instants and the zone of the
 times, whatever the zone implementation

---
 src/sunwhere/_base.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index b012f46..9099e0b 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -51,25 +51,21 @@ class Sunpos:
         # I need that self._times is timezone-aware and ndmin==1. To ensure
         # ndmin==1, I must convert to a numpy datetime64, but numpy complains
         # when dealing with timezone-aware times. Hence, first I use
-        # pd.to_datetime to retain the timezone of the input times (if
+        # pd.to_datetime to know the timezone of the input times (if
         # timezone-aware) or assume UTC if the input times are naive. Then, I
-        # convert to a numpy array of datetime64[ns] with ndmin=1, but de-localizing
-        # the times to prevent numpy complains. Afterwards, I convert back to
-        # pandas using again pd.to_datetime and localize
-        _times = pd.to_datetime(times)
-
-        if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
-
-        self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
-
-        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
+        # convert to a numpy array of datetime64[ns] with ndmin=1, but in naive
+        # UTC times to prevent numpy complains (the local times are ambiguous
+        # when the clocks are set back). Afterwards, I convert back to pandas
+        # using again pd.to_datetime, localize, and convert to the timezone
+        _tz = pd.to_datetime(times).tz
+
+        self._times_utc = pd.to_datetime(
+            np.array(pd.to_datetime(times, utc=True).tz_localize(None),
+                     ndmin=1, dtype='datetime64[ns]')
+        ).tz_localize('UTC')
+
+        self._times = self._times_utc.tz_convert('UTC' if _tz is None else _tz)
+        self._timezone = str(self._times.tz)
 
         self._latitude = np.array(latitude, ndmin=1)
         self._longitude = np.array(longitude, ndmin=1)
-- 
2.43.0


From edc106e07f2afe78de9357c48a9e9b62be423466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 03/30] fix: sunset angle in degrees and radians

---
 src/sunwhere/_base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 9099e0b..29a9a51 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -513,11 +513,8 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        if units in ('deg', 'rad'):
+            wss = -self.sunrise(units)  # hour angle, positive eastward
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From 4e1d8ec02d973b893640e58b81e70bddbcb4429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 04/30] fix: conversions between UTC and true solar time read
 the equation of time from the result

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From 03d53a58e102fe246049fe06623ba85133c5a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 05/30] fix: an engine that cannot be imported is reported as
 missing

---
 src/sunwhere/_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 155328c..4ea78d7 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -114,10 +114,13 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
         raise ValueError(f'missing algorithm `{algorithm}`. Valid algorithms '
                          f'are: {", ".join(__ALGORITHMS__.keys())}')
 
-    if engine not in __ALGORITHMS__.get(algorithm):
+    # the engines that cannot be imported (e.g., numexpr is not installed) are None
+    engines = [name for name, module in __ALGORITHMS__.get(algorithm).items()
+               if module is not None]
+    if engine not in engines:
         raise ValueError(f'missing engine `{engine}` for algorithm '
                          f'`{algorithm}`. Valid engines for this algorithm '
-                         f'are: {", ".join(__ALGORITHMS__.get(algorithm))}')
+                         f'are: {", ".join(engines)}')
 
     logger.debug(f'selected {algorithm} algorithm and {engine} engine')
 
-- 
2.43.0


From e9e0a552030af906925cb94bc5c928c54d342c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 06/30] fix: a backend with a broken dependency does not
 prevent importing the package

---
 src/sunwhere/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/utils/__init__.py b/src/sunwhere/utils/__init__.py
index d6ad8df..8bad30c 100644
--- a/src/sunwhere/utils/__init__.py
+++ b/src/sunwhere/utils/__init__.py
@@ -5,7 +5,7 @@ import importlib
 def safe_import(name, package=None):
     try:
         module = importlib.import_module(name, package)
-    except (ImportError, ModuleNotFoundError):
+    except Exception:  # a broken dependency can raise anything, not only ImportError
         module = None
     return module
 
-- 
2.43.0


From b91428797166c330e6cb6abf2082d3a73bebdd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 07/30] fix: only a complete ephemeris is accepted as a JPL
 download

---
 src/sunwhere/utils/jpl_horizons.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 195f0ec..cdb1da3 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -63,6 +63,15 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     data = response.data.decode('utf-8')
     http.clear()
 
+    if response.status != 200:
+        raise RuntimeError(f'the server replied with status {response.status}: {data[:200]}')
+    lines = data.splitlines()
+    if '$$SOE' not in lines or '$$EOE' not in lines:
+        raise RuntimeError(f'the server reply is not a complete ephemeris: {data[:200]}')
+    n_lines = lines.index('$$EOE') - lines.index('$$SOE') - 1
+    if n_lines != n_times:
+        raise RuntimeError(f'expected {n_times} data lines, but the server sent {n_lines}')
+
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 59f5d49115208a873177ce23e48025b9de742113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 08/30] fix: a failed or interrupted JPL download leaves the
 output file as it was

---
 src/sunwhere/utils/jpl_horizons.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index cdb1da3..438ee38 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -1,4 +1,6 @@
 
+import os
+import uuid
 from pathlib import Path
 
 import urllib3
@@ -75,7 +77,17 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-    path.open(mode='w').write(data)
+    # the output file appears only when it is complete
+    tmp_path = path.with_name(f'{path.name}.{uuid.uuid4().hex}.part')
+    try:
+        with tmp_path.open(mode='wb') as f:
+            f.write(response.data)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
 
     return path
 
-- 
2.43.0


From fe5718c631225d7ca6097ba55cf5c0b26e3a22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 09/30] fix: a JPL download does not wait forever for the
 server

---
 src/sunwhere/utils/jpl_horizons.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 438ee38..91fd3c3 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -60,10 +60,15 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
 
     url = server + '?' + format + '&' + '&'.join([f"{k}='{v}'" for k, v in options.items()])
 
-    http = urllib3.PoolManager()
-    response = http.request('GET', url)
-    data = response.data.decode('utf-8')
-    http.clear()
+    # never wait forever for the server, nor as long as it tells (Retry-After)
+    http = urllib3.PoolManager(
+        timeout=urllib3.Timeout(connect=30., read=120.),
+        retries=urllib3.Retry(3, respect_retry_after_header=False))
+    try:
+        response = http.request('GET', url)
+        data = response.data.decode('utf-8')
+    finally:
+        http.clear()
 
     if response.status != 200:
         raise RuntimeError(f'the server replied with status {response.status}: {data[:200]}')
-- 
2.43.0


From 8f1d5608c7deebec0719404665f99cb0ac8e5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 10/30] fix: JPL downloads convert timezone-aware times to UTC

---
 src/sunwhere/utils/jpl_horizons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 91fd3c3..45854c0 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -45,8 +45,8 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     }
 
     options = _options | {
-        'START_TIME': pd.to_datetime(start_time).strftime('%Y-%m-%d %H:%M'),
-        'STOP_TIME': pd.to_datetime(stop_time).strftime('%Y-%m-%d %H:%M'),
+        'START_TIME': pd.to_datetime(start_time, utc=True).strftime('%Y-%m-%d %H:%M'),
+        'STOP_TIME': pd.to_datetime(stop_time, utc=True).strftime('%Y-%m-%d %H:%M'),
         'SITE_COORD': f'{site_lon:.6f},{site_lat:.6f},{site_elev:.3f}',
         'STEP_SIZE': f'{step_size:.0f} MINUTES'
     }
-- 
2.43.0


From 4147c51d8f03dda89b023bd32f37e34fdf93abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 11/30] fix: load_jpl_ephemeris works on the table that is read

---
 src/sunwhere/utils/jpl_horizons.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 45854c0..c3b0eb8 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -145,7 +145,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 filenames.append(out_filename)
                 logger.success('data downloaded')
             logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename).drop(columns='julian_day'))
+            data.append(read_jpl_ephemeris_file(out_filename))
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
@@ -155,4 +155,5 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         for filename in filenames:
             filename.unlink()
 
-    return pd.read_parquet(whole_data_filename).tz_localize('UTC')
+    df = pd.read_parquet(whole_data_filename)
+    return df if df.index.tz is not None else df.tz_localize('UTC')
-- 
2.43.0


From 5ab4e5d4a65c47d2cf69a9fdd334551b74f70bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 12/30] fix: the ephemeris of different sites are cached apart

---
 src/sunwhere/utils/jpl_horizons.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index c3b0eb8..238c23d 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -131,12 +131,13 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
     if not out_dir.exists():
         out_dir.mkdir(parents=True, exist_ok=True)
 
-    whole_data_filename = out_dir / f'jpl_ephemeris_highres_{year}.parquet'
+    basename = f'jpl_ephemeris_highres_{year}_{float(site_lon)}_{float(site_lat)}'
+    whole_data_filename = out_dir / f'{basename}.parquet'
     if not whole_data_filename.exists():
         data = []
         filenames = []
         for month in range(1, 13):
-            out_filename = out_dir / f'jpl_ephemeris_highres_{year}-{month:02d}.txt'
+            out_filename = out_dir / f'{basename}-{month:02d}.txt'
             if not out_filename.exists():
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
-- 
2.43.0


From 8d25266e9e8bf0c41eb191192da6c1a1d6efc413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 13/30] fix: load_jpl_ephemeris recovers from an earlier load
 that failed

---
 src/sunwhere/utils/jpl_horizons.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 238c23d..f56a2b6 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -138,23 +138,32 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         filenames = []
         for month in range(1, 13):
             out_filename = out_dir / f'{basename}-{month:02d}.txt'
-            if not out_filename.exists():
+            filenames.append(out_filename)
+            try:
+                # it can be there from an earlier load that was not completed
+                logger.info(f'loading high-res ephemeris from file {out_filename}')
+                data.append(read_jpl_ephemeris_file(out_filename))
+            except (OSError, ValueError, IndexError):
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
                 stop_time = (start_time + pd.Timedelta('35days')).replace(day=1) - pd.Timedelta('1min')
                 get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
-                filenames.append(out_filename)
                 logger.success('data downloaded')
-            logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename))
+                data.append(read_jpl_ephemeris_file(out_filename))
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
 
-        df.to_parquet(whole_data_filename)
+        tmp_filename = out_dir / f'{basename}.{uuid.uuid4().hex}.part'
+        try:
+            df.to_parquet(tmp_filename)
+            os.replace(tmp_filename, whole_data_filename)
+        except BaseException:
+            tmp_filename.unlink(missing_ok=True)
+            raise
 
         for filename in filenames:
-            filename.unlink()
+            filename.unlink(missing_ok=True)
 
     df = pd.read_parquet(whole_data_filename)
     return df if df.index.tz is not None else df.tz_localize('UTC')
-- 
2.43.0


From bd2633a9a2c76f69551a95044ba2e9b3224b55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 14/30] fix: the CLI takes now as the present instant, not as
 the wall clock of the machine

---
 src/sunwhere/_cli/position.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..29e063b 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,10 +1,9 @@
 
 import locale
-from datetime import datetime
+from datetime import datetime, timezone as tz
 
 from tabulate import tabulate
 
-import numpy as np
 import pandas as pd
 
 import sunwhere
@@ -19,13 +18,11 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        ts = pd.Timestamp(datetime.now(tz=tz.utc)).tz_convert(timezone)
+    else:
+        ts = pd.to_datetime(time).tz_localize(timezone)
 
-    times = np.array(
-        pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-    times = pd.to_datetime(times).tz_localize(timezone)
-
-    sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)
+    sw = sunwhere.sites([ts], lat, lon, algorithm=algorithm, refraction=refraction)
 
     sr_utc = pd.Timestamp(sw.sunrise(units="utc").isel(time=0, location=0).item())
     ss_utc = pd.Timestamp(sw.sunset(units="utc").isel(time=0, location=0).item())
@@ -35,8 +32,6 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     eot_min = int(eot)
     eot_sec = 60*(abs(eot) % 1)
 
-    ts = pd.to_datetime(time).tz_localize(timezone)
-
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
-- 
2.43.0


From 5b86c9232275f07b44a6d2602191110fb9dffc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 15/30] fix: the CLI works where the sun does not rise or set
 and through clock changes

---
 src/sunwhere/_cli/position.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 29e063b..d8b58d5 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -12,6 +12,11 @@ import sunwhere
 locale.setlocale(locale.LC_TIME, locale.getlocale())
 
 
+def format_time(t):
+    # the sun may not rise or set
+    return '--:--:--' if pd.isnull(t) else f'{t:%H:%M:%S}'
+
+
 def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     # Online service to verify the results of NREL's SPA
@@ -44,10 +49,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': format_time(sr_utc),
+            'Sunset(UTC)': format_time(ss_utc),
+            f'Sunrise({timezone})': format_time(sr_local),
+            f'Sunset({timezone})': format_time(ss_local),
             'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 4b16d4f1cf24936e766e2d1791963ea417356c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 16/30] fix: the CLI shows the sign of the equation of time and
 never 60 seconds

---
 src/sunwhere/_cli/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index d8b58d5..a094f5d 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -34,8 +34,8 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
-    eot_sec = 60*(abs(eot) % 1)
+    eot_min, eot_sec = divmod(round(abs(eot)*60, 1), 60)
+    eot_sign = '-' if eot < 0 else ''
 
     s = pd.Series(
         {
@@ -53,7 +53,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Sunset(UTC)': format_time(ss_utc),
             f'Sunrise({timezone})': format_time(sr_local),
             f'Sunset({timezone})': format_time(ss_local),
-            'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
+            'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
 
-- 
2.43.0


From d90d9d67004e5250a47910818289fe67534af26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 17/30] fix: the CLI fails if the position cannot be written to
 the standard output

---
 src/sunwhere/_cli/position.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index a094f5d..5fd6e5b 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,4 +1,5 @@
 
+import sys
 import locale
 from datetime import datetime, timezone as tz
 
@@ -57,4 +58,6 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
         }
     ).to_frame('ephemeris')
 
-    print(tabulate(s, tablefmt='double_outline', colalign=['left', 'right']))
+    # print() would say nothing if there is no standard output
+    sys.stdout.write(tabulate(s, tablefmt='double_outline', colalign=['left', 'right']) + '\n')
+    sys.stdout.flush()
-- 
2.43.0


From 3c31840033fea71074389ca343a33547bb99ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 18/30] fix: nrel fails when all the times are NaT

---
 src/sunwhere/_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 4ea78d7..20b5f01 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -159,7 +159,11 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
     logger.debug(f'running simulation with funtion {namespace}')
-    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    if n_times > 0:
+        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    else:
+        # nothing to compute: all the times are NaT
+        result = dict.fromkeys(('ecf', 'eot', 'declination', 'zenith', 'azimuth'), np.nan)
 
     # fill with NaN where times is NaT...
     nonat = ~np.isnat(times_utc)
-- 
2.43.0


From 774d88197265f905fc4eb8e4768d58072e88b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 19/30] fix: soltrack refraction diverges (by tens of degrees)
 with the sun 5 degrees below the horizon

---
 src/sunwhere/libspa/ne_soltrack.py | 9 ++++++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..1aba6e0 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -152,7 +152,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')   # it diverges below the horizon
 
     zenith = HALFPI - alt
 
@@ -187,7 +188,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')   # it diverges below the horizon
 
     zenith = HALFPI - alt
 
@@ -223,7 +225,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')   # it diverges below the horizon
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..2971be9 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)   # it diverges below the horizon
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -195,7 +195,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)   # it diverges below the horizon
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -243,7 +243,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)   # it diverges below the horizon
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From 81f736e1d2d3e0b1d8a19a94fff18851a90bce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 20/30] fix: soltrack/numpy loses the cosine of latitude near
 the poles (single-precision cancellation)

---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 2971be9..ce0d16b 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -133,7 +133,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -181,7 +181,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -229,7 +229,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
-- 
2.43.0


From 739c54949ae10eadd28d75ea2d25db79205e9a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 21/30] fix: the table of a cached year is on the disk before
 the monthly files are removed

---
 src/sunwhere/utils/jpl_horizons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index f56a2b6..2ccbedc 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -157,6 +157,8 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         tmp_filename = out_dir / f'{basename}.{uuid.uuid4().hex}.part'
         try:
             df.to_parquet(tmp_filename)
+            with tmp_filename.open(mode='rb+') as f:
+                os.fsync(f.fileno())  # before the monthly files are removed
             os.replace(tmp_filename, whole_data_filename)
         except BaseException:
             tmp_filename.unlink(missing_ok=True)
-- 
2.43.0


From 93812763d9578406cc2154a04f505e7352b3fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 22/30] fix: the command line names an error that has no
 message

---
 src/sunwhere/_cli/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/main.py b/src/sunwhere/_cli/main.py
index 417d1b3..0cbde0c 100644
--- a/src/sunwhere/_cli/main.py
+++ b/src/sunwhere/_cli/main.py
@@ -48,7 +48,7 @@ def at(
     try:
         calculate_position(time, site_lat, site_lon, algorithm, refraction, timezone)
     except Exception as exc:
-        typer.echo(str(exc))
+        typer.echo(str(exc).strip() or repr(exc))
         raise typer.Exit(code=1)
 
 
-- 
2.43.0


From fb74957c8a9601054d5cc4555818b60031bf46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 23/30] fix: the command line checks its coordinates under
 python -O too

---
 src/sunwhere/_cli/main.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/main.py b/src/sunwhere/_cli/main.py
index 0cbde0c..dadcb56 100644
--- a/src/sunwhere/_cli/main.py
+++ b/src/sunwhere/_cli/main.py
@@ -21,17 +21,21 @@ app = typer.Typer(
 
 def parse_latitude(lat_str):
     hemisphere = lat_str[-1].casefold()
-    assert hemisphere in ('n', 's')
+    if hemisphere not in ('n', 's'):
+        raise ValueError('expected N or S')
     latitude = (-1, 1)[hemisphere == 'n'] * float(lat_str[:-1])
-    assert -90 <= latitude <= 90
+    if not -90 <= latitude <= 90:
+        raise ValueError('latitude out of range')
     return latitude
 
 
 def parse_longitude(lon_str):
     hemisphere = lon_str[-1].casefold()
-    assert hemisphere in ('e', 'w')
+    if hemisphere not in ('e', 'w'):
+        raise ValueError('expected E or W')
     longitude = (-1, 1)[hemisphere == 'e'] * float(lon_str[:-1])
-    assert -180 <= longitude < 180
+    if not -180 <= longitude < 180:
+        raise ValueError('longitude out of range')
     return longitude
 
 
-- 
2.43.0


From b9902d1c14953bcfc41a8942a47f07af8e5f4b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 24/30] fix: the whole table is written when standard output is
 unbuffered

---
 src/sunwhere/_cli/position.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 5fd6e5b..fcf97e4 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,5 +1,8 @@
 
+import io
+import os
 import sys
+import errno
 import locale
 from datetime import datetime, timezone as tz
 
@@ -18,6 +21,23 @@ def format_time(t):
     return '--:--:--' if pd.isnull(t) else f'{t:%H:%M:%S}'
 
 
+def deliver(text):
+    # print() would say nothing if there is no standard output
+    stream = sys.stdout
+    raw = getattr(stream, 'buffer', None)
+    if not isinstance(raw, io.RawIOBase):
+        stream.write(text)
+        stream.flush()
+        return
+    # an unbuffered stream (python -u) drops what a short write leaves over
+    data = text.replace('\n', os.linesep).encode(stream.encoding, stream.errors)
+    while data:
+        written = raw.write(data)
+        if written is None:
+            raise BlockingIOError(errno.EAGAIN, 'standard output is not ready')
+        data = data[written:]
+
+
 def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     # Online service to verify the results of NREL's SPA
@@ -58,6 +78,4 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
         }
     ).to_frame('ephemeris')
 
-    # print() would say nothing if there is no standard output
-    sys.stdout.write(tabulate(s, tablefmt='double_outline', colalign=['left', 'right']) + '\n')
-    sys.stdout.flush()
+    deliver(tabulate(s, tablefmt='double_outline', colalign=['left', 'right']) + '\n')
-- 
2.43.0


From 7ab93a4f1caf6b2d17fc65a61a338e43d1cf0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 25/30] fix: the sun direction is not lost (NaN) when the sun
 is at the zenith or nadir

Rounding can bring the cosine slightly beyond [-1, 1]
---
 src/sunwhere/libspa/ne_iqbal.py    | 9 ++++++---
 src/sunwhere/libspa/py_iqbal.py    | 9 ++++++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..cbfa315 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    sza_rad = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +204,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    sza_rad = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +267,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    sza_rad = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..f5ab889 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    cosz = sinDecl*sinLat + cosDecl*cosLat*cosHour
+    sza_rad = np.arccos(np.clip(cosz, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +199,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    cosz = sinDecl*sinLat + cosDecl*cosLat*cosHour
+    sza_rad = np.arccos(np.clip(cosz, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +261,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    cosz = sinDecl*sinLat + cosDecl*cosLat*cosHour
+    sza_rad = np.arccos(np.clip(cosz, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index ce0d16b..1185461 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +188,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +236,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From 768d6efebc819401bcda4a3ad5584cb227dc3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 26/30] fix: both engines give the same sun direction near the
 zenith

Single precision, and rounding the cosine to 6 digits, cost up to 0.06 degrees
---
 src/sunwhere/libspa/ne_iqbal.py    |  4 ++--
 src/sunwhere/libspa/py_iqbal.py    |  4 ++--
 src/sunwhere/libspa/py_psa.py      | 10 +++++-----
 src/sunwhere/libspa/py_soltrack.py |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index cbfa315..96f88c4 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index f5ab889..657cc00 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -24,8 +24,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index 87fc09c..a557ba0 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
@@ -129,7 +129,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta)
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -173,7 +173,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -218,7 +218,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 1185461..dd5c0a6 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -28,8 +28,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
-- 
2.43.0


From 25f296a77384ed64cb851e925962fab2b5e1a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:42 +0000
Subject: [PATCH 27/30] fix: times out of the range of nanoseconds are not
 wrapped into other years

---
 src/sunwhere/_base.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 29a9a51..292570b 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -59,9 +59,15 @@ class Sunpos:
         # using again pd.to_datetime, localize, and convert to the timezone
         _tz = pd.to_datetime(times).tz
 
+        times_utc = np.array(pd.to_datetime(times, utc=True).tz_localize(None), ndmin=1)
+
+        # nanoseconds overflow (silently) before 1678 and after 2261
+        us = times_utc.astype('datetime64[us]')
+        fits = (us > np.datetime64('1678-01-01')) & (us < np.datetime64('2262-01-01'))
+        self._unit = 'ns' if np.all(fits | np.isnat(us)) else 'us'
+
         self._times_utc = pd.to_datetime(
-            np.array(pd.to_datetime(times, utc=True).tz_localize(None),
-                     ndmin=1, dtype='datetime64[ns]')
+            times_utc.astype(f'datetime64[{self._unit}]')
         ).tz_localize('UTC')
 
         self._times = self._times_utc.tz_convert('UTC' if _tz is None else _tz)
@@ -98,7 +104,7 @@ class Sunpos:
             assert self._zenith.shape == self._azimuth.shape == (n_times, n_lats)
             # xarray coordinates
             coords = {
-                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),
+                'time': np.array(self._times.tz_localize(None), dtype=f'datetime64[{self._unit}]'),
                 'location': range(n_lats),
                 'latitude': ('location', self._latitude),
                 'longitude': ('location', self._longitude)}
@@ -122,7 +128,7 @@ class Sunpos:
             assert self._zenith.shape == self._azimuth.shape == (n_times, n_lats, n_lons)
             # xarray coordinates
             coords = {
-                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),
+                'time': np.array(self._times.tz_localize(None), dtype=f'datetime64[{self._unit}]'),
                 'latitude': self._latitude, 'longitude': self._longitude}
             # xarray DataArrays
             kwargs = {'coords': {k: coords[k] for k in ['latitude']}, 'dims': ['latitude']}
@@ -146,7 +152,7 @@ class Sunpos:
             assert self._zenith.shape == self._azimuth.shape == (n_times,)
             # xarray coordinates
             coords = {
-                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),
+                'time': np.array(self._times.tz_localize(None), dtype=f'datetime64[{self._unit}]'),
                 'latitude': ('time', self._latitude),
                 'longitude': ('time', self._longitude)}
             # xarray DataArrays
@@ -213,14 +219,15 @@ class Sunpos:
     @property
     def true_solar_time(self):
         """DataArray: True solar time, known also to as local apparent time."""
-        dt64 = np.datetime64(1, 'ns')
+        dt64 = f'datetime64[{self._unit}]'
+        second = {'ns': 1e9, 'us': 1e6}[self._unit]
 
         utc_f = xr.DataArray(
             np.array(self._times_utc.tz_localize(None), dtype=dt64).astype('float64'),
             coords={'time': np.array(self._times.tz_localize(None), dtype=dt64)},
             dims=['time'])
 
-        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds
+        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * second
         return tst_f.astype(dt64).rename('true_solar_time').assign_attrs(
             description='True solar time (a.k.a. local apparent time, LAT)')
 
@@ -452,7 +459,7 @@ class Sunpos:
         if units in ('tst', 'utc', 'local'):
             wsr = 12. - (np.degrees(wsr)/15.)
             delta_ns = wsr.copy(
-                data=(wsr*3600*1e9).astype('timedelta64[ns]'))
+                data=(wsr*3600*1e9).astype('timedelta64[ns]').astype(f'm8[{self._unit}]'))
             tst_d = self.true_solar_time.copy(
                 # if I convert directly from self.true_solar_time (which is
                 # a DataArray) to `datetime64[D]` xarray complains. It raises
@@ -463,14 +470,14 @@ class Sunpos:
                 # prevent that annoying UserWarning !!
                 data=(self.true_solar_time.to_numpy()
                       .astype('datetime64[D]')
-                      .astype('datetime64[ns]'))
+                      .astype(f'datetime64[{self._unit}]'))
             )
             wsr = delta_ns + tst_d
 
             if units in ('utc', 'local'):
                 delta_hr = self.eot + 4*self.longitude
                 delta_ns = delta_hr.copy(
-                    data=(delta_hr*60*1e9).astype('timedelta64[ns]'))
+                    data=(delta_hr*60*1e9).astype('timedelta64[ns]').astype(f'm8[{self._unit}]'))
                 wsr = wsr - delta_ns
 
                 if units == 'local':
@@ -511,7 +518,7 @@ class Sunpos:
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise(units)
             dl_hr = self.daylight_length()
-            wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
+            wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]').astype(f'm8[{self._unit}]'))
 
         if units in ('deg', 'rad'):
             wss = -self.sunrise(units)  # hour angle, positive eastward
@@ -552,7 +559,7 @@ class Sunpos:
         # hour angle...
         tst = self.true_solar_time.to_numpy()
         hour = self.true_solar_time.copy(
-            data=tst - tst.astype('datetime64[D]')
+            data=(tst - tst.astype('datetime64[D]')).astype('timedelta64[ns]')
         ).astype('float64') * 1e-9 / 3600
         ha = hour.copy(data=15*(12-hour))
 
-- 
2.43.0


From 27558cebf68f3bf85720c3f48c5e2a0489d9f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 28/30] fix: unknown units of sunrise and sunset are refused
 under python -O too, with the documented ValueError

---
 src/sunwhere/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 292570b..5522074 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -444,7 +444,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         tanlat = np.tan(np.radians(self.latitude))
         tandec = np.tan(np.radians(self.declination))
@@ -513,7 +514,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise(units)
-- 
2.43.0


From 0db6286badad5c5efc9b1dff7b5b9bde4089a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 29/30] fix: naming the times of a result, or setting their
 freq, does not change the result

---
 src/sunwhere/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 5522074..4b7c7c0 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -184,12 +184,12 @@ class Sunpos:
     @property
     def times(self):
         """Array of datetime64: Times where solar geometry is evaluated."""
-        return self._times   # np.array(self._times, dtype='datetime64[ns]')
+        return self._times.copy(deep=True)   # np.array(self._times, dtype='datetime64[ns]')
 
     @property
     def times_utc(self):
         """Array of datetime64: Universal coordinated times where solar geometry is evaluated."""
-        return self._times_utc  # np.array(self._times_utc, dtype='datetime64[ns]')
+        return self._times_utc.copy(deep=True)  # np.array(self._times_utc, dtype='datetime64[ns]')
 
     @property
     def algorithm(self):
-- 
2.43.0


From 1aaaf209ef9ba859496670e58cfd60ebb29b4704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:17 +0000
Subject: [PATCH 30/30] fix: a load of a year broke when another load of it
 finished meanwhile

The monthly file just downloaded could be removed (or replaced) by another
process loading the same year before it was read.
---
 src/sunwhere/utils/jpl_horizons.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 2ccbedc..d3bd444 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -147,9 +147,17 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
                 stop_time = (start_time + pd.Timedelta('35days')).replace(day=1) - pd.Timedelta('1min')
-                get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
-                logger.success('data downloaded')
-                data.append(read_jpl_ephemeris_file(out_filename))
+                # under a name of its own until it is read: other processes can be loading,
+                # replacing and removing the files of the same year
+                tmp_filename = out_dir / f'{out_filename.name}.{uuid.uuid4().hex}.part'
+                try:
+                    get_jpl_ephemeris(tmp_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
+                    logger.success('data downloaded')
+                    data.append(read_jpl_ephemeris_file(tmp_filename))
+                    os.replace(tmp_filename, out_filename)
+                except BaseException:
+                    tmp_filename.unlink(missing_ok=True)
+                    raise
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
-- 
2.43.0

