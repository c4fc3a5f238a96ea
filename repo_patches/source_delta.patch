From 69ade1f33bf448b4f9cfe8c21bc6fed09eaedda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 001/117] fix: Data.extend copies the list given for a new
 column

The container kept the caller's list, so later extensions changed the list of
the caller and changes of the caller changed the container.
---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9cb05b0..6b57adf 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -172,7 +172,7 @@ class Data:
         else:
             # self.fill(self._max_len - len(data), [key])
             # self._data[key].extend(data)
-            self._data[key] = data
+            self._data[key] = list(data)
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
-- 
2.43.0


From b0d7274c93140019c0c6ab0d53880bcb80d1cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 002/117] fix: Data.rows with return_type=tuple yields tuples

It yielded generators that are bound late to the row index.
---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 6b57adf..f5bd1ca 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -106,7 +106,7 @@ class Data:
             if return_type is dict:
                 yield {key: self._data[key][i] for key in keys}
             elif return_type is tuple:
-                yield (self._data[key][i] for key in keys)
+                yield tuple(self._data[key][i] for key in keys)
             elif return_type is list:
                 yield [self._data[key][i] for key in keys]
             else:
-- 
2.43.0


From 57d547f326ce3ebd02debbca22868f2968459848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 003/117] fix: Data.delete counts each deleted row once

Repeated or out of range indices reduced n_rows by more rows than were deleted.
---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index f5bd1ca..c6f82f8 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -324,7 +324,7 @@ class Data:
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(key)
+                self._max_len -= sum(i in key for i in range(self._max_len))
 
     def strip(self, mode="all"):
         """
-- 
2.43.0


From e91db383e569265fe22453adeaa8c9837d839bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 004/117] fix: Data.strip of rows updates n_rows and ends for
 tables without values

n_rows kept its old value, a table of only None rows raised an IndexError and
a table without columns never returned.
---
 hrosailing/core/data.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index c6f82f8..54a8cec 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -345,24 +345,23 @@ class Data:
                 if not all(v is None for v in value)
             }
         elif mode == "rows":
-            end_leading_nones = 0  # first index AFTER leading None rows
-            start_tailing_nones = (
-                self._max_len - 1
-            )  # first index BEFORE tailing None rows
-            while all(
-                value[end_leading_nones] is None
-                for key, value in self._data.items()
-            ):
-                end_leading_nones += 1
-            while all(
-                value[start_tailing_nones] is None
-                for key, value in self._data.items()
-            ):
-                start_tailing_nones -= 1
+
+            def is_none_row(i):
+                return all(
+                    i >= len(value) or value[i] is None
+                    for value in self._data.values()
+                )
+
+            start = 0  # first index AFTER leading None rows
+            end = self._max_len  # first index of tailing None rows
+            while start < end and is_none_row(start):
+                start += 1
+            while start < end and is_none_row(end - 1):
+                end -= 1
             self._data = {
-                key: value[end_leading_nones : start_tailing_nones + 1]
-                for key, value in self._data.items()
+                key: value[start:end] for key, value in self._data.items()
             }
+            self._max_len = end - start
         elif mode == "all":
             self.strip("cols")
             self.strip("rows")
-- 
2.43.0


From 9dc003164524eace71129a67581ac0645b0a16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 005/117] fix: Data.update respects compress for Data arguments

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 54a8cec..6e01d95 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -191,7 +191,7 @@ class Data:
             `None`, the last entries will be replaced.
         """
         if isinstance(data_dict, Data):
-            self.update(data_dict.data)
+            self.update(data_dict.data, compress)
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
-- 
2.43.0


From f35877d83e56d07e743dabe56c39ff0ba617d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 006/117] fix: Data.update leaves the data unchanged if it is
 refused

An inconsistent type was detected after some columns had been extended already
(and, with compress, after entries had been removed), which left ragged columns.
---
 hrosailing/core/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 6e01d95..c534e00 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -195,6 +195,10 @@ class Data:
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
+        for key, val in data_dict.items():
+            # refuse inconsistent types before anything is changed
+            new = val if isinstance(val, list) else [val]
+            self._get_type(itertools.chain(self._data.get(key, []), new))
         self.fill(
             self._max_len, itertools.chain(data_dict.keys(), self.keys())
         )
-- 
2.43.0


From 82592e702a9c84a311faa5e983875cbb587dcafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 007/117] fix: Data.fill keeps n_rows in step with the filled
 columns

---
 hrosailing/core/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index c534e00..b5f6576 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -263,6 +263,7 @@ class Data:
             curr_len = len(self._data[key])
             fill_len = max(0, (len_ - curr_len))
             self._data[key].extend([None] * fill_len)
+            self._max_len = max(self._max_len, len(self._data[key]))
             self._types[key] = self._get_type(self._data[key])
 
     def filter_types(self, type_list):
-- 
2.43.0


From c2da3fc4f66b8af4af943342e1d1eaec551b34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 008/117] fix: PolarDiagramTable without boat speeds keeps
 resolutions as arrays

The sorted resolutions were lists, so get_slices of such a table raised an
IndexError or returned wrong columns.
---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ba0b0a3..ad64a66 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -169,8 +169,8 @@ class PolarDiagramTable(PolarDiagram):
     def _create_zero_table(self, ws_resolution, wa_resolution):
         rows, cols = len(wa_resolution), len(ws_resolution)
         self._boat_speeds = np.zeros((rows, cols))
-        self._ws_resolution = sorted(ws_resolution)
-        self._wa_resolution = sorted(wa_resolution)
+        self._ws_resolution = np.array(sorted(ws_resolution), float)
+        self._wa_resolution = np.array(sorted(wa_resolution), float)
 
     def __str__(self):
         table = ["  TWA / TWS"]
-- 
2.43.0


From ec10a1a4a9606c09b1049bc531e8bd49270fff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 009/117] fix: PolarDiagramTable does not modify the given wind
 angle resolution

---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ad64a66..5bf160c 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -750,7 +750,7 @@ class _Resolution_helper:
                 raise ValueError("`res` contains negative entries")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            res %= 360
+            res = res % 360
 
         return res
 
-- 
2.43.0


From 2b9286ecbc35584fb2f0be226fe2d9f8f36521dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 010/117] fix: PolarDiagramTable does not modify wind angles
 given as selection

---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 5bf160c..6a60c75 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -778,7 +778,7 @@ class _Resolution_helper:
                 raise ValueError("`wind` is negative")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            wind %= 360
+            wind = wind % 360
 
         return set(wind)
 
-- 
2.43.0


From 5ce78fc3dce3f0087ab7bb22592734246bab9282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 011/117] fix: PolarDiagramTable interpolates at wind angles
 modulo 360

Entries of the table are found for angles modulo 360 but interpolation used
the angle as given.
---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 6a60c75..935c3ab 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -284,7 +284,7 @@ class PolarDiagramTable(PolarDiagram):
         try:
             return self[ws, wa]
         except (TypeError, ValueError):
-            point = np.array([ws, wa])
+            point = np.array([ws, wa % 360])
             ws, wa = np.meshgrid(self.wind_speeds, self.wind_angles)
             points = np.column_stack(
                 (ws.ravel(), wa.ravel(), self.boat_speeds.ravel())
-- 
2.43.0


From 3b5bcda3e5edb49c78a99021a1a4f8019fd5e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 012/117] fix: gridded weather at grid coordinates uses the
 index of the coordinate

For a component that coincides with a grid value the position within the
enclosing cuboid (always 0) was used instead of the index in the grid, so the
weather of the first time, latitude or longitude was returned.
---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 01b4f3a..4982193 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -292,7 +292,7 @@ def _recursive_affine_interpolation(point, grid, get_data):
 
         if comp in cuboid_vals[dim]:
             j = cuboid_vals[dim].index(point_[dim])
-            return recursion(point_, completed + [j])
+            return recursion(point_, completed + [cuboid[dim][j]])
 
         idx0 = cuboid[dim][0]
         idx1 = cuboid[dim][1]
-- 
2.43.0


From 53a9d2152880064a42f408f759b7d1f7d9322218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 013/117] fix: MultiWeatherModel ignores NotImplementedError of
 submodels as documented

---
 hrosailing/models/weather_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 4982193..f9a8c58 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -495,6 +495,7 @@ class MultiWeatherModel(WeatherModel):
                 ValueError,
                 TypeError,
                 KeyError,
+                NotImplementedError,
             ) as e:
                 if self._exception_sensitive:
                     raise e
-- 
2.43.0


From 2ad339f4a86b6d1a1b62fa373b7672b3d5ffb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 014/117] fix: WeatherExpander adds the weather to the rows it
 belongs to

Updating the data appended the weather as new rows below the existing ones.
---
 hrosailing/pipeline/expander.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 74fe6f8..8075fe8 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -96,7 +96,8 @@ class WeatherExpander(Expander):
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
 
-        data.update(weather_data)
+        for key in weather_data.keys():
+            data.extend(key, weather_data[key])
         data.hrosailing_standard_format()
         self.set_statistics(data)
         return data
-- 
2.43.0


From 49f048d79d8460a71ac9eeb408c6686b4067e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 015/117] fix: WeatherExpander keeps rows without weather
 aligned

A row for which the weather model gives no attributes was skipped in the weather
table, which shifted the weather of all later rows, and in the mode "ignore"
data without any available weather raised a TypeError.
---
 hrosailing/pipeline/expander.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 8075fe8..8f4466f 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -103,7 +103,6 @@ class WeatherExpander(Expander):
         return data
 
     def _get_weather(self, data):
-        weather_keys = None
         none_idxs = []
         weather_list = []
         for idx, (datetime, lat, lon) in enumerate(
@@ -112,20 +111,21 @@ class WeatherExpander(Expander):
             try:
                 weather = self._weather_model.get_weather([datetime, lat, lon])
                 weather_list.append(weather)
-                if weather_keys is None:
-                    weather_keys = weather.keys()
             except ValueError:
                 if self._exception_handling_mode == "ignore":
-                    weather_list.append(None)
+                    weather_list.append({})
                 none_idxs.append(idx)
 
         if self._exception_handling_mode == "delete":
             data.delete(none_idxs)
-        else:
-            for idx in none_idxs:
-                weather_list[idx] = {key: None for key in weather_keys}
 
-        return Data.concatenate(weather_list)
+        weather_keys = {key: None for weather in weather_list for key in weather}
+        return Data.from_dict(
+            {
+                key: [weather.get(key) for weather in weather_list]
+                for key in weather_keys
+            }
+        )
 
     def _mark_duplicate_keys(self, weather_data, data):
         for key in list(weather_data.keys()):
-- 
2.43.0


From e40d1bc1c09860c2dc5d846c5cd6a5c711e085db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 016/117] fix: WeatherExpander can expand data that has
 duplicates marked already

---
 hrosailing/pipeline/expander.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 8f4466f..abd983c 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -130,5 +130,8 @@ class WeatherExpander(Expander):
     def _mark_duplicate_keys(self, weather_data, data):
         for key in list(weather_data.keys()):
             if key in data.keys():
-                weather_data.rename(key, f"{key}(duplicate)")
+                new_key = f"{key}(duplicate)"
+                while new_key in data or new_key in weather_data:
+                    new_key += "(duplicate)"
+                weather_data.rename(key, new_key)
         return weather_data
-- 
2.43.0


From 59198da8bddf62e8cc9544c113b1cc1ef2e69481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 017/117] fix: standard format keeps an existing datetime
 column aligned

With date, time and datetime columns the combined datetimes were appended below
the existing ones, which doubled the column.
---
 hrosailing/core/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index b5f6576..efe7288 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -406,7 +406,9 @@ class Data:
                 new_key = f"{standard_key}(Control value {i})"
             self.rename(key, new_key)
 
-        if "time" in self and "date" in self:
+        if (
+            "time" in self and "date" in self and "datetime" not in self
+        ):
 
             def combine(date, time):
                 if date is None or time is None:
-- 
2.43.0


From 7de13420265dbaeec78aa19a4d6c387e6cced583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 018/117] fix: standard format casts all numpy numbers to float

Columns of numpy integers, as produced by the ArrayHandler for integer arrays,
were not cast.
---
 hrosailing/core/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index efe7288..b088a22 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -427,7 +427,11 @@ class Data:
 
         # ensure floats
         for key in self.keys():
-            if self._types[key] in (int, str, Decimal, np.float_):
+            type_ = self._types[key]
+            if type_ in (int, str, Decimal, np.str_) or (
+                type_ is not None
+                and issubclass(type_, (np.integer, np.floating))
+            ):
                 succes, self._data[key] = _try_call_to_float(self._data[key])
                 if succes:
                     self._types[key] = float
-- 
2.43.0


From 9987736d3fd24c8ad17e01ca992543be93cacb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 019/117] fix: CsvFileHandler reads empty cells as None

Empty cells became NaN instead of the None used for missing values elsewhere,
and an empty cell in a column of dates raised a ValueError.
---
 hrosailing/processing/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3693ee6..715e37d 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -172,6 +172,8 @@ class CsvFileHandler(DataHandler):
         return data
 
     def _save_eval(self, entry):
+        if entry == "" or entry != entry:  # empty cells (NaN in pandas)
+            return None
         if not isinstance(entry, str):
             return entry
         try:
-- 
2.43.0


From b3a40d11806d67bc9b533b57a99b5b4fed1befde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 020/117] fix: NMEAFileHandler respects the hemisphere of
 positions

---
 hrosailing/processing/datahandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 715e37d..eaf3b71 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -312,6 +312,12 @@ class NMEAFileHandler(DataHandler):
 
                 processed_dict = self._postprocess(parsed_dict)
 
+                for key, direction in (("lat", "lat_dir"), ("lon", "lon_dir")):
+                    if processed_dict.get(key) is not None and getattr(
+                        parsed_sentence, direction, None
+                    ) in ("S", "W"):
+                        processed_dict[key] = -processed_dict[key]
+
                 comp_data.update(processed_dict, compress=True)
 
         comp_data.hrosailing_standard_format()
-- 
2.43.0


From 2d5787a46c8b1210c11d18a34acd2fdd0cdba46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 021/117] fix: NMEAFileHandler reads empty positions as None

---
 hrosailing/processing/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index eaf3b71..53a3cc0 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -366,6 +366,8 @@ class NMEAFileHandler(DataHandler):
         return parsed_sentence
 
     def _from_nmea_format(self, value):
+        if value in ("", None):
+            return None
         value = float(value)
         degrees = int(value / 100)
         minutes = value - 100 * degrees
-- 
2.43.0


From f819ffdf8d024231cae41c021db7aa760ffeb430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 022/117] fix: NMEAFileHandler reads fractional seconds in full
 precision

---
 hrosailing/processing/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 53a3cc0..9c3a41a 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -377,7 +377,7 @@ class NMEAFileHandler(DataHandler):
         hours = int(timestr[0:2])
         minutes = int(timestr[2:4])
         seconds = int(timestr[4:6])
-        microseconds = int(timestr.split(".")[1])
+        microseconds = round(float("0" + timestr[6:]) * 1000000)
         if seconds >= 60:
             minutes += seconds // 60
             seconds %= 60
-- 
2.43.0


From 087f06bf34a5d998fa872528fbf8034675b13246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 023/117] fix: NMEAFileHandler distinguishes apparent and true
 wind for selected attributes

---
 hrosailing/processing/datahandler.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 9c3a41a..f3b508d 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -330,23 +330,17 @@ class NMEAFileHandler(DataHandler):
         return comp_data
 
     def _postprocess(self, parsed_sentence):
-        if (
-            "Wind angle" in parsed_sentence
-            and "Reference" in parsed_sentence
-            and "Wind speed" in parsed_sentence
-        ):
-            wind_angle = parsed_sentence["Wind angle"]
-            wind_speed = parsed_sentence["Wind speed"]
+        if "Reference" in parsed_sentence:
             reference = parsed_sentence["Reference"]
-            if reference == "R":
-                parsed_sentence["AWA"] = wind_angle
-                parsed_sentence["AWS"] = wind_speed
-            elif reference == "T":
-                parsed_sentence["TWA"] = wind_angle
-                parsed_sentence["TWS"] = wind_speed
             del parsed_sentence["Reference"]
-            del parsed_sentence["Wind angle"]
-            del parsed_sentence["Wind speed"]
+            for name, wind_key in (("Wind angle", "WA"), ("Wind speed", "WS")):
+                if name not in parsed_sentence:
+                    continue
+                if reference == "R":
+                    parsed_sentence["A" + wind_key] = parsed_sentence[name]
+                elif reference == "T":
+                    parsed_sentence["T" + wind_key] = parsed_sentence[name]
+                del parsed_sentence[name]
         if "Latitude" in parsed_sentence:
             parsed_sentence["lat"] = self._from_nmea_format(
                 parsed_sentence["Latitude"]
-- 
2.43.0


From b63384dc7ff048ab07a89f7278d116607fc78152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 024/117] fix: weigher arithmetic uses all weights of its
 operands

---
 hrosailing/processing/weigher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7487dd0..5835e2b 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -169,9 +169,9 @@ class _UnaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
+        weights = self._map(np.asarray(self._sub_weigher.weigh(points)))
         self.set_statistics(weights)
-        return self._map(weights)
+        return weights
 
 
 class _BinaryMapWeigher(Weigher):
@@ -182,8 +182,8 @@ class _BinaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        other_weights, _ = self._other_sub_weigher.weigh(points)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        other_weights = np.asarray(self._other_sub_weigher.weigh(points))
         new_weights = self._map(weights, other_weights)
         self.set_statistics(new_weights)
         return new_weights
-- 
2.43.0


From b822f066b8fff2a399c923bbf0ae61b882d584c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 025/117] fix: weighers support subtraction of and division of
 numbers as documented

---
 hrosailing/processing/weigher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 5835e2b..4ca6230 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -79,7 +79,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __sub__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x - y)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: x - other)
         raise TypeError(
             f"Invalid type for subtraction with Weigher."
@@ -103,7 +103,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __rtruediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: y / x)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: other / x)
         raise TypeError(
             f"Invalid type for division with Weigher."
-- 
2.43.0


From d239a2e569e14c88d98ca789d4b515954e4ba245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 026/117] fix: weighers do not modify their list of dimensions

---
 hrosailing/processing/weigher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 4ca6230..c35b97b 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -555,7 +555,8 @@ def _set_points_from_data(data, attributes, reduce=True):
         return attributes, data
 
     if attributes is None:
-        attributes = list(data.keys()) or list(data.keys)
+        attributes = data.keys()
+    attributes = list(attributes)
 
     if reduce:
         if "BSP" in attributes:
-- 
2.43.0


From a28e739d5642c3d92cdcc0c3208fbc19ddaa2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 027/117] fix: weighers respect the order of the given
 dimensions

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index c35b97b..140c1ad 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -574,7 +574,10 @@ def _set_points_from_data(data, attributes, reduce=True):
         data = data_dict_to_numpy(data, attributes)
 
     if isinstance(data, Data):
-        attributes, data = data[attributes].numerical
+        keys, data = data[attributes].numerical
+        attributes = [key for key in attributes if key in keys]
+        if keys:
+            data = data[:, [keys.index(key) for key in attributes]]
 
     if reduce:
         return attributes, data, np.asarray(bsp)
-- 
2.43.0


From bbf5f931a172586343e784e376c8eba2e3239ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 028/117] fix: CylindricMeanWeigher chooses its standard norm
 for each call

---
 hrosailing/processing/weigher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 140c1ad..fafd852 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -316,9 +316,10 @@ class CylindricMeanWeigher(Weigher):
         return np.abs(mean - bsp) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
-        if self._norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        in_cylinder = self._norm(points - point) <= self._radius
+        norm = self._norm
+        if norm is None:
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+        in_cylinder = norm(points - point) <= self._radius
         return bsps[in_cylinder]
 
 
-- 
2.43.0


From 44a926eec0ca418cb2d829a31acdb1ea7e8da485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 029/117] fix: CylindricMemberWeigher chooses dimensions and
 standard norm for each call

---
 hrosailing/processing/weigher.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index fafd852..c762852 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -393,8 +393,9 @@ class CylindricMemberWeigher(Weigher):
         self._radius = radius
         self._length = length
 
+        self._use_standard_norm = norm is None
         if norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+            self._norm = hrosailing_standard_scaled_euclidean_norm()
         else:
             self._norm = norm
         self._dimensions = dimensions
@@ -428,9 +429,13 @@ class CylindricMemberWeigher(Weigher):
         if isinstance(points, Data) and points.n_rows == 0:
             return []
 
-        self._dimensions, points = _set_points_from_data(
+        dimensions, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
+        if self._use_standard_norm:
+            self._norm = hrosailing_standard_scaled_euclidean_norm(
+                dimensions[:-1] if dimensions is not None else None
+            )
 
         weights = [self._calculate_weight(point, points) for point in points]
         weights = np.array(weights)
-- 
2.43.0


From 5ce77b235edf79697256cf2c33f3154eee44659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 030/117] fix: fuzzy and/or evaluate all entries of arrays

---
 hrosailing/processing/weigher.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index c762852..3fc1d33 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -671,8 +671,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.min(concat, axis=0)[0]
+            return np.minimum(one(x), other(x))
 
         return cls(eval_fun)
 
@@ -693,8 +692,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.max(concat, axis=0)[0]
+            return np.maximum(one(x), other(x))
 
         return cls(eval_fun)
 
-- 
2.43.0


From 15df0a1c6c640f408f4a2feb6a12a5e9419ab0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 031/117] fix: sharpness of a fuzzy equality applies to both of
 its sides

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 3fc1d33..475373f 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -843,7 +843,10 @@ class FuzzyVariable:
         return self < other
 
     def __eq__(self, other):
-        new = FuzzyBool.fuzzy_and(self < other, self > other)
+        sharpness = self.sharpness
+        new = FuzzyBool.fuzzy_and(
+            self(sharpness) < other, self(sharpness) > other
+        )
         new.repr = f"{self} == {other}"
         return new
 
-- 
2.43.0


From 3bd418bf1e795fed9198306c7e35bf783d591cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 032/117] fix: RemoveOnlyImputator reports the number of
 removed rows

---
 hrosailing/processing/imputator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 6e779a4..d9577cf 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -61,7 +61,7 @@ class RemoveOnlyImputator(Imputator):
         ]
         data.delete(remove_rows)
 
-        self.set_statistics(0, n_rows - len(remove_rows), 0, data)
+        self.set_statistics(0, n_rows - data.n_rows, 0, data)
 
         return data
 
-- 
2.43.0


From 3cb52beb0b29f70c7791256109ac2527ac1716d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 033/117] fix: FillLocalImputator interpolates datetimes after
 a large gap

---
 hrosailing/processing/imputator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index d9577cf..80fe2c2 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -192,11 +192,10 @@ class FillLocalImputator(Imputator):
         for i, dt in enumerate(data["datetime"]):
             if dt is None:
                 continue
-            if last_dt is None:
-                pass
-            elif abs(dt - last_dt) > self._max_time_diff:
-                continue
-            else:
+            if (
+                last_dt is not None
+                and abs(dt - last_dt) <= self._max_time_diff
+            ):
                 # linear approximation of time in between
                 for j in range(last_i + 1, i):
                     mu = (j - last_i) / (i - last_i)
-- 
2.43.0


From 59732e9f1da9349494fc85ff7613bb77f26f878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 034/117] fix: AffineSmoother treats the last measurement like
 any other

---
 hrosailing/processing/smoother.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 5034f1c..11aff36 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -124,19 +124,15 @@ class AffineSmoother(Smoother):
         y_lb = ys[0]
         interval_bounds_x = []
         interval_bounds_y = []
-        for i, (x, x_after, y, y_after) in enumerate(
-            zip(xs, xs[1:], ys, ys[1:])
-        ):
-            if i == len(ys) - 2:
-                interval_bounds_x.append((x_lb, x_after))
-                interval_bounds_y.append(y)
-                break
+        for x, x_after, y, y_after in zip(xs, xs[1:], ys, ys[1:]):
             if y == y_after:
                 continue
             interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])
             interval_bounds_y.append(y_lb)
             x_lb = 1 / 2 * (x + x_after)
             y_lb = y_after
+        interval_bounds_x.append((x_lb, xs[-1]))
+        interval_bounds_y.append(y_lb)
 
         return interval_bounds_x, interval_bounds_y
 
-- 
2.43.0


From c17dcff485877e6525f2739ec4b23806d50a2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 035/117] fix: AffineSmoother refuses all unordered time series

---
 hrosailing/processing/smoother.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 11aff36..bdb8a6f 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -90,7 +90,8 @@ class AffineSmoother(Smoother):
         --------
         `Smoother.smooth`
         """
-        if any(time < data["datetime"][0] for time in data["datetime"]):
+        times = data["datetime"]
+        if any(after < before for before, after in zip(times, times[1:])):
             raise ValueError(
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
-- 
2.43.0


From 16ff52ecb38ed6b38902e56e9e5c475a3ebf5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 036/117] fix: pipeline reports the statistics of the filter
 before the expander

---
 hrosailing/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 7d78236..cbeafbf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -365,7 +365,7 @@ class PolarPipeline:
             pp_training_statistics.imputator,
             pp_training_statistics.smoother,
             pp_training_statistics.pre_expanding_weigher,
-            pp_training_statistics.pre_influence_filter,
+            pp_training_statistics.pre_expanding_filter,
             pp_training_statistics.expander,
             pp_training_statistics.pre_influence_weigher,
             pp_training_statistics.pre_influence_filter,
-- 
2.43.0


From cde29522dc1d13da6b45a871d2ba891beac93c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 037/117] fix: pipeline accepts a list of data handlers as
 documented

---
 hrosailing/pipeline/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index cbeafbf..e1847bf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -294,6 +294,8 @@ class PolarPipeline:
         out : PipelineOutput
         """
         start_time = dt.now()
+        if not isinstance(self.data_handler, pc.DataHandler):
+            self._handlers = iter(self.data_handler)
         keys = [
             "smoothing",
             "pre_expander_weighing",
@@ -501,7 +503,7 @@ class PolarPipeline:
         else:
             handler_output = []
             for field in data:
-                handler = next(self.data_handler)
+                handler = next(self._handlers)
                 handler_output.append(_collect(handler, handler.handle, field))
 
         return self._list_statistics(handler_output)
-- 
2.43.0


From c87de42286d5aa16014204d59dbce245476c4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 038/117] fix: curve extension with radians does not change the
 given points

---
 hrosailing/pipeline/extensions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 7ca6d7c..6758314 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -233,10 +233,11 @@ class CurveExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
+        data = weighted_points.data
         if self._use_radians():
-            _convert_angles_to_radians(weighted_points)
+            data = _convert_angles_to_radians(data)
 
-        self.regressor.fit(weighted_points.data)
+        self.regressor.fit(data)
 
         return pol.PolarDiagramCurve(
             self.regressor.model_func,
@@ -248,8 +249,10 @@ class CurveExtension(PipelineExtension):
         return self.radians
 
 
-def _convert_angles_to_radians(weighted_points):
-    weighted_points.data[:, 1] = np.deg2rad(weighted_points.data[:, 1])
+def _convert_angles_to_radians(data):
+    data = np.array(data, dtype=float)
+    data[:, 1] = np.deg2rad(data[:, 1])
+    return data
 
 
 class PointcloudExtension(PipelineExtension):
-- 
2.43.0


From 87524eab851708b37d62fff503d9a8413de47684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 039/117] fix: point cloud extension samples the wind of the
 given points

Samplers expect points of shape (n, 2); the Fibonacci and Archimedean
samplers failed on the (n, 3) data.
---
 hrosailing/pipeline/extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 6758314..26966b9 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -313,7 +313,7 @@ class PointcloudExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
-        sample_points = self.sampler.sample(weighted_points.data)
+        sample_points = self.sampler.sample(weighted_points.data[:, :2])
         interpolated_points = _interpolate_points(
             sample_points,
             weighted_points,
-- 
2.43.0


From bece953ff775a1260a09102f59961c54ba377035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 040/117] fix: automatic table resolution contains no wind
 speed or angle twice

---
 hrosailing/pipeline/extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 26966b9..d3f4a51 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -139,7 +139,7 @@ def _automatically_determined_resolution(points):
     ws_resolution = _extract_wind(points[:, 0], 2, 100)
     wa_resolution = _extract_wind(points[:, 1], 5, 30)
 
-    return ws_resolution, wa_resolution
+    return sorted(set(ws_resolution)), sorted({wa % 360 for wa in wa_resolution})
 
 
 def _min_max_resolution(points):
-- 
2.43.0


From 05cf218211cbc3bff3afaefbf12a6ab5985039c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 041/117] fix: point cloud does not change the arrays it is
 given

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a03ea19..5bfc578 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -198,7 +198,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if np.any((ws <= 0)):
             raise ValueError("`ws` is non-positive")
 
-        wa %= 360
+        wa = wa % 360
 
         cloud = self.points
         point = cloud[np.logical_and(cloud[:, 0] == ws, cloud[:, 1] == wa)]
@@ -321,6 +321,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             new_pts = np.asarray_chkfinite(new_pts)
             if np.any((new_pts[:, 0] <= 0)):
                 raise ValueError("`new_pts` has non-positive wind speeds")
+            new_pts = new_pts.copy()
             new_pts[:, 1] %= 360
 
         self._points = np.row_stack((self._points, new_pts))
-- 
2.43.0


From 5d9212d538727bff0b0682c460c5363bff61d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 042/117] fix: default interpolation of a point cloud does not
 scale boat speeds by 50

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 5bfc578..091c818 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -162,7 +162,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         self,
         ws,
         wa,
-        interpolator=ArithmeticMeanInterpolator(50),
+        interpolator=ArithmeticMeanInterpolator(params=(50,)),
         neighbourhood=Ball(radius=1),
     ):
         """Returns the value of the polar diagram at a given `ws-wa` point.
@@ -182,7 +182,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             Interpolator subclass that determines the interpolation
             method used to determine the value at the `ws-wa` point.
 
-            Defaults to `ArithmeticMeanInterpolator(50)`.
+            Defaults to `ArithmeticMeanInterpolator(params=(50,))`.
 
         neighbourhood : Neighbourhood, optional
             Neighbourhood subclass used to determine the points in
-- 
2.43.0


From 7830c21c415be0f02cf3088c492e8443921ffd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 043/117] fix: slices of a point cloud with an interpolator
 consist of points

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 091c818..36d0f95 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -118,9 +118,12 @@ class PolarDiagramPointcloud(PolarDiagram):
         if interpolator is not None:
             default_wind_angles = np.linspace(0, 360, wa_resolution)
             return [
-                np.row_stack(
-                    self(ws_, wa, interpolator) for wa in default_wind_angles
-                )
+                np.array(
+                    [
+                        (ws_, wa, self(ws_, wa, interpolator))
+                        for wa in default_wind_angles
+                    ]
+                ).T
                 for ws_ in ws
             ]
 
-- 
2.43.0


From 58daa37c3eef68f8ef4562a6f2449884ff946355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 044/117] fix: wind conversion does not change the given array

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 0a09ac7..2c7ab04 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -26,7 +26,7 @@ class _Wind(enum.Enum):
         if np.any((ws < 0)):
             raise TypeError("`wind` has negative wind speeds")
 
-        wa %= 360  # normalize wind angles
+        wa = wa % 360  # normalize wind angles
         wa_above_180 = wa > 180
         wa = np.deg2rad(wa)
 
-- 
2.43.0


From a7e421b7a00700bbdce9b9396ff18b570eebc4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 045/117] fix: wind conversion yields finite wind in a calm and
 angles below 360

---
 hrosailing/core/computing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 2c7ab04..44b2b13 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -38,14 +38,20 @@ class _Wind(enum.Enum):
         return np.column_stack((converted_ws, converted_wa, bsp))
 
     def _convert_wind_speed(self, ws, wa, bsp):
-        return np.sqrt(
+        squared_ws = (
             np.square(ws)
             + np.square(bsp)
             + 2 * self.value * ws * bsp * np.cos(wa)
         )
+        return np.sqrt(np.maximum(squared_ws, 0))
 
     def _convert_wind_angle(self, converted_ws, ws, wa, bsp, wa_above_180):
-        temp = (ws * np.cos(wa) + self.value * bsp) / converted_ws
+        # in a calm the angle is arbitrary
+        calm = converted_ws == 0
+        temp = (ws * np.cos(wa) + self.value * bsp) / np.where(
+            calm, 1, converted_ws
+        )
+        temp[calm] = 1
 
         # account for floating point errors
         temp[temp > 1] = 1
@@ -57,7 +63,7 @@ class _Wind(enum.Enum):
         )
         converted_wa[~wa_above_180] = np.rad2deg(converted_wa[~wa_above_180])
 
-        return converted_wa
+        return converted_wa % 360
 
 
 def convert_apparent_wind_to_true(apparent_wind):
-- 
2.43.0


From 6a59b12514eccc70b65c7b1ad14258b3cf047382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 046/117] fix: slices and default points of curves in radians
 are evaluated at their angles

---
 hrosailing/polardiagram/_polardiagramcurve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 351ac05..e535ed4 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -73,7 +73,8 @@ class PolarDiagramCurve(PolarDiagram):
         wa = np.linspace(5, 355, 144)
         ws, wa = np.meshgrid(ws, wa)
         ws, wa = ws.ravel(), wa.ravel()
-        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, wa)])
+        angles = np.deg2rad(wa) if self.radians else wa
+        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, angles)])
         return np.column_stack([ws, wa, bsp])
 
     def get_slices(
@@ -108,8 +109,9 @@ class PolarDiagramCurve(PolarDiagram):
         `PolarDiagram.ws_to_slices`
         """
         wa_ls = np.linspace(0, 360, wa_resolution)
+        angles = np.deg2rad(wa_ls) if self.radians else wa_ls
         return [
-            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, wa_ls)])
+            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, angles)])
             for ws_ in ws
         ]
 
-- 
2.43.0


From eb3570b8ea840eb2dcdc75d30e5aa0bf4c721f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 047/117] fix: symmetrizing a curve in radians mirrors the
 angle in radians

---
 hrosailing/polardiagram/_polardiagramcurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index e535ed4..81b7b9f 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -208,9 +208,11 @@ class PolarDiagramCurve(PolarDiagram):
         by mirroring it at the 0° - 180° axis and returning a new instance.
         """
 
+        full_circle = 2 * np.pi if self.radians else 360
+
         def sym_func(ws, wa, *params):
             y = self._f(ws, wa, *params)
-            y_symm = self._f(ws, (360 - wa), *params)
+            y_symm = self._f(ws, (full_circle - wa), *params)
             return 0.5 * (y + y_symm)
 
         return PolarDiagramCurve(
-- 
2.43.0


From 9c5454c5a97e2e28ab028f0d6b36995dc790d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 048/117] fix: sails and diagrams of a multi sail diagram are
 read only

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b48504c..b8d68bc 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -63,11 +63,11 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @property
     def sails(self):
-        return self._sails
+        return list(self._sails)
 
     @property
     def diagrams(self):
-        return self._diagrams
+        return list(self._diagrams)
 
     def __getitem__(self, item) -> PolarDiagramTable:
         """"""
-- 
2.43.0


From 6803947eea4b8594f8699bfad6af0dfeefb0dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 049/117] fix: multi sail diagrams can be saved under any
 directory and path object

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b8d68bc..810d994 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -1,6 +1,7 @@
 # pylint: disable=missing-module-docstring
 
 import csv
+import os
 
 import numpy as np
 
@@ -189,8 +190,9 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @staticmethod
     def _get_sub_csv_path(path, i):
-        path = "_".join([path.split(".")[0], "sail", str(i)])
-        return f"{path}.csv"
+        directory, name = os.path.split(os.fspath(path))
+        name = "_".join([name.split(".")[0], "sail", str(i)])
+        return os.path.join(directory, f"{name}.csv")
 
     @classmethod
     def __from_csv__(cls, file):
-- 
2.43.0


From 9c52d8e58205d91d6155dac0dad88fa685266550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 050/117] fix: an empty point cloud can be read back from its
 csv file

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 36d0f95..d290dd8 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -268,7 +268,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         csv_reader = csv.reader(file, delimiter=",")
         next(csv_reader)
         points = [[literal_eval(point) for point in row] for row in csv_reader]
-        points = np.array(points)
+        points = np.array(points).reshape(-1, 3)
 
         return PolarDiagramPointcloud(points)
 
-- 
2.43.0


From 4dcf867499da6e236e8e79972c0f6d8d0188a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 051/117] fix: symmetrizing an empty point cloud gives a new
 point cloud

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index d290dd8..9ed5c41 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -284,7 +284,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         that might overwrite or live alongside old points.
         """
         if not self.points.size:
-            return self
+            return PolarDiagramPointcloud(self.points)
 
         below_180 = [wa for wa in self.wind_angles if wa <= 180]
         above_180 = [wa for wa in self.wind_angles if wa > 180]
-- 
2.43.0


From fda6c72981e4259792fb24644f8c24243a72afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 052/117] fix: convex direction returns the fastest course that
 heads into the direction

---
 hrosailing/cruising/basics.py | 81 +++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index eb5d2f6..4a17da1 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -96,57 +96,62 @@ def convex_direction(
         direction. For example, this could be the case, if the polar diagram
         only has data for angles between 0 and 180 degrees.
     """
-    labels, slices, info = pd.get_slices(ws, full_info=True)
+    course, _ = _convex_course(pd, ws, direction, im, influence_data)
+    return course
+
+
+def _convex_course(pd, ws, direction, im, influence_data):
+    """Computes the course as described in `convex_direction` together with
+    the resulting speed in the given direction."""
+    _, slices, info = pd.get_slices(ws, full_info=True)
     ws, wa, bsp = slices[0]
     if im:
         bsp = im.add_influence(pd, influence_data)
     bsp = np.array(bsp).ravel()
-    wa = np.deg2rad(np.array(wa).ravel())
+    wa = np.array(wa).ravel()
+    sails = info[0] if info else [None] * len(wa)
+    direction = direction % 360
+
+    order = np.argsort(wa, kind="stable")
+    wa, bsp, sails = wa[order], bsp[order], [sails[i] for i in order]
 
     polar_pts = np.column_stack(
-        (bsp * np.cos(wa).ravel(), bsp * np.sin(wa).ravel())
+        (bsp * np.cos(np.deg2rad(wa)), bsp * np.sin(np.deg2rad(wa)))
     )
-    conv = ConvexHull(polar_pts)
-    vert = sorted(conv.vertices)
-
-    wa = np.rad2deg(wa)
-
-    for left, right in zip(vert, vert[1:]):
-        if wa[left] <= direction <= wa[right]:
-            i1, i2 = left, right
-            edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
+    # the origin cuts off inner edges of polar diagrams which do not cover
+    # the whole circle
+    conv = ConvexHull(np.row_stack([polar_pts, np.zeros(2)]))
+    vert = sorted(i for i in conv.vertices if i < len(wa) and bsp[i] > 0)
+
+    for i in vert:
+        if wa[i] % 360 == direction:
+            return [Direction(wa[i], 1, sails[i])], bsp[i]
+
+    # the last edge is the one containing the angle 0
+    for i1, i2 in zip(vert, vert[1:] + vert[:1]):
+        size = (wa[i2] - wa[i1]) % 360
+        if 0 < (direction - wa[i1]) % 360 < size < 180:
             break
     else:
-        i1, i2 = vert[0], vert[-1]
-        if abs(wa[i1] - wa[i2]) < 180:
-            raise ValueError(
-                "The given direction is not supported by the given"
-                " polar_diagram."
-            )
-        edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
-
-    if info:
-        edge[0].sail = info[0][i1]
-        edge[1].sail = info[0][i2]
-
-    if edge[0] == direction:
-        return [edge[0]]
+        raise ValueError(
+            "The given direction is not supported by the given polar_diagram."
+        )
 
-    if edge[1] == direction:
-        return [edge[1]]
+    lambda_ = _get_first_proportion(polar_pts[i1], polar_pts[i2], direction)
+    speed = np.linalg.norm(
+        lambda_ * polar_pts[i1] + (1 - lambda_) * polar_pts[i2]
+    )
 
     # direction lies on a common edge of polar diagram and convex hull
-    if abs(i1 - i2) == 1 and edge[0].sail == edge[1].sail:
-        return [edge[0]]
+    if i2 - i1 == 1 and sails[i1] == sails[i2]:
+        return [Direction(direction, 1, sails[i1])], speed
 
-    lambda_ = _get_first_proportion(
-        conv.points[i1], conv.points[i2], direction
-    )
-    if lambda_ > 1 or lambda_ < 0:
-        lambda_ = (direction + 360 - wa[i2]) / (wa[i1] + 360 - wa[i2])
-    edge[0].proportion = lambda_
-    edge[1].proportion = 1 - lambda_
-    return edge
+    course = [
+        Direction(wa[i1], lambda_, sails[i1]),
+        Direction(wa[i2], 1 - lambda_, sails[i2]),
+    ]
+    # directions are ordered by their angle
+    return sorted(course, key=lambda d: d.angle), speed
 
 
 def _get_first_proportion(point1, point2, direction):
-- 
2.43.0


From ede5249a17f9fca0831d8db95eb1735af4eacd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 053/117] fix: convex direction passes the wind of the slice to
 the influence model

---
 hrosailing/cruising/basics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 4a17da1..179df42 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -106,7 +106,13 @@ def _convex_course(pd, ws, direction, im, influence_data):
     _, slices, info = pd.get_slices(ws, full_info=True)
     ws, wa, bsp = slices[0]
     if im:
-        bsp = im.add_influence(pd, influence_data)
+        # the influence model gets a record for each point of the slice
+        data = {
+            key: val if isinstance(val, (list, np.ndarray)) else [val] * len(wa)
+            for key, val in (influence_data or {}).items()
+        }
+        data["TWS"], data["TWA"] = list(ws), list(wa)
+        bsp = im.add_influence(pd, data)
     bsp = np.array(bsp).ravel()
     wa = np.array(wa).ravel()
     sails = info[0] if info else [None] * len(wa)
-- 
2.43.0


From 782c27f118668ff261d2d8ca333405d8932c2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 054/117] fix: cruise uses the course and distance of the way
 and its speed made good

---
 hrosailing/cruising/basics.py | 58 ++++++++++++-----------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 179df42..b536a31 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -243,37 +243,12 @@ def cruise(
 
     ws, wdir = _wind_relative_to_north(wind, wind_fmt)
 
-    _, slices, _ = pd.get_slices(ws, full_info=True)
-    ws, wa, bsp = slices[0]
-    if im:
-        for key, val in influence_data.items():
-            influence_data[key] = [val] * len(wa)
-        influence_data["TWS"] = [ws] * len(wa)
-        influence_data["TWA"] = wa
-        bsp = im.add_influence(pd, influence_data)
-    bsp = np.array(bsp).ravel()
-
-    rhc = _right_handing_course(start, end)
-
-    heading = np.arccos(
-        np.cos(rhc) * np.cos(wdir) + np.sin(rhc) * np.sin(wdir)
-    )
-    heading = 180 - np.rad2deg(heading)
-    d1, *d2 = convex_direction(pd, ws, heading)
-
-    dist = _great_earth_ellipsoid_distance(start, end)
-
-    bsp1 = bsp[np.where(wa == d1.angle)[0]]
-    if not d2:
-        return [(d1.angle, float(dist / bsp1))]
+    heading = (_right_handing_course(start, end) - wdir) % 360
+    course, speed = _convex_course(pd, ws, heading, im, influence_data)
 
-    d2 = d2[0]
-    bsp2 = bsp[np.where(wa == d2.angle)[0]]
+    time = _great_earth_ellipsoid_distance(start, end) / speed
 
-    t = dist / (d1.proportion * bsp1 + d2.proportion * bsp2)
-    t1, t2 = d1.proportion * t, d2.proportion * t
-
-    return [(d1.angle, float(t1)), (d2.angle, float(t2))]
+    return [(d.angle, float(d.proportion * time)) for d in course]
 
 
 def cost_cruise(
@@ -535,16 +510,15 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
 
 def _right_handing_course(a, b):
     """Calculates course between two points on the surface of the earth
-    relative to true north.
+    relative to true north in degrees between 0 and 360.
     """
-    numerator = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
+    a, b = np.deg2rad(a), np.deg2rad(b)
+    north = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
         b[1]
     ) * np.sin(a[1])
-    denominator = np.cos(a[0] - b[0]) * np.cos(a[1]) * np.cos(b[1]) + np.sin(
-        a[1]
-    ) * np.cos(b[1])
+    east = np.sin(b[0] - a[0]) * np.cos(b[1])
 
-    return np.arccos(numerator / np.sqrt(1 - denominator**2))
+    return np.rad2deg(np.arctan2(east, north)) % 360
 
 
 def _wind_relative_to_north(wind, wind_fmt):
@@ -589,7 +563,8 @@ def _wind_relative_to_north(wind, wind_fmt):
     if wind_fmt == "uv_grd":
         wind = np.array(wind)
         u, v = wind
-        return np.linalg.norm(wind), 180 / np.pi * np.arctan2(v, u)
+        # the direction the wind is coming from
+        return np.linalg.norm(wind), np.rad2deg(np.arctan2(-u, -v)) % 360
 
     raise AttributeError(f"wind_fmt '{wind_fmt}' is not supported")
 
@@ -610,12 +585,14 @@ def _uvgrid_to_tw(ugrid, vgrid, hdt):
 
 EARTH_FLATTENING = 1 / 298.257223563
 EQUATOR_CIRCUMFERENCE = 40075.017
+KILOMETERS_PER_NAUTICAL_MILE = 1.852
 
 
 def _great_earth_ellipsoid_distance(a, b):
     """Calculates the distance on the surface for two points on the
-    earth surface.
+    earth surface in nautical miles.
     """
+    a, b = np.deg2rad(a), np.deg2rad(b)
     f = (a[1] + b[1]) / 2
     g = (a[1] - b[1]) / 2
     lat = (a[0] - b[0]) / 2
@@ -623,8 +600,11 @@ def _great_earth_ellipsoid_distance(a, b):
     s = (np.sin(g) * np.cos(lat)) ** 2 + (np.cos(f) * np.sin(lat)) ** 2
     c = (np.cos(g) * np.cos(lat)) ** 2 + (np.sin(f) * np.sin(lat)) ** 2
 
-    omega = np.deg2rad(np.arctan(np.sqrt(s / c)))
-    d = EQUATOR_CIRCUMFERENCE * omega / np.pi
+    if s == 0:
+        return 0.0
+
+    omega = np.arctan2(np.sqrt(s), np.sqrt(c))
+    d = EQUATOR_CIRCUMFERENCE / KILOMETERS_PER_NAUTICAL_MILE * omega / np.pi
 
     t = np.sqrt(s * c) / omega
     h_1 = (3 * t - 1) / (2 * c)
-- 
2.43.0


From f4bddca6645d77805bc935987d5dcdd5297c6d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 055/117] fix: isochrones and cost of cruises use the mercator
 projection of latitude and longitude

---
 hrosailing/cruising/basics.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index b536a31..a1c3995 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -334,7 +334,9 @@ def cost_cruise(
     proj_end = _mercator_proj(end, lat_mp)
     total_s = np.linalg.norm(proj_end - proj_start)
 
-    hdt = _right_handing_course(start, end)
+    # heading of the way relative to north
+    east, north = proj_end - proj_start
+    hdt = np.rad2deg(np.arctan2(east, north)) % 360
 
     # define derivative of t by s
     def dt_ds(s, t):
@@ -469,8 +471,8 @@ def _inverse_mercator_proj(pt, lat_mp):
     """
     Computes point from its mercator projection with reference point `lat_mp`.
     """
-    x, y = pt / 69
-    return x + lat_mp, 180 / np.pi * np.arcsin(np.tanh(y))
+    long, y = pt / _nautical_miles_per_degree(lat_mp)
+    return np.rad2deg(np.arctan(np.sinh(np.deg2rad(y)))), long
 
 
 def _mercator_proj(pt, lat_mp):
@@ -479,12 +481,16 @@ def _mercator_proj(pt, lat_mp):
     """
     lat, long = pt
 
-    # 69 nautical miles between two latitudes
-    return 69 * np.array(
-        [(lat - lat_mp), np.arcsinh(np.tan(np.pi * long / 180))]
+    return _nautical_miles_per_degree(lat_mp) * np.array(
+        [long, np.rad2deg(np.arcsinh(np.tan(np.deg2rad(lat))))]
     )
 
 
+def _nautical_miles_per_degree(lat):
+    """Length of a degree of longitude at the given latitude."""
+    return 60 * np.cos(np.deg2rad(lat))
+
+
 def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
     """"""
     lat, long = _inverse_mercator_proj(pos, lat_mp)
@@ -578,7 +584,8 @@ def _wind_relative_to_north(wind, wind_fmt):
 def _uvgrid_to_tw(ugrid, vgrid, hdt):
     """Calculates the true wind speed and wind angle from given grib data."""
     tws = np.sqrt(ugrid**2 + vgrid**2)
-    wa = (180 + 180 / np.pi * np.arctan2(vgrid, ugrid)) % 360
+    # the direction the wind is coming from
+    wa = np.rad2deg(np.arctan2(-ugrid, -vgrid)) % 360
     twa = (hdt - wa) % 360
     return tws, twa
 
-- 
2.43.0


From f45c19e55214eed1e78c21b373c27dc756e94dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 056/117] fix: a boat that does not move needs a lot of time
 instead of none

---
 hrosailing/cruising/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index a1c3995..23692a6 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -508,10 +508,10 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
         bsp = pd(tws, twa)
 
-    if bsp != 0:
+    if bsp > 0:
         return 1 / bsp
 
-    return 0
+    return 1000
 
 
 def _right_handing_course(a, b):
-- 
2.43.0


From 953d6465e7ec1d5278194aa65e6a4d3e378c2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 057/117] fix: isochrones and cost of cruises support the
 documented weather keys and keep the weather data

---
 hrosailing/cruising/basics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 23692a6..3afda94 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -499,13 +499,16 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         data = wm.get_weather((time, lat, long))
     except ValueError:
         return 1000  # maybe a better default?
-    data["HDT"] = hdt
+    data = {**data, "HDT": hdt}
     if im:
         data = {key: [val] for key, val in data.items()}
         bsp = im.add_influence(pd, data)[0]
     else:
-        ugrid, vgrid = data["UGRID"], data["VGRID"]
-        tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
+        if "TWS" in data and "TWA" in data:
+            tws, twa = data["TWS"], data["TWA"]
+        else:
+            ugrid, vgrid = data["UGRID"], data["VGRID"]
+            tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
         bsp = pd(tws, twa)
 
     if bsp > 0:
-- 
2.43.0


From a3f9f4284f57aa69d44782241ebf6de8033ee637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 058/117] fix: isochrones for no time end at the start

---
 hrosailing/cruising/basics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 3afda94..b462c3e 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -426,6 +426,11 @@ def isochrone(
     s : float
         The length of the way traveled from start to end.
     """
+    if total_time < 0:
+        raise ValueError("`total_time` must not be negative")
+    if total_time == 0:
+        return start, 0
+
     # estimate first sample points as equidistant points
 
     lat_mp = start[0]
-- 
2.43.0


From 6c85a48ec0f46afa41f43d3a88c335e94d9e1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 059/117] fix: convex direction compares angles modulo 360 up
 to rounding

---
 hrosailing/cruising/basics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index b462c3e..d3bac52 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -114,7 +114,7 @@ def _convex_course(pd, ws, direction, im, influence_data):
         data["TWS"], data["TWA"] = list(ws), list(wa)
         bsp = im.add_influence(pd, data)
     bsp = np.array(bsp).ravel()
-    wa = np.array(wa).ravel()
+    wa = np.array(wa).ravel() % 360
     sails = info[0] if info else [None] * len(wa)
     direction = direction % 360
 
@@ -130,13 +130,13 @@ def _convex_course(pd, ws, direction, im, influence_data):
     vert = sorted(i for i in conv.vertices if i < len(wa) and bsp[i] > 0)
 
     for i in vert:
-        if wa[i] % 360 == direction:
+        if np.isclose((direction - wa[i] + 180) % 360, 180, rtol=0, atol=1e-9):
             return [Direction(wa[i], 1, sails[i])], bsp[i]
 
     # the last edge is the one containing the angle 0
     for i1, i2 in zip(vert, vert[1:] + vert[:1]):
         size = (wa[i2] - wa[i1]) % 360
-        if 0 < (direction - wa[i1]) % 360 < size < 180:
+        if 0 < (direction - wa[i1]) % 360 < size < 180 - 1e-9:
             break
     else:
         raise ValueError(
-- 
2.43.0


From 7d44075febb7262e6d2d9b7018dadc21182d24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 060/117] fix: samplers accept any array_like as documented

---
 hrosailing/processing/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 86a3b32..90b2652 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -71,6 +71,7 @@ class UniformRandomSampler(Sampler):
         ----------
         `Sampler.sample`
         """
+        pts = np.asarray(pts)
         rng = np.random.default_rng()
         proj_pts = pts[:, :2]
         ineqs = ConvexHull(proj_pts).equations
@@ -140,6 +141,8 @@ class FibonacciSampler(Sampler):
         ----------
         `Sampler.sample`
         """
+        pts = np.asarray(pts)
+
         # calculate smallest circle containing pts
         midpoint, r = _make_circle(pts)
 
@@ -210,7 +213,9 @@ class ArchimedeanSampler(Sampler):
         `Sampler.sample`
         """
 
-        if len(pts) < 2:
+        pts = np.asarray(pts)
+
+        if len(pts) < 3:
             raise ValueError("`pts` needs to contain at least 3 points")
 
         # calculate enclosing circle
-- 
2.43.0


From 1489248b7a16d25a84a31032fe4ee9beb5aaee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 061/117] fix: no points have an empty membership mask

---
 hrosailing/processing/neighbourhood.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index 97f63ac..9b5bc09 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -99,7 +99,9 @@ class Ball(Neighbourhood):
         try:
             return self._norm(pts) <= self._radius
         except (ValueError, IndexError):
-            return np.asarray([self._norm(pt) <= self._radius for pt in pts])
+            return np.asarray(
+                [self._norm(pt) <= self._radius for pt in pts], dtype=bool
+            )
 
 
 class ScalingBall(Neighbourhood):
@@ -169,7 +171,7 @@ class ScalingBall(Neighbourhood):
         pts = np.asarray(pts)
 
         if len(pts) == 0:
-            return True
+            return np.zeros(0, dtype=bool)
 
         dist = self._norm(pts)
         self._radius = sorted(dist)[self._min_pts - 1]
@@ -260,7 +262,7 @@ class Ellipsoid(Neighbourhood):
         pts = np.asarray(pts)
 
         if len(pts) == 0:
-            return True
+            return np.zeros(0, dtype=bool)
 
         pts = self._transform_ellipsoid_to_ball(pts)
 
@@ -323,7 +325,7 @@ class Cuboid(Neighbourhood):
         pts = np.atleast_2d(np.asarray(pts))
 
         if pts.shape[1] == 0:
-            return True
+            return np.zeros(0, dtype=bool)
 
         mask = (
             np.ones((pts.shape[0],), dtype=bool)
@@ -403,7 +405,7 @@ class Polytope(Neighbourhood):
         pts = np.asarray(pts)
 
         if len(pts) == 0:
-            return True
+            return np.zeros(0, dtype=bool)
 
         mask = np.ones((pts.shape[0],), dtype=bool)
         for ineq, bound in zip(self._mat, self._b):
-- 
2.43.0


From 3fda47654f28cb22294ced9e6534f259be18ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 062/117] fix: scaling ball contains all points when there are
 fewer than min_pts

---
 hrosailing/processing/neighbourhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index 9b5bc09..a350696 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -174,7 +174,7 @@ class ScalingBall(Neighbourhood):
             return np.zeros(0, dtype=bool)
 
         dist = self._norm(pts)
-        self._radius = sorted(dist)[self._min_pts - 1]
+        self._radius = sorted(dist)[min(self._min_pts, len(dist)) - 1]
 
         return dist <= self._radius
 
-- 
2.43.0


From 584e13da7e0a80c0be3d7354083044017a16a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 063/117] fix: neighbourhoods keep their own copy of the
 parameters

---
 hrosailing/processing/neighbourhood.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index a350696..aad76fa 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -299,7 +299,7 @@ class Cuboid(Neighbourhood):
         dimensions=(0.05, 0.05),
     ):
         self._norm = norm
-        self._size = dimensions
+        self._size = tuple(dimensions)
 
     def __repr__(self):
         return f"Cuboid(norm={self._norm.__name__}, attributes={self._size})"
@@ -369,8 +369,8 @@ class Polytope(Neighbourhood):
         self, mat=np.row_stack((np.eye(2), -np.eye(2))), b=0.05 * np.ones(4)
     ):
         # NaN's or infinite values can't be handled
-        mat = np.asarray_chkfinite(mat)
-        b = np.asarray_chkfinite(b)
+        mat = np.array(np.asarray_chkfinite(mat))
+        b = np.array(np.asarray_chkfinite(b))
 
         if mat.ndim != 2 or mat.shape[1] != 2:
             raise ValueError("`mat` has incorrect shape")
-- 
2.43.0


From 4694cea4de544e025df12482f6a8f9cfb349014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 064/117] fix: inverse distance weights do not overflow

---
 hrosailing/processing/interpolator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index ecdd25d..e2ae03e 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -128,7 +128,9 @@ class IDWInterpolator(Interpolator):
             mask = wts == 0
             return pts[mask][0, 2]
 
-        wts = 1 / np.power(wts, self._p)
+        # relative to the smallest distance, so that no weight over- or
+        # underflows
+        wts = np.power(np.min(wts) / wts, self._p)
         wts /= np.sum(wts)
 
         return wts @ pts[:, 2]
-- 
2.43.0


From d22fd7b17d8b949a570c005421c68aba0756ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 065/117] fix: arithmetic mean interpolation far away from all
 points

---
 hrosailing/processing/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index e2ae03e..a38cf75 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -138,7 +138,10 @@ class IDWInterpolator(Interpolator):
 
 def _gauss_potential(distances, weights, *params):
     alpha = params[0]
-    return np.exp(-alpha * weights * distances)
+    exponents = -alpha * weights * distances
+    # only the ratios of the weights matter, shifting the exponents prevents
+    # that all of them vanish
+    return np.exp(exponents - np.max(exponents))
 
 
 class ArithmeticMeanInterpolator(Interpolator):
-- 
2.43.0


From ee93f52acc11703b3076daf98862a084b9c8db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 066/117] fix: improved inverse distance weights of equally
 distant points

---
 hrosailing/processing/interpolator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index a38cf75..dfba591 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -444,6 +444,10 @@ def _set_weights(pts, dist):
         elif r / 3 < d <= r:
             wts[i] = 27 / (4 * r) * np.square(d / r - 1)
 
+    if not np.any(wts):
+        # all points are equally far away
+        wts[:] = 1
+
     return wts
 
 
-- 
2.43.0


From 4d20a428103cc2504768ffd337e234c4e016a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 067/117] fix: direction weights of Shepard's interpolation use
 both coordinates

---
 hrosailing/processing/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index dfba591..ce45fc8 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -459,7 +459,7 @@ def _include_direction(pts, grid_pt, dist, wts):
         cosine = (grid_pt[0] - pt[0]) * (
             grid_pt[0] - np.delete(pts, i, axis=0)[:, 0]
         ) + (grid_pt[1] - pt[1]) * (
-            grid_pt[1] - np.delete(pts, i, axis=0)[:, 0]
+            grid_pt[1] - np.delete(pts, i, axis=0)[:, 1]
         )
         cosine /= dist[i] * np.delete(dist, i)
         t[i] = np.sum(np.delete(wts, i) * (1 - cosine))
-- 
2.43.0


From dc494a6716e09741d7522f686a1879433ff5ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 068/117] fix: slopes of Shepard's interpolation are taken in
 the wind plane and may vanish

---
 hrosailing/processing/interpolator.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index ce45fc8..70bb77f 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -475,10 +475,18 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
 
     for i, pt in enumerate(pts):
         pts_i = np.delete(pts, i, axis=0)
-        mask = nhood.is_contained_in(pts_i - pt)
+        mask = nhood.is_contained_in(pts_i[:, :2] - pt[:2])
         pts_i = pts_i[mask]
-        dist_i = norm(pts_i - pt)
+        dist_i = norm(pts_i[:, :2] - pt[:2])
         wts_i = np.delete(wts, i)[mask]
+
+        # points at the same position don't determine a slope
+        pts_i, wts_i, dist_i = (
+            arr[dist_i > 0] for arr in (pts_i, wts_i, dist_i)
+        )
+        if not np.any(wts_i):
+            continue
+
         xderiv[i] = np.sum(
             wts_i
             * (pts_i[:, 2] - pt[2])
@@ -494,10 +502,12 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         )
         yderiv[i] /= np.sum(wts_i)
 
+    max_deriv = np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+    if max_deriv == 0:
+        return np.zeros(pts.shape[0])
+
     dim_of_dist = (
-        slope
-        * (np.max(pts[:, 2]) - np.min(pts[:, 2]))
-        / np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+        slope * (np.max(pts[:, 2]) - np.min(pts[:, 2])) / max_deriv
     )
 
     return (
-- 
2.43.0


From af0b124c82d7002457638b94acdf9511de2c943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 069/117] fix: influence is added alike for values, lists and
 arrays

---
 hrosailing/models/influencemodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index d0d07ff..79f5f1d 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -121,7 +121,7 @@ class IdentityInfluenceModel(InfluenceModel):
         --------
         `InfluenceModel.add_influence`
         """
-        if isinstance(influence_data["TWS"], list):
+        if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
             speed = [pd(ws, wa) for ws, wa in wind]
         else:
@@ -192,7 +192,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = pd(ws, (wa + self._wa_shift) % 360)
         return speed
 
     def fit(self, training_data):
-- 
2.43.0


From f666bec5cf80edc987f323bd06317cc8cf82f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 070/117] fix: influence removal yields one row per data point
 for arrays and values

---
 hrosailing/models/influencemodel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 79f5f1d..c2832f8 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -230,10 +230,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-        if isinstance(data["TWS"], list):
-            return data_dict_to_numpy(data, ["TWS", "TWA", speed])
-
-        return np.array([data["TWS"], data["TWA"], data[speed]])
+        return data_dict_to_numpy(data, ["TWS", "TWA", speed])
 
     if "AWA" in data and "AWS" in data:
         apparent_data = data_dict_to_numpy(data, ["AWS", "AWA", speed])
-- 
2.43.0


From 266e94e1a2e2c5a8f5d16ad03b2c0375f5cc8299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 071/117] fix: wind angle densities wrap around at 360 degrees

---
 hrosailing/models/influencemodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index c2832f8..d3194ca 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -216,7 +216,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             sum(
                 other_ws
                 * np.exp(
-                    -(((abs(wa - other_wa) % 360) / self._interval_size) ** 2)
+                    -((_angle_between(wa, other_wa) / self._interval_size) ** 2)
                 )
                 for other_wa, other_ws in zip(wind_angles, wind_speeds)
             )
@@ -227,6 +227,11 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         self.set_statistics(wa_shift=min_angle)
 
 
+def _angle_between(angle, other_angle):
+    difference = abs(angle - other_angle) % 360
+    return min(difference, 360 - difference)
+
+
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-- 
2.43.0


From 4fe594a5f400a035662730098a21fda91dae3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 072/117] fix: default initial values only for the parameters
 of the model function

---
 hrosailing/processing/regressor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 8964949..997205f 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -184,7 +184,8 @@ class LeastSquareRegressor(Regressor):
         if init_vals is None and len(args) < 3:
             init_vals = _determine_params(fitting_func)
         elif init_vals is None:
-            init_vals = tuple(1 for _ in range(len(args)))
+            # all arguments but the wind speed and wind angle are parameters
+            init_vals = tuple(1 for _ in range(len(args) - 2))
 
         self._fitting_func = fitting_func
         self._init_vals = init_vals
-- 
2.43.0


From 70485e7cbbd9486291b0d5eaaa84a48093bea669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 073/117] fix: regressors accept any array_like as documented

---
 hrosailing/processing/regressor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 997205f..b77c03e 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -123,6 +123,7 @@ class ODRegressor(Regressor):
         --------
         [ODRPACK](https://docs.scipy.org/doc/external/odrpack_guide.pdf), `Regressor.fit`
         """
+        data = np.asarray(data)
         if data.shape[1] != 3:
             raise ValueError("`data` has to be of shape (n, 3).")
         if data.shape[0] == 0:
@@ -228,6 +229,7 @@ class LeastSquareRegressor(Regressor):
         [curve_fit](https://docs.scipy.org/doc/scipy/reference/generated/\
         scipy.optimize.curve_fit.html), `Regressor.fit`
         """
+        data = np.asarray(data)
         X, y = data[:, :2], data[:, 2]
 
         self._popt = self._get_optimal_parameters(X, y)
-- 
2.43.0


From 2d7be1da505ab243eb02c19766d4f9cb3a81e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 074/117] fix: minimal quality assurance of empty test data

---
 hrosailing/pipeline/quality_assurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index 63caced..c8da885 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -64,8 +64,8 @@ class MinimalQualityAssurance(QualityAssurance):
         """
         diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
         statistics = {
-            "max_error": max(diffs),
-            "min_error": min(diffs),
+            "max_error": safe_operation(max, diffs),
+            "min_error": safe_operation(min, diffs),
             "average_error": np.mean(diffs),
             "average_quadratic_error": np.mean([diff**2 for diff in diffs]),
         }
-- 
2.43.0


From e2e93956fc4e4ca8a132c983f2647f2e57e0a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 075/117] fix: ws_s_wa_gauss models its documented formula

---
 hrosailing/core/modelfunctions/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/modelfunctions/__init__.py b/hrosailing/core/modelfunctions/__init__.py
index 4331cab..69b4db3 100644
--- a/hrosailing/core/modelfunctions/__init__.py
+++ b/hrosailing/core/modelfunctions/__init__.py
@@ -141,9 +141,9 @@ def ws_s_wa_gauss(ws, wa, *params):
     wa = np.asarray(wa)
 
     return (
-        s_shaped(ws, *params[0:4])
-        + gaussian_model(wa, *params[4:8])
-        + gaussian_model(360 - wa, *params[8:12])
+        s_shaped(ws, params[0], params[1], params[2], downturn=False)
+        + gaussian_model(wa, params[3], params[4], params[5])
+        + gaussian_model(360 - wa, params[6], params[7], params[8])
     )
 
 
-- 
2.43.0


From 6f91e5c0f69b66cf0e703eca1c8ca266bbf3ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 076/117] fix: scalar weights for points given as Data

---
 hrosailing/core/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index b088a22..37e1fff 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -630,6 +630,8 @@ class WeightedPoints:
         if isinstance(weights, (float, int)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
+            elif isinstance(data, Data):
+                length = data.n_rows
             else:
                 length = len(data)
             self.weights = weights * np.ones(length)
-- 
2.43.0


From 4476eccd438dfaf9accb2417c8faeb0232a3e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 077/117] fix: keep the sail labels with their points when
 sorting a plotted slice by angle

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70b3afe..490945f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -456,7 +456,10 @@ def _plot(
         return
 
     for slice_, info_ in safe_zip(slices, info):
-        slice_ = slice_[:, np.argsort(slice_[1])]
+        order = np.argsort(slice_[1])
+        slice_ = slice_[:, order]
+        if info_ is not None:
+            info_ = [info_[i] for i in order]
         if use_convex_hull:
             ws, wa, bsp, info_ = _get_convex_hull(slice_, info_)
         else:
-- 
2.43.0


From 97108c762eb583d67a2bfd29a06e7569f08e3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 078/117] fix: color gradients of equal values

---
 hrosailing/plotting/projections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 490945f..f0470dc 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -741,6 +741,9 @@ def _get_gradient_coefficients(gradient):
     min_gradient = gradient.min()
     max_gradient = gradient.max()
 
+    if min_gradient == max_gradient:
+        return [0.0] * len(gradient)
+
     return [
         (grad - min_gradient) / (max_gradient - min_gradient)
         for grad in gradient
-- 
2.43.0


From ee9bfe0aec8ad152dc37bdce02e350d9f763fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 079/117] fix: plot all slices in one color given as floats,
 and with a legend

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index f0470dc..00dee63 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -693,7 +693,7 @@ def _only_one_color(colors):
         return is_color_like(colors)
 
     if isinstance(colors, tuple) and len(colors) in {3, 4}:
-        if isinstance(colors[0], int):
+        if isinstance(colors[0], (int, float)):
             return is_color_like(colors)
 
     return False
@@ -760,6 +760,9 @@ def _determine_colors_from_coefficients(coefficients, colors):
 
 
 def _configure_legend(ax, ws, colors, label, **legend_kw):
+    if _only_one_color(colors):
+        colors = [colors] * len(ws)
+
     if _plot_with_color_gradient(ws, colors):
         _set_colormap(ws, colors, ax, label, **legend_kw)
         return
-- 
2.43.0


From c1c6c983559396f2e97611708a28e4220fba662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 080/117] fix: place where the plotted convex hull crosses 0
 degrees

---
 hrosailing/plotting/projections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 00dee63..cc6662d 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -546,8 +546,8 @@ def _get_convex_hull(slice_, info_):
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
     lamb = x0 / (x0 - x1)
-    approx_ws = lamb * slice_[0, 0] + (1 - lamb) * slice_[0, -1]
-    approx_bsp = lamb * y0 + (1 - lamb) * y1
+    approx_ws = (1 - lamb) * slice_[0, 0] + lamb * slice_[0, -1]
+    approx_bsp = (1 - lamb) * y0 + lamb * y1
 
     slice_ = np.column_stack(
         [[approx_ws, 0, approx_bsp], slice_, [approx_ws, 360, approx_bsp]]
-- 
2.43.0


From e3bef470c51de5729c0cab9c91b8ca9aac7c1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 081/117] fix: color gradient and 3d plots in a single color

---
 hrosailing/plotting/projections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index cc6662d..77bbf08 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -729,6 +729,8 @@ def _set_color_gradient(ax, labels, colors):
 
 
 def _determine_color_gradient(colors, gradient):
+    if _only_one_color(colors):
+        colors = [colors, colors]
     gradient_coeffs = _get_gradient_coefficients(gradient)
     color_gradient = _determine_colors_from_coefficients(
         gradient_coeffs, colors
@@ -828,4 +830,6 @@ def _remove_3d_tick_labels_for_polar_coordinates(ax):
 
 
 def _create_color_map(colors):
+    if _only_one_color(colors):
+        colors = [colors, colors]
     return LinearSegmentedColormap.from_list("cmap", list(colors))
-- 
2.43.0


From 62ed6fccdd37577abe60ad476b69811ab64b5b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 082/117] fix: slices of numpy scalars and of iterables which
 are no sequences

---
 hrosailing/polardiagram/_basepolardiagram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index 81f82d6..216b071 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -100,9 +100,10 @@ class PolarDiagram(ABC):
     def _get_windspeeds(self, ws, n_steps):
         if ws is None:
             ws = self.default_slices
-        if isinstance(ws, (int, float)):
+        if isinstance(ws, (int, float, np.integer, np.floating)):
             return [ws]
         try:
+            ws = list(ws)
             all_numbers = all(
                 isinstance(ws_, (int, float, np.integer, np.floating))
                 for ws_ in ws
-- 
2.43.0


From f65b7b8f7b13ddeee0c596ed556c26429d853b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 083/117] fix: latitude of points that leave the unit sphere by
 rounding

---
 hrosailing/models/globe_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 939f589..c65d7b3 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -316,7 +316,9 @@ def _on_ball(pts):
 
 def _on_lat_lon(pts):
     x, y, z = pts.transpose()
-    latlon = np.column_stack([np.arcsin(z), np.arctan2(y, x)])
+    latlon = np.column_stack(
+        [np.arctan2(z, np.hypot(x, y)), np.arctan2(y, x)]
+    )
     return np.rad2deg(latlon)
 
 
-- 
2.43.0


From d5be8c44ede515deaf0f1f2c89d9dde940437969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 084/117] fix: distances of equal, opposite and close positions
 on the sphere

---
 hrosailing/models/globe_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index c65d7b3..9fe3ac9 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -326,6 +326,4 @@ def _angle(pt1, pt2):
     """Computes angles in radians between points."""
     pt1 = pt1.ravel()
     pt2 = pt2.ravel()
-    return np.arccos(
-        np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
-    )
+    return np.arctan2(np.linalg.norm(np.cross(pt1, pt2)), np.dot(pt1, pt2))
-- 
2.43.0


From eb6309f2c148ce792f7ee43e2ba8715a49cfc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 085/117] fix: shortest paths between equal and opposite
 positions on the sphere

---
 hrosailing/models/globe_model.py | 35 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 9fe3ac9..0f67a07 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -278,26 +278,12 @@ class SphericalGlobe(GlobeModel):
         ---------
         `GlobeModel.shortest_projected_path`
         """
-        start, end = _ensure_2d(start, end)
-        angle = _angle(start, end)
-
-        angles = np.linspace(0, angle, res)
+        start, end = np.ravel(start), np.ravel(end)
+        angles = np.linspace(0, _angle(start, end), res).reshape(-1, 1)
 
-        # (1,0) -> (1, 0) -> (1,0,0) -> start, (cos(angle), sin(angle)) -> (0,1) -> (0,1,0) -> end
-        proj1 = np.linalg.inv(
-            np.array([[1, np.cos(angle)], [0, np.sin(angle)]])
+        return np.cos(angles) * start + np.sin(angles) * _orthogonal(
+            start, end
         )
-        proj2 = np.transpose(np.array([[1, 0, 0], [0, 1, 0]]))
-        proj3 = np.transpose(np.row_stack([start, end, np.array([0, 0, 1])]))
-        proj = proj3 @ proj2 @ proj1
-
-        # # start -> (1,0,0) -> (1, 0) -> (1, 0), end -> (0,1,0) -> (0,1) -> (cos(angle), sin(angle))
-        # inv_proj1 = np.linalg.inv(np.transpose(np.row_stack([start, end, np.array([0, 0, 1])])))
-        # inv_proj2 = np.transpose(np.array([[1, 0], [0, 1], [0, 0]]))
-        # inv_proj = np.linalg.inv(proj2)@inv_proj2@inv_proj1
-
-        flat_pts = np.array([[[np.cos(ang)], [np.sin(ang)]] for ang in angles])
-        return (proj @ flat_pts).reshape((len(flat_pts), 3))
 
 
 def _ensure_2d(*args):
@@ -327,3 +313,16 @@ def _angle(pt1, pt2):
     pt1 = pt1.ravel()
     pt2 = pt2.ravel()
     return np.arctan2(np.linalg.norm(np.cross(pt1, pt2)), np.dot(pt1, pt2))
+
+
+def _orthogonal(pt1, pt2):
+    """
+    Computes the vector orthogonal to and as long as `pt1` which lies in a
+    plane with `pt1` and `pt2` on the side of `pt2`.
+    """
+    normal = np.cross(pt1, pt2)
+    if not np.any(normal):
+        # any plane containing both points
+        normal = np.cross(pt1, np.eye(3)[np.argmin(np.abs(pt1))])
+    orthogonal = np.cross(normal, pt1)
+    return orthogonal / np.linalg.norm(orthogonal) * np.linalg.norm(pt1)
-- 
2.43.0


From 7e60338b03540915a6ce4d3d54ecf20aaa6a8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 086/117] fix: place where the plotted convex hull crosses 0
 degrees (rounding)

---
 hrosailing/plotting/projections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 77bbf08..e4b096d 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -546,8 +546,8 @@ def _get_convex_hull(slice_, info_):
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
     lamb = x0 / (x0 - x1)
-    approx_ws = (1 - lamb) * slice_[0, 0] + lamb * slice_[0, -1]
-    approx_bsp = (1 - lamb) * y0 + lamb * y1
+    approx_ws = slice_[0, 0] + lamb * (slice_[0, -1] - slice_[0, 0])
+    approx_bsp = y0 + lamb * (y1 - y0)
 
     slice_ = np.column_stack(
         [[approx_ws, 0, approx_bsp], slice_, [approx_ws, 360, approx_bsp]]
-- 
2.43.0


From d7764993c014340a3b418df60f6879a6a6f47d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 087/117] fix: slices of a Data object do not share its columns

---
 hrosailing/core/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 37e1fff..2ec28a2 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -514,7 +514,9 @@ class Data:
         """
 
         data = {
-            key: value for key, value in self._data.items() if key in slice_
+            key: list(value)
+            for key, value in self._data.items()
+            if key in slice_
         }
         types = {
             key: value for key, value in self._types.items() if key in slice_
-- 
2.43.0


From 82ce6a0cf705aa950b12508ff800ebcd1f2d8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 088/117] fix: the dictionary of columns of a Data object is
 read-only

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 2ec28a2..fefb8b8 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -76,7 +76,7 @@ class Data:
         """
         A 'read-only' version of the dictionary of columns.
         """
-        return self._data.copy()
+        return {key: list(column) for key, column in self._data.items()}
 
     def rows(self, keys=None, return_type=dict):
         """
-- 
2.43.0


From 3e0f598387c2622028a961438d3ae277bf8f6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 089/117] fix: changing returned statistics does not change
 those of the component

---
 hrosailing/core/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/statistics.py b/hrosailing/core/statistics.py
index ae6c5e3..69d256e 100644
--- a/hrosailing/core/statistics.py
+++ b/hrosailing/core/statistics.py
@@ -1,6 +1,7 @@
 """
 Functions for the handling of statistics.
 """
+from copy import deepcopy
 
 
 class ComponentWithStatistics:
@@ -25,4 +26,4 @@ class ComponentWithStatistics:
         statistics: dict
             The statistics of the latest run of the handler.
         """
-        return self._statistics
+        return deepcopy(self._statistics)
-- 
2.43.0


From a46033e3543798189139c3056dd819886e63acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 090/117] fix: gridded weather models keep their own times and
 attributes

---
 hrosailing/models/weather_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index f9a8c58..c4284b1 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -84,10 +84,10 @@ class GriddedWeatherModel(WeatherModel):
     """
 
     def __init__(self, data, times, lats, lons, attrs):
-        self._times = times
+        self._times = list(times)
         self._lats = np.array(lats)
         self._lons = np.array(lons)
-        self._attrs = attrs
+        self._attrs = list(attrs)
         self._data = np.array(data)
 
     @property
@@ -97,7 +97,7 @@ class GriddedWeatherModel(WeatherModel):
         a `numpy.ndarray` containing the latitudes and a `numpy.ndarray`
         containing the longitudes.
         """
-        return self._times, self._lats.copy(), self._lons.copy()
+        return list(self._times), self._lats.copy(), self._lons.copy()
 
     @property
     def data(self):
@@ -113,7 +113,7 @@ class GriddedWeatherModel(WeatherModel):
         The attributes of the weather model. Each attribute corresponds to
         a column of `self.data`.
         """
-        return self._attrs
+        return list(self._attrs)
 
     def get_weather(self, point):
         """Given a space-time point, uses the available weather model
-- 
2.43.0


From 00014f5635ac342b116d757b01d1859eb56192e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 091/117] fix: regressors keep their own initial values and
 parameters

---
 hrosailing/processing/regressor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index b77c03e..3d0d36c 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -83,7 +83,7 @@ class ODRegressor(Regressor):
 
         self._func = model_func
         self._model = Model(odr_model_func)
-        self._init_vals = init_values
+        self._init_vals = np.array(init_values)
         # self._weights_X = None
         # self._weights_y = None
         self._maxit = max_it
@@ -105,7 +105,7 @@ class ODRegressor(Regressor):
         See also
         ----------
         `Regressor.optimal_params`"""
-        return self._popt
+        return None if self._popt is None else self._popt.copy()
 
     def fit(self, data):
         """Fits the model function to the given data, i.e. calculates
@@ -189,7 +189,7 @@ class LeastSquareRegressor(Regressor):
             init_vals = tuple(1 for _ in range(len(args) - 2))
 
         self._fitting_func = fitting_func
-        self._init_vals = init_vals
+        self._init_vals = np.array(init_vals)
         self._popt = None
 
     @property
@@ -210,7 +210,7 @@ class LeastSquareRegressor(Regressor):
         ----------
         `Regressor.optimal_params`
         """
-        return self._popt
+        return None if self._popt is None else self._popt.copy()
 
     def fit(self, data):
         """Fits the model function to the given data, i.e. calculates
-- 
2.43.0


From e9f1f34f1e8d4c716ab7f94037b2d07536c2f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 092/117] fix: scaled norms keep their own scaling factors

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 44b2b13..f539c18 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -122,7 +122,7 @@ def scaled_norm(norm, scal_factors):
     ---------
     s_norm : `norm` scaled component-wise by `scal_factors`.
     """
-    scaled = np.asarray(scal_factors)
+    scaled = np.array(scal_factors)
 
     def s_norm(vec):
         return norm(scaled * vec)
-- 
2.43.0


From 4840711e4c759d8cb7eb4da363c357a73e2f6311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 093/117] fix: imputing does not change the given data

---
 hrosailing/processing/imputator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 80fe2c2..714375a 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,6 +53,7 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
+        data = data.get_slice(data.keys())
         n_rows = data.n_rows
         remove_rows = [
             idx
@@ -161,6 +162,7 @@ class FillLocalImputator(Imputator):
         `Imputator.impute`
         """
         self._n_filled = 0
+        data = data.get_slice(data.keys())
         n_removed_cols = data.n_cols
         data.strip("cols")
         n_removed_cols -= data.n_cols
-- 
2.43.0


From bc9bd75b9332286f458965f447156aeec4cd6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 094/117] fix: adding weather does not change the given data

---
 hrosailing/pipeline/expander.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index abd983c..f02612a 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -92,6 +92,7 @@ class WeatherExpander(Expander):
         --------
         `Expander.expand`
         """
+        data = data.get_slice(data.keys())
         weather_data = self._get_weather(data)
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
-- 
2.43.0


From 36a0460df673a61d4d09c4704249302da3889794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 095/117] fix: weighers keep their own list of attributes

---
 hrosailing/processing/weigher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 475373f..4cbe2ad 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -260,7 +260,7 @@ class CylindricMeanWeigher(Weigher):
         self._radius = radius
 
         self._norm = norm
-        self._dimensions = dimensions
+        self._dimensions = None if dimensions is None else list(dimensions)
 
     def __repr__(self):
         return (
@@ -398,7 +398,7 @@ class CylindricMemberWeigher(Weigher):
             self._norm = hrosailing_standard_scaled_euclidean_norm()
         else:
             self._norm = norm
-        self._dimensions = dimensions
+        self._dimensions = None if dimensions is None else list(dimensions)
 
     def __repr__(self):
         return (
@@ -501,7 +501,7 @@ class FluctuationWeigher(Weigher):
         else:
             self._timespan_before = timespan[0]
             self._timespan_after = timespan[1]
-        self._attributes = attributes
+        self._attributes = list(attributes)
         self._upper_bounds = np.array(upper_bounds)
 
     def weigh(self, points):
-- 
2.43.0


From 633e5d45465028b27314abb819dfa5193b828a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 096/117] fix: NMEA handlers keep their own list of sentences
 and attributes

---
 hrosailing/processing/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index f3b508d..fae30d2 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -243,10 +243,12 @@ class NMEAFileHandler(DataHandler):
     ):
         super().__init__()
         if wanted_sentences is not None:
+            wanted_sentences = tuple(wanted_sentences)
             self._sentence_filter = lambda line: any(
                 sentence in line for sentence in wanted_sentences
             )
         elif unwanted_sentences is not None:
+            unwanted_sentences = tuple(unwanted_sentences)
             self._sentence_filter = lambda line: all(
                 sentence not in line for sentence in unwanted_sentences
             )
@@ -265,6 +267,7 @@ class NMEAFileHandler(DataHandler):
                 field[0] == attribute for attribute in wanted_nmea_attributes
             )
         elif unwanted_attributes is not None:
+            unwanted_attributes = tuple(unwanted_attributes)
             self._attribute_filter = lambda field: all(
                 field[0] != attribute for attribute in unwanted_attributes
             )
-- 
2.43.0


From 63ad695d4ee6a11529bd41bc6b14f691669d21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 097/117] fix: columns selected by type are not shared with the
 Data object

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index fefb8b8..a77946e 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -132,7 +132,7 @@ class Data:
         filtered_keys = [
             key for key in self.keys() if self._types[key] == type_
         ]
-        return filtered_keys, [self._data[key] for key in filtered_keys]
+        return filtered_keys, [list(self._data[key]) for key in filtered_keys]
 
     def type(self, key):
         """
-- 
2.43.0


From d72e0d47df25fd43973c7f5fbd8df89be10903a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 098/117] fix: smoothing does not change the given data

---
 hrosailing/processing/smoother.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index bdb8a6f..fecec9a 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -96,6 +96,7 @@ class AffineSmoother(Smoother):
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
             )
+        data = data.get_slice(data.keys())
         for key in data.keys():
             if data.type(key) is float:
                 data = self._smooth_field(key, data)
-- 
2.43.0


From 1c81dbb64af836f93b5856a29d5d6cccf366fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 099/117] fix: keep subsecond times and time zones when saving
 gridded weather models

---
 hrosailing/models/weather_model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index c4284b1..9cf55c7 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -224,10 +224,17 @@ class GriddedWeatherModel(WeatherModel):
         """
         with open(path, "r", encoding="utf-8") as file:
             data, times, *rest = json.loads(file.read())
-            times = [datetime.strptime(t, "%d.%m.%Y:%X") for t in times]
+            times = [_read_time(t) for t in times]
             return cls(data, times, *rest)
 
 
+def _read_time(entry):
+    try:
+        return datetime.strptime(entry, "%d.%m.%Y:%X")
+    except ValueError:
+        return datetime.fromisoformat(entry)
+
+
 class _GriddedWeatherModelEncoder(json.JSONEncoder):
     def default(self, o):
         if isinstance(o, GriddedWeatherModel):
@@ -237,10 +244,8 @@ class _GriddedWeatherModelEncoder(json.JSONEncoder):
             return [data, times, lats, lons, attrs]
         if isinstance(o, np.ndarray):
             return o.tolist()
-        if installed_pandas and isinstance(o, pd.Timestamp):
-            return o.strftime("%d.%m.%Y:%X")
         if isinstance(o, datetime):
-            return o.strftime("%d.%m.%Y:%X")
+            return o.isoformat()
         raise TypeError(
             f"Object of type {type(o)} is not JSON serializable :("
         )
-- 
2.43.0


From 24aa0755194d4afffa532ad129295ec9a3ae3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 100/117] fix: keep fractional time steps of NetCDF weather
 data

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 9cf55c7..af5ccb4 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -404,7 +404,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             )
 
         times = [
-            starting_time + int(plain_time) * timestep
+            starting_time + float(plain_time) * timestep
             for plain_time in plain_times
         ]
 
-- 
2.43.0


From 673e3b4e3d3b1cf35a583d374caf629338f5282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 101/117] fix: read weather from meteostat, also if locations
 have no data

---
 hrosailing/models/weather_model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index af5ccb4..d4c558b 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -174,23 +174,25 @@ class GriddedWeatherModel(WeatherModel):
             )
 
         # fetch data
+        times = []
         lat_datas = []
         for lat in lats:
             lon_data = []
             for lon in lons:
                 loc = meteostat.Point(lat, lon, 0)
                 data = meteostat.Hourly(loc, start_time, end_time).fetch()
-                times = data.index.values
                 np_data = data[keys].to_numpy()
-                if np_data.shape[0] == 0:
-                    np_data = []
+                if np_data.shape[0] > 0:
+                    times = data.index.values
                 lon_data.append(np_data)
-            max_len = max(len(d) for d in lon_data)
-            lon_data = [
-                np.zeros((max_len, len(keys))) if d == [] else d
-                for d in lon_data
-            ]
-            lat_datas.append(np.stack(lon_data, axis=0))
+            lat_datas.append(lon_data)
+
+        # locations without any data
+        no_data = np.zeros((len(times), len(keys)))
+        lat_datas = [
+            np.stack([d if len(d) > 0 else no_data for d in lon_data], axis=0)
+            for lon_data in lat_datas
+        ]
 
         times = [pd.to_datetime(t) for t in times]
         data = np.stack(lat_datas, axis=0)
-- 
2.43.0


From 8704aadb94e19785e9203cf29622626aa833e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 102/117] fix: copy the dictionaries given to a NetCDF weather
 model

---
 hrosailing/models/weather_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index d4c558b..20c1cf1 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -362,8 +362,8 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             further_indices = {}
 
         self._dataset = nc.Dataset(path)
-        self._aliases = aliases
-        self._further_indices = further_indices
+        self._aliases = dict(aliases)
+        self._further_indices = dict(further_indices)
 
         lats = self._dataset[aliases["lat"]]
         lons = self._dataset[aliases["lon"]]
-- 
2.43.0


From 19f324e0c666a3bf2b1c0c4f38c88babed5388df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 103/117] fix: read NetCDF variables without dimensions

---
 hrosailing/models/weather_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 20c1cf1..e6b8f5f 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -460,7 +460,8 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             c.split("(")[1].strip(",)") if "(" in c else c.strip(",)")
             for c in dimensions
         ]
-        return dimensions
+        # variables without dimensions
+        return [c for c in dimensions if c]
 
 
 class MultiWeatherModel(WeatherModel):
-- 
2.43.0


From 7e8e9a4517961039eef3705400a9c113c380f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 104/117] fix: wide tables print the boat speeds of the wind
 speeds shown

---
 hrosailing/polardiagram/_polardiagramtable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 935c3ab..0660a50 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -229,12 +229,13 @@ class PolarDiagramTable(PolarDiagram):
         for i, wa in enumerate(self.wind_angles):
             table.append(f"{float(wa):.1f}".rjust(11))
 
+            shown_bsps = [*bsps[i][:5], *bsps[i][-5:]]
             for j, ws in enumerate(wind):
                 if j == 5:
                     table.append("  ...")
 
                 le = len(f"{float(ws):.1f}")
-                table.append(f"{bsps[i][j]:.2f}".rjust(4 + le))
+                table.append(f"{shown_bsps[j]:.2f}".rjust(4 + le))
 
             table.append("\n")
 
-- 
2.43.0


From 0fb3b6e147c362804ee6e9ede2f7d50f7b6a2769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 105/117] fix: headings on which the boat drifts backwards do
 not shape the fastest course

---
 hrosailing/cruising/basics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index d3bac52..9b3e31c 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -114,6 +114,8 @@ def _convex_course(pd, ws, direction, im, influence_data):
         data["TWS"], data["TWA"] = list(ws), list(wa)
         bsp = im.add_influence(pd, data)
     bsp = np.array(bsp).ravel()
+    # drifting backwards is no headway
+    bsp = np.maximum(bsp, 0)
     wa = np.array(wa).ravel() % 360
     sails = info[0] if info else [None] * len(wa)
     direction = direction % 360
-- 
2.43.0


From d737cfe620f1d0cd094554d31d3f0dbc39c7aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 106/117] fix: csv rows with more or fewer cells than the
 header shift no cells

---
 hrosailing/processing/datahandler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index fae30d2..15b4ba4 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -150,14 +150,21 @@ class CsvFileHandler(DataHandler):
         `DataHandler.handle`
         """
         if self.pand:
-            df = self.pd.read_csv(data)
+            # the first column is no index, even if rows end with a separator
+            df = self.pd.read_csv(data, index_col=False)
             data_dict = df.to_dict(orient="list")
         else:
             with open(data, "r", encoding="utf-8") as file:
                 csv_reader = csv.reader(file)
                 keys = next(csv_reader)
                 data_dict = {key: [] for key in keys}
+                if len(data_dict) < len(keys):
+                    raise ValueError("Column names are not unique")
                 for row in csv_reader:
+                    if not row:  # blank line
+                        continue
+                    # missing cells at the end of a row are empty
+                    row += [""] * (len(keys) - len(row))
                     for i, entry in enumerate(row):
                         data_dict[keys[i]].append(entry)
 
-- 
2.43.0


From a7aed22a47fdf51de1616a5aa8b289f95394436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 107/117] fix: csv columns read without pandas may mix integers
 and floats

---
 hrosailing/processing/datahandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 15b4ba4..fdb7f6a 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -187,7 +187,9 @@ class CsvFileHandler(DataHandler):
             return datetime.strptime(entry.strip(), self._date_format)
         except (ValueError, TypeError, AttributeError):
             try:
-                return literal_eval(entry)
+                value = literal_eval(entry)
+                # columns may contain integers besides floats
+                return float(value) if type(value) is int else value
             except SyntaxError as exc:
                 raise RuntimeError(
                     f"Could not parse '{entry}'. "
-- 
2.43.0


From 4bdf5d4b6c1bc4df846d171f17620d7db15c210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 108/117] fix: cost_cruise takes the shorter way around the
 earth

---
 hrosailing/cruising/basics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 9b3e31c..6ad9672 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -331,6 +331,11 @@ def cost_cruise(
     """
     # pylint: disable=too-many-locals
 
+    # the shorter way around the earth
+    if abs(end[1] - start[1]) > 180:
+        east = (end[1] - start[1] + 180) % 360 - 180
+        end = end[0], start[1] + east
+
     lat_mp = (start[0] + end[0]) / 2
     proj_start = _mercator_proj(start, lat_mp)
     proj_end = _mercator_proj(end, lat_mp)
-- 
2.43.0


From 9bd8436ad2d13a86c213c29b40f51444ed13bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:17 +0000
Subject: [PATCH 109/117] fix: weighted points of a dict keep the types of
 their values when masked

---
 hrosailing/core/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index a77946e..d536699 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -644,7 +644,8 @@ class WeightedPoints:
         if isinstance(self.data, dict):
             return WeightedPoints(
                 data={
-                    key: list(np.array(value)[mask])
+                    # an array of the values would change their types
+                    key: [value[i] for i in np.arange(len(value))[mask]]
                     for key, value in self.data.items()
                 },
                 weights=self.weights[mask],
-- 
2.43.0


From ad8bcb5655b22274fa9417ffd082dcaa76c630e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 110/117] fix: spiral samplers terminate for points that are
 close together

---
 hrosailing/processing/sampler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 90b2652..0476485 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -282,7 +282,10 @@ def _sample_generator(base_set, midpoint, ineqs):
 
 def _make_circle(pts, eps=0.0001):
     """"""
-    pts = pts.copy()
+    # relative to the position and the extent of the points
+    origin = np.mean(pts, axis=0)
+    pts = pts - origin
+    eps *= min(1, np.max(np.abs(pts))) or 1
     np.random.shuffle(pts)
     k = []  # list of necessary boundary points
     circle = _small_circle(pts[k])
@@ -309,7 +312,8 @@ def _make_circle(pts, eps=0.0001):
         circle = _small_circle(pts[k])
         i = 0
 
-    return circle
+    midpoint, r = circle
+    return midpoint + origin, r
 
 
 def _is_in_circle(p, circle, eps):
-- 
2.43.0


From 2e6060e5e962805505121d74817afc7d6e439c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:26 +0000
Subject: [PATCH 111/117] fix: local test data differences of negative boat
 speeds

---
 hrosailing/pipeline/quality_assurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index c8da885..736eac2 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -114,7 +114,7 @@ class ComformingQualityAssurance(QualityAssurance):
         for ws, wa, bsp in test_data:
             test_tuple = round(ws), round(wa)
             if test_tuple not in tested_tuples:
-                tested_tuples[test_tuple] = (np.inf, 0)
+                tested_tuples[test_tuple] = (np.inf, -np.inf)
             prev_min, prev_max = tested_tuples[test_tuple]
             tested_tuples[test_tuple] = min(bsp, prev_min), max(bsp, prev_max)
 
-- 
2.43.0


From 42aa5a7ce80dd33513ba06bcccbb37b095fc4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 112/117] fix: plotting no slices in several colours draws
 nothing

---
 hrosailing/plotting/projections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index e4b096d..a7e7823 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -677,6 +677,9 @@ def _check_plot_kw(plot_kw, lines=True):
 
 
 def _configure_colors(ax, labels, colors):
+    if len(labels) == 0:
+        return
+
     if _only_one_color(colors):
         ax.set_prop_cycle("color", [colors])
         return
-- 
2.43.0


From 2df16ea0b7f7f0e95047ef034b5c15a3eb32468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 113/117] fix: evaluating a curve leaves wind angles of any
 container alone

---
 hrosailing/polardiagram/_polardiagramcurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 81b7b9f..b8001f9 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -139,10 +139,10 @@ class PolarDiagramCurve(PolarDiagram):
 
         if self.radians:
             wa = np.rad2deg(wa)
-            wa %= 360
+            wa = wa % 360
             wa = np.deg2rad(wa)
         else:
-            wa %= 360
+            wa = wa % 360
 
         return self.curve(ws, wa, *self.parameters)
 
-- 
2.43.0


From 03999fc03302698f76df997e1d95edc5293d7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:40 +0000
Subject: [PATCH 114/117] fix: weighted points take any scalar weight for all
 points

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index d536699..eaea9df 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -629,7 +629,7 @@ class WeightedPoints:
 
     def __init__(self, data, weights):
         self.data = data
-        if isinstance(weights, (float, int)):
+        if isinstance(weights, (float, int, np.number)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
             elif isinstance(data, Data):
-- 
2.43.0


From d14723ec0ec86f99b920e57ba0ce83d102fd02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:21 +0000
Subject: [PATCH 115/117] fix: a column name made of separators only keeps its
 name

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index eaea9df..e2d1e04 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -387,7 +387,7 @@ class Data:
                 lkey = lkey.replace(sep, " ")
             lkey = lkey.strip()
             # remove plural
-            stripped_lkey = lkey if lkey[-1] != "s" else lkey[:-1]
+            stripped_lkey = lkey[:-1] if lkey.endswith("s") else lkey
             if lkey in KEYSYNONYMS:
                 return KEYSYNONYMS[lkey]
             if stripped_lkey in KEYSYNONYMS:
-- 
2.43.0


From e83c5aa2caef38b75660c4effd90196048a5dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:53 +0000
Subject: [PATCH 116/117] fix: model functions take wind speeds given as a list

---
 hrosailing/core/modelfunctions/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/core/modelfunctions/__init__.py b/hrosailing/core/modelfunctions/__init__.py
index 69b4db3..3ffc4b8 100644
--- a/hrosailing/core/modelfunctions/__init__.py
+++ b/hrosailing/core/modelfunctions/__init__.py
@@ -68,6 +68,7 @@ def ws_wa_s_dt(ws, wa, *params):
     + a_{13}x(360 - y)
 
     """
+    ws = np.asarray(ws)
     wa = np.asarray(wa)
 
     return (
@@ -92,6 +93,7 @@ def ws_s_dt_wa_gauss(ws, wa, *params):
     + a_7\\exp\\left(\\frac{-((360 - y) - a_8)^2}{2a_9}\\right)
 
     """
+    ws = np.asarray(ws)
     wa = np.asarray(wa)
 
     return (
@@ -114,6 +116,7 @@ def ws_s_s_dt_wa_gauss_comb(ws, wa, *params):
     + a_11x(360 - y)
 
     """
+    ws = np.asarray(ws)
     wa = np.asarray(wa)
 
     return (
@@ -138,6 +141,7 @@ def ws_s_wa_gauss(ws, wa, *params):
     + a_6\\exp\\left(\\frac{-((360 - y) - a_7)^2}{2a_8}\\right)
 
     """
+    ws = np.asarray(ws)
     wa = np.asarray(wa)
 
     return (
-- 
2.43.0


From 07f87c91eb19383d1972bbc034e453349d3d795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 117/117] fix: the window of a FluctuationWeigher holds the
 points of its time span only

---
 hrosailing/processing/weigher.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 4cbe2ad..c19d48a 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -529,18 +529,12 @@ class FluctuationWeigher(Weigher):
         weights = [1] * len(points)
 
         for curr_idx, (dt, pt) in enumerate(zip(times, points)):
-            start_idx = min(
-                i
-                for i in range(len(points))
-                if times[i] <= dt and dt - times[i] <= self._timespan_before
-            )
-            end_idx = max(
-                i
-                for i in range(len(points))
-                if dt <= times[i] and times[i] - dt <= self._timespan_after
-            )
+            in_window = [
+                -self._timespan_before <= time_ - dt <= self._timespan_after
+                for time_ in times
+            ]
             for col, ub in enumerate(upper_bounds):
-                curr_pts = points[start_idx : end_idx + 1, col]
+                curr_pts = points[in_window, col]
                 std = np.std(curr_pts)
                 if std > ub:
                     weights[curr_idx] = 0
-- 
2.43.0

