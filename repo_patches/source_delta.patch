From cf7d514f33844ed61339143c0ee4565b7d4f847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 01/97] fix: leave the time series untouched when an append is
 rejected

The timestamp of a rejected point was recorded as the previous one, and the time
zone and resolution of a rejected slot were set on the series. Later valid items
were then refused as duplicates or out of order, or got a wrong resolution.
---
 timeseria/datastructures.py | 151 +++++++++++++++++++-----------------
 1 file changed, 81 insertions(+), 70 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b21f9d..f46928c 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -639,6 +639,11 @@ class Series(list):
         else:
             return self[0].__class__
 
+    def _check_type(self, item):
+        """Check that an item is of the same type of the items already present in the series (if any)."""
+        if self.item_type and not isinstance(item, self.item_type):
+            raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(item.__class__.__name__, self.item_type.__name__))
+
     def append(self, item):
         """Append an item to the series. Accepts only items of the same
         type of the items already present in the series (unless empty)"""
@@ -646,10 +651,8 @@ class Series(list):
         # TODO: move to use the insert?
 
         # Check type
-        if self.item_type:
-            if not isinstance(item, self.item_type):
-                raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(item.__class__.__name__, self.item_type.__name__))
-        else:
+        self._check_type(item)
+        if not self.item_type:
             # First item appended to this series: check for compatible data type if any
             try:
                 item.data
@@ -1224,90 +1227,98 @@ class TimeSeries(Series):
         (or :obj:`TimePoint` and :obj:`TimeSlot`, which are useful in some particular circumstances) and in any case
         of the same type of the items already present in the time series, unless empty."""
 
+        # Check type first, as the checks below are different between points and slots
+        self._check_type(item)
+
         if isinstance(item, TimePoint):
 
-            try:
-                self.prev_t
-            except AttributeError:
-                pass
-            else:
-                # Check time ordering and handle the resolution.
+            # Check time ordering. Note: no state is changed until the item has been actually appended,
+            # so that if it is rejected (here or by the parent append) the series is left as it was.
+            prev_t = self._item_by_i(-1).t if len(self) > 0 else None
 
-                # The following if is to support the deepcopy, otherwise the original prev_t will be used
-                # TODO: maybe move the above to a "hasattr" plus an "and" instead of this logic?
-                if len(self)>0:
+            if prev_t is not None:
+                if item.t < prev_t:
+                    raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, prev_t))
 
-                    # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, self.prev_t)
-                    if item.t < self.prev_t:
-                        raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, self.prev_t))
+                if item.t == prev_t:
+                    raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
-                    if item.t == self.prev_t:
-                        raise ValueError('Time t="{}" is a duplicate'.format(item.t))
+        elif isinstance(item, TimeSlot):
 
-                    try:
-                        self._resolution
+            # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
+            # and if they have the same unit, which we test here instead as the __succedes__ is more general.
+            self._check_slot(item)
 
-                    except AttributeError:
+        else:
+            raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
 
-                        # Set the resolution as seconds for a bit of performance
-                        self._resolution_as_seconds = item.t - self.prev_t
+        # Compute the new resolution before appending, as this can fail as well (e.g. for points too close to each other)
+        if isinstance(item, TimePoint):
+            resolution, resolution_as_seconds = self._compute_resolution(prev_t, item.t)
 
-                        # Set the resolution as time unit (up to the microsecond)
-                        time_diff = item.t - self.prev_t
-                        time_diff = int(time_diff*10000000)/10000000
-                        self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+        # Call the series append
+        super(TimeSeries, self).append(item)
 
-                    else:
-                        # If the resolution is constant (not variable), check that it still is
-                        if self._resolution != 'variable':
-                            if self._resolution_as_seconds != (item.t - self.prev_t):
-                                # ...otherwise, mark it as variable
-                                del self._resolution_as_seconds
-                                self._resolution = 'variable'
-            finally:
-                # Delete the autodetected sampling interval cache if present
+        # Lastly, now that the item has been accepted, update the time-related state
+        if isinstance(item, TimePoint):
+            if resolution is not None:
+                self._resolution = resolution
+                self._resolution_as_seconds = resolution_as_seconds
+        else:
+            try:
+                self._tz
+            except AttributeError:
+                self._tz = item.tz
+            try:
+                self._resolution
+            except AttributeError:
+                self._resolution = item.unit
+
+    def _check_slot(self, item):
+        """Check that a slot is compatible with the timezone and the resolution of the series."""
+
+        # Check the timezone (only for slots, points are not affected by timezones)
+        if self.tz and self.tz != item.tz:
+            raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+
+        # Check the unit
+        try:
+            if self._resolution != item.unit:
+                # Try for floating point precision errors
+                abort = False
                 try:
-                    del self._autodetected_sampling_interval
-                    del self._autodetected_sampling_interval_confidence
-                except:
-                    pass
-                # And set the prev
-                self.prev_t = item.t
+                    if not _is_close(self._resolution, item.unit):
+                        abort = True
+                except (TypeError, ValueError, NotImplementedError):
+                    abort = True
+                if abort:
+                    raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
+        except AttributeError:
+            pass
 
-        elif isinstance(item, TimeSlot):
+    def _compute_resolution(self, prev_t, t):
+        """Compute the resolution of the series (as time unit and as seconds) once a point at t, following the one at prev_t, is added."""
 
-            # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
-            # and if they have the same unit, which we test here instead as the __succedes__ is more general.
+        if prev_t is None:
+            # No resolution can be defined with only one point
+            return None, None
 
-            # Check the timezone (only for slots, points are not affected by timezones)
-            if not self.tz:
-                # If no timezone set, use the item one's
-                self._tz = item.tz
+        try:
+            self._resolution
 
-            else:
-                # Else, check for the same timezone
-                if self._tz != item.tz:
-                    raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+        except AttributeError:
 
-            try:
-                if self._resolution != item.unit:
-                    # Try for floating point precision errors
-                    abort = False
-                    try:
-                        if not _is_close(self._resolution, item.unit):
-                            abort = True
-                    except (TypeError, ValueError, NotImplementedError):
-                        abort = True
-                    if abort:
-                        raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
-            except AttributeError:
-                self._resolution = item.unit
+            # Set the resolution as time unit (up to the microsecond), and as seconds for a bit of performance
+            time_diff = t - prev_t
+            time_diff = int(time_diff*10000000)/10000000
+            return TimeUnit(_to_time_unit_string(time_diff, friendlier=True)), t - prev_t
 
         else:
-            raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
-
-        # Lastly, call the series append
-        super(TimeSeries, self).append(item)
+            # If the resolution is constant (not variable), check that it still is or mark it as variable otherwise
+            if self._resolution != 'variable' and self._resolution_as_seconds == (t - prev_t):
+                return self._resolution, self._resolution_as_seconds
+            else:
+                return 'variable', None
 
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
-- 
2.43.0


From cdc33e5587a87275e0b7ca46152e24f196c8c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 02/97] fix: clear the cached sampling interval when a point is
 appended

The cache was never cleared, so a series asked for its representation or guessed
resolution kept the first answer (and transformations used it as the validity of
the points) no matter which points were added afterwards.
---
 timeseria/datastructures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index f46928c..2c454b7 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1264,6 +1264,7 @@ class TimeSeries(Series):
             if resolution is not None:
                 self._resolution = resolution
                 self._resolution_as_seconds = resolution_as_seconds
+            self._clear_autodetected()
         else:
             try:
                 self._tz
@@ -1274,6 +1275,11 @@ class TimeSeries(Series):
             except AttributeError:
                 self._resolution = item.unit
 
+    def _clear_autodetected(self):
+        """Clear the cached autodetected sampling interval and guessed resolution, if any."""
+        for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
+            self.__dict__.pop(attribute, None)
+
     def _check_slot(self, item):
         """Check that a slot is compatible with the timezone and the resolution of the series."""
 
-- 
2.43.0


From 91c899db1658c381459626bdb17bebbd97b7040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 03/97] fix: keep order, data checks and resolution consistent
 on insert, remove, pop and clear

---
 timeseria/datastructures.py | 92 ++++++++++++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 2c454b7..1a38aeb 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -644,6 +644,29 @@ class Series(list):
         if self.item_type and not isinstance(item, self.item_type):
             raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(item.__class__.__name__, self.item_type.__name__))
 
+    def _check_data(self, item):
+        """Check that the data of an item is compatible with the data of the items already present in the series (if any)."""
+        if not type(self._item_data_reference) == type(item.data):
+            raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
+        if isinstance(self._item_data_reference, list):
+            if len(self._item_data_reference) != len(item.data):
+                raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
+        if isinstance(self._item_data_reference, dict):
+            if set(self._item_data_reference.keys()) != set(item.data.keys()):
+                raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+
+    def _set_item_data_reference(self, item):
+        """Set the reference for the data of the items of the series."""
+        try:
+            self._item_data_reference = item.data
+        except AttributeError:
+            self._item_data_reference = None
+
+    def _refresh(self):
+        """Refresh the state of the series which depends on its items, to be called when they change other than by appending."""
+        if len(self) > 0:
+            self._set_item_data_reference(self._item_by_i(0))
+
     def append(self, item):
         """Append an item to the series. Accepts only items of the same
         type of the items already present in the series (unless empty)"""
@@ -684,19 +707,9 @@ class Series(list):
 
         # Check data type and set if not done already
         if self and self._item_data_reference:
-            if not type(self._item_data_reference) == type(item.data):
-                raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-            if isinstance(self._item_data_reference, list):
-                if len(self._item_data_reference) != len(item.data):
-                    raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
-            if isinstance(self._item_data_reference, dict):
-                if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                    raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+            self._check_data(item)
         else:
-            try:
-                self._item_data_reference = item.data
-            except AttributeError:
-                self._item_data_reference = None
+            self._set_item_data_reference(item)
 
         # Append
         super(Series, self).append(item)
@@ -743,11 +756,16 @@ class Series(list):
         before which to insert, so series.insert(0, x) inserts at the front of the series, and
         series.insert(len(series), x) is equivalent to append(x). Order or succession are enforced."""
 
+        # Handle negative and out of range positions as in the lists
+        if i < 0:
+            i = i + len(self) if i + len(self) > 0 else 0
+        elif i > len(self):
+            i = len(self)
+
         if len(self) > 0:
 
             # Check valid type
-            if not isinstance(x, self.item_type):
-                raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(x.__class__.__name__, self.item_type.__name__))
+            self._check_type(x)
 
             # Check ordering/succession
             if i == 0:
@@ -770,12 +788,17 @@ class Series(list):
                 try:
                     self[0].__succedes__
                 except AttributeError:
-                    if not x > self[i-1]:
+                    if not (x > self[i-1] and self[i] > x):
                         raise ValueError('Cannot insert element "{}" in position "{}" with element "{}" as not in order'.format(x,i, self[i])) from None
                 else:
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
+            # Check data type
+            if self._item_data_reference:
+                self._check_data(x)
+
             super(Series, self).insert(i,x)
+            self._refresh()
 
         else:
             self.append(x)
@@ -793,6 +816,7 @@ class Series(list):
             pass
 
         super(Series, self).remove(x)
+        self._refresh()
 
     def pop(self, i=None):
         """
@@ -810,13 +834,16 @@ class Series(list):
                     pass
                 else:
                     raise IndexError('Cannot pop an item in the middle of a series whose items follow a succession')
-            return super(Series, self).pop(i)
+            item = super(Series, self).pop(i)
         else:
-            return super(Series, self).pop()
+            item = super(Series, self).pop()
+        self._refresh()
+        return item
 
     def clear(self):
         """Remove all items from the series."""
         super(Series, self).clear()
+        self._refresh()
 
     def index(self, x, start=None, end=None):
         """
@@ -1275,6 +1302,37 @@ class TimeSeries(Series):
             except AttributeError:
                 self._resolution = item.unit
 
+    def insert(self, i, x):
+        """Insert an item at a given position. The first argument is the index of the element
+        before which to insert, so series.insert(0, x) inserts at the front of the series, and
+        series.insert(len(series), x) is equivalent to append(x). Order or succession are enforced."""
+        if len(self) > 0:
+            self._check_type(x)
+            if isinstance(x, TimeSlot):
+                self._check_slot(x)
+        super(TimeSeries, self).insert(i, x)
+
+    def _refresh(self):
+        super(TimeSeries, self)._refresh()
+
+        # The resolution has to be computed from scratch
+        self.__dict__.pop('_resolution', None)
+        self.__dict__.pop('_resolution_as_seconds', None)
+        prev_t = None
+        for i in range(len(self)):
+            item = self._item_by_i(i)
+            if isinstance(item, TimeSlot):
+                self._resolution = item.unit
+                break
+            resolution, resolution_as_seconds = self._compute_resolution(prev_t, item.t)
+            if resolution is not None:
+                self._resolution = resolution
+                self._resolution_as_seconds = resolution_as_seconds
+            if resolution == 'variable':
+                break
+            prev_t = item.t
+        self._clear_autodetected()
+
     def _clear_autodetected(self):
         """Clear the cached autodetected sampling interval and guessed resolution, if any."""
         for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
-- 
2.43.0


From 3293350928a7e1cf46265e1bb09977d8c90f1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 04/97] fix: return the position from the series index method

---
 timeseria/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 1a38aeb..608a85d 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -854,7 +854,9 @@ class Series(list):
         used to limit the search to a particular subsequence of the list. The returned index is
         computed relative to the beginning of the full sequence rather than the start argument.
         """
-        super(Series, self).index(x, start, end)
+        start = 0 if start is None else start
+        end = len(self) if end is None else end
+        return super(Series, self).index(x, start, end)
 
     def copy(self):
         """Return a shallow copy of the series."""
-- 
2.43.0


From 5b82b3b16817ac2802aac1a1c8bf436fee500f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 05/97] fix: compute slots without points from their weights
 and leave the source data untouched

---
 timeseria/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 44b9c9c..161f794 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -246,8 +246,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
                     for data_label in data_labels:
-                        point.data[data_label] += point.data[data_label] * point.weight
-                new_point_t = (to_t - from_t) /2
+                        new_point_data[data_label] += point.data[data_label] * point.weight
+                new_point_t = from_t + (to_t - from_t)/2
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
-- 
2.43.0


From 6da09d4421e57ecdf5d5aa128efb870e03546381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 06/97] fix: do not attach the transformation support
 attributes to the points of the source series

---
 timeseria/transformations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 161f794..449fcf1 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Series transformations as resampling and aggregation."""
 
+from copy import copy
 from propertime.utils import dt_from_s, s_from_dt, as_tz
 from datetime import datetime
 from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint, TimeSeries, TimeSeriesView
@@ -502,6 +503,10 @@ class Transformation(object):
         if validity > (self.time_unit.as_seconds(series[0].dt) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
+        # From now on work on (shallow) copies of the points, as the validity and the weights are attached to them
+        # and the original series must be left untouched (as well as not shared with other, concurrent transformations)
+        series = TimeSeries(*[copy(point) for point in series], tz=series.tz)
+
         # Compute validity regions
         validity_regions = _compute_validity_regions(series, sampling_interval=validity)
 
-- 
2.43.0


From 7944025b6d823590ca2ffa4852d10a37cf145a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 07/97] fix: do not share data indexes and start/end points
 between a series and the ones computed from it

---
 timeseria/datastructures.py |  4 ++++
 timeseria/operations.py     | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 608a85d..de3fd27 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -200,6 +200,8 @@ class DataPoint(Point):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Do not share the indexes with who provided them (as another item, for example)
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
@@ -502,6 +504,8 @@ class DataSlot(Slot):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Do not share the indexes with who provided them (as another item, for example)
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 70906f5..e3b78f5 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -341,7 +341,7 @@ class Derivative(Operation):
                                                           data = der_data,
                                                           data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
-                    der_series.append(series[0].__class__(start = item.start,
+                    der_series.append(series[0].__class__(start = copy(item.start),
                                                           unit = item.unit,
                                                           data = der_data,
                                                           data_indexes = item.data_indexes))
@@ -500,7 +500,7 @@ class Integral(Operation):
                                                           data = data,
                                                           data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
-                    int_series.append(series[0].__class__(start = item.start,
+                    int_series.append(series[0].__class__(start = copy(item.start),
                                                           unit = item.unit,
                                                           data = data,
                                                           data_indexes = item.data_indexes))
@@ -602,7 +602,7 @@ class Normalize(Operation):
                                                                  data = normalized_data,
                                                                  data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
-                    normalized_series.append(series[0].__class__(start = item.start,
+                    normalized_series.append(series[0].__class__(start = copy(item.start),
                                                                  unit = item.unit,
                                                                  data = normalized_data,
                                                                  data_indexes = item.data_indexes))
@@ -666,7 +666,7 @@ class Rescale(Operation):
                                                                data = rescaled_data,
                                                                data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
-                    rescaled_series.append(series[0].__class__(start = item.start,
+                    rescaled_series.append(series[0].__class__(start = copy(item.start),
                                                                unit = item.unit,
                                                                data = rescaled_data,
                                                                data_indexes = item.data_indexes))
@@ -731,7 +731,7 @@ class Offset(Operation):
                                                                data = offsetted_data,
                                                                data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
-                    rescaled_series.append(series[0].__class__(start = item.start,
+                    rescaled_series.append(series[0].__class__(start = copy(item.start),
                                                                unit = item.unit,
                                                                data = offsetted_data,
                                                                data_indexes = item.data_indexes))
@@ -794,7 +794,7 @@ class MAvg(Operation):
                                                        tz = item.tz,
                                                        data = mavg_data))
             elif isinstance(series[0], Slot):
-                mavg_series.append(series[0].__class__(start = item.start,
+                mavg_series.append(series[0].__class__(start = copy(item.start),
                                                        unit = item.unit,
                                                        data = mavg_data))
             else:
@@ -867,6 +867,10 @@ class Filter(Operation):
         for item in series:
             filtered_item = copy(item)
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
+            filtered_item._data_indexes = dict(item.data_indexes)
+            if isinstance(item, Slot):
+                filtered_item.start = copy(item.start)
+                filtered_item.end = copy(item.end)
             filtered_series.append(filtered_item)
 
         # Re-set reference data as well
@@ -1138,7 +1142,7 @@ class Merge(Operation):
                                                              data  = data,
                                                              data_indexes = data_indexes))
             elif isinstance(reference_series[0], Slot):
-                result_series.append(seriess[0][0].__class__(start = reference_series[i].start,
+                result_series.append(seriess[0][0].__class__(start = copy(reference_series[i].start),
                                                              unit  = unit,
                                                              data  = data,
                                                              data_indexes = data_indexes))
-- 
2.43.0


From c4871b2396359b6ac142c9d6f297d309705492e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 08/97] fix: store CSV files atomically, with a fixed encoding
 and checking the series first

---
 timeseria/storages.py | 97 +++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 35 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6e8f4fa..4d06268 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -3,7 +3,9 @@
 
 import os
 import pytz
+import shutil
 import datetime
+import threading
 from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
 from .units import TimeUnit
 from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSeries
@@ -19,6 +21,7 @@ HARD_DEBUG = False
 POSSIBLE_TIMESTAMP_labelS = ['timestamp', 'epoch']
 NO_DATA_PLACEHOLDERS = ['na', 'nan', 'null', 'nd', 'undef']
 DEFAULT_SLOT_DATA_LOSS = None
+DEFAULT_ENCODING = 'utf-8'
 
 
 #======================
@@ -748,45 +751,69 @@ class CSVFileStorage(Storage):
         if os.path.isfile(self.filename) and not overwrite:
             raise Exception('File already exists. use overwrite=True to overwrite.')
 
+        # Check the type before touching anything on the file system
+        if not series:
+            raise ValueError('Cannot store an empty time series')
+        if not (issubclass(series.item_type, DataTimePoint) or issubclass(series.item_type, DataTimeSlot)):
+            raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
+
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
-        with open(self.filename, 'w') as csv_file:
-
-            # 0) Dump CSV-storage specific metadata & chck type
-            if issubclass(series.item_type, DataTimePoint):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
-
-            elif issubclass(series.item_type, DataTimeSlot):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+        # Set the encoding, not leaving it to the platform default
+        encoding = self.encoding if self.encoding else DEFAULT_ENCODING
+
+        # If the destination is not a regular file (e.g. a device), there is nothing to preserve
+        if os.path.exists(self.filename) and not os.path.isfile(self.filename):
+            with open(self.filename, 'w', encoding=encoding) as csv_file:
+                self._dump(series, data_indexes, csv_file)
+            return
+
+        # Otherwise, write on a temporary file in the same folder and replace the destination only once everything
+        # has been written, so that a failure or a crash in the meanwhile will never cause to lose existing data
+        # or to leave around a partial file.
+        filename = os.path.realpath(self.filename)
+        temp_filename = '{}.{}-{}.tmp'.format(filename, os.getpid(), threading.get_ident())
+        try:
+            with open(temp_filename, 'w', encoding=encoding) as csv_file:
+                self._dump(series, data_indexes, csv_file)
+                csv_file.flush()
+                os.fsync(csv_file.fileno())
+            if os.path.isfile(filename):
+                shutil.copymode(filename, temp_filename)
+            os.replace(temp_filename, filename)
+        except BaseException:
+            try:
+                os.remove(temp_filename)
+            except OSError:
+                pass
+            raise
+
+
+    def _dump(self, series, data_indexes, csv_file):
+
+        # 0) Dump CSV-storage specific metadata
+        series_type = 'points' if issubclass(series.item_type, DataTimePoint) else 'slots'
+        csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
+        csv_file.write('# {}\n'.format(series))
+        csv_file.write('# Extra parameters: {{"type": "{}", "tz": "{}", "resolution": "{}"}}\n'.format(series_type, series.tz, series.resolution))
+
+        # 1) Dump headers
+        data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
+        data_indexes_part = ','.join(['__'+index for index in data_indexes])
+        if data_indexes_part:
+            csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
+        else:
+            csv_file.write('epoch,{}\n'.format(data_labels_part))
 
+        # 2) Dump data (and data_indexes)
+        for item in series:
+            if isinstance (series[0].data, list) or isinstance (series[0].data, tuple):
+                data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
             else:
-                raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
-
-            # 1) Dump headers
-            data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
-            data_indexes_part = ','.join(['__'+index for index in data_indexes])
+                data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
+            data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
             if data_indexes_part:
-                csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
+                csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
             else:
-                csv_file.write('epoch,{}\n'.format(data_labels_part))
-
-            # 2) Dump data (and data_indexes)
-            for item in series:
-                if isinstance (series[0].data, list) or isinstance (series[0].data, tuple):
-                    data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
-                else:
-                    data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
-                if data_indexes_part:
-                    csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
-                else:
-                    csv_file.write('{},{}\n'.format(item.t, data_part))
-
-
-
-
+                csv_file.write('{},{}\n'.format(item.t, data_part))
-- 
2.43.0


From c488b91aea879e36170a4db307262acddcc8f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 09/97] fix: load labels with non-ASCII characters back as they
 were saved

---
 timeseria/datastructures.py |  5 +++--
 timeseria/storages.py       |  2 +-
 timeseria/utilities.py      | 15 ++++++++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index de3fd27..36e8b2f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1561,7 +1561,8 @@ class TimeSeries(Series):
         """Load a series from a (CSV) file, in Timeseria format."""
 
         metadata = None
-        with open(file_name) as f:
+        # Note: the metadata is always plain text, regardless of the encoding of the labels and of the platform default one
+        with open(file_name, encoding='utf-8', errors='replace') as f:
             for line in f:
                 if line.startswith('#'):
                     if line.startswith('# Extra parameters:'):
@@ -1580,7 +1581,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name)
+        storage = CSVFileStorage(file_name, encoding=metadata.get('encoding', 'auto'))
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 4d06268..ed074bf 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -796,7 +796,7 @@ class CSVFileStorage(Storage):
         series_type = 'points' if issubclass(series.item_type, DataTimePoint) else 'slots'
         csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
         csv_file.write('# {}\n'.format(series))
-        csv_file.write('# Extra parameters: {{"type": "{}", "tz": "{}", "resolution": "{}"}}\n'.format(series_type, series.tz, series.resolution))
+        csv_file.write('# Extra parameters: {{"type": "{}", "tz": "{}", "resolution": "{}", "encoding": "{}"}}\n'.format(series_type, series.tz, series.resolution, csv_file.encoding))
 
         # 1) Dump headers
         data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 40bb075..f70f5b1 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -2,6 +2,7 @@
 """Utility functions."""
 
 import re
+import codecs
 import random
 import numpy
 import chardet
@@ -75,7 +76,19 @@ def detect_encoding(file_name, streaming=False):
 
     else:
         with open(file_name, 'rb') as file_pointer:
-            chardet_results = chardet.detect(file_pointer.read())
+            content = file_pointer.read()
+
+        # Text which is not plain ASCII is extremely unlikely to be valid UTF-8 by chance, while
+        # the detector can easily go wrong if there are only a few non-ASCII characters.
+        if not content.isascii() and not content.startswith(codecs.BOM_UTF8):
+            try:
+                content.decode('utf-8')
+            except UnicodeDecodeError:
+                pass
+            else:
+                return 'utf-8'
+
+        chardet_results = chardet.detect(content)
 
     logger.debug('Detected encoding "%s" with "%s" confidence (streaming=%s)', chardet_results['encoding'],chardet_results['confidence'], streaming)
     encoding = chardet_results['encoding']
-- 
2.43.0


From 7ddae812adfd983b0f771f9e5943377cb34a2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 10/97] fix: return the series when loading it as a TimeSeries
 subclass

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 36e8b2f..d255c9e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1589,7 +1589,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
 
     def save(self, file_name, overwrite=False, **kwargs):
@@ -1681,7 +1681,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
     def to_csv(self, file_name, overwrite=False, **kwargs):
         """Store the time series as a CSV file."""
-- 
2.43.0


From 95b28b8b195e07ee6c1f92ea49117c1d2dce3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 11/97] fix: do not reuse auto-detected CSV settings when the
 file is read again

---
 timeseria/storages.py | 69 +++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index ed074bf..dc7bc2f 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -163,6 +163,23 @@ class CSVFileStorage(Storage):
         # Set series type (that will be forced)
         self.series_type = series_type
 
+        # Settings which have been auto-detected (and exposed as attributes)
+        self._auto_detected = {}
+
+
+    def _get_setting(self, name, auto):
+        # What has been auto-detected depends on the contents of the file, which might have
+        # changed in the meanwhile. So it must not be used as a setting the next time.
+        value = getattr(self, name)
+        if value in self._auto_detected.get(name, set()):
+            return auto
+        return value
+
+
+    def _set_auto_detected(self, name, value):
+        self._auto_detected.setdefault(name, set()).add(value)
+        setattr(self, name, value)
+
 
     def get(self, id=None, start=None, end=None, limit=None, filter_data_labels=[],
             force_tz=None, force_points=False, force_slots=False, force_slot_unit=None):
@@ -207,9 +224,15 @@ class CSVFileStorage(Storage):
         # Data type
         data_type = None
 
+        # Get the settings which can be auto-detected
+        encoding = self._get_setting('encoding', auto=None)
+        timestamp_column = self._get_setting('timestamp_column', auto='auto')
+        timestamp_format = self._get_setting('timestamp_format', auto='auto')
+
         # Detect encoding if not set
-        if not self.encoding:
-            self.encoding = detect_encoding(self.filename, streaming=False)
+        if not encoding:
+            encoding = detect_encoding(self.filename, streaming=False)
+            self._set_auto_detected('encoding', encoding)
 
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
@@ -220,7 +243,7 @@ class CSVFileStorage(Storage):
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
         items = []
-        with open(self.filename, 'r', encoding=self.encoding) as csv_file:
+        with open(self.filename, 'r', encoding=encoding) as csv_file:
 
             while True:
 
@@ -284,15 +307,15 @@ class CSVFileStorage(Storage):
                 #====================
 
                 # Set timestamp column index if not already done
-                if self.timestamp_column is not None and timestamp_column_index is None:
-                    if self.timestamp_column=='auto':
+                if timestamp_column is not None and timestamp_column_index is None:
+                    if timestamp_column=='auto':
                         # TODO: improve this auto-detect: try different column names and formats.
                         #       Maybe, fix position as the first element for the timestamp.
                         if column_labels:
                             for posssible_timestamp_column_name in POSSIBLE_TIMESTAMP_labelS:
                                 if posssible_timestamp_column_name in column_labels:
                                     timestamp_column_index = column_labels.index(posssible_timestamp_column_name)
-                                    self.timestamp_column = posssible_timestamp_column_name
+                                    self._set_auto_detected('timestamp_column', posssible_timestamp_column_name)
                                     break
                             if timestamp_column_index is None:
                                 #raise Exception('Cannot auto-detect timestamp column')
@@ -301,16 +324,16 @@ class CSVFileStorage(Storage):
                             timestamp_column_index = 0
                         # TODO: Try to convert to timestamp here?
                     else:
-                        if isinstance(self.timestamp_column, int):
-                            timestamp_column_index = self.timestamp_column
+                        if isinstance(timestamp_column, int):
+                            timestamp_column_index = timestamp_column
                         else:
-                            if self.timestamp_column in column_labels:
-                                timestamp_column_index = column_labels.index(self.timestamp_column)
+                            if timestamp_column in column_labels:
+                                timestamp_column_index = column_labels.index(timestamp_column)
                             else:
-                                if self.timestamp_column is not None:
-                                    raise Exception('Cannot find requested timestamp column "{}" in labels (got "{}")'.format(self.timestamp_column, column_labels))
-                                elif self.timestamp_column is not None:
-                                    raise Exception('Cannot find requested time column "{}" in labels (got "{}")'.format(self.timestamp_column, column_labels))
+                                if timestamp_column is not None:
+                                    raise Exception('Cannot find requested timestamp column "{}" in labels (got "{}")'.format(timestamp_column, column_labels))
+                                elif timestamp_column is not None:
+                                    raise Exception('Cannot find requested time column "{}" in labels (got "{}")'.format(timestamp_column, column_labels))
                                 else:
                                     pass
                     logger.debug('Set time column index = "%s"', timestamp_column_index)
@@ -390,34 +413,36 @@ class CSVFileStorage(Storage):
                     else:
 
                         # Autodetect?
-                        if self.timestamp_format == 'auto':
+                        if timestamp_format == 'auto':
                             logger.debug('Auto-detecting timestamp format')
 
                             # Is this an epoch?
                             try:
                                 t = float(timestamp)
                                 logger.debug('Auto-detected timestamp format: epoch')
-                                self.timestamp_format = 'epoch'
+                                timestamp_format = 'epoch'
+                                self._set_auto_detected('timestamp_format', timestamp_format)
                             except:
                                 try:
                                     # is this an iso8601?
                                     dt = dt_from_str(timestamp)
                                     logger.debug('Auto-detected timestamp format: iso8601')
-                                    self.timestamp_format = 'iso8601'
+                                    timestamp_format = 'iso8601'
+                                    self._set_auto_detected('timestamp_format', timestamp_format)
                                 except:
                                     raise Exception('Cannot auto-detect timestamp format (got "{}")'.format(timestamp)) from None
 
                         # Epoch format?
-                        elif self.timestamp_format == 'epoch':
+                        elif timestamp_format == 'epoch':
                             t = float(timestamp)
 
                         # ISO8601 format?
-                        elif self.timestamp_format == 'iso8601':
+                        elif timestamp_format == 'iso8601':
                             dt = dt_from_str(timestamp)
 
                         # Custom format?
                         else:
-                            dt = datetime.datetime.strptime(timestamp, self.timestamp_format)
+                            dt = datetime.datetime.strptime(timestamp, timestamp_format)
 
 
                     # Convert to t
@@ -452,7 +477,7 @@ class CSVFileStorage(Storage):
                         if _is_list_of_integers(data_labels):
                             # Case where we have been given a list of integers
                             data_label_indexes = data_labels
-                            self.data_type = list
+                            data_type = list
 
                         else:
                             # Case where we have been given a list of labels
@@ -761,7 +786,7 @@ class CSVFileStorage(Storage):
         data_indexes = series._all_data_indexes()
 
         # Set the encoding, not leaving it to the platform default
-        encoding = self.encoding if self.encoding else DEFAULT_ENCODING
+        encoding = self._get_setting('encoding', auto=None) or DEFAULT_ENCODING
 
         # If the destination is not a regular file (e.g. a device), there is nothing to preserve
         if os.path.exists(self.filename) and not os.path.isfile(self.filename):
-- 
2.43.0


From 895d6173f02a0685a889ef23cc442e4590a854af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 12/97] fix: honour skip_errors for CSV lines cut before the
 timestamp columns

---
 timeseria/storages.py | 52 +++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index dc7bc2f..e1f4255 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -365,30 +365,38 @@ class CSVFileStorage(Storage):
                     raise ConsistencyException('Could not set timestamp_column_index nor time_column_index nor date_column_index, somehting wrong happened.')
 
                 # Ok,now get the timestamp as string
-                if timestamp_column_index is not None:
-                    # Just use the Timestamp column
-                    timestamp = _sanitize_string(line_items[timestamp_column_index],NO_DATA_PLACEHOLDERS)
+                try:
+                    if timestamp_column_index is not None:
+                        # Just use the Timestamp column
+                        timestamp = _sanitize_string(line_items[timestamp_column_index],NO_DATA_PLACEHOLDERS)
 
-                else:
-                    # Time part
-                    time_part=None
-                    if time_column_index is not None:
-                        time_part = _sanitize_string(line_items[time_column_index],NO_DATA_PLACEHOLDERS)
-
-                    # Date part
-                    date_part=None
-                    if date_column_index is not None:
-                        date_part = _sanitize_string(line_items[date_column_index],NO_DATA_PLACEHOLDERS)
-
-                    # Assemble timestamp
-                    if time_part is not None and date_part is not None:
-                        timestamp = date_part + '\t' + time_part
-                    elif date_part is None:
-                        timestamp = time_part
-                    elif time_part is None:
-                        timestamp = date_part
                     else:
-                        raise ConsistencyException('Got both time_part and date_part as None, somehting wrong happened.')
+                        # Time part
+                        time_part=None
+                        if time_column_index is not None:
+                            time_part = _sanitize_string(line_items[time_column_index],NO_DATA_PLACEHOLDERS)
+
+                        # Date part
+                        date_part=None
+                        if date_column_index is not None:
+                            date_part = _sanitize_string(line_items[date_column_index],NO_DATA_PLACEHOLDERS)
+
+                        # Assemble timestamp
+                        if time_part is not None and date_part is not None:
+                            timestamp = date_part + '\t' + time_part
+                        elif date_part is None:
+                            timestamp = time_part
+                        elif time_part is None:
+                            timestamp = date_part
+                        else:
+                            raise ConsistencyException('Got both time_part and date_part as None, somehting wrong happened.')
+
+                except IndexError:
+                    if self.skip_errors:
+                        logger.debug('Cannot get the timestamp in line #%s as some values are missing, skipping the line.', line_number)
+                        continue
+                    else:
+                        raise ValueError('Cannot get the timestamp in line #{} as some values are missing, aborting. Set "skip_errors=True" to drop them instead.'.format(line_number)) from None
 
                 # Convert timestamp to epoch seconds
                 logger.debug('Will process timestamp "%s"', timestamp)
-- 
2.43.0


From e9d77e3cfd1003ceacb26a4e1b6fb0ac4f9fa6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 13/97] fix: use the configured separator when storing CSV
 files

---
 timeseria/datastructures.py |  2 +-
 timeseria/storages.py       | 21 +++++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d255c9e..b28f05a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1581,7 +1581,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name, encoding=metadata.get('encoding', 'auto'))
+        storage = CSVFileStorage(file_name, encoding=metadata.get('encoding', 'auto'), separator=metadata.get('separator', ','))
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index e1f4255..4781627 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -2,6 +2,7 @@
 """Data storages, as the CSV file storage."""
 
 import os
+import json
 import pytz
 import shutil
 import datetime
@@ -829,24 +830,24 @@ class CSVFileStorage(Storage):
         series_type = 'points' if issubclass(series.item_type, DataTimePoint) else 'slots'
         csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
         csv_file.write('# {}\n'.format(series))
-        csv_file.write('# Extra parameters: {{"type": "{}", "tz": "{}", "resolution": "{}", "encoding": "{}"}}\n'.format(series_type, series.tz, series.resolution, csv_file.encoding))
+        csv_file.write('# Extra parameters: {{"type": "{}", "tz": "{}", "resolution": "{}", "encoding": "{}", "separator": {}}}\n'.format(series_type, series.tz, series.resolution, csv_file.encoding, json.dumps(self.separator)))
 
         # 1) Dump headers
-        data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
-        data_indexes_part = ','.join(['__'+index for index in data_indexes])
+        data_labels_part = self.separator.join([str(data_label) for data_label in series.data_labels()])
+        data_indexes_part = self.separator.join(['__'+index for index in data_indexes])
         if data_indexes_part:
-            csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
+            csv_file.write(self.separator.join(['epoch', data_labels_part, data_indexes_part]) + '\n')
         else:
-            csv_file.write('epoch,{}\n'.format(data_labels_part))
+            csv_file.write(self.separator.join(['epoch', data_labels_part]) + '\n')
 
         # 2) Dump data (and data_indexes)
         for item in series:
             if isinstance (series[0].data, list) or isinstance (series[0].data, tuple):
-                data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
+                data_part = self.separator.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
             else:
-                data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-            data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
+                data_part = self.separator.join([str(item.data[data_label]) for data_label in series.data_labels()])
+            data_indexes_part = self.separator.join([str(item.data_indexes[index]) for index in data_indexes])
             if data_indexes_part:
-                csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
+                csv_file.write(self.separator.join([str(item.t), data_part, data_indexes_part]) + '\n')
             else:
-                csv_file.write('{},{}\n'.format(item.t, data_part))
+                csv_file.write(self.separator.join([str(item.t), data_part]) + '\n')
-- 
2.43.0


From 3c9e7a88b4d58c27effdec1e09b241e9dc778ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 14/97] fix: leave no partially saved model around when saving
 fails

---
 timeseria/models/anomaly_detectors.py | 18 ++++++++++++------
 timeseria/models/base.py              | 22 +++++++++++-----------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1eb623d..1a068ae 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Anomaly detection models."""
 
+import shutil
 from copy import deepcopy
 from ..utilities import _Gaussian, rescale
 from .forecasters import Forecaster, PeriodicAverageForecaster, LSTMForecaster
@@ -209,12 +210,17 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         # Save the anomaly detection model
         super(ModelBasedAnomalyDetector, self).save(path)
 
-        # ..and save the inner model(s) as nested model
-        if self.data['with_context']:
-            for data_label in self.models:
-                self.models[data_label].save('{}/{}_model'.format(path, data_label))
-        else:
-            self.model.save('{}/model'.format(path))
+        # ..and save the inner model(s) as nested model, without leaving around
+        # a partially saved anomaly detection model if something goes wrong
+        try:
+            if self.data['with_context']:
+                for data_label in self.models:
+                    self.models[data_label].save('{}/{}_model'.format(path, data_label))
+            else:
+                self.model.save('{}/model'.format(path))
+        except BaseException:
+            shutil.rmtree(path, ignore_errors=True)
+            raise
 
     def _get_actual_value(self, series, i, data_label):
         actual = series[i].data[data_label]
diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index f7ef855..0533919 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -126,23 +126,23 @@ class Model():
         if os.path.exists(path):
             raise ValueError('The path "{}" already exists'.format(path))
 
+        # Prepare the data, changing the resolution to its string representation (if any)
+        data = dict(self.data)
+        if 'resolution' in data:
+            data['resolution'] = str(data['resolution'])
+        data_as_json = json.dumps(data)
+
         # Prepare model dir and dump data as json
         os.makedirs(path)
         model_data_file = '{}/data.json'.format(path)
 
-        # Temporary change the resolution to its string representation (if any)
-        if 'resolution' in self.data:
-            resolution_obj = self.data['resolution']
-            self.data['resolution'] = str(resolution_obj)
-
-        # Write the data
+        # Write the data, without leaving around a partially saved model if something goes wrong
         try:
             with open(model_data_file, 'w') as f:
-                f.write(json.dumps(self.data))
-        finally:
-            # In any case revert resolution back to object (if any)
-            if 'resolution' in self.data:
-                self.data['resolution'] = resolution_obj
+                f.write(data_as_json)
+        except BaseException:
+            shutil.rmtree(path, ignore_errors=True)
+            raise
 
         logger.info('Saved model with id "%s" in "%s"', self.data['id'], path)
 
-- 
2.43.0


From 4767b7d24243b22af07149cb4f792fc6ec2eacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 15/97] fix: make loaded periodic average reconstructors usable

---
 timeseria/models/reconstructors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index fb324e6..21d9623 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -368,6 +368,13 @@ class PeriodicAverageReconstructor(Reconstructor):
 
     window = 1
 
+    @classmethod
+    def load(cls, path):
+        model = super().load(path)
+        # Convert the average dict keys back to integers
+        model.data['averages'] = {int(key):value for key, value in model.data['averages'].items()}
+        return model
+
     @Reconstructor.fit_function
     def fit(self, series, periodicity='auto', dst_affected=False, offset_method='average', data_loss_limit=1.0, verbose=False):
         # TODO: periodicity, dst_affected, offset_method -> move them in the init?
-- 
2.43.0


From b18b37d4e9928385a99e12f40c884ff3daaedf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 16/97] fix: do not consider a model as fitted if a new fit
 fails

---
 timeseria/models/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 0533919..89c8a95 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -179,6 +179,10 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
 
+                # From now on any previous fit is overwritten, so until this one is
+                # completed (which might not happen) the model is not to be used.
+                self.fitted = False
+
                 # Set resolution
                 try:
                     self.data['resolution'] = series.resolution
-- 
2.43.0


From 52804104ca0f1b85ef3191e7b88c841486972e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 17/97] fix: make it possible to fit a periodic average
 forecaster with an explicit window

---
 timeseria/models/forecasters.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e15e6bb..89f359a 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -499,20 +499,20 @@ class PeriodicAverageForecaster(Forecaster):
                 logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
                 self.data['windows'][data_label]= periodicity
 
-                sums   = {}
-                totals = {}
-                processed = 0
-                for item in series:
-                    if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
-                        continue
-                    periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
-                    if not periodicity_index in sums:
-                        sums[periodicity_index] = item.data[data_label]
-                        totals[periodicity_index] = 1
-                    else:
-                        sums[periodicity_index] += item.data[data_label]
-                        totals[periodicity_index] +=1
-                    processed += 1
+            sums   = {}
+            totals = {}
+            processed = 0
+            for item in series:
+                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                    continue
+                periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
+                if not periodicity_index in sums:
+                    sums[periodicity_index] = item.data[data_label]
+                    totals[periodicity_index] = 1
+                else:
+                    sums[periodicity_index] += item.data[data_label]
+                    totals[periodicity_index] +=1
+                processed += 1
 
             if not processed:
                 raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
-- 
2.43.0


From 1488340a10a629c055cc3270f89923aa699d3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 18/97] fix: do not share the interpolator between linear
 interpolation reconstructor predictions

---
 timeseria/models/reconstructors.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 21d9623..959e235 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -337,17 +337,14 @@ class LinearInterpolationReconstructor(Reconstructor):
 
         logger.debug('Linear Interpolator reconstructing from #%s to #%s (included)', from_i, to_i)
 
-        try:
-            self.interpolator_initialize
-        except AttributeError:
-            from ..interpolators import LinearInterpolator
-            self.interpolator = LinearInterpolator(series)
+        from ..interpolators import LinearInterpolator
+        interpolator = LinearInterpolator(series)
 
         predicted_data = []
         for i in range(from_i, to_i+1):
 
             logger.debug('Processing point=%s', series[i])
-            step_predicted_data = self.interpolator.evaluate(at=series[i].t, prev_i=from_i-1, next_i=to_i+1)
+            step_predicted_data = interpolator.evaluate(at=series[i].t, prev_i=from_i-1, next_i=to_i+1)
 
             logger.debug('Predicted data=%s', step_predicted_data)
             predicted_data.append(step_predicted_data)
-- 
2.43.0


From 60f153930d9a31bda9f0d63fb34bd43bff5ecf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 19/97] fix: support nested and concurrent iterations of time
 series views

---
 timeseria/datastructures.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b28f05a..5d8d9bc 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1927,27 +1927,12 @@ class TimeSeriesView(TimeSeries):
             return super().__getitem__(arg)
 
     def __iter__(self):
+        # Each iteration must have its own state, in order to support nested and concurrent ones
         if self.series:
-            self.count = 0
-            return self
+            return (self.series[i] for i in range(self.from_i, self.to_i))
         else:
             return super().__iter__()
 
-    def __next__(self):
-        if self.series:
-            this_i = self.count + self.from_i
-
-            if this_i >= self.to_i:
-                # If reached the end stop
-                raise StopIteration
-
-            else:
-                # Otherwise return the corresponding item
-                self.count += 1
-                return self.series[this_i]
-        else:
-            return super().__next__()
-
     def __len__(self):
         if self.series:
             return self.to_i-self.from_i
-- 
2.43.0


From d7cca17d0c8a402bed93fff9c5462977287899f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 20/97] fix: convert fractions of seconds to time units
 correctly

---
 timeseria/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index f70f5b1..6399111 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -969,7 +969,8 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(seconds).replace('.0', '')
+    # Up to the tenth of microsecond and without trailing zeros
+    seconds_str = '{:.7f}'.format(seconds).rstrip('0').rstrip('.')
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From efbbd59acf414124eb374375ce0726bd45c20054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 21/97] fix: do not leave a model as fitted on a single round
 if the cross validation fails

---
 timeseria/models/base.py | 123 ++++++++++++++++++++-------------------
 1 file changed, 63 insertions(+), 60 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 89c8a95..c2eacc9 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -360,74 +360,77 @@ class Model():
         round_items = int(len(series) / rounds)
         logger.debug('Items per round: {}'.format(round_items))
 
-        # Start the fit / evaluate loop
+        # Start the fit / evaluate loop. In any case, the model must not be left as fitted on a round
         evaluations = []
-        for i in range(rounds):
-            validate_from_i = round_items*i
-            validate_to_i =   (round_items*i)+round_items
-            validate_from_t = series[validate_from_i].t
-            try:
-                validate_to_t = series[validate_to_i].t
-            except IndexError:
-                validate_to_t = series[validate_to_i - 1].t
-            validate_from_dt = dt_from_s(validate_from_t)
-            validate_to_dt   = dt_from_s(validate_to_t)
-
-            logger.info('Cross validation round {}/{}: validate from {} ({}) to {} ({}), fit on the rest.'.format(i+1, rounds, validate_from_t, validate_from_dt, validate_to_t, validate_to_dt))
-
-            if validate_from_i == 0:
-                logger.debug('Fitting from {} to the end'.format(validate_to_t))
-                series_view = TimeSeriesView(series=series, from_i=validate_to_i, to_i=len(series))
-                self.fit(series_view, **fit_kwargs)
-            elif validate_to_i >= len(series):
-                logger.debug('Fitting from the beginning to {}'.format(validate_from_t))
-                series_view = TimeSeriesView(series=series, from_i=0, to_i=validate_from_i)
-                self.fit(series_view, **fit_kwargs)
-            else:
-                # Find the bigger chunk and fit first on that:
-                if validate_from_i > len(series)-validate_to_i:
+        try:
+            for i in range(rounds):
+                validate_from_i = round_items*i
+                validate_to_i =   (round_items*i)+round_items
+                validate_from_t = series[validate_from_i].t
+                try:
+                    validate_to_t = series[validate_to_i].t
+                except IndexError:
+                    validate_to_t = series[validate_to_i - 1].t
+                validate_from_dt = dt_from_s(validate_from_t)
+                validate_to_dt   = dt_from_s(validate_to_t)
+
+                logger.info('Cross validation round {}/{}: validate from {} ({}) to {} ({}), fit on the rest.'.format(i+1, rounds, validate_from_t, validate_from_dt, validate_to_t, validate_to_dt))
+
+                if validate_from_i == 0:
+                    logger.debug('Fitting from {} to the end'.format(validate_to_t))
+                    series_view = TimeSeriesView(series=series, from_i=validate_to_i, to_i=len(series))
+                    self.fit(series_view, **fit_kwargs)
+                elif validate_to_i >= len(series):
                     logger.debug('Fitting from the beginning to {}'.format(validate_from_t))
                     series_view = TimeSeriesView(series=series, from_i=0, to_i=validate_from_i)
                     self.fit(series_view, **fit_kwargs)
-                    # Now try to fit on the other chunk as well:
-                    model_window = None 
-                    try:
-                        model_window = self.window
-                    except AttributeError:
-                        pass
-                    if model_window and (len(series)-validate_to_i) < model_window:
-                        pass
-                    else:
-                        try:
-                            logger.debug('Now trying to fit also from {} to the end'.format(validate_to_t))
-                            series_view = TimeSeriesView(series=series, from_i=validate_to_i, to_i=len(series))
-                            self.fit_update(series_view, **fit_kwargs)
-                        except (AttributeError, NotImplementedError):
-                            # TODO: Log a warning?
-                            logger.debug('Not supported')
                 else:
-                    logger.debug('Fitting from {} to the end'.format(validate_to_t))
-                    series_view = TimeSeriesView(series=series, from_i=validate_to_i, to_i=len(series))
-                    self.fit(series_view, **fit_kwargs)
-                    model_window = None 
-                    try:
-                        model_window = self.window
-                    except AttributeError:
-                        pass
-                    if model_window and validate_from_i < model_window:
-                        pass
-                    else:
+                    # Find the bigger chunk and fit first on that:
+                    if validate_from_i > len(series)-validate_to_i:
+                        logger.debug('Fitting from the beginning to {}'.format(validate_from_t))
+                        series_view = TimeSeriesView(series=series, from_i=0, to_i=validate_from_i)
+                        self.fit(series_view, **fit_kwargs)
                         # Now try to fit on the other chunk as well:
+                        model_window = None 
                         try:
-                                logger.debug('Now trying to fit also from the beginning to {}'.format(validate_from_t))
-                                series_view = TimeSeriesView(series=series, from_i=0, to_i=validate_from_i)
+                            model_window = self.window
+                        except AttributeError:
+                            pass
+                        if model_window and (len(series)-validate_to_i) < model_window:
+                            pass
+                        else:
+                            try:
+                                logger.debug('Now trying to fit also from {} to the end'.format(validate_to_t))
+                                series_view = TimeSeriesView(series=series, from_i=validate_to_i, to_i=len(series))
                                 self.fit_update(series_view, **fit_kwargs)
-                        except (AttributeError, NotImplementedError):
-                            # TODO: Log a warning?
-                            logger.debug('Not supported')
-
-            # Evaluate & append
-            evaluations.append(self.evaluate(TimeSeriesView(series=series, from_i=validate_from_i, to_i=validate_to_i), **evaluate_kwargs))
+                            except (AttributeError, NotImplementedError):
+                                # TODO: Log a warning?
+                                logger.debug('Not supported')
+                    else:
+                        logger.debug('Fitting from {} to the end'.format(validate_to_t))
+                        series_view = TimeSeriesView(series=series, from_i=validate_to_i, to_i=len(series))
+                        self.fit(series_view, **fit_kwargs)
+                        model_window = None 
+                        try:
+                            model_window = self.window
+                        except AttributeError:
+                            pass
+                        if model_window and validate_from_i < model_window:
+                            pass
+                        else:
+                            # Now try to fit on the other chunk as well:
+                            try:
+                                    logger.debug('Now trying to fit also from the beginning to {}'.format(validate_from_t))
+                                    series_view = TimeSeriesView(series=series, from_i=0, to_i=validate_from_i)
+                                    self.fit_update(series_view, **fit_kwargs)
+                            except (AttributeError, NotImplementedError):
+                                # TODO: Log a warning?
+                                logger.debug('Not supported')
+
+                # Evaluate & append
+                evaluations.append(self.evaluate(TimeSeriesView(series=series, from_i=validate_from_i, to_i=validate_to_i), **evaluate_kwargs))
+                self.fitted = False
+        finally:
             self.fitted = False
 
         # Regroup evaluations
-- 
2.43.0


From 35d2fc468883433f98ba83270b7f0ad81d2c9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 22/97] fix: do not mix items with and without data in the same
 series

---
 timeseria/datastructures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 5d8d9bc..2d7fc26 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -645,8 +645,10 @@ class Series(list):
 
     def _check_type(self, item):
         """Check that an item is of the same type of the items already present in the series (if any)."""
-        if self.item_type and not isinstance(item, self.item_type):
-            raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(item.__class__.__name__, self.item_type.__name__))
+        item_type = self.item_type
+        # Note: the types carrying data extend the ones which do not, but they cannot be mixed
+        if item_type and (not isinstance(item, item_type) or (hasattr(item, 'data') and not hasattr(item_type, 'data'))):
+            raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(item.__class__.__name__, item_type.__name__))
 
     def _check_data(self, item):
         """Check that the data of an item is compatible with the data of the items already present in the series (if any)."""
-- 
2.43.0


From 657451b8870403aa63ab49be007742f93f5d55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 23/97] fix: compute in-place derivatives and integrals from
 the original data

---
 timeseria/operations.py | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index e3b78f5..016a19d 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -264,6 +264,13 @@ class Derivative(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # Labels and values to work on. If working in-place, these have to be the original ones
+        data_labels = series.data_labels()
+        values = [item.data if not inplace else copy(item.data) for item in series]
+
+        def get_value(i, data_label):
+            return values[i][data_label if data_is_keyvalue else int(data_label)]
+
         for i, item in enumerate(series):
 
             # Skip the first element if computing diffs
@@ -273,7 +280,7 @@ class Derivative(Operation):
             if not inplace:
                 der_data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
                 diff_left = None
                 diff_right = None
                 diff = None
@@ -282,19 +289,19 @@ class Derivative(Operation):
                     if i == 0:
                         raise ConsistencyException('We should never get here')
                     else:
-                        diff = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff = get_value(i, data_label) - get_value(i-1, data_label)
                 else:
                     # Compute the derivative
                     if i == 0:
                         # Right increment for the first item
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_right = get_value(i+1, data_label) - get_value(i, data_label)
                     elif i == len(series)-1:
                         # Left increment for the last item. Divide by two if not normalizing by time resolution
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff_left = get_value(i, data_label) - get_value(i-1, data_label)
                     else:
                         # Both left and right increment for the items in the middle
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_left = get_value(i, data_label) - get_value(i-1, data_label)
+                        diff_right = get_value(i+1, data_label) - get_value(i, data_label)
 
                 # Combine and normalize (if required) the increments to get the actual derivative
                 if normalize:
@@ -399,6 +406,13 @@ class Integral(Operation):
 
         last_values={}
 
+        # Labels and values to work on. If working in-place, these have to be the original ones
+        data_labels = series.data_labels()
+        values = [item.data if not inplace else copy(item.data) for item in series]
+
+        def get_value(i, data_label):
+            return values[i][data_label if data_is_keyvalue else int(data_label)]
+
         for i, item in enumerate(series):
 
             # Do we have to create the previous point based on an offset?
@@ -410,17 +424,17 @@ class Integral(Operation):
 
                 if isinstance(offset,dict):
                     if data_is_keyvalue:
-                        for data_label in series.data_labels():
+                        for data_label in data_labels:
                             prev_data['{}_{}'.format(data_label,postfix)] = offset[data_label]
                     else:
-                        for data_label in series.data_labels():
+                        for data_label in data_labels:
                             prev_data.append(offset[data_label])
                 else:
                     if data_is_keyvalue:
-                        for data_label in series.data_labels():
+                        for data_label in data_labels:
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
-                        for data_label in series.data_labels():
+                        for data_label in data_labels:
                             prev_data.append(offset[data_label])
 
                 if isinstance(item, Point):
@@ -440,18 +454,18 @@ class Integral(Operation):
             if not inplace:
                 data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
 
                 # Get the value
                 if not normalize:
-                    value = series[i]._data_by_label(data_label)
+                    value = get_value(i, data_label)
                 else:
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = series[i]._data_by_label(data_label)
+                        prev_right_component = get_value(i, data_label)
                     else:
-                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_component
+                        left_component = (get_value(i-1, data_label)*2) - prev_right_component
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
                         prev_right_component = left_component
-- 
2.43.0


From e2f20f324fac66f76d51b027bf2aaa1851d3a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 24/97] fix: always terminate when detecting the sampling
 interval, never detecting a zero one

---
 timeseria/utilities.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 6399111..77c3189 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -110,13 +110,14 @@ def detect_sampling_interval(timeseries, confidence=False):
                 diffs[diff] +=1
         prev_point = point
 
-    # Iterate until the diffs are not too spread, then pick the maximum.
+    # Iterate until the diffs are not too spread (rounding them more coarsely each time), then pick the maximum.
     i=0
+    original_diffs=diffs
     while _is_almost_equal(len(diffs), len(timeseries)):
         or_diffs=diffs
         diffs={}
         for diff in or_diffs:
-            diff=round(diff)
+            diff=round(diff, -i) if i else round(diff)
             if diff not in diffs:
                 diffs[diff] = 1
             else:
@@ -124,6 +125,7 @@ def detect_sampling_interval(timeseries, confidence=False):
 
         if i > 10:
             raise Exception('Cannot automatically detect the sampling interval')
+        i+=1
 
     most_common_diff_total = 0
     most_common_diff = None
@@ -141,6 +143,10 @@ def detect_sampling_interval(timeseries, confidence=False):
             second_most_common_diff_total = diffs[diff]
             second_most_common_diff = diff
 
+    # If the diffs are too small to be rounded, use the median one
+    if most_common_diff == 0:
+        most_common_diff = sorted(original_diffs)[len(original_diffs)//2]
+
     if confidence:
         if len(diffs) == 1:
             confidence_value = 1.0
-- 
2.43.0


From bad485d3029c633cea1001f668a0125e3d895a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 25/97] fix: allow monthly aggregations of data starting on the
 last days of a month

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 449fcf1..b8a6201 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -500,7 +500,7 @@ class Transformation(object):
             logger.info('Using auto-detected sampling interval: %ss', validity)
 
         # Check if upsamplimg (with some tolearance):
-        if validity > (self.time_unit.as_seconds(series[0].dt) * 1.10):
+        if validity > (self.time_unit.as_seconds(dt_from_s(from_t, tz=series.tz)) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
         # From now on work on (shallow) copies of the points, as the validity and the weights are attached to them
-- 
2.43.0


From 3f9d82025fb9cf6065fa57d2ce49197f7f1b53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 26/97] fix: load time series of a single slot from CSV files

---
 timeseria/storages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 4781627..27aba56 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -661,6 +661,11 @@ class CSVFileStorage(Storage):
                         auto_slot_unit = TimeUnit('5m')
                     elif detected_sampling_interval == 60:
                         auto_slot_unit = TimeUnit('1m')
+                    elif detected_sampling_interval is None:
+                        # Only one item, nothing to detect the unit from
+                        if not force_slot_unit:
+                            raise ValueError('Cannot detect the slot unit with only one item, please set it with the force_slot_unit argument')
+                        auto_slot_unit = None
                     else:
                         auto_slot_unit = TimeUnit('{}s'.format(detected_sampling_interval))
 
-- 
2.43.0


From 7e26c60e439bc77a1d14f77e7627a0abcd095242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 27/97] fix: load time series saved with a multi-byte encoding

---
 timeseria/datastructures.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 2d7fc26..60ecfbd 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1564,7 +1564,15 @@ class TimeSeries(Series):
 
         metadata = None
         # Note: the metadata is always plain text, regardless of the encoding of the labels and of the platform default one
-        with open(file_name, encoding='utf-8', errors='replace') as f:
+        # (but has to be decoded if the encoding is a multi-byte one, in which case it always comes with a byte order mark)
+        metadata_encoding = 'utf-8-sig'
+        with open(file_name, 'rb') as f:
+            start = f.read(4)
+        for encoding in ['utf-32', 'utf-16']:
+            if start.startswith(''.encode(encoding)):
+                metadata_encoding = encoding
+                break
+        with open(file_name, encoding=metadata_encoding, errors='replace') as f:
             for line in f:
                 if line.startswith('#'):
                     if line.startswith('# Extra parameters:'):
-- 
2.43.0


From 11d019bee77da589ebbb0fb02d4e0bb470f0f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 28/97] fix: store time series with data indexes set only for
 some of the items

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 27aba56..9014852 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -851,7 +851,7 @@ class CSVFileStorage(Storage):
                 data_part = self.separator.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
             else:
                 data_part = self.separator.join([str(item.data[data_label]) for data_label in series.data_labels()])
-            data_indexes_part = self.separator.join([str(item.data_indexes[index]) for index in data_indexes])
+            data_indexes_part = self.separator.join([str(item.data_indexes.get(index)) for index in data_indexes])
             if data_indexes_part:
                 csv_file.write(self.separator.join([str(item.t), data_part, data_indexes_part]) + '\n')
             else:
-- 
2.43.0


From 4283a7a8e5e1241d6fb1ea2c9589e0dc9e9be318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 29/97] fix: keep data indexes and honour skip_errors when
 loading slots with missing or duplicate lines

---
 timeseria/storages.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 9014852..7cfe8ef 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -757,22 +757,30 @@ class CSVFileStorage(Storage):
                 except ValueError as e:
                     # The only ValueError that could (should) arise here is a "Not in succession" error.
                     missing_timestamps = []
-                    prev_dt = dt_from_s(items[i-1][0], tz=tz)
-                    while True:
-                        dt = prev_dt + slot_unit
-                        # Note: the equal here is just to prevent endless loops, the check shoudl actally be just an equal
-                        if s_from_dt(dt) >= item[0]:
-                            # We are arrived, append all the missing items and then the item we originally tried to and break
-                            for j, missing_timestamp in enumerate(missing_timestamps):
-                                # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[-1][1] }
-                                series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_loss=DEFAULT_SLOT_DATA_LOSS, tz=tz))
-                            break
-
-                        else:
+                    dt = None
+                    if series:
+                        dt = series[-1].end.dt
+                        while s_from_dt(dt) < item[0]:
                             missing_timestamps.append(s_from_dt(dt))
-                        prev_dt = dt
+                            dt = dt + slot_unit
+
+                    # Duplicate, out of order or not aligned with the previous ones?
+                    if dt is None or s_from_dt(dt) != item[0]:
+                        if self.skip_errors:
+                            if not self.silence_errors:
+                                logger.error(e)
+                            continue
+                        raise
+
+                    # Append all the missing items (setting data by interpolation), and then the item we originally tried to
+                    prev_data = series[-1].data
+                    for j, missing_timestamp in enumerate(missing_timestamps):
+                        if isinstance(item[1], dict):
+                            interpolated_data = {data_label: (((item[1][data_label]-prev_data[data_label])/(len(missing_timestamps)+1)) * (j+1)) + prev_data[data_label] for data_label in item[1]}
+                        else:
+                            interpolated_data = [(((value-prev_value)/(len(missing_timestamps)+1)) * (j+1)) + prev_value for value, prev_value in zip(item[1], prev_data)]
+                        series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
+                    series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_indexes=data_indexes, tz=tz))
 
         return series
 
-- 
2.43.0


From 46ecb70f5b1db754b569af6d18cd3e26d18d29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 30/97] fix: do not swallow interrupts when detecting formats,
 types and intervals

---
 timeseria/datastructures.py     |  2 +-
 timeseria/models/base.py        |  2 +-
 timeseria/models/forecasters.py |  4 ++--
 timeseria/operations.py         |  6 +++---
 timeseria/storages.py           | 10 +++++-----
 timeseria/transformations.py    |  8 ++++----
 timeseria/units.py              |  4 ++--
 timeseria/utilities.py          | 16 ++++++++--------
 8 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 60ecfbd..7a53c82 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -38,7 +38,7 @@ class Point():
         for arg in args:
             try:
                 float(arg)
-            except:
+            except Exception:
                 raise Exception('Got non-numerical argument: "{}"'.format(arg))
 
         # Store (as tuple)
diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index c2eacc9..9c07ebc 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -54,7 +54,7 @@ class Model():
         # Set type
         try:
             self.data
-        except:
+        except Exception:
             # No data (parameters) for the model. Check if there is a fit implemented
             if self._is_fit_implemented():
                 # Yes: the model is parameter and the parameters
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 89f359a..db328fc 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -454,7 +454,7 @@ class PeriodicAverageForecaster(Forecaster):
         if window != 'auto':
             try:
                 int(window)
-            except:
+            except Exception:
                 raise ValueError('Got a non-integer window ({})'.format(window))
         self._window = window
 
@@ -1004,7 +1004,7 @@ class LSTMForecaster(Forecaster, _KerasModel):
         # Normalize window and context data if we have to do so
         try:
             self.data['min_values']
-        except:
+        except Exception:
             normalize = False
         else:
             normalize = True
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 016a19d..b25d853 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -483,11 +483,11 @@ class Integral(Operation):
                 # Sum to previous or apply offset if any
                 try:
                     value = last_values[data_label] + value
-                except:
+                except Exception:
                     try:
                         # Do we have offsets as a dict?
                         value = value + c[data_label]
-                    except:
+                    except Exception:
                         value = value + c
 
                 # Add data
@@ -1200,7 +1200,7 @@ class Select(Operation):
             if item._data_by_label(data_label) == value:
                 try:
                     selected.append(item)
-                except:
+                except Exception:
                     selected = [item]
         return selected
 
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 7cfe8ef..0e68849 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -281,10 +281,10 @@ class CSVFileStorage(Storage):
                     for value in line_items:
                         try:
                             float(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
-                        except:
+                        except Exception:
                             try:
                                 dt_from_str(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
-                            except:
+                            except Exception:
                                 not_converted += 1
 
                     # If it is, use it as labels (and continue with the next line)
@@ -431,14 +431,14 @@ class CSVFileStorage(Storage):
                                 logger.debug('Auto-detected timestamp format: epoch')
                                 timestamp_format = 'epoch'
                                 self._set_auto_detected('timestamp_format', timestamp_format)
-                            except:
+                            except Exception:
                                 try:
                                     # is this an iso8601?
                                     dt = dt_from_str(timestamp)
                                     logger.debug('Auto-detected timestamp format: iso8601')
                                     timestamp_format = 'iso8601'
                                     self._set_auto_detected('timestamp_format', timestamp_format)
-                                except:
+                                except Exception:
                                     raise Exception('Cannot auto-detect timestamp format (got "{}")'.format(timestamp)) from None
 
                         # Epoch format?
@@ -612,7 +612,7 @@ class CSVFileStorage(Storage):
             for item in items:
                 try:
                     sample_timepointseries.append(TimePoint(t=item[0]))
-                except:
+                except Exception:
                     pass
                 if len(sample_timepointseries)>10:
                     break
diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index b8a6201..d0feb97 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -344,7 +344,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 # Get index value
                 try:
                     index_value = point.data_indexes[index]
-                except:
+                except Exception:
                     pass
                 else:
                     if index_value is not None:
@@ -419,7 +419,7 @@ class Transformation(object):
             else:
                 try:
                     from_t = float(start)
-                except:
+                except Exception:
                     raise ValueError('Cannot use "{}" as start value, not a datetime nor an epoch timestamp'.format(start))
         if end is not None:
             if isinstance(end, datetime):
@@ -427,7 +427,7 @@ class Transformation(object):
             else:
                 try:
                     to_t = float(end)
-                except:
+                except Exception:
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
@@ -751,7 +751,7 @@ class Aggregator(Transformation):
             if isinstance(operation, str):
                 try:
                     operation = getattr(operations_module, operation)
-                except:
+                except Exception:
                     raise
             operations.append(operation)
         self.operations = operations
diff --git a/timeseria/units.py b/timeseria/units.py
index b175157..974f9c7 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -41,7 +41,7 @@ class Unit(object):
             if len(other.coordinates) > 1:
                 raise NotImplementedError('Cannot sum multidimensional objects')
             return other.__class__(self.value + other.coordinates[0])
-        except:
+        except Exception:
             raise NotImplementedError('Don\'t know how to add Units with {}'.format(other.__class__.__name__))
 
     def __radd__(self, other):
@@ -62,7 +62,7 @@ class Unit(object):
             if len(other.coordinates) > 1:
                 raise NotImplementedError('Cannot subtract multidimensional objects')
             return other.__class__(self.value - other.coordinates[0])
-        except:
+        except Exception:
             raise NotImplementedError('Don\'t know how to subtract Units with {}'.format(other.__class__.__name__))
 
     def __rsub__(self, other):
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 77c3189..47eadda 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -56,7 +56,7 @@ def is_numerical(item):
         # Handle pandas-like data types (i.e. int64)
         item + 1
         return True
-    except:
+    except Exception:
         return False
 
 
@@ -845,17 +845,17 @@ def _check_resolution(series, resolution):
         try:
             if resolution == series.resolution.as_seconds():
                 return True
-        except:
+        except Exception:
             pass
         try:
             if resolution.as_seconds() == series.resolution:
                 return True
-        except:
+        except Exception:
             pass
         try:
             if resolution.as_seconds() == series.resolution:
                 return True
-        except:
+        except Exception:
             pass
         return False
 
@@ -1054,7 +1054,7 @@ def _is_index_based(data):
     try:
         for i in range(len(data)):
             data[i]
-    except:
+    except Exception:
         return False
     else:
         return True
@@ -1066,7 +1066,7 @@ def _is_key_based(data):
     try:
         for key in data:
             data[key]
-    except:
+    except Exception:
         return False
     else:
         return True
@@ -1078,7 +1078,7 @@ def _has_numerical_values(data):
         for i in range(len(data)):
             try:
                 data[i] + 1
-            except:
+            except Exception:
                 return False
         return True
 
@@ -1086,7 +1086,7 @@ def _has_numerical_values(data):
         for key in data:
             try:
                 data[key] + 1
-            except:
+            except Exception:
                 return False
         return True
 
-- 
2.43.0


From 2a1e71f4ed5bd5498a96ba1de0984585d0359f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 31/97] fix: do not mix metadata and data of different series
 if a file is replaced while loading it

---
 timeseria/datastructures.py | 41 ++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 7a53c82..849fa5a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1558,9 +1558,8 @@ class TimeSeries(Series):
     #  Load/save
     #=========================
 
-    @classmethod
-    def load(cls, file_name):
-        """Load a series from a (CSV) file, in Timeseria format."""
+    @staticmethod
+    def _load_metadata(file_name):
 
         metadata = None
         # Note: the metadata is always plain text, regardless of the encoding of the labels and of the platform default one
@@ -1582,17 +1581,35 @@ class TimeSeries(Series):
         if not metadata:
             raise ValueError('The file provided is not a Timeseria time series data file. Perhaps you wanted to use the from_csv() method?')
 
-        force_points = True if metadata['type'] == 'points' else False
-        force_slots = True if metadata['type'] == 'slots' else False
-        force_tz = metadata['tz']
-        if force_slots:
-            force_slot_unit = metadata['resolution']
-        else:
-            force_slot_unit = None
+        return metadata
+
+
+    @classmethod
+    def load(cls, file_name):
+        """Load a series from a (CSV) file, in Timeseria format."""
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name, encoding=metadata.get('encoding', 'auto'), separator=metadata.get('separator', ','))
-        loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
+
+        metadata = cls._load_metadata(file_name)
+
+        while True:
+
+            force_points = True if metadata['type'] == 'points' else False
+            force_slots = True if metadata['type'] == 'slots' else False
+            force_tz = metadata['tz']
+            if force_slots:
+                force_slot_unit = metadata['resolution']
+            else:
+                force_slot_unit = None
+
+            storage = CSVFileStorage(file_name, encoding=metadata.get('encoding', 'auto'), separator=metadata.get('separator', ','))
+            loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
+
+            # If the file has been replaced in the meanwhile, the metadata might not be the one of the data just loaded
+            current_metadata = cls._load_metadata(file_name)
+            if current_metadata == metadata:
+                break
+            metadata = current_metadata
 
         if loaded_series.__class__ == cls:
             return loaded_series
-- 
2.43.0


From 7844b1eafa5d30e87b891166fdfea5f6b76a7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 32/97] fix: detect the encoding of a CSV file on the very same
 content which is then read

---
 timeseria/storages.py  | 16 ++++++++++------
 timeseria/utilities.py | 13 ++++++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 0e68849..4bfe178 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Data storages, as the CSV file storage."""
 
+import io
 import os
 import json
 import pytz
@@ -230,11 +231,6 @@ class CSVFileStorage(Storage):
         timestamp_column = self._get_setting('timestamp_column', auto='auto')
         timestamp_format = self._get_setting('timestamp_format', auto='auto')
 
-        # Detect encoding if not set
-        if not encoding:
-            encoding = detect_encoding(self.filename, streaming=False)
-            self._set_auto_detected('encoding', encoding)
-
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
             tz = timezonize(force_tz)
@@ -244,7 +240,15 @@ class CSVFileStorage(Storage):
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
         items = []
-        with open(self.filename, 'r', encoding=encoding) as csv_file:
+        with open(self.filename, 'rb') as binary_file:
+
+            # Detect encoding if not set. Use the very same file, as it might get replaced in the meanwhile
+            if not encoding:
+                encoding = detect_encoding(binary_file, streaming=False)
+                self._set_auto_detected('encoding', encoding)
+                binary_file.seek(0)
+
+            csv_file = io.TextIOWrapper(binary_file, encoding=encoding)
 
             while True:
 
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 47eadda..970fc91 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -3,6 +3,7 @@
 
 import re
 import codecs
+import contextlib
 import random
 import numpy
 import chardet
@@ -61,10 +62,16 @@ def is_numerical(item):
 
 
 def detect_encoding(file_name, streaming=False):
-    """Detect the encoding of a file."""
+    """Detect the encoding of a file, given its name or as an already open (binary) file."""
+
+    if hasattr(file_name, 'read'):
+        open_file = contextlib.nullcontext(file_name)
+    else:
+        open_file = open(file_name, 'rb')
+
     if streaming:
         detector = UniversalDetector()
-        with open(file_name, 'rb') as file_pointer:
+        with open_file as file_pointer:
             for i, line in enumerate(file_pointer.readlines()):
                 logger.debug('Itearation #%s: confidence=%s',i,detector.result['confidence'])
                 detector.feed(line)
@@ -75,7 +82,7 @@ def detect_encoding(file_name, streaming=False):
         chardet_results = detector.result
 
     else:
-        with open(file_name, 'rb') as file_pointer:
+        with open_file as file_pointer:
             content = file_pointer.read()
 
         # Text which is not plain ASCII is extremely unlikely to be valid UTF-8 by chance, while
-- 
2.43.0


From 30874473a38db6eb15272d1cc9a45b2cdae3efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 33/97] fix: do not stop at the first data loss when applying
 reconstructor-based anomaly detectors

---
 timeseria/models/anomaly_detectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1a068ae..abcf4e0 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -661,9 +661,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         break
                 if not abort:
                     if issubclass(self.model_class, Reconstructor):
-                        if series[i-j-1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
-                            abort=True
-                            break
+                        for j in range(self.data['model_window']):
+                            if series[i+j+1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
+                                abort=True
+                                break
             if abort:
                 # Just append the item as-is and continue
                 result_series.append(item)
-- 
2.43.0


From 5f548ce3707bd65372b04b9d64a7a7290fc18ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 34/97] fix: do not share items with the original series when
 applying anomaly detectors with data losses

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index abcf4e0..476e12b 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -666,8 +666,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                                 abort=True
                                 break
             if abort:
-                # Just append the item as-is and continue
-                result_series.append(item)
+                # Just append the item as-is (but not the very same item, as it belongs to the original series) and continue
+                result_series.append(deepcopy(item))
                 continue
 
             # Start computing the anomaly index
-- 
2.43.0


From 9a2c6a7040db077e1542079cebe308780507fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 35/97] fix: save and load the fitted Prophet model

---
 timeseria/models/base.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 9c07ebc..042f8af 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -461,6 +461,33 @@ class Model():
 class _ProphetModel(Model):
     '''A model using Prophet as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path):
+
+        # Load the model..
+        model = super().load(path)
+
+        # ..and the fitted Prophet model
+        from prophet.serialize import model_from_json
+        with open('{}/prophet_model.json'.format(path), 'r') as f:
+            model.prophet_model = model_from_json(f.read())
+
+        return model
+
+    def save(self, path):
+
+        # Save the model..
+        super().save(path)
+
+        # ..and the fitted Prophet model, without leaving around a partially saved model if something goes wrong
+        try:
+            from prophet.serialize import model_to_json
+            with open('{}/prophet_model.json'.format(path), 'w') as f:
+                f.write(model_to_json(self.prophet_model))
+        except BaseException:
+            shutil.rmtree(path, ignore_errors=True)
+            raise
+
     @classmethod
     def _remove_timezone(cls, dt):
         return dt.replace(tzinfo=None)
-- 
2.43.0


From 7cd2cd490407f0920d86319607b133b0d14d813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 36/97] fix: do not use pre-processed data of previous fits in
 anomaly detectors

---
 timeseria/models/anomaly_detectors.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 476e12b..9fb4b54 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -3,6 +3,7 @@
 
 import shutil
 from copy import deepcopy
+from ..exceptions import NotFittedError
 from ..utilities import _Gaussian, rescale
 from .forecasters import Forecaster, PeriodicAverageForecaster, LSTMForecaster
 from .reconstructors import Reconstructor, PeriodicAverageReconstructor
@@ -488,6 +489,11 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
     def preprocess(self, series, inplace=False, verbose=False):
         """Pre-process a time series for this anomaly detector so that multiple apply() calls are much faster"""
+
+        # Ensure the model is fitted
+        if not self.fitted:
+            raise NotFittedError()
+
         if not inplace:
             series = series.duplicate()
 
@@ -517,9 +523,13 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             series.predictions[i] = ith_predictions
 
-        series.preprocessed_by = self.id
+        series.preprocessed_by = self._get_preprocessing_id()
         return series
 
+    def _get_preprocessing_id(self):
+        # The internal model(s) are different for each fit, while the id of this model is always the same
+        return (self.id, self.data['model_ids'] if self.data['with_context'] else self.data['model_id'])
+
     @Model.apply_function
     def apply(self, series, index_bounds=['avg_err','max_err'], index_type='log', threshold=None, multivariate_index_strategy='max',
               data_loss_threshold=1.0, details=False, verbose=False):
@@ -627,7 +637,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
         # Is this series pre-processed?
         try:
-            preprocessed = True if series.preprocessed_by == self.id else False
+            preprocessed = True if series.preprocessed_by == self._get_preprocessing_id() else False
         except AttributeError:
             preprocessed = False
 
-- 
2.43.0


From 92d069fa5025054bd1a34cd970ff34486f49c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 37/97] fix: load models fitted on series with no resolution
 defined

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 042f8af..ba16ffa 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -103,7 +103,7 @@ class Model():
 
         # Convert resolution to TimeUnit if any. TODO: right now only TimeSeries have the resolution,
         # but might change in case of adding the resolution attribute also to generic series.
-        if 'resolution' in model.data:
+        if model.data.get('resolution') is not None:
             model.data['resolution'] = TimeUnit(model.data['resolution'])
 
         return model
@@ -128,7 +128,7 @@ class Model():
 
         # Prepare the data, changing the resolution to its string representation (if any)
         data = dict(self.data)
-        if 'resolution' in data:
+        if data.get('resolution') is not None:
             data['resolution'] = str(data['resolution'])
         data_as_json = json.dumps(data)
 
-- 
2.43.0


From 180ad6492170bf5537a56e220bf0acdc645f4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 38/97] fix: never give items outside of the views

Views gave items outside of them when using out of range positions or slices, and ignored their items when reversed, compared, copied, summed, searched or when getting them by position.
---
 timeseria/datastructures.py | 73 ++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 849fa5a..e12b2e3 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1915,41 +1915,18 @@ class TimeSeriesView(TimeSeries):
         super().__init__(*items, **kwargs)
 
     def __getitem__(self, arg):
-
         if self.series:
-
-            if isinstance(arg, slice):
-
-                if isinstance(arg.start, int):
-                    if arg.start>=0:
-                        slice_start =  self.from_i + arg.start
-                    else:
-                        slice_start =  self.to_i - abs(arg.start)
-                elif arg.start is None:
-                    slice_start = self.from_i
-                else:
-                    slice_start = arg.start
-
-                if isinstance(arg.stop, int):
-                    if arg.stop>=0:
-                        slice_stop =  self.from_i + arg.stop
-                    else:
-                        slice_stop =  self.to_i - abs(arg.stop)
-                elif arg.stop is None:
-                    slice_stop = self.to_i
-                else:
-                    slice_stop = arg.stop
-
-                return self.series[slice_start:slice_stop]
-
+            if isinstance(arg, int):
+                i = arg if arg >= 0 else len(self) + arg
+                # Note: the item before an empty view is what the models with no window start from
+                if i >= len(self) or (i < 0 and len(self)):
+                    raise IndexError('view index out of range')
+                return self.series[self.from_i + i]
+            elif isinstance(arg, slice) and arg.step is None and all(isinstance(limit, (int, type(None))) for limit in (arg.start, arg.stop)):
+                start, stop, _ = slice(arg.start, arg.stop).indices(len(self))
+                return self.series[self.from_i + start:self.from_i + max(start, stop)]
             else:
-                if isinstance(arg, int):
-                    if arg>=0:
-                        return self.series[self.from_i + arg]
-                    else:
-                        return self.series[self.to_i - abs(arg)]
-                else:
-                    return super().__getitem__(arg)
+                return super().__getitem__(arg)
         else:
             return super().__getitem__(arg)
 
@@ -1960,6 +1937,36 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().__iter__()
 
+    def __reversed__(self):
+        return (self[i] for i in range(len(self)-1, -1, -1))
+
+    def __contains__(self, item):
+        return any(item is this_item or item == this_item for this_item in self)
+
+    def __eq__(self, other):
+        return list(self) == (list(other) if isinstance(other, TimeSeriesView) else other)
+
+    def __ne__(self, other):
+        return not self == other
+
+    # Required as defining the equality would otherwise disable it
+    __hash__ = TimeSeries.__hash__
+
+    def __add__(self, other):
+        return list(self) + list(other)
+
+    def _item_by_i(self, i):
+        if self.series:
+            return self[i]
+        else:
+            return super()._item_by_i(i)
+
+    def index(self, x, start=None, end=None):
+        return list(self).index(x, 0 if start is None else start, len(self) if end is None else end)
+
+    def copy(self):
+        return list(self)
+
     def __len__(self):
         if self.series:
             return self.to_i-self.from_i
-- 
2.43.0


From f881932d620b8711c3299419820fddd0de382fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 39/97] fix: allow nested iterations of the series passed to
 user-defined operations

---
 timeseria/transformations.py | 96 +++++++++++++-----------------------
 1 file changed, 35 insertions(+), 61 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index d0feb97..6f7c1ae 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -52,86 +52,60 @@ class _TimeSeriesDenseView(TimeSeriesView):
             return self.series[self.to_i - abs(i)]
 
     def __iter__(self):
-        self.count = 0
-        self.prev_was_new = False
-        return self
+        # Each iteration must have its own state, in order to support nested and concurrent ones
 
-    def __next__(self):
+        for this_i in range(self.from_i, self.to_i):
 
-        this_i = self.count + self.from_i
+            # If not the first point, check if we have to add a new missing point before it: do we have a gap?
+            if self.dense and this_i > self.from_i:
 
-        if this_i >= self.to_i:
-            # If reached the end stop
-            raise StopIteration
-
-        elif self.count == 0 or not self.dense:
-            # If first point or not dense just return
-            self.count += 1
-            return self.series[this_i]
-
-        else:
-            # Otherwise check if we have to add new missing points
-
-            if self.prev_was_new:
-                # If we just created a new missing point, return
-                self.prev_was_new = False
-                self.count += 1
-                return self.series[this_i]
-
-            else:
-                # Check if we have to add a new missing point: do we have a gap?
                 prev_point = self.series[this_i-1]
                 this_point = self.series[this_i]
 
-
                 if prev_point.valid_to < this_point.valid_from:
 
-                    # yes, we do have a gap. Add a missing point by interpolation
+                    # Yes, we do have a gap. Add a missing point by interpolation
+                    yield self._get_new_point(prev_point, this_point, this_i)
 
-                    # Compute new point validity
-                    if self.from_t is not None and prev_point.valid_to < self.from_t:
-                        new_point_valid_from = self.from_t
-                    else:
-                        new_point_valid_from = prev_point.valid_to
+            yield self.series[this_i]
 
-                    if self.to_t is not None and this_point.valid_from > self.to_t:
-                        new_point_valid_to = self.to_t
-                    else:
-                        new_point_valid_to = this_point.valid_from
+    def _get_new_point(self, prev_point, this_point, this_i):
 
-                    # Compute new point timestamp
-                    new_point_t = new_point_valid_from + (new_point_valid_to-new_point_valid_from)/2
+        # Compute new point validity
+        if self.from_t is not None and prev_point.valid_to < self.from_t:
+            new_point_valid_from = self.from_t
+        else:
+            new_point_valid_from = prev_point.valid_to
 
-                    # Can we use cache?
-                    if new_point_t in self.new_points:
-                        self.prev_was_new = True
-                        return self.new_points[new_point_t]
+        if self.to_t is not None and this_point.valid_from > self.to_t:
+            new_point_valid_to = self.to_t
+        else:
+            new_point_valid_to = this_point.valid_from
 
-                    # Log new point creation
-                    logger.debug('New point t=,%s validity: [%s,%s]',new_point_t, new_point_valid_from,new_point_valid_to)
+        # Compute new point timestamp
+        new_point_t = new_point_valid_from + (new_point_valid_to-new_point_valid_from)/2
 
-                    # Compute the new point values using the interpolator
-                    new_point_data = self.interpolator.evaluate(new_point_t, prev_i=this_i-1, next_i=this_i)
+        # Can we use cache?
+        if new_point_t in self.new_points:
+            return self.new_points[new_point_t]
 
-                    # Create the new point
-                    new_point = this_point.__class__(t = new_point_t, data = new_point_data)
-                    new_point.valid_from = new_point_valid_from
-                    new_point.valid_to = new_point_valid_to
-                    new_point._interpolated = True
+        # Log new point creation
+        logger.debug('New point t=,%s validity: [%s,%s]',new_point_t, new_point_valid_from,new_point_valid_to)
 
-                    # Set flag
-                    self.prev_was_new = True
+        # Compute the new point values using the interpolator
+        new_point_data = self.interpolator.evaluate(new_point_t, prev_i=this_i-1, next_i=this_i)
 
-                    # Add to cache
-                    self.new_points[new_point_t] = new_point
+        # Create the new point
+        new_point = this_point.__class__(t = new_point_t, data = new_point_data)
+        new_point.valid_from = new_point_valid_from
+        new_point.valid_to = new_point_valid_to
+        new_point._interpolated = True
 
-                    # ..and return it
-                    return new_point
+        # Add to cache
+        self.new_points[new_point_t] = new_point
 
-                else:
-                    # Return this point if no gaps
-                    self.count += 1
-                    return this_point
+        # ..and return it
+        return new_point
 
     def __len__(self):
         if not self.dense:
-- 
2.43.0


From 7e838dcdd91634f44a1e316e6525d7b5f76d410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 40/97] fix: set the time zone of the points interpolated when
 aggregating

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 6f7c1ae..dda9896 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -96,7 +96,7 @@ class _TimeSeriesDenseView(TimeSeriesView):
         new_point_data = self.interpolator.evaluate(new_point_t, prev_i=this_i-1, next_i=this_i)
 
         # Create the new point
-        new_point = this_point.__class__(t = new_point_t, data = new_point_data)
+        new_point = this_point.__class__(t = new_point_t, data = new_point_data, tz = self.series.tz)
         new_point.valid_from = new_point_valid_from
         new_point.valid_to = new_point_valid_to
         new_point._interpolated = True
-- 
2.43.0


From b942df4e676ff9cdfdb89652a82680ebccfc0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 41/97] fix: allow filling the missing data with zeros

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index dda9896..99bf2f3 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -248,7 +248,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     #  Compute slot data
     elif target=='slot':
 
-        if data_loss == 1 and fill_with:
+        if data_loss == 1 and fill_with is not None:
             for data_label in data_labels:
                 for operation in operations:
                     data['{}_{}'.format(data_label, operation.__name__)] = fill_with
-- 
2.43.0


From 92d839d02c5511284de690948387ba121eb7fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 42/97] fix: do not wrap around out of range negative positions
 when getting items

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index b25d853..30b7533 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -851,6 +851,8 @@ class Get(Operation):
         # Handle negative index
         if at_i is not None and at_i < 0:
             at_i = len(series) - abs(at_i)
+            if at_i < 0:
+                raise IndexError('list index out of range')
 
         if at_i is not None:
             return series._item_by_i(at_i)
-- 
2.43.0


From d8cb9dcad846dcfae7b600db2ed39ef6e825b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 43/97] fix: mark the events at the end of the series as the
 other ones

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 9fb4b54..6466829 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -109,13 +109,13 @@ class AnomalyDetector(Model):
         if event_start is not None:
 
             # When was the last event over?
-            event_end = len(event_timeseries)
+            event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
                 if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-            event_persistence =  event_end - event_start
+            event_persistence =  event_end + 1 - event_start
             if event_persistence < min_persistence:
                 logger.debug('  discarding as below minimum persistence')
             else:
-- 
2.43.0


From 3fb8e4828dbc357873cfac073bdca3eb0979f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 44/97] fix: mark events when some items have no anomaly index

---
 timeseria/models/anomaly_detectors.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 6466829..cadc6d7 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -66,20 +66,25 @@ class AnomalyDetector(Model):
             event_timeseries = timeseries.duplicate()
         event_start = None
 
+        # Items for which the anomaly index was not computed (i.e. because of missing data) are not anomalous
+        def is_anomalous(item):
+            anomaly_index = item.data_indexes.get('anomaly')
+            return anomaly_index is not None and anomaly_index >= index_treshold
+
         for i, item in enumerate(event_timeseries):
 
             # Set no event by default
             item.data_indexes['anomaly_event'] = 0
 
             # Detect new (potential) event start
-            if item.data_indexes['anomaly'] >= index_treshold:
+            if is_anomalous(item):
                 if event_start is None:
                     logger.debug('Starting to suspect event @ element #%s',i)
                     event_start = i
 
             # Detect event end
             if event_start is not None:
-                if item.data_indexes['anomaly'] < index_treshold:
+                if not is_anomalous(item):
                     logger.debug('Evaluating element #%s to trigger an event end', i)
 
                     # Are we still within the max gap? If so, don't close the (potential) event yet
@@ -88,7 +93,7 @@ class AnomalyDetector(Model):
                     event_ended = True
                     logger.debug('  checking elements from #%s to #%s', from_i, to_i)
                     for j in range(from_i, to_i+1):
-                        if event_timeseries[j].data_indexes['anomaly'] >= index_treshold:
+                        if is_anomalous(event_timeseries[j]):
                             event_ended = False
                     if event_ended:
                         logger.debug('  event was ended @ element #%s', i - max_gap - 1)
@@ -111,7 +116,7 @@ class AnomalyDetector(Model):
             # When was the last event over?
             event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
-                if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
+                if is_anomalous(event_timeseries[i]):
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-- 
2.43.0


From 887a07a8831ad416ea7a378c2fb1b8401f129b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 45/97] fix: select always the same error distribution among
 equivalent ones

---
 timeseria/models/anomaly_detectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index cadc6d7..8992313 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -412,7 +412,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             # Fit the distributions and select the best one
             fitter = fitter_library.fitter.Fitter(prediction_errors[data_label], distributions=error_distributions)
-            fitter.fit(progress=False)
+            # Not in parallel, or the one selected among equivalent distributions would depend on which one is fitted first
+            fitter.fit(progress=False, max_workers=1)
 
             if summary:
                 # Warning: the summary() function will also generate a plot
-- 
2.43.0


From 8aa9fa9a7904a8fcade47a75f57201d0f6a1f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 46/97] fix: use always the same time zone object for the
 points created from datetimes

---
 timeseria/datastructures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index e12b2e3..9c45ea0 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -122,7 +122,10 @@ class TimePoint(Point):
                         if kwargs['dt'].tzinfo == UTC:
                             pass
                         else:
-                            self._tz = kwargs['dt'].tzinfo
+                            # In pytz there is a different tzinfo for each offset of the same
+                            # time zone (i.e. because of DST), so always use the same one.
+                            zone = getattr(kwargs['dt'].tzinfo, 'zone', None)
+                            self._tz = timezonize(zone) if zone else kwargs['dt'].tzinfo
                             #raise NotImplementedError('Not yet tz from dt ("{}")'.format(kwargs['dt']))
 
             #else:
-- 
2.43.0


From 9d6127e07340ea871275d0fb516333f7fd5a96e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 47/97] fix: average the offset of periodic average forecasts
 over the entire window

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index db328fc..ff4b221 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -571,7 +571,7 @@ class PeriodicAverageForecaster(Forecaster):
                     diffs += (real_value - predict_value)
 
                 # Sum the avg diff between the real and the forecast on the window to the forecast (the offset)
-                offset = diffs/j
+                offset = diffs/self.data['windows'][data_label]
 
                 # Compute the forecast data
                 periodicity_index = _get_periodicity_index(predict_timestamp,
-- 
2.43.0


From e4a3eee440a4f36ef979008d41d0a013cc9529ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 48/97] fix: count the periods of calendar time units on the
 calendar

---
 timeseria/utilities.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 970fc91..f5739a4 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -895,6 +895,13 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     from .units import Unit, TimeUnit
     # Handle specific cases
     if isinstance(resolution, TimeUnit):
+        if (resolution.years or resolution.months or resolution.weeks or resolution.days) and not resolution._is_composite():
+            # Calendar time units have a variable length, so count them on the (local) calendar
+            if resolution.years or resolution.months:
+                return int((item.dt.year*12 + item.dt.month - 1) / (resolution.years*12 + resolution.months)) % periodicity
+            else:
+                days_since_epoch = item.dt.toordinal() - datetime(1970,1,1).toordinal()
+                return int(days_since_epoch / (resolution.weeks*7 + resolution.days)) % periodicity
         resolution_s = resolution.as_seconds(item.dt)
     elif isinstance(resolution, Unit):
         if isinstance(resolution, list):
-- 
2.43.0


From 4082f0be50665ee05f508a9eca28d0e069ce9412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 49/97] fix: do not consider as anomalous the absolute errors
 smaller than the average

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 8992313..c9bdb56 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -724,8 +724,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                 else:
                     raise ValueError('Unknown error type "{}"'.format(self.data['error_metric']))
 
-                # Reverse values on the left side of the error distribution
-                if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
+                # Reverse values on the left side of the error distribution (absolute errors are always on the right side)
+                if self.data['error_metric'] not in ['AE', 'APE'] and prediction_error < self.data['error_distributions_params'][data_label]['loc']:
                     prediction_error =  abs(prediction_error) + self.data['error_distributions_params'][data_label]['loc']
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
-- 
2.43.0


From 0e80764a9d847156c65668333ea82f25cf3addb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 50/97] fix: compute the percentage errors of reconstructors
 with respect to the actual values

---
 timeseria/models/reconstructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 959e235..8357dad 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -258,7 +258,7 @@ class Reconstructor(Model):
                 if 'MAE' in metrics:
                     evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_predicted_values, overall_actual_values)
                 if 'MAPE' in metrics:
-                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_actual_values, overall_predicted_values)
 
         # Compute overall RMSE
         if 'RMSE' in metrics:
-- 
2.43.0


From 65f0cec99007d9af17b55d685951f218ec8a7ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 51/97] fix: support evaluating reconstructors predicting a
 list of values by data label (as the linear interpolation one)

---
 timeseria/models/reconstructors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 8357dad..3e8c2bf 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -242,7 +242,12 @@ class Reconstructor(Model):
                         real_values.append(series[j].data[data_label])
 
                     # Add predicted and real values to the overall data to be later used for the RMS etc.
-                    overall_predicted_values += predicted_values[data_label]
+                    if isinstance(predicted_values, list):
+                        # List of dicts
+                        overall_predicted_values += [item_data[data_label] for item_data in predicted_values]
+                    else:
+                        # Dict of lists
+                        overall_predicted_values += predicted_values[data_label]
                     overall_actual_values += real_values
                     processed_samples+=1
 
-- 
2.43.0


From 184e04fd78b2ad9c0f35f83fb2e4bf30a9d45476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 52/97] fix: transformations with an explicit end go past it if
 there is no data around the end

---
 timeseria/transformations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 99bf2f3..96b9c9c 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -562,6 +562,10 @@ class Transformation(object):
                 while slot_end_t <= point.t:
                     logger.debug('Checking for end %s with point %s', slot_end_t, point.t)
 
+                    # Do not go past the end, even if there is no data around it
+                    if slot_start_t is not None and slot_start_t >= to_t:
+                        break
+
                     if slot_start_t is None:
                         # If we are in the pre-first slot, just silently spin a new slot
                         pass
-- 
2.43.0


From 37e737c369a8e4365571f2e9796ad1878b7a9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 53/97] fix: the data loss was over one when splitting items
 with a data loss in smaller ones

---
 timeseria/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index f5739a4..9c0c253 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -794,8 +794,10 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
                     continue
 
                 # Compute the contribution of this point data loss: overlapping
-                # first point, overlapping last point, or all included?
-                if point_valid_from_t < from_t:
+                # both, overlapping first point, overlapping last point, or all included?
+                if point_valid_from_t < from_t and point_valid_to_t >= to_t:
+                    point_contribution = to_t - from_t
+                elif point_valid_from_t < from_t:
                     point_contribution = abs(from_t - point_valid_to_t)
                 elif point_valid_to_t >= to_t:
                     point_contribution = abs(to_t - point_valid_from_t)
-- 
2.43.0


From 84e93be8dccd9fc3e5339d9805eb8dbc23b091d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 54/97] fix: splitting completely lost items in smaller ones
 failed with a ConsistencyException

---
 timeseria/transformations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 96b9c9c..34bfce5 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -204,8 +204,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
             # middle point from the series_dense_view_extended. Otherwise, we must compute it from
             # scratch as we are upsamping with no data loss but still no points belonging to the slot.
 
+            series_dense_view = None
             if data_loss==1:
-                series_dense_view = None
                 for point in series_dense_view_extended:
                     try:
                         if point._interpolated:
@@ -214,9 +214,9 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                             series_dense_view = series.__class__(point)
                     except AttributeError:
                         pass
-                if not series_dense_view:
-                    raise ConsistencyException('Could not find any reconstructed point in a fully missing slot')
-            else:
+
+            # Note: a full data loss can also come from points which were already lost, with nothing to reconstruct
+            if not series_dense_view:
                 # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
-- 
2.43.0


From 65e3d40ba5e2b7ed61c2170d60d09e7604527fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 55/97] fix: count the positions in a period across the epoch
 without repeating one (negative timestamps were truncated towards zero)

---
 timeseria/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 9c0c253..b5c5fe7 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -7,7 +7,7 @@ import contextlib
 import random
 import numpy
 import chardet
-from math import log
+from math import floor, log
 from chardet.universaldetector import UniversalDetector
 from numpy import fft
 from scipy.signal import find_peaks
@@ -903,7 +903,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
                 return int((item.dt.year*12 + item.dt.month - 1) / (resolution.years*12 + resolution.months)) % periodicity
             else:
                 days_since_epoch = item.dt.toordinal() - datetime(1970,1,1).toordinal()
-                return int(days_since_epoch / (resolution.weeks*7 + resolution.days)) % periodicity
+                return floor(days_since_epoch / (resolution.weeks*7 + resolution.days)) % periodicity
         resolution_s = resolution.as_seconds(item.dt)
     elif isinstance(resolution, Unit):
         if isinstance(resolution, list):
@@ -918,7 +918,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     if not dst_affected:
 
         # Get index based on item timestamp, normalized to unit, modulus periodicity
-        periodicity_index =  int(item.t / resolution_s) % periodicity
+        periodicity_index =  floor(item.t / resolution_s) % periodicity
 
     else:
 
@@ -929,7 +929,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
 
         if dst_timedelta.days == 0 and dst_timedelta.seconds == 0:
             # No DST
-            periodicity_index = int(item.t / resolution_s) % periodicity
+            periodicity_index = floor(item.t / resolution_s) % periodicity
 
         else:
             # DST
@@ -943,7 +943,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             dst_offset_s = dst_timedelta.seconds # 3600 usually
 
             # Compute the periodicity index
-            periodicity_index = (int((item.t + dst_offset_s) / resolution_s) % periodicity)
+            periodicity_index = (floor((item.t + dst_offset_s) / resolution_s) % periodicity)
 
     return periodicity_index
 
-- 
2.43.0


From c40a4bd6de5c843aad0f8717da0940caac480e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 56/97] fix: detect the periodicity of each data label in the
 periodic average forecaster, and not only of the first one

---
 timeseria/models/forecasters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index ff4b221..d471238 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -484,9 +484,11 @@ class PeriodicAverageForecaster(Forecaster):
         self.data['averages'] = {}
         self.data['dst_affected'] = dst_affected
 
+        requested_periodicity = periodicity
+
         for data_label in series.data_labels():
-            # Set or detect periodicity
-            if periodicity == 'auto':
+            # Set or detect periodicity (each data label has its own)
+            if requested_periodicity == 'auto':
                 periodicity =  detect_periodicity(series[data_label])
                 logger.info('Detected periodicity for "%s": %sx %s', data_label, periodicity, series.resolution)
 
-- 
2.43.0


From 0644136f161312bec5cd5c7815fd2bae4c11621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:42 +0000
Subject: [PATCH 57/97] fix: do not take the first line of a CSV file without
 labels for them if its values have a decimal comma

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 4bfe178..309d94f 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -284,7 +284,7 @@ class CSVFileStorage(Storage):
                     not_converted = 0
                     for value in line_items:
                         try:
-                            float(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
+                            _to_float(value,NO_DATA_PLACEHOLDERS)
                         except Exception:
                             try:
                                 dt_from_str(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
-- 
2.43.0


From f491521ea76b9ed69a877dd2ae1dd125ffe8e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 58/97] fix: divide by the actual distance of the points at the
 edges when deriving series at variable resolution

---
 timeseria/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 30b7533..974f302 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -308,9 +308,9 @@ class Derivative(Operation):
                     if diff is not None:
                         diff = diff / sampling_interval
                     elif diff_right is None:
-                        diff = diff_left / sampling_interval
+                        diff = diff_left / (series[i].t - series[i-1].t if variable_resolution else sampling_interval)
                     elif diff_left is None:
-                        diff = diff_right / sampling_interval
+                        diff = diff_right / (series[i+1].t - series[i].t if variable_resolution else sampling_interval)
                     else:
                         if variable_resolution:
                             diff = ((diff_left / (series[i].t - series[i-1].t)) + (diff_right / (series[i+1].t - series[i].t))) /2
-- 
2.43.0


From f40e6b2f975a20226ade4be102c15c51eb5999ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 59/97] fix: support scalar offsets when integrating list data

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 974f302..2e5b4af 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -435,7 +435,7 @@ class Integral(Operation):
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
                         for data_label in data_labels:
-                            prev_data.append(offset[data_label])
+                            prev_data.append(offset)
 
                 if isinstance(item, Point):
                     int_series.append(item.__class__(t = item.t - series.resolution,
-- 
2.43.0


From 6056d6b2f1f912e808670381bd7269209e7180b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 60/97] fix: do not mix up the data labels when integrating

---
 timeseria/operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 2e5b4af..6efca0d 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -405,6 +405,7 @@ class Integral(Operation):
             data_is_keyvalue = False
 
         last_values={}
+        prev_right_components={}
 
         # Labels and values to work on. If working in-place, these have to be the original ones
         data_labels = series.data_labels()
@@ -463,12 +464,12 @@ class Integral(Operation):
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = get_value(i, data_label)
+                        prev_right_components[data_label] = get_value(i, data_label)
                     else:
-                        left_component = (get_value(i-1, data_label)*2) - prev_right_component
+                        left_component = (get_value(i-1, data_label)*2) - prev_right_components[data_label]
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
-                        prev_right_component = left_component
+                        prev_right_components[data_label] = left_component
 
                 # Normalize the cumulative to get the actual integral
                 if normalize:
-- 
2.43.0


From c231a4384e9f8968158ce9ee0a0c2753b1b840da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 61/97] fix: refuse merging series which are not aligned, and
 keep the merged slots on the time zone of the first one

---
 timeseria/operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 6efca0d..4d9a069 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1119,6 +1119,10 @@ class Merge(Operation):
                 # Set the item according to the offset
                 item = series[i + offsets[series]]
 
+                # Calendar units can drift apart if on different timezones
+                if not _is_close(item.t, reference_series[i].t):
+                    raise ValueError('Series items are not aligned (got "{}" and "{}"), cannot merge'.format(reference_series[i], item))
+
                 # Data
                 for data_label in item.data:
                     if data_label not in data_count:
@@ -1159,7 +1163,7 @@ class Merge(Operation):
                                                              data  = data,
                                                              data_indexes = data_indexes))
             elif isinstance(reference_series[0], Slot):
-                result_series.append(seriess[0][0].__class__(start = copy(reference_series[i].start),
+                result_series.append(seriess[0][0].__class__(start = copy(seriess[0][i + offsets[seriess[0]]].start),
                                                              unit  = unit,
                                                              data  = data,
                                                              data_indexes = data_indexes))
-- 
2.43.0


From 3c74cfad855aa93947d54c185c703a2754428a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 62/97] fix: get the data loss back as an index when creating
 series from data frames

---
 timeseria/datastructures.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9c45ea0..95ed3d0 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1720,6 +1720,15 @@ class TimeSeries(Series):
         storage.put(self, overwrite=overwrite)
 
 
+    @staticmethod
+    def _pop_data_loss(data):
+        """Get the data indexes out of the data of a data frame row: the data loss (as written by the to_df() method)."""
+        if 'data_loss' not in data or len(data) == 1:
+            return {}
+        data_loss = data.pop('data_loss')
+        # Missing values are converted to NaNs in data frames
+        return {'data_loss': data_loss if data_loss == data_loss else None}
+
     @classmethod
     def from_df(cls, df, item_type='auto'):
         """Create a time series from a Pandas data frame."""
@@ -1794,6 +1803,7 @@ class TimeSeries(Series):
                 data = {}
                 for i,label in enumerate(labels):
                     data[label] = row[1][i]
+                data_indexes = cls._pop_data_loss(data)
 
                 if dt.tzinfo is None:
                     if not naive_warned:
@@ -1801,7 +1811,7 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data))
+                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimeslots)
@@ -1825,6 +1835,7 @@ class TimeSeries(Series):
                 data = {}
                 for i,label in enumerate(labels):
                     data[label] = row[1][i]
+                data_indexes = cls._pop_data_loss(data)
 
                 if dt.tzinfo is None:
                     if not naive_warned:
@@ -1832,7 +1843,7 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimepoints.append(DataTimePoint(dt=dt, data=data))
+                datatimepoints.append(DataTimePoint(dt=dt, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimepoints)
-- 
2.43.0


From ffeec221faddc6eba2ce414509f158d64cc4afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 63/97] fix: support numpy values when converting to JSON

---
 timeseria/datastructures.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 95ed3d0..1bfd5de 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1696,7 +1696,15 @@ class TimeSeries(Series):
         timeseries_as_dict = {}
         for item in self:
             timeseries_as_dict[str_from_dt(item.dt)] = item.data
-        return json.dumps(timeseries_as_dict)
+
+        def to_native(value):
+            # Numpy values (as the ones of the data frames) have to be converted
+            try:
+                return value.item()
+            except AttributeError:
+                raise TypeError('Object of type {} is not JSON serializable'.format(value.__class__.__name__)) from None
+
+        return json.dumps(timeseries_as_dict, default=to_native)
 
 
     @classmethod
-- 
2.43.0


From 2c270c124b9d99ce677408f197fc514251057b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 64/97] fix: recognise yearly frequencies when creating series
 from data frames

---
 timeseria/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 1bfd5de..5736cef 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1755,6 +1755,8 @@ class TimeSeries(Series):
         else:
 
             # Calendar
+            if unit_str_pd.lstrip('0123456789')[0] in ['A', 'Y']:
+                unit_str_pd=unit_str_pd.split('-')[0]    # Year, with its first or last month
             unit_str_pd=unit_str_pd.replace('A', 'Y')    # Year (end) ?
             unit_str_pd=unit_str_pd.replace('Y', 'Y')    # Year (end) )
             unit_str_pd=unit_str_pd.replace('AS', 'Y')   # Year (start)
-- 
2.43.0


From 71971ddee7b9a4c4745ef34906c522b4c4e846c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 65/97] fix: do not fail in describing (and plotting) views of
 a single item of series at variable resolution

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 5736cef..f06f0b4 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1546,7 +1546,8 @@ class TimeSeries(Series):
 
     @property
     def _resolution_string(self):
-        if self.resolution is None:
+        # Note: views are at the resolution of their series, but the sampling interval of a single item cannot be detected
+        if self.resolution is None or (self.resolution == 'variable' and len(self) < 2):
             resolution_string = 'undefined resolution'
         else:
             if self.resolution == 'variable':
-- 
2.43.0


From 51395b80ca2554e01e8930a1c6d856e0b81eb976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 66/97] fix: plot marks on any time zone (and on the one of the
 series)

---
 timeseria/plots.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 24e70b4..c5ac938 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -8,7 +8,7 @@
 import os
 import uuid
 import datetime
-from propertime.utils import dt_from_s, str_from_dt, dt_from_str, s_from_dt
+from propertime.utils import dt_from_s, s_from_dt
 from .units import TimeUnit
 from .utilities import is_numerical, os_shell
 try:
@@ -101,13 +101,9 @@ def to_rgba_str_from_norm_rgb(rgb, a):
     return 'rgba({},{},{},{})'.format(rgb[0]*255,rgb[1]*255,rgb[2]*255,a)
 
 def _utc_fake_s_from_dt(dt):
-    dt_str = str_from_dt(dt)
-    if '+' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('+')[0]+'+00:00'))
-    elif '-' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('-')[0]+'+00:00'))
-    else:
+    if dt.tzinfo is None:
         raise ValueError('Cannot convert to fake UTC epoch a datetime without a timezone')
+    return s_from_dt(dt.replace(tzinfo=datetime.timezone.utc))
 
 def _check_data_for_plot(data):
     if is_numerical(data):
@@ -899,9 +895,13 @@ animatedZooms: true,"""
         if not isinstance(mark[1], datetime.datetime):
             raise TypeError('Mark start/end marks be datetime objects')
 
-        # Convert the mark to fake epoch milliseconds
-        mark_start = _utc_fake_s_from_dt(mark[0])*1000
-        mark_end   = _utc_fake_s_from_dt(mark[1])*1000
+        # Check that the mark is on a time zone (or it would be assumed on the one of the system)
+        if mark[0].tzinfo is None or mark[1].tzinfo is None:
+            raise ValueError('Mark start/end must have a time zone')
+
+        # Convert the mark to fake epoch milliseconds, on the same time zone of the plot
+        mark_start = _utc_fake_s_from_dt(mark[0].astimezone(series.tz))*1000
+        mark_end   = _utc_fake_s_from_dt(mark[1].astimezone(series.tz))*1000
 
         # Add js code
         dygraphs_javascript += 'underlayCallback: function(canvas, area, g) {'
-- 
2.43.0


From f93d43bb503146a337a2f89398c6f60780cee4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 67/97] fix: do not leave out the last items when plotting with
 aggregation

---
 timeseria/plots.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index c5ac938..c12986c 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -228,8 +228,9 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 except KeyError:
                     pass
 
-            # Dump aggregated data?
-            if (i!=0)  and ((i % aggregate_by)==0):
+            # Dump aggregated data? (the last items might be less than the ones to aggregate)
+            if ((i % aggregate_by)==0) or i==len(serie):
+                aggregated = ((i-1) % aggregate_by) + 1
                 if issubclass(serie.item_type, DataTimePoint):
                     last_t = item.t
                 elif issubclass(serie.item_type,DataTimeSlot):
@@ -239,7 +240,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
 
                 # Data
                 for i, label in enumerate(labels):
-                    avg = data_sums[i]/aggregate_by
+                    avg = data_sums[i]/aggregated
                     if full_precision:
                         data_part+='[{},{},{}],'.format(data_mins[i], avg, data_maxs[i])
                     else:
@@ -248,7 +249,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 # data_indexes
                 for i, index in enumerate(data_indexes_to_plot):
                     if index_sums[i] is not None:
-                        aggregated_index_value = index_sums[i]/aggregate_by
+                        aggregated_index_value = index_sums[i]/aggregated
                         if full_precision:
                             data_part+='[0,{},{}],'.format(aggregated_index_value,aggregated_index_value)
                         else:
-- 
2.43.0


From 0262d719313e08c31d0718d47f7ed5259f33feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 68/97] fix: support any character in data labels and indexes
 when plotting

---
 timeseria/plots.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index c12986c..3e08b35 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -6,6 +6,7 @@
 #================================================================#
 
 import os
+import json
 import uuid
 import datetime
 from propertime.utils import dt_from_s, s_from_dt
@@ -121,6 +122,11 @@ def _check_data_for_plot(data):
         raise Exception('Don\'t know how to plot data "{}" of type "{}"'.format(data, data.__class__.__name__))
 
 
+def _to_js(value):
+    # Note: the slash is escaped in order not to ever end the script
+    return json.dumps(value).replace('</', '<\\/')
+
+
 def _to_dg_time(dt):
     '''Get Dygraphs time form datetime'''
     #return '{}{:02d}-{:02d}T{:02d}:{:02d}:{:02d}+00:00'.format(dt.year, dt.month, dt.day, dt.hour, dt.minute,dt.second)
@@ -567,7 +573,7 @@ function legendFormatter(data) {
 
       if (g.getOption('showLabelsOnHighlight') !== true) return '';
 
-      var data_indexes = """+str(series._all_data_indexes())+""";
+      var data_indexes = """+_to_js(series._all_data_indexes())+""";
       var sepLines = g.getOption('labelsSeparateLines');
       var first_data_index = true;
       var html;
@@ -684,31 +690,26 @@ function legendFormatter(data) {
     _check_data_for_plot(series[0].data)
 
     # Loop over all the data labels
-    labels=''
+    labels_list = ['Timestamp']
     if data_labels_to_plot:
         for data_label_to_plot in data_labels_to_plot:
             if isinstance(series[0].data, list) or isinstance(series[0].data, tuple):
                 if len(data_labels_to_plot) == 1:
-                    labels='value,'
+                    labels_list.append('value')
                 else:
-                    labels += 'value {},'.format(data_label_to_plot)
+                    labels_list.append('value {}'.format(data_label_to_plot))
             else:
-                labels += '{},'.format(data_label_to_plot)
-        # Remove last comma
-        labels = labels[0:-1]
+                labels_list.append('{}'.format(data_label_to_plot))
     else:
-        labels='value'
+        labels_list.append('value')
 
     # Set index labels
     for index in data_indexes_to_plot:
-        labels+=',{}'.format(index)
+        labels_list.append('{}'.format(index))
 
     # Handle series mark (as index)
     if mark and RENDER_MARK_AS_INDEX:
-        labels+=',data_mark'
-
-    # Prepare labels string list for Dygraphs
-    labels_list = ['Timestamp'] + labels.split(',')
+        labels_list.append('data_mark')
 
     # Get series data in Dygraphs format (and aggregate if too much data and find global min and max)
     global_min, global_max, dg_data = _to_dg_data(series, data_labels_to_plot, data_indexes_to_plot, full_precision, aggregate_by, mark)
@@ -733,7 +734,7 @@ function legendFormatter(data) {
 #dateWindow: [0,"""+str(_utc_fake_s_from_dt(series[-1].end.dt)*1000)+"""],
 
     dygraphs_javascript += """{\
-labels: """+str(labels_list)+""",
+labels: """+_to_js(labels_list)+""",
 drawGrid: true,
 drawPoints:"""+drawPoints_value+""",
 strokeWidth: 1.5,
@@ -828,7 +829,7 @@ animatedZooms: true,"""
 
         # Now create the entry for this data index
         dygraphs_javascript += """
-        '"""+data_index_to_plot+"""': {
+        """+_to_js(data_index_to_plot)+""": {
          //customBars: false, // Does not work?
          axis: 'y2',
          drawPoints: false,
@@ -855,7 +856,7 @@ animatedZooms: true,"""
     # Add all non-index series to be included in the miniplot
     for label in data_labels_to_plot:
         dygraphs_javascript += """
-           '"""+str(label)+"""': {
+           """+_to_js(str(label))+""": {
              showInRangeSelector:true
            },"""
 
-- 
2.43.0


From e430027360809349327c9bfff1ddf1a27c6f35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 69/97] fix: always save plots with the encoding they declare

---
 timeseria/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 3e08b35..8941d2f 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -994,7 +994,7 @@ define('"""+graph_id+"""', ['dgenv'], function (Dygraph) {
 
         # Dump html to file
         try:
-            with open(html_dest, 'w') as f:
+            with open(html_dest, 'w', encoding='utf-8') as f:
                 f.write(html_content)
         except UnboundLocalError:
             pass
-- 
2.43.0


From 9d9a0099c35422717957754f379b4067969ee769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 70/97] fix: do not leave negative values out of the range of
 plots

---
 timeseria/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 8941d2f..ccc874d 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -720,13 +720,13 @@ function legendFormatter(data) {
         plot_max = str(global_max+((global_max-global_min)*0.1))
     else:
         # Case where there is a straight line
-        plot_min = str(global_min*0.99)
-        plot_max = str(global_max*1.01)
+        plot_min = str(global_min-(abs(global_min)*0.01 or 1))
+        plot_max = str(global_max+(abs(global_max)*0.01 or 1))
 
     # Overwrite plot min and max?
     if value_range != 'auto':
-        plot_min = str(value_range[0]*0.99)
-        plot_max = str(value_range[1]*1.01)
+        plot_min = str(value_range[0]-abs(value_range[0])*0.01)
+        plot_max = str(value_range[1]+abs(value_range[1])*0.01)
 
     #dygraphs_javascript += '"Timestamp,{}\\n{}",'.format(labels, dg_data)
     dygraphs_javascript += '{},'.format(dg_data)
-- 
2.43.0


From d440d7baeb3d9887bf790294870f5afa27a151b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 71/97] fix: plot all the items on the time zone of the series,
 as stated in the legend

---
 timeseria/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index ccc874d..12043bf 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -152,6 +152,9 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
         series_mark_start_t = s_from_dt(mark[0])
         series_mark_end_t = s_from_dt(mark[1])
 
+    # All the items are plotted on the time zone of the series
+    tz = serie.tz
+
     for i, item in enumerate(serie):
 
         # Offset
@@ -276,7 +279,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 data_part = data_part[0:-1]
 
                 # Add to dg_data
-                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=item.tz)), data_part)
+                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=tz)), data_part)
 
                 # Reset averages
                 data_sums = [0 for label in labels]
@@ -344,7 +347,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
             data_part = data_part[0:-1]
 
             # Add to dg_data
-            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=item.tz)), data_part)
+            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=tz)), data_part)
 
     if dg_data.endswith(','):
         dg_data = dg_data[0:-1]
-- 
2.43.0


From 32d46849fc017a1a701b3a8ba7e19010e0684b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 72/97] fix: interpolators evaluated at instants without being
 given the neighbours

---
 timeseria/interpolators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 6e147f8..372895a 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -37,7 +37,7 @@ class LinearInterpolator(Interpolator):
                     next_i = i
                     break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series: prev_i="{}", next_i="{}", at="{}", series="{}"'.format(prev_i, next_i, at, self.series))
 
         else:
@@ -89,12 +89,12 @@ class UniformInterpolator(Interpolator):
 
     def evaluate(self, at, prev_i=None, next_i=None):
 
-        if prev_i and next_i is None:
+        if prev_i is not None and next_i is None:
             raise ValueError('If you provide the prev_i you also need to provide the next_i')
-        if next_i and prev_i is None:
+        if next_i is not None and prev_i is None:
             raise ValueError('If you provide the next_i you also need to provide the prev_i')
 
-        if not prev_i:
+        if prev_i is None and next_i is None:
             logger.warning('You are not providing the prev_i and next_i, this will cause the interpolator to look for them and likely introduce a slow down')
 
             # Search for the prev_i:
@@ -102,9 +102,9 @@ class UniformInterpolator(Interpolator):
                 if item.t > at:
                     prev_i = i-1
                     next_i = i
-                break
+                    break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series')
 
         else:
-- 
2.43.0


From 8339a6bc1c88c50948292f5b8bd9717d0a90d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 73/97] fix: LSTM forecasters crashed if fit on a list of
 target data labels

---
 timeseria/models/forecasters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index d471238..8d06431 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -887,10 +887,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         else:
             if isinstance(target, str):
                 target_data_labels = [target]
-            elif isinstance(target_data_labels, list):
+            elif isinstance(target, list):
                 target_data_labels = target
             else:
-                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target_data_labels.__class__.__name__))
+                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target.__class__.__name__))
             for target_data_label in target_data_labels:
                 if target_data_label not in series.data_labels():
                     raise ValueError('Cannot target data label "{}" as not found in the series labels ({})'.format(target_data_label, series.data_labels()))
-- 
2.43.0


From 7e5f1ab70c96c6fdd90e5c64352f83d78e669e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 74/97] fix: LSTM forecasters fit again without normalizing
 used the normalization of the previous fit

---
 timeseria/models/forecasters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 8d06431..1d22875 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -933,6 +933,12 @@ class LSTMForecaster(Forecaster, _KerasModel):
             self.data['min_values'] = min_values
             self.data['max_values'] = max_values
 
+        else:
+
+            # Do not use the normalization factors of a previous fit
+            self.data.pop('min_values', None)
+            self.data.pop('max_values', None)
+
         # Move to matrix representation
         window_elements_matrix, target_values_vector, context_data_vector = self._to_matrix_representation(series = series,
                                                                                                            window = self.data['window'],
-- 
2.43.0


From 86f6a0855fc6004d38f6aa131d1e1d93370f705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:47 +0000
Subject: [PATCH 75/97] fix: LSTM forecasters crashed with context data on
 series of slots

---
 timeseria/models/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index ba16ffa..7a600f8 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -14,7 +14,7 @@ import shutil
 from ..exceptions import NotFittedError
 from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
 from ..units import TimeUnit
-from ..datastructures import Point, Series, TimeSeries, TimeSeriesView
+from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
 # Setup logging
 import logging
@@ -659,8 +659,11 @@ class _KerasModel(Model):
 
         # Handle context data if any (as "fake", context datapoint).
         if context_data:
-            context_datapoint_dt = window_datapoints[-1].dt + time_unit
-            context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
+            if isinstance(window_datapoints[-1], Slot):
+                context_datapoint = window_datapoints[-1].__class__(start = window_datapoints[-1].end, unit = time_unit, data = context_data)
+            else:
+                context_datapoint_dt = window_datapoints[-1].dt + time_unit
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
         # Compute the features
-- 
2.43.0


From ed8a9921095a17491d6900d03da5096aa5fec7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:52 +0000
Subject: [PATCH 76/97] fix: fits crashed on items with a data loss which is
 not known

---
 timeseria/models/base.py           | 4 ++--
 timeseria/models/forecasters.py    | 2 +-
 timeseria/models/reconstructors.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 7a600f8..898b901 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -613,13 +613,13 @@ class _KerasModel(Model):
                 # Add window elements
                 window_elements_vector = []
                 for j in range(window):
-                    if data_loss_limit is not None and 'data_loss' in series[i-window+j].data_indexes and series[i-window+j].data_indexes['data_loss'] >= data_loss_limit:
+                    if data_loss_limit is not None and series[i-window+j].data_loss is not None and series[i-window+j].data_loss >= data_loss_limit:
                         raise TooMuchDataLoss()
                     window_elements_vector.append(series[i-window+j])
 
                 # Add target values
                 target_values_sub_vector = []
-                if data_loss_limit is not None and 'data_loss' in series[i].data_indexes and series[i].data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and series[i].data_loss is not None and series[i].data_loss >= data_loss_limit:
                     raise TooMuchDataLoss()
                 for target_data_label in target_data_labels:
                     target_values_sub_vector.append(series[i].data[target_data_label])
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 1d22875..08c4aa8 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -505,7 +505,7 @@ class PeriodicAverageForecaster(Forecaster):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
                 if not periodicity_index in sums:
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 3e8c2bf..eede47c 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -420,7 +420,7 @@ class PeriodicAverageReconstructor(Reconstructor):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected=dst_affected)
                 if not periodicity_index in sums:
-- 
2.43.0


From a131476f9921de57f63cebc7d4d4fa1c74568a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 77/97] fix: evaluate failed with the default metrics if the
 one minimized in the fit is not an evaluation one

---
 timeseria/models/forecasters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 08c4aa8..d08fb56 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -233,15 +233,17 @@ class Forecaster(Model):
         except (AttributeError, KeyError):
             fit_minimized_error_metric = None
 
+        supported_error_metrics = ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']
+
         if error_metrics == 'auto':
-            if fit_minimized_error_metric:
+            if fit_minimized_error_metric in supported_error_metrics:
                 error_metrics = [fit_minimized_error_metric]
                 logger.info('Using the same aggregate error metric minimized in the fit phase to evaluate: {}'.format(fit_minimized_error_metric))
             else:
                 error_metrics = ['RMSE', 'MAE']
 
         for aggreagate_error_metric in error_metrics:
-            if aggreagate_error_metric not in ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']:
+            if aggreagate_error_metric not in supported_error_metrics:
                 raise ValueError('The aggregate error metric "{}" is not supported'.format(aggreagate_error_metric))
 
         if not punctual_error_metrics:
-- 
2.43.0


From b538897508ff70cb14ba64ccacbe6f772f255ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 78/97] fix: anomaly detector details crashed on series with
 lost items, and were mislabeled for the adherence

---
 timeseria/models/anomaly_detectors.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index c9bdb56..47dfcd8 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -683,7 +683,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                                 break
             if abort:
                 # Just append the item as-is (but not the very same item, as it belongs to the original series) and continue
-                result_series.append(deepcopy(item))
+                item = deepcopy(item)
+                if details:
+                    # There are no details for this item, but all the items must have the same data labels
+                    for data_label in series.data_labels():
+                        for detail in ['pred', 'err', 'adh']:
+                            if details is True or detail in details:
+                                item.data['{}_{}'.format(data_label, detail)] = None
+                result_series.append(item)
                 continue
 
             # Start computing the anomaly index
@@ -767,7 +774,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'err' in details:
                             item.data['{}_err'.format(data_label)] = prediction_error
                         if 'adh' in details:
-                            item.data['{}_adh)'.format(data_label)] = y/y_max
+                            item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
                         item.data['{}_err'.format(data_label)] = prediction_error
-- 
2.43.0


From fb174061b6b8163722ad42e052ce73872d46296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:30 +0000
Subject: [PATCH 79/97] fix: anomaly detectors fit without storing the errors
 could not be applied, or used the errors of a previous fit

---
 timeseria/models/anomaly_detectors.py | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 47dfcd8..8bcf589 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -263,6 +263,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             return predicted
 
+    def _get_abs_errors_stats(self, data_label):
+        # If the errors are not stored, then their statistics are
+        if 'prediction_errors' in self.data:
+            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
+            return sum(abs_prediction_errors)/len(abs_prediction_errors), max(abs_prediction_errors)
+        else:
+            return self.data['avg_abs_errors'][data_label], self.data['max_abs_errors'][data_label]
+
     @AnomalyDetector.fit_function
     def fit(self, series, with_context=False, error_metric='PE', error_distribution='gennorm', store_errors=True, verbose=False, summary=False, **kwargs):
         """Fit the anomaly detection model on a series.
@@ -338,10 +346,9 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         self.data['error_metric'] = error_metric
 
         # Initialize internal dictionaries
-        if store_errors:
-            self.data['actual_values'] = {}
-            self.data['predicted_values'] = {}
-            self.data['prediction_errors'] = {}
+        for key in ['actual_values', 'predicted_values', 'prediction_errors', 'avg_abs_errors', 'max_abs_errors']:
+            # Not to leave around the ones of a previous fit
+            self.data.pop(key, None)
         self.data['stdevs'] = {} 
         self.data['error_distributions'] = {}
         self.data['error_distributions_params'] = {}
@@ -436,6 +443,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             self.data['actual_values'] = actual_values
             self.data['predicted_values'] = predicted_values
             self.data['prediction_errors'] = prediction_errors
+        else:
+            # Still required for the index bounds
+            self.data['avg_abs_errors'] = {}
+            self.data['max_abs_errors'] = {}
+            for data_label in prediction_errors:
+                abs_prediction_errors = [abs(prediction_error) for prediction_error in prediction_errors[data_label]]
+                self.data['avg_abs_errors'][data_label] = sum(abs_prediction_errors)/len(abs_prediction_errors)
+                self.data['max_abs_errors'][data_label] = max(abs_prediction_errors)
 
         logger.info('Anomaly detector fitted')
 
@@ -598,16 +613,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         y_maxes = {}
 
         for data_label in series.data_labels():
-            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
             this_index_bounds = index_bounds[:]
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
                     if this_index_bounds[i] == 'max_err':
-                        this_index_bounds[i] = max(abs_prediction_errors)
+                        this_index_bounds[i] = self._get_abs_errors_stats(data_label)[1]
                     elif this_index_bounds[i] == 'avg_err':
-                        this_index_bounds[i] = sum(abs_prediction_errors)/len(abs_prediction_errors)
+                        this_index_bounds[i] = self._get_abs_errors_stats(data_label)[0]
                     elif this_index_bounds[i].endswith('_sigma'):
                         this_index_bounds[i] = float(this_index_bounds[i].replace('_sigma',''))*self.data['stdevs'][data_label]
                     elif this_index_bounds[i].endswith('sig'):
-- 
2.43.0


From 69b6e6d29554464eb161ad194815614d4484e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:49 +0000
Subject: [PATCH 80/97] fix: anomaly indexes out of the zero to one range with
 boundaries before the peak of the error distribution

---
 timeseria/models/anomaly_detectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 8bcf589..79ca382 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -771,6 +771,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         else:
                             raise ValueError('Unknown index type "{}"'.format(index_type))
 
+                    if not callable(index_type):
+                        # Not monotone if the start boundary is on the other side of the distribution peak
+                        anomaly_index = min(max(anomaly_index, 0), 1)
+
                 if threshold is not None:
                     if anomaly_index < threshold:
                         anomaly_index = 0
-- 
2.43.0


From 7bdb0db4038518a473ba6d007bfe1691c297401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:59 +0000
Subject: [PATCH 81/97] fix: what depends on the predictions of LSTM
 forecasters could not be saved if not normalized

---
 timeseria/models/forecasters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index d08fb56..06181dd 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -1045,8 +1045,8 @@ class LSTMForecaster(Forecaster, _KerasModel):
             else:
                 predicted_value = predicted_value_normalized
 
-            # Append to prediction data
-            predicted_data[data_label] = predicted_value
+            # Append to prediction data (not as a NumPy value, or what depends on it could not be saved)
+            predicted_data[data_label] = float(predicted_value)
 
         # Return
         return predicted_data
-- 
2.43.0


From 79613961ca9406b1106dede09e79c2e8f9bc6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:21 +0000
Subject: [PATCH 82/97] fix: models fitted on numpy values (as the ones of data
 frames) could not be saved

---
 timeseria/models/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 898b901..38e17fd 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -130,7 +130,15 @@ class Model():
         data = dict(self.data)
         if data.get('resolution') is not None:
             data['resolution'] = str(data['resolution'])
-        data_as_json = json.dumps(data)
+
+        def to_native(value):
+            # Numpy values (as the ones of the data frames) have to be converted
+            try:
+                return value.item()
+            except AttributeError:
+                raise TypeError('Object of type {} is not JSON serializable'.format(value.__class__.__name__)) from None
+
+        data_as_json = json.dumps(data, default=to_native)
 
         # Prepare model dir and dump data as json
         os.makedirs(path)
-- 
2.43.0


From 02049cd0d49f8a3ec6581e35546df49418fb46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 83/97] fix: slots of seconds were accepted in a series with
 gaps or duplicated, as the tolerance in checking their succession was
 relative to the epoch

---
 timeseria/datastructures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index f06f0b4..fe3b43e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -441,8 +441,9 @@ class TimeSlot(Slot):
     # Overwrite parent succedes, this has better performance as it checks for only one dimension
     def __succedes__(self, other):
         if other.end.t != self.start.t:
-            # Take into account floating point rounding errors
-            if _is_close(other.end.t, self.start.t):
+            # Take into account floating point rounding errors. Note: the tolerance must not be
+            # relative to the epoch, or it would be of more than one second for present-day times (times are up to the microsecond).
+            if _is_close(other.end.t, self.start.t, rel_tol=0, abs_tol=1e-06):
                 return True
             return False
         else:
-- 
2.43.0


From fe8dbb492befd7890dc1604e74293a7911045cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 84/97] fix: series misaligned by up to a second were merged,
 as the tolerance in checking their times was relative to the epoch

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 4d9a069..e937488 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1120,7 +1120,7 @@ class Merge(Operation):
                 item = series[i + offsets[series]]
 
                 # Calendar units can drift apart if on different timezones
-                if not _is_close(item.t, reference_series[i].t):
+                if not _is_close(item.t, reference_series[i].t, rel_tol=0, abs_tol=1e-06):
                     raise ValueError('Series items are not aligned (got "{}" and "{}"), cannot merge'.format(reference_series[i], item))
 
                 # Data
-- 
2.43.0


From a6a08bffb806f9b2683baccf1e171cdf80a7b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:44 +0000
Subject: [PATCH 85/97] fix: slots of weeks, quarters and fractions of second
 could not be created from data frames

---
 timeseria/datastructures.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index fe3b43e..3f356d4 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1756,6 +1756,20 @@ class TimeSeries(Series):
 
         else:
 
+            # Frequencies for which there is no unit with the same name (only for creating slots, as points have no unit)
+            if item_type==DataTimeSlot:
+                number = ''.join([char for char in unit_str_pd if char.isdigit()])
+                number = int(number) if number else 1
+                frequency = unit_str_pd.lstrip('0123456789').split('-')[0]
+                if frequency == 'W':
+                    unit_str_pd = '{}W'.format(number)
+                elif frequency in ['Q', 'QS']:
+                    unit_str_pd = '{}M'.format(number*3)
+                elif frequency in ['L', 'ms']:
+                    unit_str_pd = '{:f}s'.format(number/1000)
+                elif frequency in ['U', 'us']:
+                    unit_str_pd = '{:f}s'.format(number/1000000)
+
             # Calendar
             if unit_str_pd.lstrip('0123456789')[0] in ['A', 'Y']:
                 unit_str_pd=unit_str_pd.split('-')[0]    # Year, with its first or last month
-- 
2.43.0


From 754d792e99990b83ff429b334de59f825987f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:51 +0000
Subject: [PATCH 86/97] fix: an explicit start or end of the epoch was ignored
 when resampling and aggregating

---
 timeseria/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 34bfce5..96e82f2 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -405,7 +405,7 @@ class Transformation(object):
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
-        if from_t:
+        if from_t is not None:
             from_dt = dt_from_s(from_t)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
@@ -436,7 +436,7 @@ class Transformation(object):
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
         # Set "to". TODO: check against shifted rounding if points?
-        if to_t:
+        if to_t is not None:
             to_dt = dt_from_s(to_t)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
-- 
2.43.0


From c0208409600fd014875c696aaf985fc87d4351de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:37 +0000
Subject: [PATCH 87/97] fix: stored slots of months and years could be loaded
 as points, according to where their days and changes of time fall

---
 timeseria/storages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 309d94f..32f2507 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -623,12 +623,12 @@ class CSVFileStorage(Storage):
             detected_sampling_interval = detect_sampling_interval(sample_timepointseries)
 
             # Years
-            if detected_sampling_interval in [86400*365, 886400*366]:
+            if detected_sampling_interval in [86400*365, 86400*366]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1Y')
 
-            # Months
-            elif detected_sampling_interval in [86400*31, 86400*30, 86400*28]:
+            # Months (also including a DST change)
+            elif detected_sampling_interval in [86400*days + change for days in [28, 29, 30, 31] for change in [0, 3600, -3600]]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1M')
 
-- 
2.43.0


From a1a1f9f1b353a294f40d522cba59db8cef098cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:10 +0000
Subject: [PATCH 88/97] fix: changing the time zone of an empty series, and
 creating slots from data frames with no frequency, failed because of unbound
 variables

---
 timeseria/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3f356d4..0ee66a4 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1465,7 +1465,7 @@ class TimeSeries(Series):
         """Change the time zone of the time series, in-place."""
         for time_point in self:
             time_point.change_tz(tz)
-        self._tz = time_point.tz
+        self._tz = timezonize(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
@@ -1753,6 +1753,8 @@ class TimeSeries(Series):
             if not item_type:
                 logger.info('Cannot infer the freqency of the dataframe, will just create points')
                 item_type = DataTimePoint
+            elif item_type==DataTimeSlot:
+                raise ValueError('Cannot infer the freqency of the dataframe, cannot create slots')
 
         else:
 
-- 
2.43.0


From 6f6523206a46789fd68d70f04f14df7e49c8b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:00 +0000
Subject: [PATCH 89/97] fix: the Prophet reconstructor asked for the UTC times
 although fitted on the local ones, giving the data of another hour

---
 timeseria/models/reconstructors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index eede47c..32530b1 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -5,7 +5,6 @@ import copy
 from sklearn.metrics import mean_absolute_error, mean_squared_error
 from pandas import DataFrame
 from math import sqrt
-from propertime.utils import dt_from_s
 
 from ..utilities import detect_periodicity, _get_periodicity_index, mean_absolute_percentage_error
 from ..units import TimeUnit
@@ -534,7 +533,7 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         items_to_reconstruct = []
         for j in range(from_i, to_i+1):
             items_to_reconstruct.append(series[j])
-        data_to_reconstruct = [self._remove_timezone(dt_from_s(item.t)) for item in items_to_reconstruct]
+        data_to_reconstruct = [self._remove_timezone(item.dt) for item in items_to_reconstruct]
         dataframe_to_reconstruct = DataFrame(data_to_reconstruct, columns = ['ds'])
 
         # Apply Prophet fit
-- 
2.43.0


From e378c1ccffd8d1282df1d9f5702a50b10acb9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 90/97] fix: ARIMA forecasters could not be fitted with the
 supported versions of statsmodels

---
 timeseria/models/forecasters.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 06181dd..cca9130 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -710,8 +710,12 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         data = array(series.to_df()[data_label])
 
         # Save model and fit
-        self.model = sm.tsa.ARIMA(data, (self.p,self.d,self.q))
-        self.model_res = self.model.fit(disp=verbose)
+        self.model = sm.tsa.ARIMA(data, order=(self.p,self.d,self.q))
+        try:
+            self.model_res = self.model.fit(disp=verbose)
+        except TypeError:
+            # More recent versions of statsmodels have no such argument
+            self.model_res = self.model.fit()
 
         # Save the series we used for the fit.
         self.fit_series = series
@@ -730,8 +734,11 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         if self.fit_series[-1].t != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
-        # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
-        return [{data_label: value} for value in self.model_res.forecast(steps)[0]]
+        # Return the predicion. Older versions of statsmodels also give erorrs etc., in which case we need the [0] to access yhat
+        forecast = self.model_res.forecast(steps)
+        if isinstance(forecast, tuple):
+            forecast = forecast[0]
+        return [{data_label: value} for value in forecast]
 
 
 #=========================
-- 
2.43.0


From 62a26f0ebb9ed02b93ab67dbe798a13c5a9440c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 91/97] fix: ARIMA forecasters accepted a series which was
 extended after the fit, forecasting from where it ended before

---
 timeseria/models/forecasters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index cca9130..fda0613 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -717,8 +717,9 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
             # More recent versions of statsmodels have no such argument
             self.model_res = self.model.fit()
 
-        # Save the series we used for the fit.
+        # Save the series we used for the fit, and where it ended (as it can be extended afterwards)
         self.fit_series = series
+        self.data['fit_end_t'] = series[-1].t
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
@@ -731,7 +732,7 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         data_label = self.data['data_labels'][0]
 
         # Chack that we are applying on a time series ending with the same data point where the fit series was
-        if self.fit_series[-1].t != series[-1].t:
+        if self.data['fit_end_t'] != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
         # Return the predicion. Older versions of statsmodels also give erorrs etc., in which case we need the [0] to access yhat
@@ -779,8 +780,9 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
 
         self.model = autoarima_model
 
-        # Save the series we used for the fit.
+        # Save the series we used for the fit, and where it ended (as it can be extended afterwards)
         self.fit_series = series
+        self.data['fit_end_t'] = series[-1].t
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
@@ -791,7 +793,7 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
         data_label = self.data['data_labels'][0]
 
         # Chack that we are applying on a time series ending with the same datapoint where the fit series was
-        if self.fit_series[-1].t != series[-1].t:
+        if self.data['fit_end_t'] != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
         # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
-- 
2.43.0


From 43733e35cf87d9e67ca221078b8736ec60683a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 92/97] fix: saved ARIMA forecasters could be loaded but not
 used, as what was fitted was not saved

---
 timeseria/models/base.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 38e17fd..47829a1 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -4,6 +4,7 @@
 import os
 import json
 import uuid
+import pickle
 import functools
 import statistics
 from propertime.utils import now_s, dt_from_s, s_from_dt
@@ -532,6 +533,32 @@ class _ProphetModel(Model):
 class _ARIMAModel(Model):
     '''A model using statsmodel's ARIMA as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path):
+
+        # Load the model..
+        model = super().load(path)
+
+        # ..and what has been fitted
+        with open('{}/arima_model.pkl'.format(path), 'rb') as f:
+            model.__dict__.update(pickle.load(f))
+
+        return model
+
+    def save(self, path):
+
+        # Save the model..
+        super().save(path)
+
+        # ..and what has been fitted, without leaving around a partially saved model if something goes wrong
+        try:
+            fitted = {name: self.__dict__[name] for name in ['p', 'd', 'q', 'model', 'model_res'] if name in self.__dict__}
+            with open('{}/arima_model.pkl'.format(path), 'wb') as f:
+                pickle.dump(fitted, f)
+        except BaseException:
+            shutil.rmtree(path, ignore_errors=True)
+            raise
+
     def _get_start_end_indexes(self, series, n):
 
         # Do the math to get the right indexes for the prediction, both out-of-sample and in-sample
-- 
2.43.0


From 2003d7b8e01e0a0cc32d48df1ee0abf2ce5a5347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:37 +0000
Subject: [PATCH 93/97] fix: Prophet answers ordered by local time were given
 to other items when the clocks go back

---
 timeseria/models/forecasters.py    | 7 ++++---
 timeseria/models/reconstructors.py | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index fda0613..747ac62 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -662,10 +662,11 @@ class ProphetForecaster(Forecaster, _ProphetModel):
         forecast = self.prophet_model.predict(dataframe_to_forecast)
         #forecast[['ds', 'yhat', 'yhat_lower', 'yhat_upper']].tail()
 
-        # Re arrange predict results
+        # Re arrange predict results. Prophet sorts them by time, and when the clocks go back the local times are not in order
+        yhat_by_dt = dict(zip(forecast['ds'], forecast['yhat']))
         forecasted_items = []
-        for i in range(steps):
-            forecasted_items.append({data_label: float(forecast['yhat'][i])})
+        for dt in data_to_forecast:
+            forecasted_items.append({data_label: float(yhat_by_dt[dt])})
 
         # Return
         return forecasted_items
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 32530b1..c5013a2 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -540,9 +540,11 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         forecast = self.prophet_model.predict(dataframe_to_reconstruct)
         #forecast[['ds', 'yhat', 'yhat_lower', 'yhat_upper']].tail()
 
+        # Prophet sorts the results by time, and when the clocks go back the local times are not in order
+        yhat_by_dt = dict(zip(forecast['ds'], forecast['yhat']))
         predicted_data = {data_label: []}
-        for j in range(0, to_i-from_i+1):
-            predicted_data[data_label].append(forecast['yhat'][j])
+        for dt in data_to_reconstruct:
+            predicted_data[data_label].append(yhat_by_dt[dt])
 
         return predicted_data
 
-- 
2.43.0


From 94fbfdeba6490b6b0f28f972b4513f0f894d9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:39 +0000
Subject: [PATCH 94/97] fix: columns of CSV files were mixed up if one had no
 label in the header

---
 timeseria/storages.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 32f2507..2a313be 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -294,7 +294,8 @@ class CSVFileStorage(Storage):
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
                         column_indexes = [i for i in range(len(line_items)) if _sanitize_string(line_items[i],NO_DATA_PLACEHOLDERS)]
-                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items if _sanitize_string(label,NO_DATA_PLACEHOLDERS)]
+                        # The labels go by position, also if some columns have none
+                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items]
                         logger.debug('Set column indexes = "%s"  and column labels = "%s"', column_indexes, column_labels)
                         continue
 
-- 
2.43.0


From 958923cd2009af77366927446beca4ab692af64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:39 +0000
Subject: [PATCH 95/97] fix: the last zero items of a series were all of its
 items

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0ee66a4..ac5e78f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1181,7 +1181,7 @@ class Series(list):
             Args:
                 n: the number of last elements to return .
         """
-        return list(self[-n:])
+        return list(self[max(len(self)-n, 0):])
 
 
 
-- 
2.43.0


From 28deef61ab9ee7bf645db7d7a129c743d54361be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:39 +0000
Subject: [PATCH 96/97] fix: series accepted tuples of data of different sizes,
 and any data after an empty one

---
 timeseria/datastructures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ac5e78f..c74fd9f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -658,7 +658,7 @@ class Series(list):
         """Check that the data of an item is compatible with the data of the items already present in the series (if any)."""
         if not type(self._item_data_reference) == type(item.data):
             raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-        if isinstance(self._item_data_reference, list):
+        if isinstance(self._item_data_reference, (list, tuple)):
             if len(self._item_data_reference) != len(item.data):
                 raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
         if isinstance(self._item_data_reference, dict):
@@ -716,7 +716,7 @@ class Series(list):
                     raise TypeError('Object of class "{}" does not implement a "__gt__" or a "__succedes__" method, cannot append it to a Series (which is ordered)'.format(item.__class__.__name__)) from None
 
         # Check data type and set if not done already
-        if self and self._item_data_reference:
+        if self and self._item_data_reference is not None:
             self._check_data(item)
         else:
             self._set_item_data_reference(item)
@@ -804,7 +804,7 @@ class Series(list):
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
             # Check data type
-            if self._item_data_reference:
+            if self._item_data_reference is not None:
                 self._check_data(x)
 
             super(Series, self).insert(i,x)
-- 
2.43.0


From 9d082e70d3210367b5c02ff3ea3d655c31e81c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:19 +0000
Subject: [PATCH 97/97] fix: an explicit start or end given as epoch was
 checked in UTC for calendar units, refusing the right ones and accepting the
 wrong ones

---
 timeseria/transformations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 96e82f2..d77a598 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -404,9 +404,15 @@ class Transformation(object):
                 except Exception:
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
+        # Calendar units start and end according to the time zone of the series
+        if self.time_unit.years or self.time_unit.months or self.time_unit.weeks or self.time_unit.days:
+            epoch_tz = series.tz
+        else:
+            epoch_tz = 'UTC'
+
         # Set "from". TODO: check against shifted rounding if points?
         if from_t is not None:
-            from_dt = dt_from_s(from_t)
+            from_dt = dt_from_s(from_t, tz=epoch_tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
         elif from_dt:
@@ -437,7 +443,7 @@ class Transformation(object):
 
         # Set "to". TODO: check against shifted rounding if points?
         if to_t is not None:
-            to_dt = dt_from_s(to_t)
+            to_dt = dt_from_s(to_t, tz=epoch_tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
         elif to_dt:
-- 
2.43.0

