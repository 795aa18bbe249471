From 2927d615ac30d79aa81ca23f039f04aa705832a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 001/207] fix: keep the order of lists and tuples of more than
 ten items in hspy/zspy metadata

The items of heterogeneous or nested lists and tuples are stored in a group
under the string representation of their index and were read back sorted by
name, i.e. 0, 1, 10, 11, 2, ...
---
 rsciio/_hierarchical.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index aba0587..b8a2510 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -88,6 +88,13 @@ def unflatten_data(data, shape, is_hdf5=False):
 # ---------------------------------
 
 
+def _sort_key(item):
+    """Sort the items of a list/tuple stored as a group by index, not by name:
+    the keys are the string representation of the index."""
+    key = item[0]
+    return (0, int(key), "") if key.isdecimal() else (1, 0, key)
+
+
 def get_signal_chunks(shape, dtype, signal_axes=None, target_size=1e6):
     """
     Function that calculates chunks for the signal, preferably at least one
@@ -637,14 +644,16 @@ class HierarchicalReader:
                     dictionary[key] = [
                         i
                         for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
+                            self._group2dict(group[key], lazy=lazy).items(),
+                            key=_sort_key,
                         )
                     ]
                 elif key.startswith("_list_"):
                     dictionary[key[7 + key[6:].find("_") :]] = [
                         i
                         for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
+                            self._group2dict(group[key], lazy=lazy).items(),
+                            key=_sort_key,
                         )
                     ]
                 elif key.startswith("_tuple_"):
@@ -652,7 +661,8 @@ class HierarchicalReader:
                         [
                             i
                             for k, i in sorted(
-                                iter(self._group2dict(group[key], lazy=lazy).items())
+                                self._group2dict(group[key], lazy=lazy).items(),
+                                key=_sort_key,
                             )
                         ]
                     )
-- 
2.43.0


From a4a6cf5969599b7c1b0875fa3fd383270c17acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 002/207] fix: save binary strings which are not valid utf-8 to
 hspy files

Binary strings without null character were always decoded, raising
UnicodeDecodeError when they are not utf-8 encoded text.
---
 rsciio/_hierarchical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index b8a2510..3ef98fe 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -904,7 +904,11 @@ class HierarchicalWriter:
                     value.index(b"\x00")
                     group.attrs["_bs_" + key] = np.void(value)
                 except ValueError:
-                    group.attrs[key] = value.decode()
+                    try:
+                        group.attrs[key] = value.decode()
+                    except UnicodeDecodeError:
+                        # not text, keep it as binary string
+                        group.attrs["_bs_" + key] = np.void(value)
 
             elif isinstance(value, str):
                 group.attrs[key] = value
-- 
2.43.0


From b8d9018b0d56b7299368c35124b57eb098724e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 003/207] fix: calibrate the axes of blockfiles with a line
 scan or a single pattern correctly

---
 rsciio/blockfile/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index dbe12a5..e40353e 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -310,7 +310,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
             shape=navigation_shape,
             dtype=frame_dtype,
             key="data",
-        )
+        ).squeeze()
 
     units = ["nm", "nm", "cm", "cm"]
     names = ["y", "x", "dy", "dx"]
@@ -328,18 +328,19 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         "Signal": {"signal_type": "diffraction"},
     }
     # Create the axis objects for each axis
-    dim = data.ndim
+    # dimensions of size 1 have been squeezed
+    dims = [i for i, s in enumerate(navigation_shape + signal_shape) if s != 1]
     axes = [
         {
-            "size": data.shape[i],
-            "index_in_array": i,
+            "size": data.shape[index],
+            "index_in_array": index,
             "name": names[i],
             "scale": scales[i],
             "offset": 0.0,
             "units": units[i],
             "navigate": navigate[i],
         }
-        for i in range(dim)
+        for index, i in enumerate(dims)
     ]
 
     dictionary = {
-- 
2.43.0


From 60f9870eed000228361227a240837d2d352f9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 004/207] fix: write the blockfile header in the requested byte
 order

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index e40353e..f3e68d3 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -97,7 +97,7 @@ def get_header_dtype_list(endianness="<"):
 
 def get_default_header(endianness="<"):
     """Returns a header pre-populated with default values."""
-    dt = np.dtype(get_header_dtype_list())
+    dt = np.dtype(get_header_dtype_list(endianness))
     header = np.zeros((1,), dtype=dt)
     header["ID"][0] = "IMGBLO".encode()
     header["MAGIC"][0] = magics[0]
-- 
2.43.0


From 11b441b242f71aca0825adfec654c9d08e391b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 005/207] fix: do not modify the axes of the signal when
 writing a blockfile

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index f3e68d3..472714c 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -124,7 +124,7 @@ def get_header_from_signal(signal, endianness="<"):
         note = ""
     # The navigation and signal units are 'nm' and 'cm', respectively, so we
     # convert the units accordingly before saving the signal
-    axes = signal["axes"]
+    axes = [dict(axis) for axis in signal["axes"]]
     sig_axes = [axis for axis in axes if not axis["navigate"]]
     nav_axes = [axis for axis in axes if axis["navigate"]]
     for axis in sig_axes:
-- 
2.43.0


From e51be8aab9fd21b3711db39e4c27830adcffeda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 006/207] fix: write the note of blockfiles in the encoding
 used to read it

---
 rsciio/blockfile/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 472714c..cd9a383 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -439,7 +439,8 @@ def file_writer(
         # Write header note field:
         if len(note) > int(header["Data_offset_1"][0]) - f.tell():
             note = note[: int(header["Data_offset_1"][0]) - f.tell() - len(note)]
-        f.write(note.encode())
+        # same encoding as when reading
+        f.write(note.encode("latin1", errors="replace"))
         # Zero pad until next data block
         zero_pad = int(header["Data_offset_1"][0]) - f.tell()
         np.zeros((zero_pad,), np.byte).tofile(f)
-- 
2.43.0


From 19d24ba39177c02ebd57ffcedb3fe7fce66d818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 007/207] fix: accept navigators when writing blockfiles with
 less than two navigation dimensions

---
 rsciio/blockfile/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index cd9a383..b7ce984 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -446,7 +446,7 @@ def file_writer(
         np.zeros((zero_pad,), np.byte).tofile(f)
         # Write virtual bright field
         if navigator is None:
-            navigator = np.zeros((signal["data"].shape[0], signal["data"].shape[1]))
+            navigator = np.zeros(signal["data"].shape[:-2])
         elif isinstance(navigator, str) and (navigator == "navigator"):
             if smetadata.get("_HyperSpy._sig_navigator", False):
                 navigator = smetadata["_HyperSpy._sig_navigator.data"]
@@ -455,7 +455,7 @@ def file_writer(
         elif hasattr(navigator, "shape"):
             # Is numpy array-like
             # check that the shape is ok
-            if navigator.shape != signal["data"].shape[:2]:
+            if navigator.shape != signal["data"].shape[:-2]:
                 raise ValueError(
                     "Size of the provided `navigator` does not match the "
                     "navigation dimensions of the dataset."
-- 
2.43.0


From fb12ac2a30526e63c48a5ef2d8191e86d5adf010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 008/207] fix: keep the value of msa keywords containing a
 colon

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5be67ff..29f7aec 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -188,7 +188,7 @@ def parse_msa_string(string, filename=None):
         if data_section is False:
             if line[0] == "#":
                 try:
-                    key, value = line.split(": ")
+                    key, value = line.split(": ", 1)
                     value = value.rstrip()
                 except ValueError:
                     key = line
-- 
2.43.0


From d9853bfce875706a80cea6187d8ea230df45180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 009/207] fix: do not change the msa keyword mapping when
 writing a SEM signal

---
 rsciio/msa/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 29f7aec..3206b65 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -507,11 +507,12 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             loc_kwds[key] = value
 
     for key, dic in keywords.items():
-        if dic["mapped_to"] is not None:
+        mapped_to = dic["mapped_to"]
+        if mapped_to is not None:
             if "SEM" in md.Signal.signal_type:
-                dic["mapped_to"] = dic["mapped_to"].replace("TEM", "SEM")
-            if dic["mapped_to"] in md:
-                loc_kwds[key] = eval("md.%s" % dic["mapped_to"])
+                mapped_to = mapped_to.replace("TEM", "SEM")
+            if mapped_to in md:
+                loc_kwds[key] = eval("md.%s" % mapped_to)
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
-- 
2.43.0


From 11436d10fffc610d57a79c9c56a21ac4fecf1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 010/207] fix: keep the spaces between the lines of multiline
 msa fields

---
 rsciio/msa/_api.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 3206b65..41a9c2e 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -189,7 +189,7 @@ def parse_msa_string(string, filename=None):
             if line[0] == "#":
                 try:
                     key, value = line.split(": ", 1)
-                    value = value.rstrip()
+                    value = value.rstrip("\r\n")
                 except ValueError:
                     key = line
                     value = None
@@ -197,9 +197,11 @@ def parse_msa_string(string, filename=None):
 
                 # Support multiple lines in the TITLE and COMMENT fields,
                 # which are the only fields that can be multiline according to the standard.
-                if key in ["TITLE", "COMMENT"] and key in parameters.keys():
-                    parameters[key] += value
-                elif key != "SPECTRUM":
+                if key not in ["TITLE", "COMMENT"]:
+                    value = value.rstrip() if value is not None else None
+                elif parameters.get(key) is not None and value is not None:
+                    value = parameters[key] + value
+                if key != "SPECTRUM":
                     parameters[key] = value
                 else:
                     data_section = True
@@ -215,6 +217,10 @@ def parse_msa_string(string, filename=None):
                 elif parameters["DATATYPE"] == "Y":
                     data = [float(i) for i in line_]
                     y.extend(data)
+    # Trailing spaces are only meaningful between the lines of a multiline field
+    for key in ["TITLE", "COMMENT"]:
+        if parameters.get(key) is not None:
+            parameters[key] = parameters[key].rstrip()
     # We rewrite the format value to be sure that it complies with the
     # standard, because it will be used by the writer routine
     parameters["FORMAT"] = "EMSA/MAS Spectral Data File"
-- 
2.43.0


From e4d6fb06bc9ab1c139986b9a80f90c401c041f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 011/207] fix: do not modify the original metadata of the
 signal when writing a msa file

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 41a9c2e..184bd64 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -426,7 +426,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     FORMAT = "EMSA/MAS Spectral Data File"
     md = DTBox(signal["metadata"], box_dots=True)
     if signal["original_metadata"].get("FORMAT", None) == FORMAT:
-        loc_kwds = signal["original_metadata"]
+        loc_kwds = dict(signal["original_metadata"])
         if format is not None:
             loc_kwds["DATATYPE"] = format
         else:
-- 
2.43.0


From 0f4f88fe135e23b3eb65dd387048742580d94cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 012/207] fix: write the time of the acquisition to msa files

---
 rsciio/msa/_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 184bd64..d55370b 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -441,9 +441,12 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             day, month, year = date_str.split("-")
             month = US_MONTHS_D2A[month]
             loc_kwds["DATE"] = "-".join((day, month, year))
-        if "General.item" in md:
-            time = dt.strptime(md.General.time, "%H:%M:%S")
-            loc_kwds["TIME"] = time.strftime("%H:%M")
+        if "General.time" in md:
+            try:
+                time = dt.fromisoformat(f"1970-01-01T{md.General.time}")
+                loc_kwds["TIME"] = time.strftime("%H:%M")
+            except ValueError:
+                _logger.warning(f"The time {md.General.time} could not be saved.")
     if md.Signal.signal_type in ["EDS_SEM", "EDS_TEM"]:
         loc_kwds["SIGNALTYPE"] = "EDS"
     elif md.Signal.signal_type in ["EELS"]:
-- 
2.43.0


From 6e88e989e71c7be83d2be53d07f5e32fd9eead34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 013/207] fix: read INCA ripple headers whose record-by key is
 not the last one

---
 rsciio/ripple/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index f4f8214..10f1fe5 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -124,11 +124,11 @@ def correct_INCA_format(fp):
             )
             if "record-by" in line:
                 if "image" in line:
-                    line = "record-by\timage"
+                    line = "record-by\timage\n"
                 if "vector" in line:
-                    line = "record-by\tvector"
+                    line = "record-by\tvector\n"
                 if "dont-care" in line:
-                    line = "record-by\tdont-care"
+                    line = "record-by\tdont-care\n"
             fp_list.append(line)
         fp = StringIO()
         fp.writelines(fp_list)
-- 
2.43.0


From 072801567af588e764e636e57fe59886da07bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 014/207] fix: write tiff files whatever the magnitude of the
 axes scale

---
 rsciio/tiff/_api.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 97eeba4..2472c24 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -23,6 +23,7 @@ import os
 import re
 import warnings
 from datetime import datetime, timedelta
+from fractions import Fraction
 
 import numpy as np
 import tifffile
@@ -935,7 +936,20 @@ def _get_scales_from_x_y_resolution(op, factor=1.0):
     return scales
 
 
-def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
+def _get_resolution(scale):
+    """
+    Get the resolution for a given scale as a TIFF rational number, i.e. the
+    ratio of two 32-bit unsigned integers.
+    """
+    max_int = 2**32 - 1
+    resolution = Fraction(min(max(1 / scale, 1 / max_int), max_int))
+    resolution = resolution.limit_denominator(
+        max(1, min(max_int, int(max_int / resolution)))
+    )
+    return resolution.numerator, resolution.denominator
+
+
+def _get_tags_dict(signal, extratags=[]):
     """
     Get the tags to export the scale and the unit to be used in Digital
     Micrograph and ImageJ.
@@ -944,7 +958,7 @@ def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
     nav_dim = len([ax for ax in axes if ax["navigate"]])
     scales, units, offsets = _get_scale_unit(axes, encoding=None)
     _logger.debug("{0}".format(units))
-    tags_dict = _get_imagej_kwargs(scales, units, nav_dim, factor=factor)
+    tags_dict = _get_imagej_kwargs(scales, units, nav_dim)
     scales, units, offsets = _get_scale_unit(axes, encoding="latin-1")
 
     tags_dict["extratags"].extend(
@@ -954,11 +968,8 @@ def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
     return tags_dict
 
 
-def _get_imagej_kwargs(scales, units, nav_dim, factor=int(1e8)):
-    resolution = (
-        (factor, int(scales[-1] * factor)),
-        (factor, int(scales[-2] * factor)),
-    )
+def _get_imagej_kwargs(scales, units, nav_dim):
+    resolution = (_get_resolution(scales[-1]), _get_resolution(scales[-2]))
     if nav_dim == 1:  # For stacks
         spacing = f"{scales[0]}"
     else:
-- 
2.43.0


From e5c2f5cbc7399274d30bcc737a34cea844154806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 015/207] fix: give priority to the digital micrograph tags
 over the ImageJ calibration in tiff files

---
 rsciio/tiff/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 2472c24..12430c6 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -914,12 +914,14 @@ def _parse_scale_unit(
     else:
         scales, offsets, units = _axes_defaults()
         # Axes descriptors can be additionally parsed from digital micrograph or imagej-style files
+        # The ImageJ calibration is rounded and its units are common to both axes,
+        # if available, the digital micrograph tags are more accurate
+        if _is_imagej(tiff):
+            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
         if _is_digital_micrograph(op):
             scales, offsets, units = _add_axes_digital_micrograph(
                 op, scales, offsets, units
             )
-        if _is_imagej(tiff):
-            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
 
         scales, offsets, units = _order_axes_by_name(names, scales, offsets, units)
 
-- 
2.43.0


From 1e2e9e7c23053173f129e530e4a0c2df8bb54655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 016/207] fix: convert big-endian arrays to rgb (lazy reading
 of big-endian rgb16 tiff)

---
 rsciio/utils/rgb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/utils/rgb.py b/rsciio/utils/rgb.py
index d8302f3..197d085 100644
--- a/rsciio/utils/rgb.py
+++ b/rsciio/utils/rgb.py
@@ -163,6 +163,9 @@ def regular_array2rgbx(data):
     numpy.ndarray or dask.array.Array
         The transformed RGBx structured array.
     """
+    if data.dtype.kind == "u" and not data.dtype.isnative:
+        # The rgb dtypes are defined in the native byte order
+        data = data.astype(data.dtype.newbyteorder("="))
     # Make sure that the data is contiguous
     if data.flags["C_CONTIGUOUS"] is False:
         if np.ma.is_masked(data):
-- 
2.43.0


From 68d49fb5428010e158c91554827687dfa2b5c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 017/207] fix: image with equal green and blue channels read as
 grayscale

---
 rsciio/image/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 303160c..bbd08a1 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -272,7 +272,7 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 1] == dc[:, :, 2]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From c4913811fbc003a37f9c10db195cf865227256b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 018/207] fix: lazy reading of image files

---
 rsciio/image/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index bbd08a1..86ba1cc 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -240,8 +240,9 @@ def file_reader(filename, lazy=False, **kwds):
         from dask import delayed
         from dask.array import from_delayed
 
+        data = _read_data(filename, **kwds)
         val = delayed(_read_data, pure=True)(filename, **kwds)
-        dc = from_delayed(val, shape=val.shape, dtype=val.dtype)
+        dc = from_delayed(val, shape=data.shape, dtype=data.dtype)
     else:
         dc = _read_data(filename, **kwds)
 
-- 
2.43.0


From 844f685786b03c3b7e777390eeed702cef9af3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 019/207] fix: read images with only one row or one column

---
 rsciio/image/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 86ba1cc..91c5c9f 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -269,7 +269,10 @@ file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 
 def _read_data(filename, **kwds):
-    dc = np.squeeze(iio.imread(filename))
+    dc = iio.imread(filename)
+    if dc.ndim > 2 and dc.shape[0] == 1 and iio.improps(filename).is_batch:
+        # Single frame of formats supporting several frames, e.g. gif
+        dc = dc[0]
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-- 
2.43.0


From 28c2c8251cd348c760ec863c9d8524a964884425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 020/207] fix: index in array of the axes of images

---
 rsciio/utils/_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/utils/_image.py b/rsciio/utils/_image.py
index 95d88de..7fe97c9 100644
--- a/rsciio/utils/_image.py
+++ b/rsciio/utils/_image.py
@@ -63,9 +63,9 @@ def _parse_axes_from_metadata(exif_tags, sizes):
             "size": size,
             "scale": fields_of_views[i] / size,
             "offset": offsets[i],
-            "index_in_array": i,
+            "index_in_array": index,
         }
-        for i, name, size in zip([1, 0], ["y", "x"], sizes)
+        for index, (i, name, size) in enumerate(zip([1, 0], ["y", "x"], sizes))
     ]
 
     return axes
-- 
2.43.0


From 6ad1875f4e6595a68d259f10c338ff1c2f86907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 021/207] fix: do not modify the keyword dictionaries given
 when exporting images

---
 rsciio/image/_api.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 91c5c9f..b557c18 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -91,8 +91,7 @@ def file_writer(
     sig_axes = [ax for ax in signal["axes"] if not ax["navigate"]]
     nav_axes = [ax for ax in signal["axes"] if ax["navigate"]]
 
-    if scalebar_kwds is None:
-        scalebar_kwds = dict()
+    scalebar_kwds = dict() if scalebar_kwds is None else dict(scalebar_kwds)
     scalebar_kwds.setdefault("box_alpha", 0.75)
     scalebar_kwds.setdefault("location", "lower left")
 
@@ -123,8 +122,7 @@ def file_writer(
 
         dpi = 100
 
-        if imshow_kwds is None:
-            imshow_kwds = dict()
+        imshow_kwds = dict() if imshow_kwds is None else dict(imshow_kwds)
         imshow_kwds.setdefault("cmap", "gray")
 
         axes = []
-- 
2.43.0


From 85bbc8ef31eb9fe53c24e8b93e9f61c077423c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 022/207] fix: do not stack emd datasets of groups whose names
 start with the same characters

---
 rsciio/emd/_emd_ncem.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index dc548a5..aee32b7 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -105,8 +105,13 @@ class EMD_NCEM:
                     # In prismatic file, the group name have '0000' except
                     # for 'ppotential'
                     group_basename = group_basename[:-4]
+                    common_path = group_basename
+                else:
+                    # Match the name of the whole group, other groups can have
+                    # a name starting with the same characters
+                    common_path = f"{group_basename}/"
                 for _path in dataset_path[:]:
-                    if path != _path and group_basename in _path:
+                    if path != _path and _path.startswith(common_path):
                         group_paths.append(os.path.dirname(_path))
                         dataset_path.remove(_path)
                 title = os.path.basename(group_basename)
-- 
2.43.0


From 92a1f2cc25dbe6f62533f4717ca98261e60fe0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 023/207] fix: scale of emd dimensions with only one value

---
 rsciio/emd/_emd_ncem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index aee32b7..712bf46 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -450,7 +450,9 @@ class EMD_NCEM:
         Estimate, offset, scale from a 1D array
         """
         if axis_data.ndim > 0 and np.issubdtype(axis_data.dtype, np.number):
-            offset, scale = float(axis_data[0]), float(np.diff(axis_data).mean())
+            offset = float(axis_data[0])
+            # The scale is not defined when there is only one value
+            scale = float(np.diff(axis_data).mean()) if len(axis_data) > 1 else 1
         else:
             # This is a string, return default values
             # When non-uniform axis is supported we should be able to parse
-- 
2.43.0


From 14167c804d6f2b9264d1da7431238fea09af3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 024/207] fix: empty units read back as [] from emd files

---
 rsciio/emd/_emd_ncem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 712bf46..5cec13c 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -540,7 +540,7 @@ class EMD_NCEM:
                 name = ""
             dim.attrs["name"] = name
             units = axis["units"]
-            if units is None:
+            if not units:
                 units = ""
             else:
                 units = "[{}]".format("_".join(list(units)))
-- 
2.43.0


From dd2fe08ce3a216d45e2ef1a9cf5c2bd5032a4e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 025/207] fix: keep the general metadata when reading nexus
 files

---
 rsciio/nexus/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c854948..7a7be51 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -615,7 +615,10 @@ def file_reader(
                                     oma["original_metadata"][k]["axes"] = hyper_ax
                         if "hyperspy_metadata" in oma:
                             hyper_metadata = oma["hyperspy_metadata"]
-                            hyper_metadata.update(dictionary["metadata"])
+                            # keep the other items of `General`, e.g. date
+                            hyper_metadata.setdefault("General", {}).update(
+                                dictionary["metadata"]["General"]
+                            )
                             dictionary["metadata"] = hyper_metadata
         else:
             dictionary["original_metadata"] = {}
-- 
2.43.0


From 93381f93c56d7a0c2d2cc9172a023ee6bd901fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 026/207] fix: nexus axes with decreasing values were reversed

---
 rsciio/nexus/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 7a7be51..c9a813f 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -252,8 +252,8 @@ def _get_nav_list(data, dataentry):
                                     "size": data.shape[ind_in_array],
                                     "index_in_array": ind_in_array,
                                     "name": ax,
-                                    "scale": abs(dataentry[ax][1] - dataentry[ax][0]),
-                                    "offset": min(dataentry[ax][0], dataentry[ax][-1]),
+                                    "scale": dataentry[ax][1] - dataentry[ax][0],
+                                    "offset": dataentry[ax][0],
                                     "units": units,
                                     "navigate": navigation,
                                 }
-- 
2.43.0


From 6d49ccc3a5c93f90335060892b4a14de2a401bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 027/207] fix: write numpy scalars and complex numbers of the
 metadata in nexus files

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c9a813f..86b02e1 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1052,7 +1052,7 @@ def _write_nexus_groups(dictionary, group, skip_keys=None, **kwds):
             else:
                 data = _parse_to_file(value)
                 overwrite_dataset(group, data, key, chunks=None, **kwds)
-        elif isinstance(value, (int, float, str, bytes)):
+        elif isinstance(value, (int, float, complex, str, bytes, np.generic)):
             group.create_dataset(key, data=_parse_to_file(value))
         else:
             if value is not None and key not in group:
-- 
2.43.0


From 64a4dd4ac656288b08e092ce193f50021fe201b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 028/207] fix: write lists of non-ascii strings in nexus files

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 86b02e1..8a16382 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -128,7 +128,7 @@ def _parse_to_file(value):
     if isinstance(totest, (list, tuple)):
         totest = np.array(value)
     if isinstance(totest, np.ndarray) and totest.dtype.char == "U":
-        toreturn = np.array(totest).astype("S")
+        toreturn = np.char.encode(totest, "utf-8")
     elif isinstance(totest, np.ndarray) or is_dask_array(totest):
         toreturn = totest
     if isinstance(totest, str):
-- 
2.43.0


From 8c84233fdcaf2017d202399172bdbae201620147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 029/207] fix: order of nexus axes follows the dimensions of
 the data

---
 rsciio/nexus/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 8a16382..d4eab79 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -295,7 +295,8 @@ def _get_nav_list(data, dataentry):
                     )
                     detector_index = detector_index + 1
 
-    return nav_list
+    # The axes need to be in the same order as the dimensions of the data
+    return sorted(nav_list, key=lambda ax: ax["index_in_array"])
 
 
 def _extract_hdf_dataset(group, dataset, lazy=False):
-- 
2.43.0


From c8307398e3b1b0f92ddab7e8323a7dabf1ccbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 030/207] fix: selection of the default nexus dataset

---
 rsciio/nexus/_api.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index d4eab79..8496b10 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -546,16 +546,15 @@ def file_reader(
                 rootlist = list(original_metadata.keys())
                 rootlist.remove("attrs")
                 if rootlist and len(rootlist) == 1:
-                    nxentry == rootlist[0]
-            if nxentry:
-                if "default" in original_metadata[nxentry]["attrs"]:
-                    nxdata = original_metadata[nxentry]["attrs"]["default"]
+                    nxentry = rootlist[0]
+            if nxentry and isinstance(original_metadata.get(nxentry), dict):
+                nxdata = original_metadata[nxentry].get("attrs", {}).get("default")
             if nxentry and nxdata:
                 nxdata = "/" + nxentry + "/" + nxdata
             if nxdata:
                 hdf_data_paths = []
                 nexus_data_paths = [
-                    nxpath for nxpath in nexus_data_paths if nxdata in nxpath
+                    nxpath for nxpath in nexus_data_paths if nxdata == nxpath
                 ]
 
     # if no default found then search for the data as normal
-- 
2.43.0


From e01c77c70f53185979044ee1a4311b56bb5c8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 031/207] fix: order of the datasets selected by key or path in
 nexus files

---
 rsciio/nexus/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 8496b10..527431b 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -828,8 +828,9 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
             [j for j in nx_datasets if any(s in j for s in search_keys)]
         )
 
-    matched_nexus = list(matched_nexus)
-    matched_hdf = list(matched_hdf)
+    # Keep the order of the datasets in the file
+    matched_nexus = [path for path in nx_datasets if path in matched_nexus]
+    matched_hdf = [path for path in hdf_datasets if path in matched_hdf]
 
     return matched_nexus, matched_hdf
 
-- 
2.43.0


From 032e1b3bc040a9267a14315a9c8bd41b4c877929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 032/207] fix: writing and reading of single images in the mrcz
 plugin

---
 rsciio/mrcz/_api.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 2e478ac..22093ce 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -110,22 +110,30 @@ def file_reader(filename, lazy=False, mmap_mode="c", endianness="<", **kwds):
         filename, endian=mrcz_endian, useMemmap=lazy, pixelunits="nm", **kwds
     )
 
+    # mrcz squeezes the data, only the stack dimension can be omitted (images)
+    shape = tuple(int(size) for size in mrcz_header["dimensions"])
+    data = data.reshape(shape[1:] if shape[0] == 1 else shape)
+    is_stack = data.ndim == 3
+
     # Create the axis objects for each axis
     names = ["y", "x", "z"]
     navigate = [False, False, True]
+    read_order = _READ_ORDER if is_stack else [0, 1]
+    pixelsize = mrcz_header["pixelsize"][-data.ndim :]
     axes = [
         {
             "size": data.shape[hsIndex],
             "index_in_array": hsIndex,
             "name": names[index],
-            "scale": mrcz_header["pixelsize"][hsIndex],
+            "scale": pixelsize[hsIndex],
             "offset": 0.0,
             "units": mrcz_header["pixelunits"],
             "navigate": nav,
         }
-        for index, (hsIndex, nav) in enumerate(zip(_READ_ORDER, navigate))
+        for index, (hsIndex, nav) in enumerate(zip(read_order, navigate))
     ]
-    axes.insert(0, axes.pop(2))  # re-order the axes
+    if is_stack:
+        axes.insert(0, axes.pop(2))  # re-order the axes
 
     metadata = mrcz_header.copy()
     # Remove non-standard fields
@@ -213,7 +221,7 @@ def file_writer(
 
     # Get pixelsize and pixelunits from the axes
     pixelunits = signal["axes"][-1]["units"]
-    pixelsize = [signal["axes"][I_]["scale"] for I_ in _WRITE_ORDER]
+    pixelsize = [signal["axes"][I_]["scale"] for I_ in _WRITE_ORDER[: len(signal["axes"])]]
 
     # Strip out voltage from meta-data
     voltage = md.get("Acquisition_instrument.TEM.beam_energy")
-- 
2.43.0


From da8ff9360dbf2e656c918cca34f05007ce47e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 033/207] fix: units of the pixel size in the mrcz writer

---
 rsciio/mrcz/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 22093ce..34b5a6b 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -55,6 +55,8 @@ _POP_FROM_HEADER = [
 # Hyperspy uses an unusual mixed Fortran- and C-ordering scheme
 _READ_ORDER = [1, 2, 0]
 _WRITE_ORDER = [0, 1, 2]
+# Names of the units in mrcz, which otherwise considers the scale to be in nm
+_MRCZ_UNITS = {"Å": "\\AA", "\u212b": "\\AA", "µm": "\\mum", "μm": "\\mum", "um": "\\mum"}
 
 
 # API changes in mrcz 0.5
@@ -221,6 +223,7 @@ def file_writer(
 
     # Get pixelsize and pixelunits from the axes
     pixelunits = signal["axes"][-1]["units"]
+    pixelunits = _MRCZ_UNITS.get(pixelunits, pixelunits)
     pixelsize = [signal["axes"][I_]["scale"] for I_ in _WRITE_ORDER[: len(signal["axes"])]]
 
     # Strip out voltage from meta-data
-- 
2.43.0


From 8067a93275527d9bd3125f479f02abe606148a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 034/207] fix: double precision data of non-native byte order
 in the mrcz writer

---
 rsciio/mrcz/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 34b5a6b..dabcf39 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -231,9 +231,12 @@ def file_writer(
     # There aren't hyperspy fields for spherical aberration or detector gain
     C3 = 0.0
     gain = md.get("Signal.Noise_properties.Variance_linear_model.gain_factor", 1.0)
+    # mrcz doesn't cast double precision of non-native byte order
+    data = signal["data"]
+    data = data.astype(data.dtype.newbyteorder("="), copy=False)
     if do_async:
         _mrcz.asyncWriteMRC(
-            signal["data"],
+            data,
             filename,
             meta=md,
             endian=mrcz_endian,
@@ -248,7 +251,7 @@ def file_writer(
         )
     else:
         _mrcz.writeMRC(
-            signal["data"],
+            data,
             filename,
             meta=md,
             endian=mrcz_endian,
-- 
2.43.0


From 338811a8f12dd60c505cc5f7b6f7ef325c47c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 035/207] fix: lazy loading of npy and prz arrays stored in
 Fortran order

---
 rsciio/numpy/_api.py     |  5 ++++-
 rsciio/pantarhei/_api.py |  6 ++++--
 rsciio/utils/_tools.py   | 11 ++++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/rsciio/numpy/_api.py b/rsciio/numpy/_api.py
index af5f39a..65d9874 100644
--- a/rsciio/numpy/_api.py
+++ b/rsciio/numpy/_api.py
@@ -29,6 +29,7 @@ from rsciio._docstrings import (
 )
 from rsciio.utils import file
 from rsciio.utils._array import is_dask_array
+from rsciio.utils._tools import _inspect_npy_header
 
 
 def inspect_npy_file(filename):
@@ -116,12 +117,14 @@ def file_reader(filename, lazy=False, chunks="auto", navigation_axes=None, **kwa
     dask.array<array, shape=(1000, 1000, 500, 500), dtype=float64, chunksize=(100, 100, 250, 250)>
     """
     if lazy:
-        offset, shape, dtype = inspect_npy_file(filename)
+        with open(filename, "rb") as f:
+            offset, shape, dtype, order = _inspect_npy_header(f)
         data = file.memmap_distributed(
             filename,
             offset=offset,
             shape=shape,
             dtype=np.dtype(dtype),
+            order=order,
             chunks=chunks,
             **kwargs,
         )
diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c5816bf..6b91b5d 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -37,7 +37,8 @@ from rsciio._docstrings import (
 )
 from rsciio.pantarhei._restricted_unpickling import read_pickled_array
 from rsciio.utils._dictionary import DTBox
-from rsciio.utils.file import inspect_npy_bytes, memmap_distributed
+from rsciio.utils._tools import _inspect_npy_header
+from rsciio.utils.file import memmap_distributed
 
 _logger = logging.getLogger(__name__)
 
@@ -108,7 +109,7 @@ def file_reader(
             data_info = zf.getinfo("data.npy")
             # Open the data.npy file within the archive
             with zf.open("data.npy") as f:
-                offset_in_npy, shape, dtype_str = inspect_npy_bytes(f)
+                offset_in_npy, shape, dtype_str, order = _inspect_npy_header(f)
 
         with open(filename, "rb") as f:
             # data_info.header_offset points to the local file header
@@ -127,6 +128,7 @@ def file_reader(
             offset=offset,
             shape=shape,
             dtype=np.dtype(dtype_str),
+            order=order,
             chunks=chunks,
             **kwargs,
         )
diff --git a/rsciio/utils/_tools.py b/rsciio/utils/_tools.py
index fe7343f..dcec676 100644
--- a/rsciio/utils/_tools.py
+++ b/rsciio/utils/_tools.py
@@ -158,7 +158,14 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     >>> with open('example.npy', 'rb') as f:
     ...     offset, shape, dtype = inspect_npy_bytes(f)
     """
+    return _inspect_npy_header(file_)[:3]
 
+
+def _inspect_npy_header(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str, str]:
+    """
+    Same as :func:`inspect_npy_bytes` but also returns the memory order
+    (``"C"`` or ``"F"``) of the array.
+    """
     # Read magic string and version
     _ = file_.read(6)
     major, _ = struct.unpack("BB", file_.read(2))
@@ -187,4 +194,6 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     dtype = header_dict["descr"]
     offset = header_offset + header_len
 
-    return offset, shape, dtype
+    order = "F" if header_dict["fortran_order"] else "C"
+
+    return offset, shape, dtype, order
-- 
2.43.0


From aee0f10e26e44f083a3914e160990cd93915a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 036/207] fix: memmap_distributed without shape and with an
 offset

---
 rsciio/utils/_distributed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index d08c1df..ea81ffe 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -248,7 +248,7 @@ def memmap_distributed(
 
     if shape is None:
         unit_size = np.dtype(dtype).itemsize
-        shape = int(os.path.getsize(filename) / unit_size)
+        shape = (os.path.getsize(filename) - offset) // unit_size
     if not isinstance(shape, tuple):
         shape = (shape,)
 
-- 
2.43.0


From a68b0f58ce85ef1bebebde030cb19ef8d1b079f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 037/207] fix: chunks with navigation dimensions of size one in
 slice_memmap

---
 rsciio/utils/_distributed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index ea81ffe..5059d18 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -161,7 +161,8 @@ def slice_memmap(slices, file, dtypes, shape, key=None, positions=False, **kwarg
     numpy.ndarray
         Array of the data from the memory mapped file sliced using the provided slice.
     """
-    slices_ = np.squeeze(slices)[()]
+    # keep the navigation dimensions of size 1 when using positions
+    slices_ = slices[..., 0, 0] if positions else np.squeeze(slices)[()]
     data = np.memmap(file, dtypes, shape=shape, **kwargs)
     if key is not None:
         data = data[key]
-- 
2.43.0


From 1fe26b210cbf540707f489efab2a13e7bac375ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 038/207] fix: lazy loading of arrays of structured dtype (npy)

---
 rsciio/utils/_distributed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index 5059d18..613ea7e 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -224,6 +224,7 @@ def memmap_distributed(
         Maximum size of a block in bytes. The default is None.
     key : None, str
         For structured dtype only. Specify the key of the structured dtype to use.
+        If None, the data of structured dtype is returned.
 
     Returns
     -------
@@ -239,7 +240,7 @@ def memmap_distributed(
     "data" or "sec" will need to be specified.
     """
 
-    if dtype.names is not None:
+    if dtype.names is not None and key is not None:
         # Structured dtype
         array_dtype = dtype[key].base
         sub_array_shape = dtype[key].shape
-- 
2.43.0


From 4c9b61fdee0f9a41c5ff80eb1781840cc971542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 039/207] fix: units of the y and z axes in semper files

---
 rsciio/semper/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 9d0739f..90ae6d5 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -325,9 +325,9 @@ class SemperFormat(object):
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
         xunit = self.units[0] if self.units[0] is not None else ""
         label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[0] if self.units[0] is not None else ""
+        yunit = self.units[1] if self.units[1] is not None else ""
         label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[0] if self.units[0] is not None else ""
+        zunit = self.units[2] if self.units[2] is not None else ""
         label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
         return label
 
-- 
2.43.0


From 452af056f67b0dee74dd1f037983130275b8cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 040/207] fix: calibration of the rows, columns and layers in
 semper files

---
 rsciio/semper/_api.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 90ae6d5..87a1d47 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -518,10 +518,11 @@ class SemperFormat(object):
         smetadata = DTBox(signal["metadata"], box_dots=True)
         assert len(data.shape) <= 3, "Only up to 3-dimensional datasets can be handled!"
         scales, offsets, units = [1.0] * 3, [0.0] * 3, [None] * 3  # Defaults!
-        for i in range(len(data.shape)):
-            scales[i] = signal["axes"][i]["scale"]
-            offsets[i] = signal["axes"][i]["offset"]
-            units[i] = signal["axes"][i]["units"]
+        # x, y, z are the columns (last dimension), rows and layers, respectively
+        for i, axis in enumerate(signal["axes"][::-1]):
+            scales[i] = axis["scale"]
+            offsets[i] = axis["offset"]
+            units[i] = axis["units"]
         # Make sure data is 3D!
         data = data[tuple(None for _ in range(3 - len(data.shape)))]
         signal_dimension = len(
@@ -574,10 +575,18 @@ class SemperFormat(object):
         """
         data = self.data.squeeze()  # Reduce unneeded dimensions!
         axes = []
+        # x, y, z are the columns (last dimension), rows and layers, respectively
         for name, scale, offset, units, size in zip(
-            ("x", "y", "z"), self.scales, self.offsets, self.units, data.shape
+            ("x", "y", "z"),
+            self.scales,
+            self.offsets,
+            self.units,
+            self.data.shape[::-1],
         ):
-            axes.append(
+            if size == 1:
+                continue
+            axes.insert(
+                0,
                 {
                     "_type": "UniformDataAxis",
                     "name": name,
@@ -587,7 +596,7 @@ class SemperFormat(object):
                     "size": size,
                     "scale": scale,
                     "offset": offset,
-                }
+                },
             )
         metadata = {}
         metadata["General"] = {}
-- 
2.43.0


From fd10ea42435901bb5a8fb87ed143991ef7e85d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 041/207] fix: integer data of non-native byte order in the
 semper writer

---
 rsciio/semper/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 87a1d47..f1a971b 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -334,8 +334,10 @@ class SemperFormat(object):
     @classmethod
     def _check_format(cls, data):
         if np.issubdtype(data.dtype, np.int8):
+            data = data.astype(np.byte)
             iform = 0  # byte
         elif np.issubdtype(data.dtype, np.int16):
+            data = data.astype(np.int16)
             iform = 1  # int16
         elif np.issubdtype(data.dtype, np.floating) and data.dtype.itemsize <= 4:
             data = data.astype(np.float32)
@@ -344,6 +346,7 @@ class SemperFormat(object):
             data = data.astype(np.complex64)
             iform = 3  # complex (8 byte or less)
         elif np.issubdtype(data.dtype, np.int32):
+            data = data.astype(np.int32)
             iform = 4  # int32
         else:
             supported_formats = [np.dtype(i).name for i in cls.IFORM_DICT.values()]
-- 
2.43.0


From f0d4b61043d75d464ad30784a0b8f4fd80980946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 042/207] fix: complex data in the semper writer

---
 rsciio/semper/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index f1a971b..b5c4b3a 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -307,6 +307,8 @@ class SemperFormat(object):
         date_ints[0] -= 1900  # Modify year integer!
         label["DATE"] = date_ints
         range_string = "{:.4g},{:.4g}".format(self.data.min(), self.data.max())
+        # Up to 27 characters, which can be exceeded by complex numbers
+        range_string = range_string[:27]
         label["NCRANG"] = len(range_string)
         label["RANGE"][:, : len(range_string)] = [ord(c) for c in range_string]
         label["IPLTYP"] = self.metadata.get("IPLTYP", 248)  # seems standard
-- 
2.43.0


From 23271e4995b57bbf21441797ec564f10c5be8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 043/207] fix: titles with non-ascii or more than 144
 characters in the semper writer

---
 rsciio/semper/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index b5c4b3a..cd51b0f 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -278,7 +278,7 @@ class SemperFormat(object):
         pack = partial(pack_to_intbytes, "<f")  # Packing function for 4 byte floats!
         nlay, nrow, ncol = self.data.shape
         data, iform = self._check_format(self.data)
-        title = self.title
+        title = (self.title if self.title is not None else "")[:144]
         # Create label:
         label = np.zeros((1,), dtype=self.LABEL_DTYPES)
         # Fill label:
@@ -451,7 +451,8 @@ class SemperFormat(object):
         """
         nlay, nrow, ncol = self.data.shape
         data, iform = self._check_format(self.data)
-        title = self.title if self.title is not None else ""
+        # The length of the title is its number of bytes
+        title = (self.title if self.title is not None else "").encode()
         with open(filename, "wb") as f:
             if not skip_header:
                 # Create header:
@@ -475,7 +476,7 @@ class SemperFormat(object):
                     f.write(
                         struct.pack("<i", len(title))
                     )  # record length, 4 byte format!
-                    f.write(title.encode())
+                    f.write(title)
                     f.write(
                         struct.pack("<i", len(title))
                     )  # record length, 4 byte format!
-- 
2.43.0


From 6092ce9e8ea7b87a23d1a4840e3ff9e4eb0d79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 044/207] fix: sizes and positions above 32767 in semper labels

---
 rsciio/semper/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index cd51b0f..4e2df20 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -221,7 +221,7 @@ class SemperFormat(object):
         for key in ["NCOL", "NROW", "NLAY", "ICCOLN", "ICROWN", "ICLAYN"]:
             value = (
                 256**2 * np.int32(label.pop(key + "H"))
-                + 256 * label[key][0]
+                + 256 * np.int32(label[key][0])
                 + label[key][1]
             )
             label[key] = value
-- 
2.43.0


From e190734b8d254164ba9966c829b3db0e96477472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 045/207] fix: titles with characters above U+7FFF in the
 semper writer

---
 rsciio/semper/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 4e2df20..375c4e7 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -279,6 +279,8 @@ class SemperFormat(object):
         nlay, nrow, ncol = self.data.shape
         data, iform = self._check_format(self.data)
         title = (self.title if self.title is not None else "")[:144]
+        # The characters are stored in bytes
+        title = title.encode("latin-1", "replace").decode("latin-1")
         # Create label:
         label = np.zeros((1,), dtype=self.LABEL_DTYPES)
         # Fill label:
-- 
2.43.0


From 9905f98329eb38c10ccf966cece9e9c7f9ce3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 046/207] fix: pixel size in the header of tvips files

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 666bfc2..29d18fb 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -113,7 +113,7 @@ def _get_main_header_from_signal(signal, version=2, frame_header_extra_bytes=0):
     # original pixel scale
     mode = _guess_image_mode(signal)
     axes = signal["axes"]
-    scale = axes[0]["scale"]
+    scale = axes[-1]["scale"]
     offsetx = axes[-1]["offset"]
     offsety = axes[-2]["offset"]
     unit = axes[-2]["units"]
-- 
2.43.0


From 30edea847e8797a05c299b5cccd50714ea886eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 047/207] fix: data of non-native byte order in the tvips
 writer

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 29d18fb..52fe771 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -166,7 +166,7 @@ def _get_frame_record_dtype_from_signal(signal, extra_bytes=0):
         fhdtype.append(("extra", bytes, extra_bytes))
     dimx = signal["axes"][-1]["size"]
     dimy = signal["axes"][-2]["size"]
-    fhdtype.append(("data", signal["data"].dtype, (dimy, dimx)))
+    fhdtype.append(("data", signal["data"].dtype.newbyteorder("<"), (dimy, dimx)))
     dt = np.dtype(fhdtype)
     return dt
 
-- 
2.43.0


From 0d95ba6381eac5d6acb43c0dacc3d1b681c684fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 048/207] fix: time zone of the date and time of tvips files

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 52fe771..f1e4836 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -443,7 +443,7 @@ def file_reader(
             }
             for i in range(dim)
         ]
-    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0])
+    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0], tz=timezone.utc)
     date = dtobj.date().isoformat()
     time = dtobj.time().isoformat()
     current = all_metadata[0]["fcurrent"][0]
-- 
2.43.0


From 14afc05b3522f2df47b390fac4a997e5a60d1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 049/207] fix: stage tilts in the tvips writer

---
 rsciio/tvips/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index f1e4836..c1fdfd3 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -591,8 +591,8 @@ def file_writer(
     stagex = metadata.get("Acquisition_instrument.TEM.Stage.x", 0)
     stagey = metadata.get("Acquisition_instrument.TEM.Stage.y", 0)
     stagez = metadata.get("Acquisition_instrument.TEM.Stage.z", 0)
-    stagea = metadata.get("Acquisition_instrument.TEM.tilt_alpha", 0)
-    stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
+    stagea = metadata.get("Acquisition_instrument.TEM.Stage.tilt_alpha", 0)
+    stageb = metadata.get("Acquisition_instrument.TEM.Stage.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
     frames_to_save = num_frames if num_frames else 1
-- 
2.43.0


From e4a722aa7185f1dc0bb327a0f3235d2d1a3b40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 050/207] fix: writing and reading tvips files of a single
 frame

---
 rsciio/tvips/_api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index c1fdfd3..98a2e07 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -426,7 +426,7 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
-        timescale = 1 if times.shape[0] <= 0 else times[1] - times[0]
+        timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
         # Create the axis objects for each axis
@@ -556,7 +556,8 @@ def file_writer(
     )
     # frame header + frame dtype
     record_dtype = _get_frame_record_dtype_from_signal(signal, frame_header_extra_bytes)
-    total_file_size = main_header.itemsize + num_frames * record_dtype.itemsize
+    frames_to_save = num_frames if num_frames else 1
+    total_file_size = main_header.itemsize + frames_to_save * record_dtype.itemsize
     if max_file_size is None:
         max_file_size = total_file_size
     minimum_file_size = main_header.itemsize + record_dtype.itemsize
@@ -575,6 +576,7 @@ def file_writer(
     # workaround for timestamp not working on Windows, see https://bugs.python.org/issue37527
     BEGIN = datetime(1970, 1, 1, 0).replace(tzinfo=timezone.utc)
     timestamp = (time_dt_utc - BEGIN).total_seconds()
+    time_increment = 1
     if num_frames:
         nav_units = signal["axes"][-3]["units"]
         nav_increment = signal["axes"][-3]["scale"]
@@ -583,7 +585,7 @@ def file_writer(
 
             time_increment = (nav_increment * _UREG(nav_units)).to("ms").magnitude
         except (AttributeError, pint.UndefinedUnitError, pint.DimensionalityError):
-            time_increment = 1
+            pass
     # imaging or diffraction
     if mode is None:
         mode = _guess_image_mode(signal)
@@ -595,12 +597,10 @@ def file_writer(
     stageb = metadata.get("Acquisition_instrument.TEM.Stage.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
-    frames_to_save = num_frames if num_frames else 1
     current_frame = 0
     file_index = 0
     data = signal["data"]
-    if num_frames:
-        fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
+    fdata = data.reshape((frames_to_save, axes[-2]["size"], axes[-1]["size"]))
     while frames_to_save != 0:
         suffix = "_" + (f"{file_index}".zfill(3))
         filename = fnb + suffix + ext
-- 
2.43.0


From b3e50714fc3ed37bf26ac5fae30597d3a53db9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 051/207] fix: time stamps of tvips frames

---
 rsciio/tvips/_api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 98a2e07..3ac8262 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -632,9 +632,8 @@ def file_writer(
         file_memmap["stageb"] = stageb
         file_memmap["fcurrent"] = fcurrent
         rotator = np.arange(current_frame, current_frame + frames_saved)
-        milliseconds = rotator * time_increment
-        timestamps = (timestamp + milliseconds / 1000).astype(int)
-        milliseconds = milliseconds % 1000
+        milliseconds = np.rint(timestamp * 1000 + rotator * time_increment)
+        timestamps, milliseconds = np.divmod(milliseconds, 1000)
         file_memmap["timestamp"] = timestamps
         file_memmap["ms"] = milliseconds
         file_memmap["rotidx"] = rotator + 1
-- 
2.43.0


From 78fe4906cc53174ae6b20fe4d32b8c93cd342837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 052/207] fix: axes of tvips line scans

---
 rsciio/tvips/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 3ac8262..4585398 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -413,10 +413,10 @@ def file_reader(
             {
                 "size": data_stack.shape[i],
                 "index_in_array": i,
-                "name": names[i],
-                "scale": scales[i],
-                "offset": offsets[i],
-                "units": units[i],
+                "name": names[i - dim],
+                "scale": scales[i - dim],
+                "offset": offsets[i - dim],
+                "units": units[i - dim],
                 "navigate": True if i < len(scan_shape) else False,
             }
             for i in range(dim)
-- 
2.43.0


From 451d3d299795e9009728cdc112c0f66e549a4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 053/207] fix: scan_start_frame without scan_shape in the tvips
 reader

---
 rsciio/tvips/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 4585398..26ba727 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -426,6 +426,8 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
+        data_stack = data_stack[scan_start_frame:]
+        times = times[scan_start_frame:]
         timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
-- 
2.43.0


From 3d87419bbce4bd834a22ae8c6a8a73b9aa0eef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 054/207] fix: automatic scan shape of tvips streams with
 frames after the scan

---
 rsciio/tvips/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 26ba727..ec1a44a 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -354,6 +354,8 @@ def file_reader(
         # try to deduce start and stop of the scan based on rotator index
         if scan_shape == "auto":
             record_idxs = np.concatenate([i["rotidx"] for i in all_metadata])
+            # signed integers, since differences are calculated
+            record_idxs = record_idxs.astype(np.int64)
             scan_start_frame, scan_stop_frame = _find_auto_scan_start_stop(record_idxs)
             if scan_start_frame is None or scan_stop_frame is None:
                 raise ValueError(
-- 
2.43.0


From 61a60a53c6693afcf3f42494c6eca71c9137ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 055/207] fix: digitalsurf, axes and shape of spectra with a
 single line or point

---
 rsciio/digitalsurf/_api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c8fa496..e74cbb6 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1411,12 +1411,12 @@ class DigitalSurfHandler(object):
             self.signal_dict["axes"].append(self._build_Yax(hypdic, ind=0, nav=True))
 
         # Add the signal axis_src to the signal dict
-        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=1, nav=False))
+        index = len(self.signal_dict["axes"])
+        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=index, nav=False))
 
-        # We reshape the data in the correct format.
-        # Edit: the data is now squeezed for unneeded dimensions
-        data_shape = (hypdic["_19_Number_of_Lines"], hypdic["_18_Number_of_Points"])
-        data_array = np.squeeze(hypdic["_62_points"].reshape(data_shape, order="C"))
+        # We reshape the data in the correct format: one dimension for each axis
+        data_shape = tuple(axis["size"] for axis in self.signal_dict["axes"])
+        data_array = hypdic["_62_points"].reshape(data_shape, order="C")
 
         self.signal_dict["data"] = data_array
 
-- 
2.43.0


From 96a84d8ad0c1c88cffd19daf56051597bc94d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 056/207] fix: digitalsurf, apply Z scale and offset of
 surfaces when they are whole numbers

---
 rsciio/digitalsurf/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index e74cbb6..9ed04eb 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2163,10 +2163,9 @@ class DigitalSurfHandler(object):
                 "_23_Z_Spacing"
             ) / self._get_work_dict_key_value("_35_Z_Unit_Ratio")
             offset = self._get_work_dict_key_value("_55_Z_Offset")
-            if float(scale).is_integer() and float(offset).is_integer():
-                return True
-            else:
-                return False
+            zmin = self._get_work_dict_key_value("_16_Zmin")
+            # The offset is stored in single precision
+            return scale == 1 and offset == np.float32(zmin)
         else:
             return False
 
-- 
2.43.0


From 6ca4d7240e566bc38231609f4b0de717a71d3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 057/207] fix: digitalsurf, integer overflow and zero scale
 when exporting single precision or constant data

---
 rsciio/digitalsurf/_api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 9ed04eb..9f2da70 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1000,8 +1000,12 @@ class DigitalSurfHandler(object):
             Zmin = -(2 ** (32 - 1))
             Zmax = 2**32 + Zmin - 1
 
-        Zscale = (Zmax_f - Zoffset_f) / (Zmax - Zmin)
-        data_int = (data - Zoffset_f) / Zscale + Zmin
+        # single precision can't hold 32-bit integers
+        Zscale = (np.float64(Zmax_f) - Zoffset_f) / (Zmax - Zmin)
+        if Zscale == 0:
+            # constant data
+            Zscale = 1.0
+        data_int = (data - np.float64(Zoffset_f)) / Zscale + Zmin
 
         if is_special and is_nan:
             data_int[np.isnan(data)] = Zmin - 2
-- 
2.43.0


From 3e1386c50810c37c3c6b6a8b35ea36f4513cacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 058/207] fix: digitalsurf, private zone was written as the
 representation of the bytes

---
 rsciio/digitalsurf/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 9f2da70..200295e 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2146,11 +2146,11 @@ class DigitalSurfHandler(object):
 
     def _unpack_private(self, file, encoding="latin-1"):
         privatesize = self._get_work_dict_key_value("_51_Private_size")
-        return self._get_str(file, privatesize, encoding)
+        return self._get_bytes(file, privatesize)
 
     def _pack_private(self, file, val, encoding="latin-1"):
         privatesize = self._get_work_dict_key_value("_51_Private_size")
-        self._set_str(file, val, privatesize)
+        self._set_bytes(file, val, privatesize)
 
     def _is_data_int(
         self,
-- 
2.43.0


From 3c4feeea459c6ba65a726c6d7cb49ed080f23528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 059/207] fix: digitalsurf, export of big endian integers

---
 rsciio/digitalsurf/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 200295e..719e067 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -915,6 +915,8 @@ class DigitalSurfHandler(object):
         Returns:
             tuple[int,int,int,float,float,np.ndarray[int]]: pointsize, Zmin, Zmax, Zscale, Zoffset, data_int
         """
+        # compare data types regardless of the byte order
+        data = data.astype(data.dtype.newbyteorder("="), copy=False)
         data_type = data.dtype
 
         if np.issubdtype(data_type, np.complexfloating):
-- 
2.43.0


From c2eda64e82711123832dd4ed491fc9feba531498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 060/207] fix: digitalsurf, export of signals with only a date
 or a time

---
 rsciio/digitalsurf/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 719e067..ec7edaa 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1134,10 +1134,12 @@ class DigitalSurfHandler(object):
         dt: datetime.datetime = get_date_time_from_metadata(
             metadata, formatting="datetime"
         )
-        if dt is not None:
+        # only the date or the time may be available
+        if isinstance(dt, (datetime.datetime, datetime.time)):
             self._work_dict["_40_Seconds"]["value"] = dt.second
             self._work_dict["_41_Minutes"]["value"] = dt.minute
             self._work_dict["_42_Hours"]["value"] = dt.hour
+        if isinstance(dt, datetime.date):
             self._work_dict["_43_Day"]["value"] = dt.day
             self._work_dict["_44_Month"]["value"] = dt.month
             self._work_dict["_45_Year"]["value"] = dt.year
-- 
2.43.0


From 69477f39cb9160a532bb3b1c5e83e0fe1253a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 061/207] fix: digitalsurf, empty parsed comments were exported
 as a section

---
 rsciio/digitalsurf/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index ec7edaa..731f815 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1976,7 +1976,7 @@ class DigitalSurfHandler(object):
                 if candidate and isinstance(candidate, dict):
                     return candidate
                 # dict casting for non-none but non-dict candidate
-                elif candidate is not None:
+                elif candidate is not None and not isinstance(candidate, dict):
                     return {"Parsed": candidate}
                 # else none candidate, or empty dict -> do nothing
             # Finally, if valid fields are present but no candidate
-- 
2.43.0


From 8879eef06c95183ca9e80a95131f63474089cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 062/207] fix: digitalsurf, last word of the quantity was taken
 as its units

---
 rsciio/digitalsurf/_api.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 731f815..f76925b 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1025,14 +1025,12 @@ class DigitalSurfHandler(object):
         """
         quantitystr: str = metadata.get("Signal", {}).get("quantity", "")
         quantitystr = quantitystr.strip()
-        quantity = quantitystr.split(" ")
-        if len(quantity) > 1:
-            Zunit = quantity.pop()
-            Zunit = Zunit.strip("()")
-            Zname = " ".join(quantity)
-        elif len(quantity) == 1:
-            Zname = quantity.pop()
-            Zunit = ""
+        # the units are in round brackets, e.g. "CL Intensity (a.u.)"
+        match = re.match(r"(.*?)\s*\(([^()]*)\)$", quantitystr)
+        if match:
+            Zname, Zunit = match.groups()
+        else:
+            Zname, Zunit = quantitystr, ""
 
         return Zname, Zunit
 
-- 
2.43.0


From 8e5ffa8d9b496e81d377209ea73f87b509d628e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 063/207] fix: digitalsurf, original metadata of series with
 several channels mixed up

---
 rsciio/digitalsurf/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index f76925b..65db35f 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1704,11 +1704,12 @@ class DigitalSurfHandler(object):
         original_metadata_dict = {}
 
         # Iteration over Number of data objects
-        for i in range(self._N_data_objects):
+        n_channels = max(self._N_data_channels, 1)
+        for i in range(max(self._N_data_objects, 1)):
             # Iteration over the Number of Data channels
-            for j in range(max(self._N_data_channels, 1)):
+            for j in range(n_channels):
                 # Creating a dictionary key for each object
-                k = (i + 1) * (j + 1)
+                k = i * n_channels + j + 1
                 key = "Object_{:d}_Channel_{:d}".format(i, j)
                 original_metadata_dict.update({key: {}})
 
-- 
2.43.0


From a180aceb1f93049c65cfc2271201a4fbb1dbd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 064/207] fix: digitalsurf, integer overflow when exporting
 series of 16 bits RGB images

---
 rsciio/digitalsurf/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 65db35f..61fecfc 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -851,9 +851,9 @@ class DigitalSurfHandler(object):
         self.objtype_split = []
         for d in tmp_data_split:
             self.data_split += [
-                d["R"].astype(np.int16).copy(),
-                d["G"].astype(np.int16).copy(),
-                d["B"].astype(np.int16).copy(),
+                d["R"].astype(np.int32).copy(),
+                d["G"].astype(np.int32).copy(),
+                d["B"].astype(np.int32).copy(),
             ]
             # self.objtype_split += [12,10,10]
         self.objtype_split = [12, 10, 10] * self.Taxis["size"]
-- 
2.43.0


From 3f518cb7b5c5c6b72b4850e099d403b644e2c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 065/207] fix: lazy reading of compressed prz files

---
 rsciio/pantarhei/_api.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 6b91b5d..9cf2aa1 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -26,6 +26,7 @@ import zipfile
 from datetime import datetime as dt
 from pathlib import Path
 
+import dask.array as da
 import numpy as np
 
 from rsciio._docstrings import (
@@ -123,15 +124,19 @@ def file_reader(
             # Add the offset within the .npy file itself
             offset = zip_data_offset + offset_in_npy
 
-        data = memmap_distributed(
-            filename,
-            offset=offset,
-            shape=shape,
-            dtype=np.dtype(dtype_str),
-            order=order,
-            chunks=chunks,
-            **kwargs,
-        )
+        if data_info.compress_type == zipfile.ZIP_STORED:
+            data = memmap_distributed(
+                filename,
+                offset=offset,
+                shape=shape,
+                dtype=np.dtype(dtype_str),
+                order=order,
+                chunks=chunks,
+                **kwargs,
+            )
+        else:
+            # compressed data (files saved by RosettaSciIO) can't be memory mapped
+            data = da.from_array(prz_file["data"], chunks=chunks)
     else:
         data = prz_file["data"]
 
-- 
2.43.0


From a1e6a4619a305d441563ee887b2df72f85dd6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 066/207] fix: prz files with axes of size 1 without content
 type

---
 rsciio/pantarhei/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 9cf2aa1..7d99bca 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -240,7 +240,7 @@ def import_pr(data, meta_data, filename=None):
     trivial_indices = [
         i
         for i, _ in enumerate(content_type_np_order)
-        if data.shape[i] == 1 and "Index" in content_type_np_order[i]
+        if data.shape[i] == 1 and "Index" in (content_type_np_order[i] or "")
     ]
 
     content_type_np_order = [
-- 
2.43.0


From b2faa6235ebd9a4e39b4e39e067e0606daee42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 067/207] fix: prz files with a single spectrum or more than
 two navigation dimensions

---
 rsciio/pantarhei/_api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 7d99bca..0c9b4f2 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -204,10 +204,9 @@ def import_pr(data, meta_data, filename=None):
     if content_type is None:
         if data_type in ("Stack", "3D"):
             content_type = [None, None, "Index"]
-        elif data_type == "1D" and data_dimensions == 3:
-            content_type = [None, "PlotIndex", "Index"]
         elif data_type == "1D":
-            content_type = [None, "PlotIndex"]
+            content_type = [None, "PlotIndex"] + ["Index"] * (data_dimensions - 2)
+            content_type = content_type[:data_dimensions]
         elif data_dimensions >= 3:
             content_type = [
                 None,
-- 
2.43.0


From 69702bf94066a4bfec0039626d820dae8846606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 068/207] fix: scan axes swapped when saving prz files

---
 rsciio/pantarhei/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 0c9b4f2..a5c1f62 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -562,8 +562,8 @@ def get_metadata_from_axes_info(axes_info, pixel_factors=None):
     axis_name_to_content_type = {
         "Energy loss": "Energy",
         "Energy": "Energy",
-        "ScanX": "ScanY",
-        "ScanY": "ScanX",
+        "ScanX": "ScanX",
+        "ScanY": "ScanY",
     }
     nr_axes = len(axes_info)
     imported_calibs = [None] * nr_axes
-- 
2.43.0


From a1392f6c884e58b4ef8f91f5bd0cf2400488b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 069/207] fix: order of the navigation axes of prz files when
 only some content types are known

---
 rsciio/pantarhei/_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index a5c1f62..cd2b443 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -623,6 +623,11 @@ def get_metadata_from_axes_info(axes_info, pixel_factors=None):
     if any(imported_calibs):
         axes_meta_data["inherited.calib"] = imported_calibs[::-1]
     if any(content_types):
+        # otherwise the type of the other axes and their order are not kept
+        # when reading the file
+        for i in range(nr_axes):
+            if content_types[i] is None and navigate_axes[i]:
+                content_types[i] = "Index"
         axes_meta_data["content.types"] = content_types[::-1]
     else:
         if len([nav for nav in navigate_axes if not nav]) == 1:
-- 
2.43.0


From 35b80f8751a496a0fb630274e11e879477b4c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 070/207] fix: energy axis of EELS spectra reversed in saved
 prz files

---
 rsciio/pantarhei/_api.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index cd2b443..a26a245 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -372,6 +372,18 @@ def export_pr(signal):
     ref_size = meta_data["ref_size"][::-1]  # switch to numpy order
     pixel_factors = [ref_size[i] / data.shape[i] for i in range(data.ndim)]
     axes_meta_data = get_metadata_from_axes_info(axes_info, pixel_factors=pixel_factors)
+    content_types = axes_meta_data.get("content.types", [])[::-1]
+    if meta_data.get("filter.mode") == "EELS" and "Energy" in content_types:
+        # the energy axis is flipped when reading the file
+        i = content_types.index("Energy")
+        data = np.flip(data, i)
+        axis = dict(axes_info[i])
+        if axis.get("scale") is not None and axis.get("offset") is not None:
+            axis["offset"] = -(axis["offset"] + (data.shape[i] - 1) * axis["scale"])
+        axes_info = [*axes_info[:i], axis, *axes_info[i + 1 :]]
+        axes_meta_data = get_metadata_from_axes_info(
+            axes_info, pixel_factors=pixel_factors
+        )
     meta_data.update(axes_meta_data)
 
     return data, meta_data
-- 
2.43.0


From 28794ed8cb9330c1e887ec7f20b6d80540e764ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 071/207] fix: calibration lost when reading prz files saved by
 RosettaSciIO

---
 rsciio/pantarhei/_api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index a26a245..889bf0f 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -195,10 +195,14 @@ def import_pr(data, meta_data, filename=None):
     content_type = meta_data.get("content.types")
     calibrations = []
     for axis in range(data_dimensions):
-        try:
-            calib = meta_data["device.calib"][axis]
-        except (IndexError, KeyError):
-            calib = None
+        calib = None
+        # files saved by RosettaSciIO only have an inherited calibration
+        for key in ("device.calib", "inherited.calib"):
+            try:
+                calib = meta_data[key][axis]
+                break
+            except (IndexError, KeyError):
+                continue
         calibrations.append(calib)
 
     if content_type is None:
-- 
2.43.0


From e04bb5f43909c55ea6eb128bc26ff3ac491f7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 072/207] fix: save lazy signals to prz files

---
 rsciio/pantarhei/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 889bf0f..fc74572 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -162,7 +162,8 @@ def file_writer(filename: str | Path, signal: dict) -> None:
         # use open file to avoid numpy adding the npz extension
         np.savez_compressed(
             file=f,
-            data=data,
+            # compute lazy signal
+            data=np.asanyarray(data),
             meta_data=[meta_data],
             file_format_version=2,
             data_model=[{}],
-- 
2.43.0


From 084a63283792270e8b10dac89a464beed639884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 073/207] fix: data lost when saving lazy signals onto the zspy
 file they are loaded from

---
 rsciio/zspy/_api.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index 473c6ac..ecd10c6 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -17,8 +17,12 @@
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
 import logging
+import os
+import shutil
+import tempfile
 import zipfile
 from collections.abc import MutableMapping
+from pathlib import Path
 
 import numcodecs
 import numpy as np
@@ -222,6 +226,7 @@ def file_writer(
     if not isinstance(write_dataset, bool):
         raise ValueError("`write_dataset` argument must a boolean.")
 
+    temp_folder = None
     if isinstance(filename, MutableMapping):
         # a store is passed for the filename
         store = filename
@@ -231,6 +236,14 @@ def file_writer(
                 "store is passed to the `filename` parameter."
             )
     else:
+        target = Path(filename)
+        if write_dataset and (
+            target.is_dir() or (store_type == "zip" and target.is_file() and close_file)
+        ):
+            # Write to a temporary store, which replaces the existing one once it is
+            # complete, because lazy data may need to be read from the existing one
+            temp_folder = Path(tempfile.mkdtemp(dir=target.absolute().parent))
+            filename = str(temp_folder / target.name)
         if store_type in ["local", None]:
             store = zarr.storage.NestedDirectoryStore(filename)
         elif store_type == "zip":
@@ -240,6 +253,27 @@ def file_writer(
                 "The `store_type` argument must be one of 'local' or 'zip'."
             )
 
+    try:
+        _write(
+            store,
+            signal,
+            close_file,
+            chunks=chunks,
+            compressor=compressor,
+            write_dataset=write_dataset,
+            show_progressbar=show_progressbar,
+            **kwds,
+        )
+        if temp_folder is not None:
+            if target.is_dir():
+                shutil.rmtree(target)
+            os.replace(filename, target)
+    finally:
+        if temp_folder is not None:
+            shutil.rmtree(temp_folder, ignore_errors=True)
+
+
+def _write(store, signal, close_file, write_dataset, **kwds):
     mode = "w" if write_dataset else "a"
 
     _logger.debug(f"File mode: {mode}")
@@ -260,10 +294,7 @@ def file_writer(
         f,
         signal,
         expg,
-        chunks=chunks,
-        compressor=compressor,
         write_dataset=write_dataset,
-        show_progressbar=show_progressbar,
         **kwds,
     )
     writer.write()
-- 
2.43.0


From 7774745d5e79172245b7ff0d36a8c348b3d1a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 074/207] fix: outdated metadata and models left when updating
 hspy and zspy files

---
 rsciio/_hierarchical.py | 42 ++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 3ef98fe..babfe0d 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -850,7 +850,6 @@ class HierarchicalWriter:
             coord_group = group.create_group(group_name)
             self.dict2group(axis_dict, coord_group, **kwds)
 
-        mapped_par = group.require_group("metadata")
         metadata_dict = signal["metadata"]
 
         if write_dataset:
@@ -871,19 +870,40 @@ class HierarchicalWriter:
         if default_version < Version("1.2"):
             metadata_dict["_internal_parameters"] = metadata_dict.pop("_HyperSpy")
 
-        self.dict2group(metadata_dict, mapped_par, **kwds)
-        original_par = group.require_group("original_metadata")
-        self.dict2group(signal["original_metadata"], original_par, **kwds)
-        learning_results = group.require_group("learning_results")
-        self.dict2group(signal["learning_results"], learning_results, **kwds)
-        attributes = group.require_group("attributes")
-        self.dict2group(signal["attributes"], attributes, **kwds)
+        self._replace_group(metadata_dict, group, "metadata", **kwds)
+        for name in ("original_metadata", "learning_results", "attributes"):
+            self._replace_group(signal[name], group, name, **kwds)
+
+        if "Analysis/models" in self.file:
+            model_group = self.file["Analysis/models"]
+            for name in list(model_group):
+                # models previously saved with this signal
+                if (
+                    model_group[name].attrs.get("_signal") == group.name
+                    and name not in signal["models"]
+                ):
+                    del model_group[name]
 
         if signal["models"]:
             model_group = self.file.require_group("Analysis/models")
-            self.dict2group(signal["models"], model_group, **kwds)
-            for model in model_group.values():
-                model.attrs["_signal"] = group.name
+            for name, model in signal["models"].items():
+                self._replace_group(model, model_group, name, **kwds)
+                model_group[name].attrs["_signal"] = group.name
+
+    def _replace_group(self, dictionary, group, name, **kwds):
+        """
+        Write a dictionary to the group ``name`` of ``group``. If it already exists
+        (file open in 'a' mode), what it contains is not kept.
+        """
+        # The new group is complete before the existing one is deleted, because
+        # lazy arrays may need to be read from the existing one
+        new_name = f"_new_{name}" if name in group else name
+        if new_name in group:
+            del group[new_name]
+        self.dict2group(dictionary, group.create_group(new_name), **kwds)
+        if new_name != name:
+            del group[name]
+            group.move(new_name, name)
 
     def dict2group(self, dictionary, group, **kwds):
         "Recursive writer of dicts and signals"
-- 
2.43.0


From 2eacf7afa7be702c63587f2ed3a7bd367afbcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 075/207] fix: save lazy ragged arrays of strings to zspy files

---
 rsciio/zspy/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index ecd10c6..8f050a2 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -103,9 +103,12 @@ class ZspyWriter(HierarchicalWriter):
         these_kwds.update(dict(dtype=object, exact=True, chunks=chunks))
 
         if dtype is None:
-            test_data = data[data.ndim * (0,)]
+            # Slice instead of indexing, since dask can't compute a 0-d array
+            # containing a list (ragged array of strings)
+            test_data = data[data.ndim * (slice(1),)]
             if is_dask_array(test_data):
                 test_data = test_data.compute()
+            test_data = test_data[data.ndim * (0,)]
             if hasattr(test_data, "dtype"):
                 # this is a numpy array
                 dtype = test_data.dtype
-- 
2.43.0


From ff1e7ec2b05d3b19dd4a8241e2b53dc59a4530a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 076/207] fix: read DM image data with the byte order of the
 file

---
 rsciio/digitalmicrograph/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7df7ede..5f6a8ca 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -569,11 +569,10 @@ class ImageObject(object):
         # Signal2D data types (Signal2D Object chapter on DM help)#
         # key = DM data type code
         # value = numpy data type
-        if self.imdict.ImageData.DataType == 4:
+        if self.imdict.ImageData.DataType in (0, 4):
             raise NotImplementedError("Reading data of this type is not implemented.")
 
         imdtype_dict = {
-            0: "not_implemented",  # null
             1: "int16",
             2: "float32",
             3: "complex64",
@@ -595,7 +594,9 @@ class ImageObject(object):
             27: "complex64",  # not numpy: 8-Byte packed complex (FFT data)
             28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
         }
-        return imdtype_dict[self.imdict.ImageData.DataType]
+        dtype = np.dtype(imdtype_dict[self.imdict.ImageData.DataType])
+        # the data is stored in the byte order of the file
+        return dtype.newbyteorder(self.imdict.ImageData.Data.endian)
 
     @property
     def signal_type(self):
-- 
2.43.0


From f87c5a12944022bca74f36abc4df5774f8373a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 077/207] fix: read the old packed complex DM data lazily

---
 rsciio/digitalmicrograph/_api.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 5f6a8ca..9f93b2b 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -25,9 +25,11 @@ import logging
 import os
 from copy import deepcopy
 
+import dask.array as da
 import dateutil.parser
 import numpy as np
 from box import Box
+from dask import delayed
 
 import rsciio.utils._readfile as iou
 from rsciio._docstrings import CHUNKS_READ_DOC, FILENAME_DOC, LAZY_DOC, RETURNS_DOC
@@ -641,6 +643,10 @@ class ImageObject(object):
                 )
             if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                 shape[-1] = int(shape[-1] / 2 + 1)
+            elif self.imdict.ImageData.DataType == 5:  # Old packed complex
+                # the file holds a flat list of values
+                shape = [int(np.prod(shape))]
+                chunks = "auto"
             data = memmap_distributed(
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
@@ -665,7 +671,13 @@ class ImageObject(object):
         if self.imdict.ImageData.DataType in (27, 28):  # New packed complex
             return self.unpack_new_packed_complex(data)
         elif self.imdict.ImageData.DataType == 5:  # Old packed compled
-            return self.unpack_packed_complex(data)
+            if lazy:
+                return da.from_delayed(
+                    delayed(self.unpack_packed_complex)(data, self.shape),
+                    shape=self.shape,
+                    dtype="complex64",
+                )
+            return self.unpack_packed_complex(data, self.shape)
         elif self.imdict.ImageData.DataType in (8, 23):  # ABGR
             # Reorder the fields
             data = data[["R", "G", "B", "A"]].astype(
@@ -681,15 +693,15 @@ class ImageObject(object):
         data = data.reshape(packed_shape)
         return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:-1])))
 
-    def unpack_packed_complex(self, tmpdata):
-        shape = self.shape
+    @staticmethod
+    def unpack_packed_complex(tmpdata, shape):
         if shape[0] != shape[1] or len(shape) > 2:
             raise IOError(
                 "Unable to read this DM file in packed complex format. "
                 "Please report the issue to the HyperSpy developers providing "
                 "the file if possible"
             )
-        N = int(self.shape[0] / 2)  # think about a 2Nx2N matrix
+        N = int(shape[0] / 2)  # think about a 2Nx2N matrix
         # create an empty 2Nx2N ndarray of complex
         data = np.zeros(shape, dtype="complex64")
 
-- 
2.43.0


From 4976df9959feb9e678aa78f206b0c1e2c0f5a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 078/207] fix: wrong width of packed complex DM images of odd
 width

---
 rsciio/digitalmicrograph/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 9f93b2b..0bbe4fa 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -691,7 +691,9 @@ class ImageObject(object):
     def unpack_new_packed_complex(self, data):
         packed_shape = (self.shape[0], int(self.shape[1] / 2 + 1))
         data = data.reshape(packed_shape)
-        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:-1])))
+        # the last column is not repeated when the width is even (Nyquist frequency)
+        stop = self.shape[1] - packed_shape[1] + 1
+        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:stop])))
 
     @staticmethod
     def unpack_packed_complex(tmpdata, shape):
-- 
2.43.0


From 507b4d6efea51db8d8fe6bb424ae52ad0bfc2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 079/207] fix: parse arrays of arrays in DM tags

---
 rsciio/digitalmicrograph/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 0bbe4fa..efb3a28 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -180,12 +180,12 @@ class DigitalMicrographReader(object):
                             )
                         elif enc_eltype == 20:  # Array of arrays
                             _logger.debug("Reading array of arrays")
-                            el_length, enc_eltype = self.parse_array_definition()
+                            el_length, el_eltype = self.parse_array_definition()
                             size = self.read_l_or_q(self.f, "big")
                             data = self.read_array(
                                 size=size,
                                 enc_eltype=enc_eltype,
-                                extra={"size": el_length},
+                                extra={"size": el_length, "enc_eltype": el_eltype},
                                 skip=skip,
                             )
 
-- 
2.43.0


From 2d76fc9cd847d3810978ba9ea12135a3a009f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 080/207] fix: decode strings of DM tags as UTF-16

---
 rsciio/digitalmicrograph/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index efb3a28..d0f7af0 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -390,7 +390,9 @@ class DigitalMicrographReader(object):
             if enc_eltype in self.simple_type:  # simple type
                 data = [eltype(self.f, self.endian) for element in range(size)]
                 if enc_eltype == 4 and data:  # it's actually a string
-                    data = "".join([chr(i) for i in data])
+                    # of UTF-16 code units
+                    data = np.array(data, dtype="<u2").tobytes()
+                    data = data.decode("utf-16-le", errors="surrogatepass")
             elif enc_eltype in self._complex_type:
                 data = [eltype(**extra) for element in range(size)]
         return data
-- 
2.43.0


From 84bab30edd08b18712fba0b55396dc0bd3b4fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 081/207] fix: microscope type of DM files with stack builder
 tags

---
 rsciio/digitalmicrograph/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index d0f7af0..15eb799 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -913,13 +913,13 @@ class ImageObject(object):
         is_scanning = "DigiScan" in image_tags_dict.keys()
         # check if instrument is SEM or TEM
         if (
-            "Microscope Info" in self.imdict.ImageTags
-            and "Illumination Mode" in self.imdict.ImageTags["Microscope Info"]
+            "Microscope Info" in image_tags_dict
+            and "Illumination Mode" in image_tags_dict["Microscope Info"]
         ):
             microscope = (
                 "SEM"
                 if self._get_mode(
-                    self.imdict.ImageTags["Microscope Info"]["Illumination Mode"]
+                    image_tags_dict["Microscope Info"]["Illumination Mode"]
                 )
                 == "SEM"
                 else "TEM"
-- 
2.43.0


From 39008cdd9482d910d450be6e91d668df65df5523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 082/207] fix: empty EELS aperture label in DM files

---
 rsciio/digitalmicrograph/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 15eb799..85edccd 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -1076,7 +1076,8 @@ class ImageObject(object):
                     "{}.EELS_Spectrometer.Aperture_label".format(tags_path): (
                         "Acquisition_instrument.TEM.Detector.EELS.aperture_size",
                         lambda string: self._parse_string(
-                            string.replace("mm", ""),
+                            # an empty label is read as an empty list
+                            string.replace("mm", "") if string else "",
                             convert_to_float=True,
                             tag_name="Aperture_label",
                         ),
-- 
2.43.0


From 964d072619f477fc92438929b1dbea06b4444eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 083/207] fix: DM tag names containing brackets

---
 rsciio/digitalmicrograph/_api.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 85edccd..7fcb4ef 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -453,10 +453,19 @@ class DigitalMicrographReader(object):
 
 class ImageObject(object):
     def __init__(self, imdict, file, order="C"):
-        self.imdict = Box(imdict, box_dots=True)
+        self.imdict = Box(imdict)
         self.file = file
         self._order = order if order else "C"
 
+    def _get_tag(self, path, default=None, tags=None):
+        # The tag names can contain any character except the dot
+        tag = self.imdict if tags is None else tags
+        for name in path.split("."):
+            if not isinstance(tag, dict) or name not in tag:
+                return default
+            tag = tag[name]
+        return tag
+
     @property
     def shape(self):
         dimensions = self.imdict.ImageData.Dimensions
@@ -533,11 +542,11 @@ class ImageObject(object):
             result[-1] = False
         elif (
             (
-                self.imdict.get("ImageTags.Meta Data.Format") is not None
+                self._get_tag("ImageTags.Meta Data.Format") is not None
                 and self.imdict.ImageTags.Meta_Data.Format
                 in ("Spectrum image", "Spectrum")
             )
-            or (self.imdict.get("ImageTags.spim") is not None)
+            or (self._get_tag("ImageTags.spim") is not None)
         ) and len(self.scales) == 2:
             result[-1] = False
         else:
@@ -548,10 +557,10 @@ class ImageObject(object):
     def to_spectrum(self):
         if (
             (
-                self.imdict.get("ImageTags.Meta Data.Format") is not None
+                self._get_tag("ImageTags.Meta Data.Format") is not None
                 and self.imdict.ImageTags.Meta_Data.Format == "Spectrum image"
             )
-            or (self.imdict.get("ImageTags.spim") is not None)
+            or (self._get_tag("ImageTags.spim") is not None)
         ) and len(self.scales) > 2:
             return True
         else:
@@ -604,16 +613,16 @@ class ImageObject(object):
 
     @property
     def signal_type(self):
-        md_signal = self.imdict.get("ImageTags.Meta Data.Signal", "")
+        md_signal = self._get_tag("ImageTags.Meta Data.Signal", "")
         if md_signal == "X-ray":
             return "EDS_TEM"
         elif (
             md_signal == "CL"
-            or self.imdict.get("ImageTags.Acquisition.Monarc Spectrometer") is not None
+            or self._get_tag("ImageTags.Acquisition.Monarc Spectrometer") is not None
         ):
             return "CL"
         # 'ImageTags.spim.eels' is Orsay's tag group
-        elif md_signal == "EELS" or self.imdict.get("ImageTags.spim.eels") is not None:
+        elif md_signal == "EELS" or self._get_tag("ImageTags.spim.eels") is not None:
             return "EELS"
         else:
             return ""
@@ -845,7 +854,7 @@ class ImageObject(object):
             # DictionaryTreeBrowser. ImageTags can be one or the
             # other due to the `mapping` feature.
             if hasattr(ImageTags, "get"):
-                mic = ImageTags.get(loc)
+                mic = self._get_tag(loc, tags=ImageTags)
             else:  # it is DictionaryTreeBrowser
                 mic = ImageTags.get_item(loc)
             if mic and mic != "[]":
-- 
2.43.0


From eac36f7b766907276ae1e37e7ef041f05a3f761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 084/207] fix: shape of the EM images of non-square JEOL maps

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 15ceefc..4a0de55 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -807,7 +807,7 @@ def _readcube(
     else:
         hypermap = np.zeros((n_frames, height, width, channel_number), dtype=SI_dtype)
 
-    em_image = np.zeros((n_frames, width, height), dtype=EM_dtype)
+    em_image = np.zeros((n_frames, height, width), dtype=EM_dtype)
 
     max_value = np.iinfo(SI_dtype).max
 
-- 
2.43.0


From bc7d5e404838fa94220a7a16614b69184eeb7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 085/207] fix: decode frames of JEOL pts files lazily as
 eagerly

---
 rsciio/jeol/_api.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 4a0de55..9aadc7e 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -948,7 +948,7 @@ def _readcube(
     frame_count = 0
     for d in data_list:
         # d : data points in one frame
-        d = np.asarray(d)
+        d = np.asarray(d, dtype=np.int64).reshape(-1, 3)
         # check if the pixels are in the valid data cube
         # (frame_shifts make partially integrated area at the rim)
         valid_cube = np.where(
@@ -1106,7 +1106,7 @@ def _readframe_dense(
 @jit_ifnumba(cache=True)
 def _readframe_lazy(
     rawdata,
-    _1,
+    countup,
     _2,
     em_image,
     width,
@@ -1129,7 +1129,7 @@ def _readframe_lazy(
     ----------
     rawdata : numpy.ndarray of uint16
         slice of one frame raw data from whole raw data
-    _1 : dummy parameter, not used
+    countup : 1 for summing up the SEM/TEM image, -1 to cancel selected frame
     _2 : dummy parameter, not used
     em_image : numpy.ndarray(width, height), dtype = np.uint16 or np.uint32
         numpy.ndarray to store decoded SEM/TEM image.
@@ -1170,8 +1170,9 @@ def _readframe_lazy(
     count = 0
     valid = False
     has_em_image = False
+    x = 0
+    y = 0
     for value in rawdata:
-        count += 1
         value_type = value & 0xF000
         value &= 0xFFF
         if value_type == 0x8000:
@@ -1184,17 +1185,18 @@ def _readframe_lazy(
                 break
             previous_y = value
             y = value // height_norm + dy
-            if y >= width:
+            if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
-            em_image[y, x] += value
+            em_image[y, x] += value * countup
             has_em_image = True
         elif value_type == 0xB000:  # spectrum image
             z = value // rebin_energy + dz
             if 0 <= z and z < channel_number:
                 data.append([y, x, z])
-    if previous_y == MAX_VAL - height_norm and (
-        previous_x == MAX_VAL - width_norm or not has_em_image
+        count += 1
+    if previous_y >= MAX_VAL - height_norm and (
+        previous_x >= MAX_VAL - width_norm or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
-- 
2.43.0


From 7363b7ef227dc1fcb9aabe684611e43796da79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 086/207] fix: number of frames of JEOL pts data

---
 rsciio/jeol/_api.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 9aadc7e..4cffd8e 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -799,7 +799,8 @@ def _readcube(
             EM_dtype = np.uint32
         n_frames = 1
     else:
-        n_frames = sweep + 1
+        # the same frame can be read several times
+        n_frames = len(frame_list)
 
     if lazy:
         hypermap = np.zeros((n_frames), dtype=EM_dtype)  # dummy variable, not used
@@ -929,7 +930,7 @@ def _readcube(
                 hypermap[:target_frame_num, :height, :width],
                 em_image[:target_frame_num, :height, :width],
                 has_em_image,
-                frame_num,
+                target_frame_num,
                 frame_start_index,
                 valid,
                 max_shift,
@@ -974,7 +975,9 @@ def _readcube(
         data_shape = [frame_count, height, width, channel_number]
         ar_s = DenseSliceCOO(v[0:4], v[4], shape=data_shape)
     if sum_frames:
-        em_image = em_image[0]
+        em_image = em_image[0, :height, :width]
+    else:
+        em_image = em_image[:frame_count, :height, :width]
 
     import dask.array as da
 
@@ -982,7 +985,7 @@ def _readcube(
         da.from_array(ar_s, asarray=False),
         em_image,
         has_em_image,
-        sweep,
+        frame_count,
         frame_start_index,
         valid,
         max_shift,
-- 
2.43.0


From a45e6015b35396310bcfba8f52d3ece291e16ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 087/207] fix: JEOL reader changing its arguments

---
 rsciio/jeol/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 4cffd8e..9a0b8f2 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -469,7 +469,8 @@ def _read_pts(
             frame_start_index = np.full(max_frame, -1, dtype=np.int32)
             frame_start_index[0] = 0
         else:
-            frame_start_index = np.asarray(frame_start_index)
+            # the array passed by the user must not be changed
+            frame_start_index = np.array(frame_start_index)
 
         # fill with -1 as invalid index (not loaded)
         if frame_start_index.size < max_frame:
@@ -812,7 +813,8 @@ def _readcube(
 
     max_value = np.iinfo(SI_dtype).max
 
-    frame_shifts = np.asarray(frame_shifts)
+    # the array passed by the user must not be changed
+    frame_shifts = np.array(frame_shifts)
     frame_list = np.asarray(frame_list)
     max_shift = frame_shifts[frame_list].max(axis=0)
     min_shift = frame_shifts[frame_list].min(axis=0)
-- 
2.43.0


From fcf51609f87742dd47489d46e1430eb862cd2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 088/207] fix: two column frame_shifts of JEOL pts files

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 9a0b8f2..128ba56 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -482,7 +482,7 @@ def _read_pts(
             frame_shifts = np.zeros((max_frame, 3), dtype=np.int16)
 
         if len(frame_shifts[0]) == 2:  # fill z with 0
-            fr = np.zeros((max_frame, 3), dtype=np.int16)
+            fr = np.zeros((max(max_frame, len(frame_shifts)), 3), dtype=np.int16)
             fr[: len(frame_shifts), 0:2] = np.asarray(frame_shifts)
             frame_shifts = fr
 
-- 
2.43.0


From 83ec72936088f6e1fa65aac8d87efc69fb2fe194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 089/207] fix: offsets and frame time of JEOL pts axes

---
 rsciio/jeol/_api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 128ba56..c23ee60 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -404,6 +404,8 @@ def _read_pts(
         xscale = scale / width
         yscale = scale / height
         units = "µm"
+        # all the pixels scanned, whatever the downsampling
+        pixels_per_frame = width * downsample_width * height * downsample_height
 
         ch_mod = meas_data_header["Meas Cond"]["Tpl"]
         ch_res = meas_data_header["Doc"]["CoefA"]
@@ -529,7 +531,7 @@ def _read_pts(
                     "name": "Frame",
                     "size": sweep,
                     "offset": 0,
-                    "scale": pixel_time * height * width / 1e3,
+                    "scale": pixel_time * pixels_per_frame / 1e3,
                     "units": "s",
                     "navigate": True,
                 }
@@ -541,7 +543,7 @@ def _read_pts(
                 {
                     "name": "y",
                     "size": height,
-                    "offset": origin[1],
+                    "offset": origin[0] * yscale,
                     "scale": yscale,
                     "units": units,
                     "navigate": False,
@@ -549,7 +551,7 @@ def _read_pts(
                 {
                     "name": "x",
                     "size": width,
-                    "offset": origin[0],
+                    "offset": origin[1] * xscale,
                     "scale": xscale,
                     "units": units,
                     "navigate": False,
-- 
2.43.0


From 487a8dadd9c50772110bbb185a16644662706f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 090/207] fix: element lines of JEOL eds files

---
 rsciio/jeol/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index c23ee60..cda1f41 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1297,8 +1297,7 @@ def _read_eds(filename, **kwargs):
         for i in range(n_elem):
             # mark elem
             _ = np.fromfile(fd, "<i", 1)[0]  # = 2
-            # Z
-            _ = np.fromfile(fd, "<H", 1)[0]
+            z = np.fromfile(fd, "<H", 1)[0]
             # mark1, mark2
             _, _ = np.fromfile(fd, "<i", 2)  # = 1, 0
             roi_min, roi_max = np.fromfile(fd, "<H", 2)
@@ -1314,7 +1313,7 @@ def _read_eds(filename, **kwargs):
                 # mark_line?
                 _ = np.fromfile(fd, "<i", 1)[0]  # = 1
                 e_line = np.fromfile(fd, "<d", 1)[0]
-                z = np.fromfile(fd, "<H", 1)[0]
+                z_line = np.fromfile(fd, "<H", 1)[0]
                 e_length = np.fromfile(fd, "<b", 1)[0]
                 e_name = _decode(fd.read(e_length).rstrip(b"\x00"))
                 l_length = np.fromfile(fd, "<b", 1)[0]
@@ -1322,7 +1321,7 @@ def _read_eds(filename, **kwargs):
                 detect = np.fromfile(fd, "<i", 1)[0]
                 lines[e_name + "_" + l_name] = {
                     "energy": e_line,
-                    "Z": z,
+                    "Z": z_line,
                     "detection": detect,
                 }
             elems[elem_name] = {
-- 
2.43.0


From 25cd21b3a86447dd22f6bf591042e43431da5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 091/207] fix: frame_list with frames missing in JEOL pts files

---
 rsciio/jeol/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index cda1f41..a2a1f7d 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -880,7 +880,7 @@ def _readcube(
         )
         has_em_image = has_em_image or has_em
         if length == 0:  # no data
-            break
+            continue
         if valid or not only_valid_data:
             # accept last frame
             if lazy:
@@ -910,7 +910,7 @@ def _readcube(
                 _logger.info(
                     "The last frame (sweep) is incomplete because the acquisition stopped during this frame. The partially acquired frame is ignored. Use 'sum_frames=False, only_valid_data=False' to read all frames individually, including the last partially completed frame."
                 )
-            break
+            continue
 
         p_start += length
         if frame_num < frame_start_index.size:
@@ -944,7 +944,7 @@ def _readcube(
     # for lazy loading
     from rsciio.utils._fei_stream_readers import DenseSliceCOO
 
-    length = np.sum([len(d) for d in data_list])
+    length = sum(len(d) for d in data_list)
     # length = number of data points
 
     # v : [[frame_no, y, x, energy_channel, 1], ....]
-- 
2.43.0


From 38f4f28f9d30dd4f8b74171622627c859e379e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 092/207] fix: time of Velox files in time zones west of
 Greenwich

---
 rsciio/emd/_emd_velox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index 6b9f1c1..4066ad5 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -996,7 +996,7 @@ class FeiEMDReader(object):
         # Since we don't know the actual time zone of where the data have been
         # acquired, we convert the datetime to the local time for convenience
         dt = datetime.fromtimestamp(float(unix_time), tz=tz.tzutc())
-        return dt.astimezone(tz.tzlocal()).isoformat().split("+")[0]
+        return dt.astimezone(tz.tzlocal()).replace(tzinfo=None).isoformat()
 
     def _get_local_time_zone(self):
         return tz.tzlocal().tzname(datetime.today())
-- 
2.43.0


From ba2e449476b5ee32d5171a7cea358995bf75b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 093/207] fix: accept select_type='image' for Velox files

---
 rsciio/emd/_emd_velox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index 4066ad5..64d4c47 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -138,7 +138,7 @@ class FeiEMDReader(object):
         self.load_images = self.load_SI = self.load_single_spectrum = True
         if select_type == "single_spectrum":
             self.load_images = self.load_SI = False
-        elif select_type == "images":
+        elif select_type in ("image", "images"):
             self.load_SI = self.load_single_spectrum = False
         elif select_type == "spectrum_image":
             self.load_images = self.load_single_spectrum = False
@@ -147,7 +147,7 @@ class FeiEMDReader(object):
         else:
             raise ValueError(
                 "`select_type` parameter takes only: `None`, "
-                "'single_spectrum', 'images' or 'spectrum_image'."
+                "'single_spectrum', 'image' or 'spectrum_image'."
             )
 
         if self.im_type == "Image":
-- 
2.43.0


From 8521444894895ba61f5167aab68190ed24455aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 094/207] fix: energy scale of single spectra of Velox files
 with rebin_energy

---
 rsciio/emd/_emd_velox.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index 64d4c47..d4e96e4 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -627,7 +627,9 @@ class FeiEMDReader(object):
         self.detector_information = self._get_detector_information(original_metadata)
 
         pixel_size, offsets, original_units = streams[0].get_pixelsize_offset_unit()
-        dispersion, offset, unit = self._get_dispersion_offset(original_metadata)
+        dispersion, offset, unit = self._get_dispersion_offset(
+            original_metadata, self.rebin_energy
+        )
 
         scale_x, x_unit = self._convert_scale_units(
             pixel_size["width"], original_units, spectrum_image_shape[1]
@@ -822,16 +824,14 @@ class FeiEMDReader(object):
             )
             self.dictionaries.append(eels_dict)
 
-    def _get_dispersion_offset(self, original_metadata):
+    def _get_dispersion_offset(self, original_metadata, rebin_energy=1):
         try:
             for detectorname, detector in original_metadata["Detectors"].items():
                 if (
                     original_metadata["BinaryResult"]["Detector"]
                     in detector["DetectorName"]
                 ):
-                    dispersion = (
-                        float(detector["Dispersion"]) / 1000.0 * self.rebin_energy
-                    )
+                    dispersion = float(detector["Dispersion"]) / 1000.0 * rebin_energy
                     offset = float(detector["OffsetEnergy"]) / 1000.0
                     return dispersion, offset, "keV"
         except KeyError:
-- 
2.43.0


From 4cbf12ff14c295c535d4be161ebc0d5f25a964ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 095/207] fix: axes of Velox EELS spectrum images

---
 rsciio/emd/_emd_velox.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index d4e96e4..22ed123 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -762,7 +762,7 @@ class FeiEMDReader(object):
                             "scale": scale_y,
                             "size": data_cube.shape[0],
                             "units": x_unit,
-                            "index_in_array": 1,
+                            "index_in_array": 0,
                             "navigate": True,
                         },
                         {
@@ -771,7 +771,7 @@ class FeiEMDReader(object):
                             "scale": scale_x,
                             "size": data_cube.shape[1],
                             "units": x_unit,
-                            "index_in_array": 0,
+                            "index_in_array": 1,
                             "navigate": True,
                         },
                     ]
@@ -813,7 +813,10 @@ class FeiEMDReader(object):
 
             # tidy up dictionary
             md = {
-                "General": {"title": "EELS", "original_filename": self.filename},
+                "General": {
+                    "title": "EELS",
+                    "original_filename": os.path.split(self.filename)[1],
+                },
                 "Signal": {"signal_type": "EELS"},
             }
             eels_dict["data"] = data_cube
-- 
2.43.0


From 3c9984832fe20a77273c4cb20df9443b79f68982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 096/207] fix: read Velox EELS spectrum images lazily

---
 rsciio/emd/_emd_velox.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index 22ed123..c6441a3 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -750,7 +750,13 @@ class FeiEMDReader(object):
             axes = []
             eels_dict = {}
             data_node_path = f"EelsSpectrumImage/{bin_id}/Data"
-            data_cube = self.d_grp[data_node_path][:]
+            dataset = self.d_grp[data_node_path]
+            if self.lazy:
+                import dask.array as da
+
+                data_cube = da.from_array(dataset, chunks=dataset.chunks or "auto")
+            else:
+                data_cube = dataset[:]
 
             if data_cube.ndim == 3:
                 data_cube = data_cube.transpose(2, 0, 1)
-- 
2.43.0


From 61e1e901b2ee006257f159815818797058ae7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 097/207] fix: energy calibration of each EDS detector of Velox
 files

---
 rsciio/emd/_emd_velox.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index c6441a3..fa4506c 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -28,6 +28,7 @@ import json
 import logging
 import os
 import time
+from copy import deepcopy
 from datetime import datetime
 
 import numpy as np
@@ -700,11 +701,17 @@ class FeiEMDReader(object):
         for stream in streams:
             original_metadata = stream.original_metadata
             original_metadata.update(self.original_metadata)
+            # The energy calibration can be different for each detector
+            dispersion, offset, unit = self._get_dispersion_offset(
+                original_metadata, self.rebin_energy
+            )
+            axes = [ax.copy() for ax in axes]
+            axes[-1].update({"offset": offset, "scale": dispersion, "units": unit})
             self.dictionaries.append(
                 {
                     "data": stream.spectrum_image,
                     "axes": axes,
-                    "metadata": md,
+                    "metadata": deepcopy(md),
                     "original_metadata": original_metadata,
                     "mapping": self._get_mapping(
                         parse_individual_EDS_detector_metadata=not self.sum_frames
-- 
2.43.0


From 524cc2ff77718c69f63cb92585d6c6979cf03f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 098/207] fix: data corrupted when saving lazy signals onto the
 hspy file they are loaded from

---
 rsciio/_hierarchical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index babfe0d..7777b56 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -771,6 +771,10 @@ class HierarchicalWriter:
             data = data.astype(np.dtype("S"))
 
         if data.dtype != np.dtype("O"):
+            if is_dask_array(data) and key in group:
+                # The data may need to be read from the existing dataset, which
+                # remains available to the arrays referring to it
+                del group[key]
             got_data = False
             while not got_data:
                 try:
-- 
2.43.0


From 893b0994cbad4fc494c898d3a5f53e85bbb580ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 099/207] fix: convert the offset of TIA axes together with
 their units

---
 rsciio/tia/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b516bb2..04d6b1e 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -640,9 +640,11 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         if axis["units"] == "meters":
             axis["units"] = "nm"
             axis["scale"] *= 10**9
+            axis["offset"] *= 10**9
         elif axis["units"] == "1/meters":
             axis["units"] = "1 / nm"
             axis["scale"] /= 10**9
+            axis["offset"] /= 10**9
 
     # Remove Nones from array_shape caused by squeezing size 1 dimensions
     array_shape = [dim for dim in array_shape if dim is not None]
-- 
2.43.0


From e8acf5c99b538452ac218261f3b7cd9adca56804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 100/207] fix: use the calibration element of TIA axes

---
 rsciio/tia/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 04d6b1e..2a367b6 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -558,7 +558,9 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                     name = None
                 axes.append(
                     {
-                        "offset": header["Dim-%i_CalibrationOffset" % idim][0],
+                        "offset": header["Dim-%i_CalibrationOffset" % idim][0]
+                        - header["Dim-%i_CalibrationElement" % idim][0]
+                        * header["Dim-%i_CalibrationDelta" % idim][0],
                         "scale": header["Dim-%i_CalibrationDelta" % idim][0],
                         "units": units,
                         "size": header["Dim-%i_DimensionSize" % idim][0],
@@ -587,7 +589,8 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
     if record_by == "spectrum":
         axes.append(
             {
-                "offset": data["CalibrationOffset"][0],
+                "offset": data["CalibrationOffset"][0]
+                - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
                 "index_in_array": header["NumberDimensions"][0],
-- 
2.43.0


From a02113c50a666ecab35f0ec0c54168e8f99de74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 101/207] fix: index of the energy axis of TIA series without
 navigation axis

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 2a367b6..93612b6 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -593,7 +593,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                 - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
-                "index_in_array": header["NumberDimensions"][0],
+                "index_in_array": len(axes),
                 "navigate": False,
             }
         )
-- 
2.43.0


From 0906badf21af94393ccbe4ffda903ac95cc7d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 102/207] fix: TIA image series with a dimension of size 1

---
 rsciio/tia/_api.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 93612b6..f5d9719 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -543,19 +543,16 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         spatial_axes = ["x", "y"][:ndim]
         for i in range(ndim):
             idim = 1 + i if order == "C" else ndim - i
+            units = (
+                header["Dim-%i_Units" % (idim)][0].decode("utf-8")
+                if header["Dim-%i_UnitsLength" % (idim)] > 0
+                else None
+            )
+            name = spatial_axes.pop() if units == "meters" else None
             if (
                 record_by == "spectrum"
-                or header["Dim-%i_DimensionSize" % (i + 1)][0] != 1
+                or header["Dim-%i_DimensionSize" % idim][0] != 1
             ):
-                units = (
-                    header["Dim-%i_Units" % (idim)][0].decode("utf-8")
-                    if header["Dim-%i_UnitsLength" % (idim)] > 0
-                    else None
-                )
-                if units == "meters":
-                    name = spatial_axes.pop() if order == "F" else spatial_axes.pop(-1)
-                else:
-                    name = None
                 axes.append(
                     {
                         "offset": header["Dim-%i_CalibrationOffset" % idim][0]
-- 
2.43.0


From 4b48365690a3db7db7c22efd350a73d6b8baf598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 103/207] fix: TIA series numbered above 9, in folders with
 special characters or with the description of another series

---
 rsciio/tia/_api.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index f5d9719..213ba59 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -22,7 +22,7 @@ import struct
 import warnings
 import xml.etree.ElementTree as ET
 from collections import OrderedDict
-from glob import glob
+from glob import escape, glob
 
 import numpy as np
 from dateutil import parser
@@ -257,16 +257,30 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
             with open(filename + "-object-%s.xml" % i, "w") as f:
                 f.write(obj)
 
-    ser_files = sorted(glob(filename + "_[0-9].ser"))
+    def get_index(f):
+        return int(os.path.splitext(f)[0].split("_")[-1])
+
+    ser_files = sorted(
+        (
+            f
+            for f in glob(escape(filename) + "_[0-9]*.ser")
+            if f[len(filename) + 1 : -4].isdigit()
+        ),
+        key=get_index,
+    )
     sers = []
     for f in ser_files:
         _logger.info("Opening %s", f)
+        index = get_index(f) - 1
         try:
-            sers.extend(ser_reader(f, objects, lazy, only_valid_data))
+            sers.extend(
+                ser_reader(
+                    f, objects[index : index + 1] or None, lazy, only_valid_data
+                )
+            )
         except IOError:  # Probably a single spectrum that we don't support
             continue
 
-        index = int(os.path.splitext(f)[0].split("_")[-1]) - 1
         op = DTBox(sers[-1]["original_metadata"], box_dots=True)
 
         # defend against condition where more ser files are present than object
-- 
2.43.0


From 158cee0885d739ae23d66f876de976a7bb7a0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 104/207] fix: empty values in the description of TIA files

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 213ba59..2afc515 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -212,7 +212,7 @@ def parse_ExperimentalDescription(et, dictree):
         try:
             # try to coerce value to decimal representation
             value = float(value) if units else value
-        except ValueError:
+        except (TypeError, ValueError):
             _logger.warning(
                 f"Expected decimal value for {label}, but received {value} instead"
             )
-- 
2.43.0


From 80c05d07ed945f26706f947c0514bd8bcb9b56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 105/207] fix: read TrueImageHeaderInfo of TIA files

---
 rsciio/tia/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 2afc515..5750fa6 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -223,8 +223,8 @@ def parse_TrueImageHeaderInfo(et, dictree):
     dictree.add_node(et.tag)
     dictree = dictree[et.tag]
     et = ET.fromstring(et.text)
-    for data in et.findall(b"Data"):
-        dictree[data.find(b"Index").text] = float(data.find(b"Value").text)
+    for data in et.findall("Data"):
+        dictree[data.find("Index").text] = float(data.find("Value").text)
 
 
 def emixml2dtb(et, dictree):
-- 
2.43.0


From 2b273ab4bd8ebddee1edfe820a90b633057dd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 106/207] fix: counts of an incomplete frame added to the next
 frame of the list (JEOL pts)

---
 rsciio/jeol/_api.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index a2a1f7d..73461c6 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -889,24 +889,24 @@ def _readcube(
             target_frame_num += frame_step
         else:
             # incomplete data, not accepted
+            # subtract signal counts of last frame
+            _ = readframe(
+                rawdata[p_start:],
+                -1,
+                hypermap[target_frame_num],
+                em_image[target_frame_num],
+                width,
+                height,
+                channel_number,
+                width_norm,
+                height_norm,
+                rebin_energy,
+                fs[1],
+                fs[0],
+                fs[2],
+                max_value,
+            )
             if sum_frames:
-                # subtract signal counts of last frame
-                _ = readframe(
-                    rawdata[p_start:],
-                    -1,
-                    hypermap[target_frame_num],
-                    em_image[target_frame_num],
-                    width,
-                    height,
-                    channel_number,
-                    width_norm,
-                    height_norm,
-                    rebin_energy,
-                    fs[1],
-                    fs[0],
-                    fs[2],
-                    max_value,
-                )
                 _logger.info(
                     "The last frame (sweep) is incomplete because the acquisition stopped during this frame. The partially acquired frame is ignored. Use 'sum_frames=False, only_valid_data=False' to read all frames individually, including the last partially completed frame."
                 )
-- 
2.43.0


From 34b2de03b103ace770aca7950e1c25d861e57851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 107/207] fix: read mib files from pathlib.Path and hdr files
 in folders with mib in their name

---
 rsciio/quantumdetector/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 92f9c6a..e08f3a4 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -528,9 +528,10 @@ def file_reader(
         >>> s_dict = file_reader("file.mib", navigation_shape=(256, 256))
 
     """
+    filename = os.fspath(filename)
     mib_prop = MIBProperties()
     mib_prop.parse_file(filename)
-    hdr_filename = str(filename).replace(".mib", ".hdr")
+    hdr_filename = os.path.splitext(filename)[0] + ".hdr"
 
     original_metadata = {"mib_properties": vars(mib_prop)}
 
-- 
2.43.0


From 3a93c2d74b1ecb49a31ded3c34ba722849603a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 108/207] fix: read quad mib files from memory buffers

---
 rsciio/quantumdetector/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index e08f3a4..8956f23 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -162,8 +162,11 @@ class MIBProperties:
         # test if quad and read full quad header
         if head[2] == "00768":
             # read quad data
-            with open(self.path, "rb") as f:
-                head = f.read(768).decode().split(",")
+            if self.buffer:
+                head = path[:768].decode().split(",")
+            else:
+                with open(self.path, "rb") as f:
+                    head = f.read(768).decode().split(",")
             self.head_size = 768
             self.assembly_size = "quad"
 
-- 
2.43.0


From ffc65461192797b7fcdef0504cba9bfd7085d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 109/207] fix: first frame of mib memory buffers

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 8956f23..2a6444f 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -333,7 +333,7 @@ def load_mib_data(
             path,
             dtype=merlin_frame_dtype,
             count=mib_prop.xy,
-            offset=mib_prop.offset,
+            offset=mib_prop.offset + merlin_frame_dtype.itemsize * first_frame,
         ).reshape(navigation_shape)
         headers = buffer["header"]
         data = buffer["data"]
-- 
2.43.0


From 868104bd6b186123fd1e3370c667de431066de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 110/207] fix: interrupted mib acquisitions with a range of
 frames or without complete line

---
 rsciio/quantumdetector/_api.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 2a6444f..2cfdbd8 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -275,11 +275,9 @@ def load_mib_data(
             # Set the corrected number of lines
             # To keep the implementation simple only load completed line
             # Reshape only when the slice from zeros
-            if first_frame == 0 and len(navigation_shape) > 1:
-                navigation_shape = (
-                    navigation_shape[0],
-                    frame_number_in_file // navigation_shape[0],
-                )[::-1]
+            lines_number = number_of_frames_to_load // navigation_shape[0]
+            if first_frame == 0 and len(navigation_shape) > 1 and lines_number > 0:
+                navigation_shape = (navigation_shape[0], lines_number)[::-1]
             else:
                 navigation_shape = (number_of_frames_to_load,)
         elif number_of_frames_to_load < frame_number:
-- 
2.43.0


From 4823951eaa9ef4579da953419779a293f30b8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 111/207] fix: parse the headers of all mib frames with
 max_index=-1

---
 rsciio/quantumdetector/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 2cfdbd8..0f9cc5a 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -419,8 +419,8 @@ def parse_exposures(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index < 0:
+        max_index = len(headers)
 
     # exposure time are in ns
     return [
@@ -468,8 +468,8 @@ def parse_timestamps(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index < 0:
+        max_index = len(headers)
 
     return [header.decode().split(",")[-4] for header in headers[:max_index]]
 
-- 
2.43.0


From e2697cadf915c16950eb3ff1d51d1c305ad9c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 112/207] fix: read mrc data with the endianness parameter

---
 rsciio/mrc/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index fd91f8e..c629caf 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -208,7 +208,7 @@ def get_std_dtype_list(endianness="<"):
         ("ND2", end + "u2"),
         ("VD1", end + "u2"),
         ("VD2", end + "u2"),
-        ("TILTANGLES", (np.float32, 6)),
+        ("TILTANGLES", end + "f4", 6),
         ("XORIGIN", end + "f4"),
         ("YORIGIN", end + "f4"),
         ("ZORIGIN", end + "f4"),
@@ -594,7 +594,7 @@ def file_reader(
         filename,
         offset=f.tell(),
         shape=shape[::-1],
-        dtype=get_data_type(std_header["MODE"]),
+        dtype=get_data_type(std_header["MODE"]).newbyteorder(endianness),
         positions=positions,
         chunks=chunks,
     )
-- 
2.43.0


From b46c3ea087cc3fa8155af035b460d50d5363b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 113/207] fix: accept pathlib.Path and close the file in the
 mrc reader

---
 rsciio/mrc/_api.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index c629caf..ec3de46 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -493,6 +493,7 @@ def file_reader(
 
     %s
     """
+    filename = os.fspath(filename)
     virtual_image_names = None
     external_images_names = None
 
@@ -574,17 +575,20 @@ def file_reader(
 
             metadata["_HyperSpy"]["navigators"][name] = signal
 
-    f = open(filename, "rb")
-    std_header = np.fromfile(f, dtype=get_std_dtype_list(endianness), count=1)
-    fei_header = None
-    if std_header["NEXT"] / 1024 == 128:
-        _logger.info(f"{filename} seems to contain an extended FEI header")
-        fei_header = np.fromfile(f, dtype=get_fei_dtype_list(endianness), count=1024)
-    if f.tell() == 1024 + std_header["NEXT"]:
-        _logger.debug("The FEI header was correctly loaded")
-    else:
-        f.seek(1024 + std_header["NEXT"][0])
+    with open(filename, "rb") as f:
+        std_header = np.fromfile(f, dtype=get_std_dtype_list(endianness), count=1)
         fei_header = None
+        if std_header["NEXT"] / 1024 == 128:
+            _logger.info(f"{filename} seems to contain an extended FEI header")
+            fei_header = np.fromfile(
+                f, dtype=get_fei_dtype_list(endianness), count=1024
+            )
+        if f.tell() == 1024 + std_header["NEXT"]:
+            _logger.debug("The FEI header was correctly loaded")
+        else:
+            f.seek(1024 + std_header["NEXT"][0])
+            fei_header = None
+        offset = f.tell()
     NX, NY, NZ = std_header["NX"], std_header["NY"], std_header["NZ"]
     shape = (NX[0], NY[0], NZ[0])
     if navigation_shape is not None:
@@ -592,7 +596,7 @@ def file_reader(
 
     data = file.memmap_distributed(
         filename,
-        offset=f.tell(),
+        offset=offset,
         shape=shape[::-1],
         dtype=get_data_type(std_header["MODE"]).newbyteorder(endianness),
         positions=positions,
-- 
2.43.0


From 7e6d7b36bcfe00c096d0f5725ee5a8109647c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 114/207] fix: match names and files of the images related to
 DE mrc movies

---
 rsciio/mrc/_api.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index ec3de46..39d8002 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -117,7 +117,9 @@ def find_related_de_files(movie_filename: str):
         return out
 
     # Collect all candidate .mrc files sharing the same timestamp and acquisitionNumber
-    all_mrc = glob.glob(os.path.join(dir_name, f"{prefix}*.mrc"))
+    # Sorted, so that the lists of images and of their names are in the same order
+    pattern = os.path.join(glob.escape(dir_name), prefix)
+    all_mrc = sorted(glob.glob(f"{pattern}*.mrc"))
 
     # Virtual images via regex (supports '<digits>' and 'virt<digits>')
     virtual_images = []
@@ -149,21 +151,20 @@ def find_related_de_files(movie_filename: str):
     external_image_names = _dedupe(external_image_names)
     # Info file
     info_file = _first_or_none(
-        glob.glob(os.path.join(dir_name, f"{prefix}info.txt"))
-        + glob.glob(os.path.join(dir_name, f"{prefix}*_info.txt"))
+        glob.glob(f"{pattern}info.txt") + glob.glob(f"{pattern}*_info.txt")
     )
 
     # Scan coordinates CSV
     scan_csv = _first_or_none(
-        glob.glob(os.path.join(dir_name, f"{prefix}scan_coordinates.csv"))
-        + glob.glob(os.path.join(dir_name, f"{prefix}*_scan_coordinates.csv"))
+        glob.glob(f"{pattern}scan_coordinates.csv")
+        + glob.glob(f"{pattern}*_scan_coordinates.csv")
     )
 
     return {
         "info_file": info_file,
-        "virtual_images": sorted(virtual_images),
+        "virtual_images": virtual_images,
         "virtual_image_names": virtual_image_names,
-        "external_images": sorted(external_images),
+        "external_images": external_images,
         "external_image_names": external_image_names,
         "scan_csv": scan_csv,
     }
-- 
2.43.0


From 42becb1b6af06c3f0e4e6cc0ecc8b9871b064c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 115/207] fix: don't override the mrc files provided by the
 user

---
 rsciio/mrc/_api.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 39d8002..2340e62 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -503,11 +503,15 @@ def file_reader(
             info = find_related_de_files(filename)
             # Populate from related DE files helper
             metadata_file = info.get("info_file")
-            virtual_images = info.get("virtual_images") or []
-            virtual_image_names = info.get("virtual_image_names") or []
-            external_images = info.get("external_images") or []
-            scan_file = info.get("scan_csv")
-            external_images_names = info.get("external_image_names") or []
+            # without overriding the files provided by the user
+            if virtual_images is None:
+                virtual_images = info.get("virtual_images") or []
+                virtual_image_names = info.get("virtual_image_names") or []
+            if external_images is None:
+                external_images = info.get("external_images") or []
+                external_images_names = info.get("external_image_names") or []
+            if scan_file is None:
+                scan_file = info.get("scan_csv")
         else:
             metadata_file = None
 
-- 
2.43.0


From b6024a6f91fefcf320dbab168b7de2445a59d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 116/207] fix: calibration of the axes of DE mrc movies

---
 rsciio/mrc/_api.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 2340e62..e5741e1 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -348,10 +348,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     ):  # nav-shape is not None for pos files
         axes_scales = np.array(
             [
-                float(
-                    original_metadata.get("Scan - Time (seconds)", 1)
-                    + original_metadata.get("Scan - Repeat Delay (seconds)", 1)
-                ),
+                float(original_metadata.get("Scan - Time (seconds)", 1))
+                + float(original_metadata.get("Scan - Repeat Delay (seconds)", 0)),
                 float(original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)),
                 float(original_metadata.get("Specimen Pixel Size X (nanometers)", 1)),
                 1,  # Signal Axes below
@@ -359,7 +357,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
                 float(original_metadata.get("Diffraction Pixel Size X", 1)),
             ]
         )
-        axes_scales[axes_scales != -1] = 1
+        axes_scales[axes_scales == -1] = 1
         axes_units = ["sec", "nm", "nm", "times", "nm^-1", "nm^-1"]
         axes_names = ["time", "y", "x", "repeats", "ky", "kx"]
         if original_metadata.get("Scan - ROI Enable", "Disable") == "Enable":
@@ -399,8 +397,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Diffraction Pixel Size Y", 1),
-                    original_metadata.get("Diffraction Pixel Size X", 1),
+                    float(original_metadata.get("Diffraction Pixel Size Y", 1)),
+                    float(original_metadata.get("Diffraction Pixel Size X", 1)),
                 ]
             )
             axes_units = ["sec", "nm^-1", "nm^-1"]
@@ -409,8 +407,12 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Specimen Pixel Size Y (nanometers)", 1),
-                    original_metadata.get("Specimen Pixel Size X (nanometers)", 1),
+                    float(
+                        original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)
+                    ),
+                    float(
+                        original_metadata.get("Specimen Pixel Size X (nanometers)", 1)
+                    ),
                 ]
             )
             axes_units = ["sec", "nm", "nm"]
-- 
2.43.0


From 7cb8d3a085d2bb803dbf3d2929354e75cfd42b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 117/207] fix: axes of mrc files with singleton dimensions and
 repeated scan positions

---
 rsciio/mrc/_api.py | 72 +++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index e5741e1..0e915e0 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -309,10 +309,12 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         if scan_pos_file is None:
             raise ValueError("Scan position file is required for non-raster scans.")
         positions = np.loadtxt(scan_pos_file, delimiter=",", dtype=int)[:, ::-1]
-        nav_shape = (positions[:, 0].max() + 1, positions[:, 1].max() + 1)
+        # In the same order as the `navigation_shape` parameter: x, y
+        nav_shape = (positions[:, 1].max() + 1, positions[:, 0].max() + 1)
         unique_pos, inverse, counts = np.unique(
             positions, axis=0, return_counts=True, return_inverse=True
         )
+        inverse = inverse.ravel()
         repeats = np.max(counts)
         if repeats > 1:
             # If there are repeated positions, we need to create a new array
@@ -321,13 +323,9 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             positions = np.hstack((positions, rep))
             for i in range(len(positions)):
                 positions[inverse == i, 2] = np.arange(len(inverse[inverse == i]))
-            nav_shape = (
-                repeats,
-                nav_shape[0],
-                nav_shape[1],
-            )  # repeat the scan positions
     else:
         positions = None
+        repeats = 1
 
     if in_stem_mode == -1:
         in_stem_mode = scanning
@@ -366,25 +364,20 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         else:
             sizex = int(original_metadata.get("Scan - Size X", 1))
             sizey = int(original_metadata.get("Scan - Size Y", 1))
-        if nav_shape is not None and len(nav_shape) == 3:
-            time = nav_shape[0]
-            sizey = nav_shape[1]
-            sizex = nav_shape[2]
-        elif nav_shape is not None and len(nav_shape) == 2:
-            sizex = nav_shape[1]
-            sizey = nav_shape[0]
-            time = 1
-        elif nav_shape is not None and len(nav_shape) == 1:
-            sizex = nav_shape[0]
-            sizey = 1
-            time = 1
-        else:
-            time = 1
+        time = 1
+        if nav_shape is not None:
+            sizex, sizey, time = tuple(nav_shape) + (1,) * (3 - len(nav_shape))
         sizekx = int(original_metadata.get("Image Size X (pixels)", -1))
         sizeky = int(original_metadata.get("Image Size Y (pixels)", -1))
         navigate = [True, True, True, True, False, False]
-        axes_shapes = [time, sizey, sizex, 1, sizeky, sizekx]
-        nav_shape = tuple([shape for shape in [time, sizex, sizey, 1] if shape != 1])
+        axes_shapes = [time, sizey, sizex, repeats, sizeky, sizekx]
+        # The dimensions of the data: singleton dimensions are skipped, except
+        # for the y, x dimensions of custom scans, which `positions` refers to
+        keep = [
+            i > 3 or size != 1 or (positions is not None and i in (1, 2))
+            for i, size in enumerate(axes_shapes)
+        ]
+        nav_shape = tuple(axes_shapes[i] for i in range(3, -1, -1) if keep[i])
     else:
         navigate = [True, False, False]
 
@@ -393,6 +386,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         frame_time = float(original_metadata.get("Frames Per Second", 1))
         sec_per_frame = 1 / (frame_time * frame_sum)
         axes_shapes = [-1, -1, -1]  # get from the .mrc file
+        keep = [True, True, True]
         if diffracting:
             axes_scales = np.array(
                 [
@@ -418,9 +412,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_units = ["sec", "nm", "nm"]
             axes_names = ["time", "y", "x"]
     axes = []
-    ind = 0
     for i, s in enumerate(axes_shapes):
-        if s != 1:
+        if keep[i]:
             if axes_scales[i] == -1:
                 axes_scales[i] = 1
             axes.append(
@@ -430,10 +423,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
                     "units": axes_units[i],
                     "scale": axes_scales[i],
                     "navigate": navigate[i],
-                    "index_in_array": ind,
                 }
             )
-            ind += 1
     electron_gain = float(original_metadata.get("ADUs Per Electron Bin1x", 1))
     magnification = original_metadata.get("Instrument Project Magnification", None)
     camera_model = original_metadata.get("Camera Model", None)
@@ -528,8 +519,7 @@ def file_reader(
         ) = read_de_metadata_file(
             metadata_file, nav_shape=navigation_shape, scan_pos_file=scan_file
         )
-        if navigation_shape is None:
-            navigation_shape = _navigation_shape
+        navigation_shape = _navigation_shape
         original_metadata = {"de_metadata": de_metadata}
     else:
         original_metadata = {}
@@ -688,23 +678,27 @@ def file_reader(
                 offsets.insert(0, 0)
 
         # create the axis objects for each axis
-        dim = len(data.shape)
         axes = [
             {
-                "size": data.shape[i],
-                "index_in_array": i,
-                "name": names[i + nav_axis_to_add + 3 - dim],
-                "scale": scales[i + nav_axis_to_add + 3 - dim],
-                "offset": offsets[i + nav_axis_to_add + 3 - dim],
-                "units": units[i + nav_axis_to_add + 3 - dim],
-                "navigate": navigate[i + nav_axis_to_add + 3 - dim],
+                "name": names[i],
+                "scale": scales[i],
+                "offset": offsets[i],
+                "units": units[i],
+                "navigate": navigate[i],
             }
-            for i in range(dim)
+            for i in range(len(shape))
         ]
     else:
         axes = metadata_axes
-        for ax, s in zip(axes, shape[::-1]):
-            ax["size"] = s  # Update the size of the axes
+
+    # Skip the axes of the singleton dimensions, which have been removed
+    axes = [
+        {**axis, "size": size}
+        for axis, size in zip(axes, shape[::-1])
+        if size != 1
+    ]
+    for i, axis in enumerate(axes):
+        axis["index_in_array"] = i
 
     dictionary = {
         "data": data,
-- 
2.43.0


From 078e5bd18bfae66b623e6c94f93c08823a965f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 118/207] fix: mrc custom scan with a single position

---
 rsciio/mrc/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 0e915e0..d905cfc 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -308,7 +308,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     if scanning and not raster:
         if scan_pos_file is None:
             raise ValueError("Scan position file is required for non-raster scans.")
-        positions = np.loadtxt(scan_pos_file, delimiter=",", dtype=int)[:, ::-1]
+        positions = np.loadtxt(scan_pos_file, delimiter=",", dtype=int, ndmin=2)
+        positions = positions[:, ::-1]
         # In the same order as the `navigation_shape` parameter: x, y
         nav_shape = (positions[:, 1].max() + 1, positions[:, 0].max() + 1)
         unique_pos, inverse, counts = np.unique(
-- 
2.43.0


From 00ff4dc14da7849dcf4f7132e8de202088d0bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 119/207] fix: axes and shape of the mrc navigation images

---
 rsciio/mrc/_api.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index d905cfc..794daf0 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -531,17 +531,31 @@ def file_reader(
     metadata["Signal"]["signal_type"] = ""
     metadata.setdefault("_HyperSpy", {})
     metadata["_HyperSpy"].setdefault("navigators", {})
+    if navigation_shape is not None:
+        # shape and axes of the navigation dimensions, singleton dimensions
+        # are removed from the images, as from the data
+        navigator_axes = metadata_axes or [{"name": ""}] * len(navigation_shape)
+        navigator_axes = [
+            {**axis, "size": size, "navigate": False}
+            for axis, size in zip(navigator_axes, navigation_shape[::-1])
+            if size != 1
+        ]
+        navigator_shape = tuple(axis["size"] for axis in navigator_axes)
     if virtual_images is not None and len(virtual_images) > 0:
         imgs = []
         for i, v in enumerate(virtual_images):
             signal = file_reader(v)[0]
             img = signal["data"]
-            if navigation_shape is not None and navigation_shape[::-1] != img.shape:
-                if np.prod(img.shape) == np.prod(navigation_shape[::-1]):
-                    signal["data"] = img.reshape(navigation_shape[::-1])
+            if navigation_shape is not None and navigator_shape != img.shape:
+                if np.prod(img.shape) == np.prod(navigator_shape):
+                    signal["data"] = img.reshape(navigator_shape)
+                    signal["axes"] = [
+                        {**axis, "index_in_array": j}
+                        for j, axis in enumerate(navigator_axes)
+                    ]
                 else:  # pragma: no cover
                     _logger.warning(
-                        f"Virtual image {v} does not match the navigation shape {navigation_shape[::-1]}"
+                        f"Virtual image {v} does not match the navigation shape {navigator_shape}"
                     )
             imgs.append(signal)
             _logger.debug(f"Adding virtual image _sig_virtual_image_{i}")
@@ -554,7 +568,7 @@ def file_reader(
         # checking to make sure the navigator is valid
         if (
             navigation_shape is not None
-            and navigation_shape[::-1] == imgs[0]["data"].shape
+            and navigator_shape == imgs[0]["data"].shape
         ):
             # Preserve existing navigator entries (virtual/external) and only
             # set the default navigator signal.
-- 
2.43.0


From d2e94935bfec8b1bdcd251a7c444c02949c98ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 120/207] fix: read lazily ragged arrays of the metadata of
 hspy and zspy files

---
 rsciio/_hierarchical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 7777b56..4320e4e 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -636,7 +636,9 @@ class HierarchicalReader:
                     elif lazy:
                         import dask.array as da
 
-                        data_ = da.from_array(data_, chunks=data_.chunks)
+                        # ragged arrays are already dask arrays
+                        if not isinstance(data_, da.Array):
+                            data_ = da.from_array(data_, chunks=data_.chunks)
                     else:
                         data_ = np.array(data_)
                     dictionary[kn] = data_
-- 
2.43.0


From 46656c484959daee6dde9b885142446976c4327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 121/207] fix: accept pathlib.Path in the tvips reader

---
 rsciio/tvips/_api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index ec1a44a..eed1cba 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -270,6 +270,7 @@ def file_reader(
 
     %s
     """
+    filename = os.fspath(filename)
     # check whether we start at the first tvips file
     _is_valid_first_tvips_file(filename)
 
-- 
2.43.0


From 4a18a490b94e4aaec7789159d3f7a9528416b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 122/207] fix: accept pathlib.Path in the ripple reader

---
 rsciio/ripple/_api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 10f1fe5..b651ed6 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -291,6 +291,7 @@ def file_reader(
 
     %s
     """
+    filename = os.fspath(filename)
     if not rpl_info:
         if filename[-3:] in file_extensions:
             with open(filename, encoding=encoding, errors="replace") as f:
-- 
2.43.0


From bb728829b70194d199b92c4381edd3acf09bf3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 123/207] fix: axes of NeXus datasets without axes attribute

---
 rsciio/nexus/_api.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 527431b..ca89a5b 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -191,6 +191,32 @@ def _getlink(h5group, rootkey, key):
     return _target
 
 
+def _get_default_axes(data):
+    """Get the list of uncalibrated axes of a dataset without axes information
+
+    Parameters
+    ----------
+    data : hdf dataset
+        the dataset to be loaded.
+
+    Returns
+    -------
+    list
+        contains information about each axes.
+    """
+    return [
+        {
+            "size": size,
+            "index_in_array": i,
+            "scale": 1,
+            "offset": 0.0,
+            "units": "",
+            "navigate": True,
+        }
+        for i, size in enumerate(data.shape)
+    ]
+
+
 def _get_nav_list(data, dataentry):
     """Get the list with information of each axes of the dataset
 
@@ -330,6 +356,8 @@ def _extract_hdf_dataset(group, dataset, lazy=False):
             return None
 
     nav_list = _get_nav_list(data, data.parent)
+    if not nav_list:
+        nav_list = _get_default_axes(data)
 
     if lazy:
         import dask.array as da
@@ -410,17 +438,7 @@ def _nexus_dataset_to_signal(group, nexus_dataset_path, lazy=False):
         data_lazy = np.array(data)
 
     if not nav_list:
-        for i in range(data.ndim):
-            nav_list.append(
-                {
-                    "size": data_lazy.shape[i],
-                    "index_in_array": i,
-                    "scale": 1,
-                    "offset": 0.0,
-                    "units": "",
-                    "navigate": True,
-                }
-            )
+        nav_list = _get_default_axes(data)
     title = _text_split(nexus_dataset_path, "/")[-1]
     metadata = {"General": {"title": title}}
 
-- 
2.43.0


From c6a2e6e7042a5f8c7bac3501ebd98227c63331a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 124/207] fix: read lazily emd NCEM datasets of strings

---
 rsciio/emd/_emd_ncem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 5cec13c..9f78657 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -203,7 +203,8 @@ class EMD_NCEM:
         """
         chunks = dataset.chunks
         if chunks is None:
-            chunks = "auto"
+            # dask can't estimate the size of the items of object arrays
+            chunks = -1 if dataset.dtype == object else "auto"
         if h5py.check_string_dtype(dataset.dtype) and hasattr(dataset, "asstr"):
             # h5py 3.0 and newer
             # https://docs.h5py.org/en/3.0.0/strings.html
-- 
2.43.0


From 6a6037f8e18555c2c0bbc2c351bdf2fc8c8bd598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 125/207] fix: original_filename of quadstar and tofwerk files

---
 rsciio/quadstar/_api.py | 5 +++--
 rsciio/tofwerk/_api.py  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsciio/quadstar/_api.py b/rsciio/quadstar/_api.py
index db0a739..0b0c3f6 100644
--- a/rsciio/quadstar/_api.py
+++ b/rsciio/quadstar/_api.py
@@ -40,6 +40,7 @@ prefix followed by interleaved (mass label, intensity) float32 pairs.
 
 import datetime
 import logging
+import os
 import struct
 
 import numpy as np
@@ -325,7 +326,7 @@ def _read_sac_file(filename, buf, gen, base_datetime, use_uniform_signal_axis):
 
         metadata = {
             "General": {
-                "original_filename": str(filename),
+                "original_filename": os.path.basename(filename),
             },
             "Signal": {
                 "signal_type": "MS",
@@ -500,7 +501,7 @@ def _read_sbc_file(filename, buf, gen, base_datetime, use_uniform_signal_axis):
 
     metadata = {
         "General": {
-            "original_filename": str(filename),
+            "original_filename": os.path.basename(filename),
         },
         "Signal": {
             "signal_type": "MS",
diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index 4b07463..fc81f04 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -94,6 +94,7 @@ from __future__ import annotations
 
 import enum
 import logging
+import os
 from datetime import datetime
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, TypeVar
@@ -485,7 +486,7 @@ def _build_metadata(
     metadata = {
         "General": {
             "title": stem,
-            "original_filename": str(filename),
+            "original_filename": os.path.basename(filename),
         },
         "Signal": signal_meta,
         "Acquisition_instrument": {
-- 
2.43.0


From b3ed40a6338df204f31af2b0f415c5b3bb09eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 126/207] fix: wdf files with all WXDM metadata matched

---
 rsciio/renishaw/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 79bf4ce..9841ea9 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -726,14 +726,16 @@ class WDFReader(object):
         ]
         ## only top level contains unmatched keys
         ## these keys are used multiple times for different values in different subdicts
-        self._unmatched_WXDM_keys = self._unmatched_metadata["WXDM_0"].get("keys")
+        self._unmatched_WXDM_keys = self._unmatched_metadata.get("WXDM_0", {}).get(
+            "keys"
+        )
         if self._unmatched_WXDM_keys is None:
             return
         matched_WXDM = self._match_WXDM_values(
             1, WXDM_entries, deepcopy(self._unmatched_WXDM_keys)
         )
         self.original_metadata["WXDM_0"].update(
-            {"extra_matches": matched_WXDM["sub0"]["subdicts"]}
+            {"extra_matches": matched_WXDM["sub0"].get("subdicts", {})}
         )
         ## remove matched values/keys from unmatched_metadata
         for k in WXDM_entries:
-- 
2.43.0


From 8edc5ddf60a8cec567c9bf7f85d9d554aa7fc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 127/207] fix: ORGN block of unfinished wdf measurements

---
 rsciio/renishaw/_api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 9841ea9..a22ee64 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -431,6 +431,7 @@ class WDFReader(object):
         self._block_info = None
         self._points_per_spectrum = None
         self._num_spectra = None
+        self._capacity = None
         self._measurement_type = None
         self._unfinished_measurement = False
         self.data = None
@@ -445,6 +446,7 @@ class WDFReader(object):
         header_data = self._parse_WDF1()
         self._points_per_spectrum = header_data["points_per_spectrum"]
         self._num_spectra = header_data["num_spectra"]
+        self._capacity = self.original_metadata["WDF1_1"]["capacity"]
         self._measurement_type = header_data["measurement_type"]
 
         ## parse metadata blocks
@@ -922,19 +924,17 @@ class WDFReader(object):
             "ORGN",
             "Navigation axes",
             block_size - 16,
-            4 + origin_count * (24 + 8 * self._num_spectra),
+            4 + origin_count * (24 + 8 * self._capacity),
         )
         for _ in range(origin_count):
             ax_tmp_dict = {}
             ## ignore first bit of dtype read (sometimes 0, sometimes 1 in testfiles)
             dtype = DataType(self.__read_numeric("uint32") & ~(0b1 << 31)).name
             ax_tmp_dict["units"] = str(UnitType(self.__read_numeric("uint32")))
-            try:
-                ax_tmp_dict["annotation"] = self.__read_utf8(0x10)
-            except UnicodeDecodeError:
-                # error with incomplete file
-                pass
+            ax_tmp_dict["annotation"] = self.__read_utf8(0x10)
             ax_tmp_dict["data"] = self._set_data_for_ORGN(dtype)
+            # the values of the spectra which weren't acquired
+            self._file_obj.seek(8 * (self._capacity - self._num_spectra), 1)
 
             if dtype not in [
                 DataType.SpectrumDataChecksum.name,
-- 
2.43.0


From 341641e72f83e7685ee0f5ef7dcea360065bb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 128/207] fix: bcf directories listed after their files

---
 rsciio/bruker/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0b14870..b458753 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -395,7 +395,8 @@ class SFS_reader:
                     dir_pointer[j] = {}
                     dir_pointer = dir_pointer[j]
             if temp_item_list[i].is_dir:
-                dir_pointer[temp_item_list[i].name] = {}
+                # the directory may come after the files it contains
+                dir_pointer.setdefault(temp_item_list[i].name, {})
             else:
                 dir_pointer[temp_item_list[i].name] = temp_item_list[i]
         # return dict tree:
-- 
2.43.0


From 7ec6a389fe68c6baf8c13c9ecce1c78f5e5b5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 129/207] fix: single element of spx files

---
 rsciio/bruker/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index b458753..1848f2e 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1068,7 +1068,11 @@ def spx_reader(filename, lazy=False):
     if elements_xml is not None:
         elem = x2d.dictionarize(elements_xml)["ChildClassInstances"]
         hy_spec["original_metadata"]["Selected_elements"] = elem
-        hy_spec["metadata"]["Sample"]["elements"] = elem["XmlClassName"]
+        elements = elem["XmlClassName"]
+        if not isinstance(elements, list):
+            # a single element
+            elements = [elements]
+        hy_spec["metadata"]["Sample"]["elements"] = elements
     return [hy_spec]
 
 
-- 
2.43.0


From 8f722cde60b4451f2c96f77f6a9501588e0065c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 130/207] fix: pulses of bcf pixels in the python parser

---
 rsciio/bruker/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 1848f2e..c41fdb4 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1165,7 +1165,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
             if flag == 0:
                 data1 = buffer1[offset : offset + data_size2]
                 arr16 = np.frombuffer(data1, dtype=np.uint16)
-                pixel = np.bincount(arr16, minlength=chan1 - 1)
+                pixel = np.bincount(arr16, minlength=chan1)
                 offset += data_size2
             elif flag == 1:  # and (chan1 != chan2)
                 # Unpack packed 12-bit data to 16-bit uints:
@@ -1186,7 +1186,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ).copy()
                 exp16[0::2] >>= 4  # Shift every second short by 4
                 exp16 &= np.uint16(0x0FFF)  # Mask all shorts to 12bit
-                pixel = np.bincount(exp16, minlength=chan1 - 1)
+                pixel = np.bincount(exp16, minlength=chan1)
                 offset += data_size2
             else:  # flag > 1
                 # Unpack instructively packed data to pixel channels:
-- 
2.43.0


From 08093c519822418ea17d803be633320bade39741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 131/207] fix: width scale of bcf maps

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index c41fdb4..6cf2f81 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1475,7 +1475,7 @@ For more information, check the 'Installing RosettaSciIO' section in the documen
                         "name": "width",
                         "size": hypermap.shape[1],
                         "offset": 0,
-                        "scale": obj_bcf.header.y_res * downsample,
+                        "scale": obj_bcf.header.x_res * downsample,
                         "units": obj_bcf.header.units,
                         "navigate": True,
                     },
-- 
2.43.0


From e11b17fd793a8c63ea341c606a52db95055d6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 132/207] fix: line counter of bcf maps of two lines

---
 rsciio/bruker/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 6cf2f81..d0eda1f 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -571,7 +571,10 @@ class HyperHeader:
         self._set_images(root)
         self.elements = {}
         self._set_elements(root)
-        self.line_counter = literal_eval(root.find("./LineCounter").text)
+        # the comma of two counts is taken for a decimal one by sanitize_msxml_float
+        self.line_counter = literal_eval(
+            root.find("./LineCounter").text.replace(".", ",")
+        )
         self.channel_count = int(root.find("./ChCount").text)
         self.mapping_count = int(root.find("./DetectorCount").text)
         # self.channel_factors = {}
-- 
2.43.0


From e3025e38fb43fd434dc3c2947155bbdc1e4e805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 133/207] fix: 32 bit counts in the cython bcf parser

---
 rsciio/bruker/unbcf_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index 6292b36..b320914 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -257,7 +257,7 @@ cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
             else:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
-                        val32 = read_32(&src[offset + i*2])
+                        val32 = read_32(&src[offset + i*4])
                         dest[y, x, i+channel] += <channel_t>(val32 + gain)
                 length = <int>(head.channels * head.size // 2)
             offset += length
-- 
2.43.0


From 47747c9f2b861315040631a12054e30a77aa63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 134/207] fix: dtype of lazy bcf maps read by the python parser

---
 rsciio/bruker/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index d0eda1f..82d3a8b 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1001,6 +1001,8 @@ class BCF_reader(SFS_reader):
             value = dask.delayed(parse_func)(
                 vrt_file_hand, shape, dtype, downsample=downsample
             )
+            # the pure python parser returns the unsigned counterpart of signed types
+            dtype = np.dtype(np.dtype(dtype).str.replace("i", "u"))
             result = da.from_delayed(value, shape=shape, dtype=dtype)
         else:
             result = parse_func(vrt_file_hand, shape, dtype, downsample=downsample)
-- 
2.43.0


From c9602c672465008adf50720ebf7f753807d030c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 135/207] fix: number of chunks of the file tree of bcf files

---
 rsciio/bruker/_api.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 82d3a8b..6adf24a 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -332,9 +332,8 @@ class SFS_reader:
         """
         with open(self.filename, "rb") as fn:
             # check if file tree do not exceed one chunk:
-            n_file_tree_chunks = ceil(
-                (self.n_tree_items * 0x200) / (self.chunksize - 0x20)
-            )
+            tree_items_in_chunk = (self.chunksize - 0x20) // 0x200
+            n_file_tree_chunks = ceil(self.n_tree_items / tree_items_in_chunk)
             if n_file_tree_chunks == 1:
                 # file tree do not exceed one chunk in bcf:
                 fn.seek(self.chunksize * self.tree_address + 0x138)
@@ -342,7 +341,6 @@ class SFS_reader:
             else:
                 temp_str = io.BytesIO()
                 tree_address = self.tree_address
-                tree_items_in_chunk = (self.chunksize - 0x20) // 0x200
                 for i in range(n_file_tree_chunks):
                     # jump to tree/list address:
                     fn.seek(self.chunksize * tree_address + 0x118)
-- 
2.43.0


From 2ab9937bcf04af6873ad2333ef08fe81f9a4a1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 136/207] fix: bcf pixels larger than a chunk of the file

---
 rsciio/bruker/_api.py        | 4 ++--
 rsciio/bruker/unbcf_fast.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 6adf24a..4b93a68 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1161,7 +1161,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ceil(width / dwn_factor) * (line_cnt // dwn_factor)
             )
             offset += 22
-            if (offset + data_size2) >= size:
+            while (offset + data_size2) >= size:
                 buffer1 = buffer1[offset:] + next(iter_data)
                 size = size_chnk + size - offset
                 offset = 0
@@ -1236,7 +1236,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 if n_of_pulses > 0:
                     add_s = strct_unp("<I", buffer1[offset : offset + 4])[0]
                     offset += 4
-                    if (offset + add_s) >= size:
+                    while (offset + add_s) >= size:
                         buffer1 = buffer1[offset:] + next(iter_data)
                         size = size_chnk + size - offset
                         offset = 0
diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index b320914..88df73a 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -86,7 +86,7 @@ cdef class DataStream:
         """increase offset by given value,
         check if new offset is in bounds of buffer length
         else load up next block"""
-        if (self.offset + length) > self.size:
+        while (self.offset + length) > self.size:
             self.load_next_block()
         self.offset = self.offset + length
 
@@ -121,7 +121,7 @@ cdef class DataStream:
         making sure the array have the required length
         counting from the offset, increase the internal offset
         by given length"""
-        if (self.offset + length) > self.size:
+        while (self.offset + length) > self.size:
             self.load_next_block()
         self.offset += length
         return &self.buffer2[self.offset-length]
-- 
2.43.0


From 63cd12270700c5f804b80febcef1c2e1ba4957ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 137/207] fix: bcf data up to the very end of a chunk in the
 python parser

---
 rsciio/bruker/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 4b93a68..61e028b 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1123,14 +1123,14 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
     offset = 0x1A0
     size = size_chnk
     for line_cnt in range(height):
-        if (offset + 4) >= size:
+        if (offset + 4) > size:
             size = size_chnk + size - offset
             buffer1 = buffer1[offset:] + next(iter_data)
             offset = 0
         line_head = strct_unp("<i", buffer1[offset : offset + 4])[0]
         offset += 4
         for dummy1 in range(line_head):
-            if (offset + 22) >= size:
+            if (offset + 22) > size:
                 size = size_chnk + size - offset
                 buffer1 = buffer1[offset:] + next(iter_data)
                 offset = 0
@@ -1161,7 +1161,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ceil(width / dwn_factor) * (line_cnt // dwn_factor)
             )
             offset += 22
-            while (offset + data_size2) >= size:
+            while (offset + data_size2) > size:
                 buffer1 = buffer1[offset:] + next(iter_data)
                 size = size_chnk + size - offset
                 offset = 0
@@ -1236,7 +1236,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 if n_of_pulses > 0:
                     add_s = strct_unp("<I", buffer1[offset : offset + 4])[0]
                     offset += 4
-                    while (offset + add_s) >= size:
+                    while (offset + add_s) > size:
                         buffer1 = buffer1[offset:] + next(iter_data)
                         size = size_chnk + size - offset
                         offset = 0
-- 
2.43.0


From 13423433f18df097cbe86be3f9f7e46d68131fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 138/207] fix: arina data of detectors which aren't square

---
 rsciio/arina/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/arina/_api.py b/rsciio/arina/_api.py
index a900fb5..d8b6733 100644
--- a/rsciio/arina/_api.py
+++ b/rsciio/arina/_api.py
@@ -109,12 +109,12 @@ def file_reader(
         dtype_scan = np.dtype(np.uint16)
 
     if flatfield is not None:
-        array_3D = np.empty((nimages, width, height), dtype=np.float32)
+        array_3D = np.empty((nimages, height, width), dtype=np.float32)
         _logger.info("Dataset will be converted to float32 due to flatfield correction")
     elif dtype:
-        array_3D = np.empty((nimages, width, height), dtype=dtype)
+        array_3D = np.empty((nimages, height, width), dtype=dtype)
     else:
-        array_3D = np.empty((nimages, width, height), dtype=dtype_scan)
+        array_3D = np.empty((nimages, height, width), dtype=dtype_scan)
 
     image_index = 0
 
-- 
2.43.0


From dd0192c32977fe5dba11226fcb845b6ab545eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 139/207] fix: metadata file of arina data in folders named
 after a master file

---
 rsciio/arina/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/arina/_api.py b/rsciio/arina/_api.py
index d8b6733..00e8445 100644
--- a/rsciio/arina/_api.py
+++ b/rsciio/arina/_api.py
@@ -76,7 +76,7 @@ def file_reader(
         raise FileNotFoundError(f"File {filename} not found")
 
     # Get the base filename without the _master.h5 suffix
-    base_filename = str(filename).replace("_master.h5", "")
+    base_filename = str(filename).removesuffix("_master.h5")
 
     # Open the master file
     with h5py.File(filename, "r") as f:
-- 
2.43.0


From 189020af51765e5eb73140b1ae020c85035e76e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 140/207] fix: parameters of the measurement group of USID
 files

---
 rsciio/usid/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/usid/_api.py b/rsciio/usid/_api.py
index c446535..fc1aa11 100644
--- a/rsciio/usid/_api.py
+++ b/rsciio/usid/_api.py
@@ -287,7 +287,7 @@ def _usidataset_to_signal_dict(h5_main, ignore_non_uniform_dims=True, lazy=False
     if isinstance(h5_chan_grp, h5py.Group):
         if "Channel" in h5_chan_grp.name.split("/")[-1]:
             group_attrs = sidpy.hdf_utils.get_attributes(h5_chan_grp)
-            h5_meas_grp = h5_main.parent
+            h5_meas_grp = h5_chan_grp.parent
             if isinstance(h5_meas_grp, h5py.Group):
                 if "Measurement" in h5_meas_grp.name.split("/")[-1]:
                     temp = sidpy.hdf_utils.get_attributes(h5_meas_grp)
-- 
2.43.0


From fc8857529d1ab1d3ab4427adcce7a854682e66c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 141/207] fix: byte order of EDAX maps read eagerly

---
 rsciio/edax/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 33d49eb..7ad4856 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -838,11 +838,12 @@ def si_reader(
         data_type = {"1": "u1", "2": "u2", "4": "u4"}[
             str(original_metadata["spd_header"]["countBytes"])
         ]
+        data_type = np.dtype(f"{endianness}{data_type}")
 
     if lazy:
         data = memmap_distributed(
             filename,
-            dtype=np.dtype(f"{endianness}{data_type}"),
+            dtype=data_type,
             offset=data_offset,
             shape=tuple((ny, nx, nz)),
             chunks=chunks,
-- 
2.43.0


From f70ffefc38e35e473b1515bd302c5c9a846e49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 142/207] fix: first sample of Protochips logs without user

---
 rsciio/protochips/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 0cb8838..98d8f9a 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -243,8 +243,9 @@ class ProtochipsCSV(object):
                 param, value = self._parse_metadata_header(f.readline())
             except ValueError:
                 # when the last line of header does not contain 'User',
-                # possibly some old file.
+                # possibly some old file: this line is data already
                 self.user = None
+                i -= 1
                 break
             except IndexError:
                 _logger.warning("The metadata may not be parsed properly.")
-- 
2.43.0


From 3187b466a09286d5c051a91bf44bc393d755bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 143/207] fix: endless loop reading an empty file as DENS log

---
 rsciio/dens/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/dens/_api.py b/rsciio/dens/_api.py
index fed247d..4aa239c 100644
--- a/rsciio/dens/_api.py
+++ b/rsciio/dens/_api.py
@@ -59,7 +59,7 @@ def file_reader(filename, lazy=False):
     with open(filename, "rt") as f:
         # Strip leading, empty lines
         line = str(f.readline())
-        while line.strip() == "" and not f.closed:
+        while line != "" and line.strip() == "":
             line = str(f.readline())
         try:
             date, version = line.split("\t")
-- 
2.43.0


From b7ce7ed4d21611959020ac03a515268b453daede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 144/207] fix: Impulse logs without metadata file

---
 rsciio/impulse/_api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index 617cde1..fc5ed63 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -78,17 +78,21 @@ class ImpulseCSV:
         }
 
     def _get_metadata(self, quantity):
-        return {
+        metadata = {
             "General": {
                 "original_filename": os.path.split(self.filename)[1],
                 "title": "%s" % quantity,
-                "date": self.original_metadata["Experiment_date"],
-                "time": self.original_metadata["Experiment_time"],
             },
             "Signal": {
                 "quantity": self._parse_quantity_units(quantity),
             },
         }
+        # Without metadata file, date and time of the experiment aren't known
+        for key in ["date", "time"]:
+            if "Experiment_%s" % key in self.original_metadata:
+                metadata["General"][key] = self.original_metadata["Experiment_%s" % key]
+
+        return metadata
 
     def _parse_quantity_units(self, quantity):
         quantity_split = quantity.strip().split(" ")
-- 
2.43.0


From b3e5970ef4f94dcc4689b43e6d0762b0641a1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 145/207] fix: Impulse columns whose names contain further
 special characters

---
 rsciio/impulse/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index fc5ed63..be9b81a 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -125,7 +125,8 @@ class ImpulseCSV:
             encoding="latin1",
         )
         self._data_dictionary = dict()
-        for i, (name, name_dtype) in enumerate(zip(self.column_names, names)):
+        # numpy may change the names further
+        for name, name_dtype in zip(self.column_names, data.dtype.names):
             if name == "Experiment time":
                 self.time_axis = data[name_dtype]
             elif name == "MixValve":
-- 
2.43.0


From 25d6e39c5f4a003ef31921fbae7469bb727e0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 146/207] fix: commas in the metadata and notes of Impulse logs

---
 rsciio/impulse/_api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index be9b81a..c2c138c 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -159,14 +159,14 @@ class ImpulseCSV:
                     metadata_file_reader = csv.reader(csvfile, delimiter=",")
                     for row in metadata_file_reader:
                         if notes_section:
-                            notes.append(row[0])
+                            notes.append(",".join(row))
                         elif row[0] == "Live notes":
                             notes_section = True
-                            notes = [row[1].strip()]
+                            notes = [",".join(row[1:]).strip()]
                         else:
-                            self.original_metadata[row[0].replace(" ", "_")] = row[
-                                1
-                            ].strip()
+                            self.original_metadata[row[0].replace(" ", "_")] = (
+                                ",".join(row[1:]).strip()
+                            )
                     self.original_metadata["Notes"] = notes
 
             else:
-- 
2.43.0


From e5129df439c617e4c9e3593c814680b1d9349933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 147/207] fix: notes of Protochips logs that look like numbers
 or contain #

---
 rsciio/protochips/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 98d8f9a..2dbd7bb 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -156,6 +156,9 @@ class ProtochipsCSV(object):
             names=names,
             skip_header=self.header_last_line_number,
             encoding="latin1",
+            # The notes are free text, which may also look like a number
+            converters={self.column_name.index("Notes"): str.strip},
+            comments=None,
         )
 
         self._data_dictionary = dict()
-- 
2.43.0


From f8231430cbaf3f7cba6ad4b9184d4fd72af627f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 148/207] fix: equal signs and brackets within values of
 Hamamatsu comments

---
 rsciio/hamamatsu/_api.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rsciio/hamamatsu/_api.py b/rsciio/hamamatsu/_api.py
index d2fa939..1edb7e2 100644
--- a/rsciio/hamamatsu/_api.py
+++ b/rsciio/hamamatsu/_api.py
@@ -18,6 +18,7 @@
 
 import importlib.util
 import logging
+import re
 from copy import deepcopy
 from enum import EnumMeta, IntEnum
 from pathlib import Path
@@ -281,7 +282,8 @@ class IMGReader:
 
     @staticmethod
     def _split_sections_from_comment(input):
-        initial_split = input[1:].split("[")  # ignore opening bracket at start
+        # brackets within quoted values don't start a section
+        initial_split = re.split(r'\[(?=(?:[^"]*"[^"]*")*[^"]*$)', input)[1:]
         result = {}
         for entry in initial_split:
             sep_idx = entry.index("]")
@@ -291,16 +293,15 @@ class IMGReader:
         return result
 
     @staticmethod
-    def _get_range_for_val(v, sep, count, num_entries, str_len):
+    def _get_range_for_val(v, sep, str_len):
         if v[sep + 1] == '"':
             end_val = v.index('"', sep + 2)
             start_val = sep + 2
             total_end = end_val + 2
         else:
-            if count == num_entries:
+            end_val = v.find(",", sep)
+            if end_val == -1:  # last entry
                 end_val = str_len
-            else:
-                end_val = v.index(",", sep)
             start_val = sep + 1
             total_end = end_val + 1
         return start_val, end_val, total_end
@@ -309,16 +310,13 @@ class IMGReader:
         result = {}
         str_len = len(entries_str)
         cur_pos = 0
-        counter = 0
-        num_entries = entries_str.count("=")
-        if num_entries == 0:
+        if "=" not in entries_str:
             return entries_str
         while cur_pos < str_len:
-            counter += 1
             sep_idx = entries_str.index("=", cur_pos)
             key = entries_str[cur_pos:sep_idx]
             start_val, end_val, cur_pos = self._get_range_for_val(
-                entries_str, sep_idx, counter, num_entries, str_len
+                entries_str, sep_idx, str_len
             )
             val = entries_str[start_val:end_val]
             result[key] = val
-- 
2.43.0


From 5a1181ac41eb123954735ebe5f27cd0c13a1f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 149/207] Revert "fix: first sample of Protochips logs without
 user"

This reverts commit f70ffefc38e35e473b1515bd302c5c9a846e49ed.
---
 rsciio/protochips/_api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 2dbd7bb..5bd729b 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -246,9 +246,8 @@ class ProtochipsCSV(object):
                 param, value = self._parse_metadata_header(f.readline())
             except ValueError:
                 # when the last line of header does not contain 'User',
-                # possibly some old file: this line is data already
+                # possibly some old file.
                 self.user = None
-                i -= 1
                 break
             except IndexError:
                 _logger.warning("The metadata may not be parsed properly.")
-- 
2.43.0


From 12ef765ca34fc613c2556de63ad667cc7013406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 150/207] fix: JobinYvon files without filter or entrance hole

---
 rsciio/jobinyvon/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jobinyvon/_api.py b/rsciio/jobinyvon/_api.py
index 3501146..89289a7 100644
--- a/rsciio/jobinyvon/_api.py
+++ b/rsciio/jobinyvon/_api.py
@@ -652,14 +652,14 @@ class JobinYvonXMLReader:
         ## convert filter range from percentage (0-100) to (0-1)
         try:
             laser["Filter"]["optical_density"] /= 100
-        except KeyError:  # pragma: no cover
+        except TypeError:  # pragma: no cover
             pass  # pragma: no cover
 
         ## convert entrance_hole_width to mm
         try:
             spectrometer["entrance_slit_width"] /= 100
             spectrometer["pinhole"] = spectrometer["entrance_slit_width"]
-        except KeyError:  # pragma: no cover
+        except TypeError:  # pragma: no cover
             pass  # pragma: no cover
 
         self.metadata = {
-- 
2.43.0


From e7aadde0a298e184760cb42b89e39c40bec81c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 151/207] fix: TriVista setups with other numbers of devices
 than several of each

---
 rsciio/trivista/_api.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/rsciio/trivista/_api.py b/rsciio/trivista/_api.py
index fe5040c..87cf8b3 100644
--- a/rsciio/trivista/_api.py
+++ b/rsciio/trivista/_api.py
@@ -61,6 +61,14 @@ def _remove_none_from_dict(dict_in):
             del dict_in[key]
 
 
+def _get_children(parent, name):
+    """List of the children called name, of which there may be any number."""
+    if not isinstance(parent, dict) or parent.get(name) is None:
+        return []
+    children = parent[name]
+    return children if isinstance(children, list) else [children]
+
+
 def _process_info_serialized(head):
     """Recursive processing designed for the InfoSerialized entry from the original_metadata."""
     result = {}
@@ -239,7 +247,8 @@ class TrivistaTVFReader:
         except KeyError:
             return
 
-        for laser in metadata_hardware["Hardware"]["LightSources"]["LightSource"]:
+        light_sources = metadata_hardware["Hardware"]["LightSources"]
+        for laser in _get_children(light_sources, "LightSource"):
             try:
                 laser_wl = laser["Wavelengths"]["Value_0"]
             except KeyError:
@@ -251,15 +260,17 @@ class TrivistaTVFReader:
     @staticmethod
     def _filter_detector_metadata(infoSerialized_processed, metadata_hardware):
         """Filter Detector section via name"""
-        for detector in metadata_hardware["Hardware"]["Detectors"]["Detector"]:
+        detectors = metadata_hardware["Hardware"]["Detectors"]
+        for detector in _get_children(detectors, "Detector"):
             if detector["Name"] == infoSerialized_processed["Detector"]["Name"]:
                 metadata_hardware["Hardware"]["Detectors"]["Detector"] = detector
 
     @staticmethod
     def _filter_objectives_metadata(metadata_hardware):
         """Filter microscope section (objective) via isEnabled tag"""
-        for microscope in metadata_hardware["Hardware"]["Microscopes"]["Microscope"]:
-            for objective in microscope["Objectives"]["Objective"]:
+        microscopes = metadata_hardware["Hardware"]["Microscopes"]
+        for microscope in _get_children(microscopes, "Microscope"):
+            for objective in _get_children(microscope["Objectives"], "Objective"):
                 if objective["IsEnabled"]:
                     metadata_hardware["Hardware"]["Microscopes"]["Microscope"] = (
                         microscope
@@ -290,9 +301,8 @@ class TrivistaTVFReader:
         ##         - ...
         ##     - Spectrometer2
         ##         - ...
-        for spectrometer in metadata_hardware["Hardware"]["Spectrometers"][
-            "Spectrometer"
-        ]:
+        spectrometers = metadata_hardware["Hardware"]["Spectrometers"]
+        for spectrometer in _get_children(spectrometers, "Spectrometer"):
             if spectrometer["Serialnumber"] in spectrometer_serial_numbers:
                 idx = spectrometer_serial_numbers.index(spectrometer["Serialnumber"])
                 spectrometer_name = spectrometer_serialized_list[idx]
@@ -300,8 +310,7 @@ class TrivistaTVFReader:
                     spectrometer
                 )
                 ## filter grating via groove density
-                gratings_root = spectrometer["Gratings"]["Grating"]
-                for grating in gratings_root:
+                for grating in _get_children(spectrometer["Gratings"], "Grating"):
                     if (
                         grating["GrooveDensity"]
                         == infoSerialized_processed["Spectrometers"][spectrometer_name][
@@ -398,14 +407,12 @@ class TrivistaTVFReader:
     @staticmethod
     def _map_laser_md(original_metadata, laser_wavelength):
         laser = {}
-        laser["objective_magnification"] = (
-            original_metadata.get("Hardware", {})
-            .get("Microscopes", {})
-            .get("Microscope", {})
-            .get("Objectives", {})
-            .get("Objective", {})
-            .get("Magnification")
-        )
+        microscopes = original_metadata.get("Hardware", {}).get("Microscopes")
+        for microscope in _get_children(microscopes, "Microscope"):
+            for objective in _get_children(microscope.get("Objectives"), "Objective"):
+                ## if none is enabled, all objectives are left
+                if objective.get("IsEnabled"):
+                    laser["objective_magnification"] = objective.get("Magnification")
         if laser_wavelength is not None:
             laser["wavelength"] = laser_wavelength
         return laser
-- 
2.43.0


From 7c237341f484897665a6bba5b5a5ce2be7a6b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 152/207] fix: x and y calibration of Topspin diffraction
 patterns

---
 rsciio/topspin/_api.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index bfe7627..102cb30 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -288,14 +288,12 @@ def _get_4D_axes(h5_grp):
     k_space_id = [x for x in h5_grp.keys()][0]
     k_space = ET.fromstring(h5_grp[k_space_id]["Metadata"][()].decode())[0]
     shape = h5_grp[k_space_id]["Data"].shape
-    vuyx_axes[2]["units"] = k_space[0][2][1].text
-    vuyx_axes[2]["size"] = shape[0]
-    vuyx_axes[2]["scale"] = float(k_space[0][1].text)
-    vuyx_axes[2]["offset"] = float(k_space[0][0].text)
-    vuyx_axes[3]["units"] = k_space[1][2][1].text
-    vuyx_axes[3]["size"] = shape[1]
-    vuyx_axes[3]["scale"] = float(k_space[1][1].text)
-    vuyx_axes[3]["offset"] = float(k_space[1][0].text)
+    # the first axis of the patterns is y, the second one x
+    for axis, calibration, size in zip(vuyx_axes[2:], (k_space[1], k_space[0]), shape):
+        axis["units"] = calibration[2][1].text
+        axis["size"] = size
+        axis["scale"] = float(calibration[1].text)
+        axis["offset"] = float(calibration[0].text)
 
     # Image-space axes
     # Because the experiment-level metadata files sometimes change, it's
-- 
2.43.0


From 4a1ee46958396e97e7c93b0a0a9d86c81f66a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 153/207] fix: axes of Topspin scans of a single column

---
 rsciio/topspin/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index 102cb30..a95ce65 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -217,8 +217,8 @@ def file_reader(
                     if shape[1] == 1:
                         del shape[1]
                         del datasets_list[i]["axes"][1]
-                        datasets_list[i]["axes"][-1]["index_in_array"] = 1
-                        datasets_list[i]["axes"][-2]["index_in_array"] = 2
+                        datasets_list[i]["axes"][-2]["index_in_array"] = 1
+                        datasets_list[i]["axes"][-1]["index_in_array"] = 2
 
                     if shape[0] == 1:
                         del shape[0]
-- 
2.43.0


From cfe98d5b02a01ddcc3fac4c8d0030f6e79d5957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 154/207] fix: selecting Topspin images by dataset_path

---
 rsciio/topspin/_api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index a95ce65..20d73e6 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -106,8 +106,12 @@ def file_reader(
     with h5py.File(filename, "r") as h5_file:
         load_single_file = False
         if dataset_path is not None:
-            if "Metadata" in h5_file[dataset_path]:  # this is a session id
-                h5_file = h5_file[dataset_path]
+            dataset_path = dataset_path.strip("/")
+            item = h5_file[dataset_path]
+            # datasets (images) aren't searched, it would compare their values
+            if isinstance(item, h5py.Group) and "Metadata" in item:
+                # this is a session id
+                h5_file = item
             else:  # This is a single file of interest
                 load_single_file = True
 
-- 
2.43.0


From f96841ee1542e2d58411b96b1155b75966e905f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 155/207] fix: nested settings and booleans of Topspin metadata

---
 rsciio/topspin/_api.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index 20d73e6..c1df425 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -426,22 +426,20 @@ def _parse_app5_xml(metadata_string: str, f_name: str = ""):
     nested dictionary will be created.
     """
 
-    def name_val_decode(element):
+    def decode(element):
         serializer = element.attrib["Serializer"]
         if serializer == "Boolean":
-            out = {element.tag: bool(element.text)}
+            return element.text == "True"
         elif serializer == "Double":
-            out = {element.tag: float(element.text)}
+            return float(element.text)
         elif serializer == "String":
-            out = {element.tag: str(element.text)}
+            return str(element.text)
         elif serializer in ["UInt32", "Int32"]:
-            out = {element.tag: int(element.text)}
+            return int(element.text)
+        elif len(element) == 0:
+            return element.text
         else:
-            out = {}
-            for leaf in element:
-                if len(leaf.attrib) > 0:
-                    out.update(name_val_decode(leaf))
-        return out
+            return {leaf.tag: decode(leaf) for leaf in element if len(leaf.attrib) > 0}
 
     root = ET.fromstring(metadata_string)
     # Nested dictionary of ALL metadata organized identical to the original
@@ -460,7 +458,7 @@ def _parse_app5_xml(metadata_string: str, f_name: str = ""):
                 elif serializer in ["UInt32", "Int32"]:
                     branch_dict[leaf[0].text] = int(leaf[1].text)
                 else:
-                    branch_dict[leaf[0].text] = name_val_decode(leaf[1])
+                    branch_dict[leaf[0].text] = decode(leaf[1])
             all_meta[branch.tag] = branch_dict
         else:
             all_meta[branch.tag] = branch.text
-- 
2.43.0


From 0ce0deca821365f40e4fbba8ffe7477572e8eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 156/207] fix: writing EDS spectra without instrument metadata
 to ripple files

---
 rsciio/ripple/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index b651ed6..188e55a 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -600,11 +600,12 @@ def file_writer(filename, signal, encoding="latin-1"):
                 keys_dictionary["convergence-angle"] = mp.convergence_angle
             if "Detector.EELS.collection_angle" in mp:
                 keys_dictionary["collection-angle"] = mp.Detector.EELS.collection_angle
-    if "EDS" in signal_type:
-        if signal_type == "EDS_SEM":
-            mp = md.Acquisition_instrument.SEM
-        elif signal_type == "EDS_TEM":
-            mp = md.Acquisition_instrument.TEM
+    mp = None
+    if signal_type == "EDS_SEM":
+        mp = md.get("Acquisition_instrument.SEM")
+    elif signal_type == "EDS_TEM":
+        mp = md.get("Acquisition_instrument.TEM")
+    if mp is not None:
         if "beam_energy" in mp:
             keys_dictionary["beam-energy"] = mp.beam_energy
         if "Detector.EDS.elevation_angle" in mp:
-- 
2.43.0


From c6fff4580b0abc537e8eb5523a5662ebb8c5a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 157/207] fix: writing units of more than four characters to
 Semper files

---
 rsciio/semper/_api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 375c4e7..a16ef1a 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -327,12 +327,12 @@ class SemperFormat(object):
         label["X0V0"] = pack(self.offsets[0])  # X0
         label["NTITLE"] = len(title)
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
-        xunit = self.units[0] if self.units[0] is not None else ""
-        label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[1] if self.units[1] is not None else ""
-        label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[2] if self.units[2] is not None else ""
-        label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
+        for key, unit in zip(("XUNIT", "YUNIT", "ZUNIT"), self.units):
+            unit = unit if unit is not None else ""
+            if len(unit) > 4:
+                # Up to 4 characters, use the short form of e.g. "1 / nm"
+                unit = unit.replace(" ", "")[:4]
+            label[key][:, : len(unit)] = [ord(c) for c in unit]
         return label
 
     @classmethod
-- 
2.43.0


From 62783eeec748c5fed13ec1d4d8cef4659789d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 158/207] fix: writing negative offsets to TVIPS files

---
 rsciio/tvips/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index eed1cba..5c91c0b 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -48,8 +48,8 @@ TVIPS_RECORDER_GENERAL_HEADER = [
     ("dimx", "u4"),  # image size width
     ("dimy", "u4"),  # image size height
     ("bitsperpixel", "u4"),  # 8 or 16
-    ("offsetx", "u4"),  # generally 0
-    ("offsety", "u4"),
+    ("offsetx", "i4"),  # generally 0
+    ("offsety", "i4"),
     ("binx", "u4"),  # camera binning
     ("biny", "u4"),
     ("pixelsize", "u4"),  # physical pixel size in nm
-- 
2.43.0


From 03cdc90a84861e7b545133e57503726492a4a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 159/207] fix: hspy files of signals with title "."

---
 rsciio/hspy/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 097cd4b..8e25dd0 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -285,6 +285,9 @@ def file_writer(
     # / is a invalid character, see https://github.com/hyperspy/hyperspy/issues/942
     if "/" in group_name:
         group_name = group_name.replace("/", "-")
+    # "." is the group itself
+    if group_name == ".":
+        group_name = "-"
     expg = exps.require_group(group_name)
 
     writer = HyperspyWriter(
-- 
2.43.0


From 46c8e19309f50eaa97d4ea94e45da5d43b14f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 160/207] fix: zspy files of signals with a backslash or only
 dots as title

---
 rsciio/zspy/_api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index 8f050a2..81d1be5 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -291,6 +291,10 @@ def _write(store, signal, close_file, write_dataset, **kwds):
     # / is a invalid character, see https://github.com/hyperspy/hyperspy/issues/942
     if "/" in group_name:
         group_name = group_name.replace("/", "-")
+    # zarr takes "\\" as "/" and refuses relative paths
+    group_name = group_name.replace("\\", "-")
+    if group_name in (".", ".."):
+        group_name = "-"
     expg = exps.require_group(group_name)
 
     writer = ZspyWriter(
-- 
2.43.0


From 836ef10825c0d7c37f6bbeedd4e1852b0772e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 161/207] fix: upper case answers to the overwrite question
 after an invalid one

---
 rsciio/utils/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/path.py b/rsciio/utils/path.py
index 752dc3d..d2e5dce 100644
--- a/rsciio/utils/path.py
+++ b/rsciio/utils/path.py
@@ -131,7 +131,7 @@ def overwrite(filename):
             answer = answer.lower()
             while (answer != "y") and (answer != "n"):
                 print("Please answer y or n.")  # noqa: T201
-                answer = input(message)
+                answer = input(message).lower()
             if answer.lower() == "y":
                 return True
             elif answer.lower() == "n":
-- 
2.43.0


From 98f0fa58fb98cf4d6fe60e69f27313b75c3f0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 162/207] fix: conversion of dask arrays to RGB arrays

---
 rsciio/utils/rgb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsciio/utils/rgb.py b/rsciio/utils/rgb.py
index 197d085..4876f28 100644
--- a/rsciio/utils/rgb.py
+++ b/rsciio/utils/rgb.py
@@ -163,6 +163,13 @@ def regular_array2rgbx(data):
     numpy.ndarray or dask.array.Array
         The transformed RGBx structured array.
     """
+    if is_dask_array(data):
+        # All color channels are needed in each chunk
+        data = data.rechunk({data.ndim - 1: -1})
+        meta = regular_array2rgbx(np.empty(data.shape[-1:], dtype=data.dtype))
+        return data.map_blocks(
+            regular_array2rgbx, dtype=meta.dtype, drop_axis=data.ndim - 1
+        )
     if data.dtype.kind == "u" and not data.dtype.isnative:
         # The rgb dtypes are defined in the native byte order
         data = data.astype(data.dtype.newbyteorder("="))
-- 
2.43.0


From 80c7049209a9c8ccd8e167e486f83e8861df08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 163/207] fix: file handle of lazy TIFF data with recent
 versions of dask

---
 rsciio/utils/_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_tools.py b/rsciio/utils/_tools.py
index dcec676..dc9d7b5 100644
--- a/rsciio/utils/_tools.py
+++ b/rsciio/utils/_tools.py
@@ -116,7 +116,12 @@ def get_file_handle(data, warn=True):
             # this may be brittle and may need maintenance as
             # dask or tifffile evolve
             if Version(dask.__version__) >= Version("2025.4.0"):
-                tiff_pages_series = data.dask[arrkey_tifffile].args[1]
+                # position depends on the version of dask
+                tiff_pages_series = next(
+                    arg
+                    for arg in data.dask[arrkey_tifffile].args
+                    if hasattr(arg, "parent")
+                )
             else:
                 tiff_pages_series = data.dask[arrkey_tifffile][2][0]
             return tiff_pages_series.parent.filehandle._fh
-- 
2.43.0


From 10b63f86baaa91bd7e2b74de472c787eb7bab00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 164/207] fix: XML texts which look like unhashable python
 literals

---
 rsciio/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index a0eff22..117d81a 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -220,9 +220,10 @@ class XmlToDict:
         """
         try:
             return literal_eval(string)
-        except (ValueError, SyntaxError):
+        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
             # SyntaxError due to:
             # literal_eval have problems with strings like this '8842_80'
+            # TypeError due to unhashable items, e.g. '{[1]}'
             return string
 
     def dictionarize(self, et_node, ignore_children=False):
-- 
2.43.0


From a03d4e4073d50703496f1026502caca856415aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 165/207] fix: XML texts interpreted twice

---
 rsciio/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 117d81a..83528bb 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -254,7 +254,8 @@ class XmlToDict:
                     dd_node[key].append(val)
             d_node = {
                 et_node.tag: {
-                    key: self.eval(val[0]) if len(val) == 1 else val
+                    # the values are already interpreted
+                    key: val[0] if len(val) == 1 else val
                     for key, val in dd_node.items()
                 }
             }
-- 
2.43.0


From f61f1365773394a78a2f73b16578964b4d6cacd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 166/207] fix: flattening XML elements without children and
 attributes

---
 rsciio/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 83528bb..565f298 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -288,7 +288,8 @@ class XmlToDict:
                 elif et_node.attrib:
                     d_node[et_node.tag][self.dub_text_str] = self.eval(text)
         for tag in self.tags_to_flatten:
-            if tag in d_node:
+            # there is nothing to flatten without children and attributes
+            if isinstance(d_node.get(tag), dict):
                 return d_node[tag]
         return d_node
 
-- 
2.43.0


From 61b98b519a07b9b4230b249b6e7b400e0a26dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 167/207] fix: decimal commas of XML numbers with positive
 exponent

---
 rsciio/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 565f298..2299439 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -43,7 +43,7 @@ def __dir__():
 # closing <\tag> (the '<' char); '([Ee]-?\d*)' part (optionally a third group)
 # checks for scientific notation (e.g. 8,843E-7 -> 'E-7');
 # compiled pattern is binary, as raw xml string is binary string.:
-_fix_dec_patterns = re.compile(b"(>-?\\d+),(\\d*([Ee]-?\\d*)?<)")
+_fix_dec_patterns = re.compile(b"(>-?\\d+),(\\d*([Ee][+-]?\\d*)?<)")
 
 
 def sanitize_msxml_float(xml_b_string):
-- 
2.43.0


From 1d656ea54be7930aba07dc45349f498d5eb78f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 168/207] fix: conversion of indented XML to dictionaries

---
 rsciio/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 2299439..60e6571 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -308,7 +308,8 @@ def xml2dtb(et, dictree):
         Box object to be populated.
 
     """
-    if et.text:
+    # text of elements with children is mostly indentation
+    if et.text and len(et) == 0:
         dictree.set_item(et.tag, et.text)
         return
     else:
-- 
2.43.0


From fbeecb9a2d416ede2afe0bb98e314bd00da92a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 169/207] fix: damaged or incomplete hypermaps of bcf files
 crashed the compiled parser

---
 rsciio/bruker/unbcf_fast.pyx | 62 ++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index 88df73a..bcdee12 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -76,42 +76,47 @@ cdef class DataStream:
         self.blocks = blocks
         self.raw_bytes = next(self.blocks)  # python bytes buffer
         self.buffer2 = <bytes>self.raw_bytes  # C unsigned char buffer
+        self.size = len(self.raw_bytes)
 
     cdef void seek(self, int value):
-        """move offset to given value.
-        NOTE: it do not check if value is in bounds of buffer!"""
+        """move offset to given value, counted from the beginning of
+        the buffer"""
+        while value > self.size:
+            self.load_next_block()
         self.offset = value
 
     cdef void skip(self, int length):
         """increase offset by given value,
         check if new offset is in bounds of buffer length
         else load up next block"""
-        while (self.offset + length) > self.size:
+        if length < 0:
+            raise ValueError("The data of the hypermap is damaged.")
+        while length > (self.size - self.offset):
             self.load_next_block()
         self.offset = self.offset + length
 
     cdef uint8_t read_8(self):
-        if (self.offset + 1) > self.size:
+        while (self.offset + 1) > self.size:
             self.load_next_block()
         self.offset += 1
         return <uint8_t>self.buffer2[self.offset-1]
 
     cdef uint16_t read_16(self):
-        if (self.offset + 2) > self.size:
+        while (self.offset + 2) > self.size:
             self.load_next_block()
         self.offset += 2
         # endianness agnostic way... probably very slow:
         return read_16(&self.buffer2[self.offset-2])
 
     cdef uint32_t read_32(self):
-        if (self.offset + 4) > self.size:
+        while (self.offset + 4) > self.size:
             self.load_next_block()
         self.offset += 4
         # endianness agnostic way... probably very slow:
         return read_32(&self.buffer2[self.offset-4])
 
     cdef uint64_t read_64(self):
-        if (self.offset + 8) > self.size:
+        while (self.offset + 8) > self.size:
             self.load_next_block()
         self.offset += 8
         return read_64(&self.buffer2[self.offset-8])
@@ -121,7 +126,9 @@ cdef class DataStream:
         making sure the array have the required length
         counting from the offset, increase the internal offset
         by given length"""
-        while (self.offset + length) > self.size:
+        if length < 0:
+            raise ValueError("The data of the hypermap is damaged.")
+        while length > (self.size - self.offset):
             self.load_next_block()
         self.offset += length
         return &self.buffer2[self.offset-length]
@@ -130,9 +137,13 @@ cdef class DataStream:
         """take the reminder of buffer (offset:end) and
         append new block of raw data, and overwrite old buffer
         handle with new, set offset to 0"""
-        self.size = self.size_chnk + self.size - self.offset
+        # the blocks of incomplete files can be short or missing
+        block = next(self.blocks, b'')
+        if len(block) == 0:
+            raise ValueError("The data of the hypermap is incomplete.")
         self.buffer2 = b''
-        self.raw_bytes = self.raw_bytes[self.offset:] + next(self.blocks)
+        self.raw_bytes = self.raw_bytes[self.offset:] + block
+        self.size = len(self.raw_bytes)
         self.offset = 0
         self.buffer2 = <bytes>self.raw_bytes
 
@@ -165,6 +176,16 @@ cdef bin_to_numpy(DataStream data_stream,
             data_size1 = data_stream.read_16()
             n_of_pulses = data_stream.read_16()
             data_size2 = data_stream.read_32()
+            # the memory is not checked any more further down
+            if (
+                line_cnt // downsample >= hypermap.shape[0]
+                or pixel_x // downsample >= hypermap.shape[1]
+                or max_chan > hypermap.shape[2]
+                or (flag == 0 and data_size2 < 2 * <uint32_t>n_of_pulses)
+                # four pulses in three words
+                or (flag == 1 and data_size2 < 6 * (<uint32_t>n_of_pulses // 4) + 2 * (n_of_pulses % 4))
+            ):
+                raise ValueError("The data of the hypermap is damaged.")
             if flag == 0:
                 unpack16bit(hypermap,
                             pixel_x // downsample,
@@ -203,25 +224,27 @@ cdef bin_to_numpy(DataStream data_stream,
 @cython.cdivision(True)
 @cython.boundscheck(False)
 cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
-                            unsigned char * src, uint16_t data_size,
+                            unsigned char * src, uint32_t data_size,
                             int cutoff):
     """
     unpack instructivelly packed delphi array into selection
     of memoryview
     """
-    cdef int offset = 0
+    cdef uint32_t offset = 0
     cdef int channel = 0
     cdef int i, j, length
     cdef int gain = 0
     cdef Bunch_head* head
     cdef uint16_t val16
     cdef uint32_t val32
-    while (offset < data_size):
+    while (offset + 2 <= data_size):
         head =<Bunch_head*>&src[offset]
         offset +=2
         if head.size == 0:  # empty channels (zero counts)
             channel += head.channels
         else:
+            if head.size not in (1, 2, 4, 8) or offset + head.size > data_size:
+                raise ValueError("The data of the hypermap is damaged.")
             if head.size == 1:
                 gain = <int>(src[offset])
             elif head.size == 2:
@@ -231,6 +254,12 @@ cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
             else:
                 gain = <int>read_64(&src[offset])
             offset += head.size
+            if head.size == 1:
+                length = (head.channels + 1) // 2
+            else:
+                length = head.channels * head.size // 2
+            if offset + length > data_size:
+                raise ValueError("The data of the hypermap is damaged.")
             if head.size == 1:  # special nibble switching case
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
@@ -239,27 +268,20 @@ cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
                             dest[y, x, i+channel] += <channel_t>((src[offset +(i//2)] & 15) + gain)
                         else:
                             dest[y, x, i+channel] += <channel_t>((src[offset +(i//2)] >> 4) + gain)
-                if head.channels % 2 == 0:
-                    length = <int>(head.channels // 2)
-                else:
-                    length = <int>((head.channels // 2) +1)
             elif head.size == 2:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
                         dest[y, x, i+channel] += <channel_t>(src[offset + i] + gain)
-                length = <int>(head.channels * head.size // 2)
             elif head.size == 4:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
                         val16 = read_16(&src[offset + i*2])
                         dest[y, x, i+channel] += <channel_t>(val16 + gain)
-                length = <int>(head.channels * head.size // 2)
             else:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
                         val32 = read_32(&src[offset + i*4])
                         dest[y, x, i+channel] += <channel_t>(val32 + gain)
-                length = <int>(head.channels * head.size // 2)
             offset += length
             channel += head.channels
 
-- 
2.43.0


From 32cdcb52e6e179f762272f2449c5cd6d7f512133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 170/207] fix: endless loop reading incomplete ELID files

---
 rsciio/phenom/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/phenom/_api.py b/rsciio/phenom/_api.py
index b017699..03784e0 100644
--- a/rsciio/phenom/_api.py
+++ b/rsciio/phenom/_api.py
@@ -217,9 +217,10 @@ class ElidReader:
     def _read(self, size=1):
         data = self._decompressor.decompress(b"", size)
         while self._decompressor.needs_input:
-            data += self._decompressor.decompress(
-                self._file.read(self._block_size), size - len(data)
-            )
+            block = self._file.read(self._block_size)
+            if not block:
+                raise EOFError("The ELID file is incomplete.")
+            data += self._decompressor.decompress(block, size - len(data))
         return data
 
     def _read_bool(self):
-- 
2.43.0


From 6192883988a1d6f407a0f109b4447143017e5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 171/207] fix: endless loop reading wdf files with blocks of
 size zero

---
 rsciio/renishaw/_api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index a22ee64..7108e6d 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -536,6 +536,12 @@ class WDFReader(object):
                 )
                 break
             else:
+                if block_size < block_header_size:
+                    _logger.warning(
+                        f"{block_name} size ({block_size}) invalid, the blocks "
+                        "behind it can't be found."
+                    )
+                    break
                 _logger.debug(f"{block_name}   {block_uid}   {curpos:<{9}}{block_size}")
                 block_info[block_name.replace(" ", "") + "_" + str(block_uid)] = (
                     curpos + block_header_size,
-- 
2.43.0


From ded00690527fecba4ee41ebb34b4904588be2c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 172/207] fix: files smaller than the data announced in their
 header could take minutes before being refused

---
 rsciio/utils/_distributed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index 613ea7e..8bec5f4 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -16,6 +16,7 @@
 # You should have received a copy of the GNU General Public License
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
+import math
 import os
 
 import dask.array as da
@@ -254,6 +255,13 @@ def memmap_distributed(
     if not isinstance(shape, tuple):
         shape = (shape,)
 
+    # Don't make the graph of an array, which can be huge when the file is
+    # damaged or incomplete, when the memory mapping is going to fail anyway.
+    memmap_shape = shape if positions is None else (len(positions),) + shape[-2:]
+    length = np.dtype(dtype).itemsize * math.prod(int(i) for i in memmap_shape)
+    if offset + length > os.path.getsize(filename):
+        raise ValueError("The file is smaller than the data to be read from it.")
+
     num_dim = len(shape + sub_array_shape)
     if positions is not None:
         # We have arbitrary positions
-- 
2.43.0


From 9698864b4d4287513529912056d777271b0b1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 173/207] fix: incomplete wdf files gave axes which don't match
 the data

---
 rsciio/renishaw/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 7108e6d..a0403b4 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -493,6 +493,8 @@ class WDFReader(object):
                 f"Supported types: {list(TypeNames.keys())}"
             )
         data = np.fromfile(self._file_obj, dtype=TypeNames[type], count=size)
+        if len(data) < size:
+            raise EOFError("The wdf file is incomplete.")
         ## convert unsigned ints to ints
         ## because int + uint = float -> problems with indexing
         if type in ["uint8", "uint16", "uint32", "uint64"] and convert:
-- 
2.43.0


From 01017837ea56f4280a949e4805e754a090ee6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 174/207] fix: pixel width and height of FEI, TVIPS and Olympus
 TIFF files were exchanged

---
 rsciio/tiff/_api.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 12430c6..4c337b6 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -231,13 +231,13 @@ def _order_axes_by_name(names: list, scales: dict, offsets: dict, units: dict):
     units_new = [None] * len(names)
     for i, name in enumerate(names):
         if name == "height":
-            scales_new[i] = scales["x"]
-            offsets_new[i] = offsets["x"]
-            units_new[i] = units["x"]
-        elif name == "width":
             scales_new[i] = scales["y"]
             offsets_new[i] = offsets["y"]
             units_new[i] = units["y"]
+        elif name == "width":
+            scales_new[i] = scales["x"]
+            offsets_new[i] = offsets["x"]
+            units_new[i] = units["x"]
         elif name in ["depth", "image series", "time"]:
             scales_new[i] = scales["z"]
             offsets_new[i] = offsets["z"]
@@ -861,21 +861,21 @@ def _intensity_axis_digital_micrograph(op, intensity_axis=None):
 def _add_axes_digital_micrograph(op, scales, offsets, units):
     if "65003" in op:
         _logger.debug("Reading Gatan DigitalMicrograph tif metadata")
-        units["y"] = op["65003"]  # x units
+        units["x"] = op["65003"]  # x units
     if "65004" in op:
-        units["x"] = op["65004"]  # y units
+        units["y"] = op["65004"]  # y units
     if "65005" in op:
         units["z"] = op["65005"]  # z units
     if "65009" in op:
-        scales["y"] = op["65009"]  # x scales
+        scales["x"] = op["65009"]  # x scales
     if "65010" in op:
-        scales["x"] = op["65010"]  # y scales
+        scales["y"] = op["65010"]  # y scales
     if "65011" in op:
         scales["z"] = op["65011"]  # z scales
     if "65006" in op:
-        offsets["y"] = op["65006"]  # x offset
+        offsets["x"] = op["65006"]  # x offset
     if "65007" in op:
-        offsets["x"] = op["65007"]  # y offset
+        offsets["y"] = op["65007"]  # y offset
     if "65008" in op:
         offsets["z"] = op["65008"]  # z offset
 
@@ -932,8 +932,8 @@ def _parse_scale_unit(
 
 def _get_scales_from_x_y_resolution(op, factor=1.0):
     scales = (
-        op["YResolution"][1] / op["YResolution"][0] * factor,
         op["XResolution"][1] / op["XResolution"][0] * factor,
+        op["YResolution"][1] / op["YResolution"][0] * factor,
     )
     return scales
 
-- 
2.43.0


From 79b661ab45ac5221176b97a474e3de7bea70244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 175/207] fix: metadata of FEI TIFF files with several pages

---
 rsciio/tiff/_api.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 4c337b6..d273505 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -463,11 +463,8 @@ def _axes_fei(tiff, op, shape, names):
 
     scales, offsets, units = _axes_defaults()
 
-    op["fei_metadata"] = tiff.fei_metadata
-    try:
-        del op["FEI_HELIOS"]
-    except KeyError:
-        del op["FEI_SFEG"]
+    # the tags of the page, which can be another one than the first
+    op["fei_metadata"] = {**op.pop("FEI_SFEG", {}), **op.pop("FEI_HELIOS", {})}
     try:
         scales["x"] = float(op["fei_metadata"]["Scan"]["PixelWidth"])
         scales["y"] = float(op["fei_metadata"]["Scan"]["PixelHeight"])
-- 
2.43.0


From 34f47c1a5fda1af56313fde861b8419a98a0fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 176/207] fix: scale of later pages of Zeiss TIFF files with
 images of several sizes

---
 rsciio/tiff/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index d273505..3b785d1 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -511,7 +511,7 @@ def _axes_zeiss(tiff, op, shape, names):
     # in the described tags as 'ap_image_pixel_size' and/or
     # 'ap_pixel_size', which depending from ZEISS software version
     # can be absent and thus is not used here.
-    scale_in_m = op["CZ_SEM"][""][3] * 1024 / tiff.pages[0].shape[1]
+    scale_in_m = op["CZ_SEM"][""][3] * 1024 / op["ImageWidth"]
     scales.update({"x": scale_in_m, "y": scale_in_m})
     units.update({"x": "m", "y": "m"})
 
-- 
2.43.0


From 7cde0f698efa535a62dce00603239ad5e4bdd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 177/207] fix: title of STEM images of JEOL SightX said TEM

---
 rsciio/tiff/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 3b785d1..0a43710 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -600,7 +600,7 @@ def _axes_jeol_sightx(tiff, op, shape, names):
     imaging = op["ImageDescription"]["ImageFormingSystem"]
 
     # TEM/STEM
-    is_STEM = eos == "modeASID"
+    is_STEM = eos == "eosASID"
     mode_strs = []
     mode_strs.append("STEM" if is_STEM else "TEM")
     mode_strs.append(illumi["ImageField"][4:])  # Bright Fields?
-- 
2.43.0


From 3a85b90c1d4a4c5c938d622f41b1b4c33b4b732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 178/207] fix: height of the stage of JEOL SightX images was
 not read

---
 rsciio/tiff/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 0a43710..52c10d1 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -1192,7 +1192,7 @@ def get_jeol_sightx_mapping(op):
         #    ("Acquisition_instrument.TEM.Stage.x", lambda x: float(x)*1E-6), # mm
         #    'ImageDescription.GonioStage.StagePosition.MY':
         #    ("Acquisition_instrument.TEM.Stage.y", lambda x: float(x)*1E-6), # mm
-        "ImageDescription.GonioStage.MZ": (
+        "ImageDescription.GonioStage.StagePosition.MZ": (
             "Acquisition_instrument.TEM.Stage.z",
             lambda x: float(x) * 1e-6,
         ),  # mm
-- 
2.43.0


From 39557370304d9bdb54ccec53693cdf341e5ec1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 179/207] fix: axes of Hamamatsu streak images didn't say that
 they are signal axes

---
 rsciio/tiff/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 52c10d1..59a2d73 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -768,11 +768,16 @@ def _axes_hamamatsu_streak(tiff, op, shape, names, hamamatsu_streak_axis_type):
         "units": desc["Scaling"]["ScalingXUnit"],
         "scale": xsc,
         "offset": xof,
+        "navigate": False,
     }
 
     # The height axis is changing
     i = names.index("height")
-    axes[i] = {"name": "height", "units": desc["Scaling"]["ScalingYUnit"]}
+    axes[i] = {
+        "name": "height",
+        "units": desc["Scaling"]["ScalingYUnit"],
+        "navigate": False,
+    }
     if hamamatsu_streak_axis_type == "uniform":
         # Uniform axis initialisation
         [ysc, yof] = np.polyfit(np.arange(len(yax)), yax, 1)
-- 
2.43.0


From 701d036cb42cdb8dff4a3ad50597baca0511b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 180/207] fix: Phenom projects with an image entry without
 picture couldn't be read

---
 rsciio/phenom/_api.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsciio/phenom/_api.py b/rsciio/phenom/_api.py
index 03784e0..806aa70 100644
--- a/rsciio/phenom/_api.py
+++ b/rsciio/phenom/_api.py
@@ -935,12 +935,15 @@ class ElidReader:
         return [self._read_Analysis(label, metadata) for _ in range(n)]
 
     def _read_Image(self):
-        tiff = self._read_tiff()
+        metadata, data = self._read_tiff()
         label = self._read_string()
         dictionaries = []
-        if tiff:
-            dictionaries.append(self._make_image_dict(tiff[0], tiff[1], label))
-        dictionaries.extend(self._read_Analyses(label, tiff[0]))
+        if data is None:
+            # no image was stored
+            metadata = {}
+        else:
+            dictionaries.append(self._make_image_dict(metadata, data, label))
+        dictionaries.extend(self._read_Analyses(label, metadata))
         return dictionaries
 
     def _read_Images(self):
-- 
2.43.0


From 839037517e1d8376ff4b261a0e2444e82fb09db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 181/207] fix: pixel size in the metadata of Tofwerk files with
 a non-square raster

---
 rsciio/tofwerk/_api.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index fc81f04..cd4787b 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -208,6 +208,15 @@ def _parse_creation_time(file: h5py.File) -> tuple[str, str, str]:
     return date_str, time_str, tz_str
 
 
+def _get_nx(file: h5py.File) -> int:
+    """Return the number of columns of the SIMS raster."""
+    if _has_peak_data(file):
+        return file["PeakData/PeakData"].shape[2]
+    elif "FullSpectra/EventList" in file:
+        return file["FullSpectra/EventList"].shape[2]
+    return int(np.asarray(file.attrs.get("NbrSegments", 1)).flat[0])
+
+
 def _parse_pixel_size(file: h5py.File, nx: int) -> float | None:
     """
     Return pixel size in µm.
@@ -394,8 +403,7 @@ def _build_metadata(
     fib_meta = {}
     try:
         fibparams_attrs = file["FIBParams"].attrs
-        nx = int(np.asarray(root_attrs.get("NbrSegments", 1)).flat[0])
-        pixel_size_um = _parse_pixel_size(file, nx)
+        pixel_size_um = _parse_pixel_size(file, _get_nx(file))
 
         fib_meta["FIB"] = {
             "hardware": _decode(fibparams_attrs.get("FibHardware", b"")),
@@ -929,12 +937,7 @@ def file_reader(
     nwrites = int(np.asarray(f.attrs.get("NbrWrites", 1)).flat[0])
     nsegs = int(np.asarray(f.attrs.get("NbrSegments", 1)).flat[0])
     has_event_list = "FullSpectra/EventList" in f
-    if has_peak_data:
-        nx = f["PeakData/PeakData"].shape[2]
-    elif has_event_list:
-        nx = f["FullSpectra/EventList"].shape[2]
-    else:
-        nx = nsegs
+    nx = _get_nx(f)
     pixel_size_um = _parse_pixel_size(f, nx)
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 31728dfef80540b454ec9665f8470e924bda30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 182/207] fix: events in overlapping integration windows of
 Tofwerk files were counted once

---
 rsciio/tofwerk/_reconstruction.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/rsciio/tofwerk/_reconstruction.py b/rsciio/tofwerk/_reconstruction.py
index 5714982..30122ac 100644
--- a/rsciio/tofwerk/_reconstruction.py
+++ b/rsciio/tofwerk/_reconstruction.py
@@ -159,6 +159,7 @@ def _accumulate_peak_counts(
     sorted_high: np.ndarray,
     npeaks: int,
     result_sx: np.ndarray,
+    max_high: np.ndarray,
 ) -> None:  # pragma: no cover
     """
     Accumulate per-pixel peak counts for one row into *result_sx*.
@@ -183,6 +184,8 @@ def _accumulate_peak_counts(
         Number of peaks.
     result_sx : float32 array, shape (nx, npeaks)
         Output accumulator, pre-zeroed by caller.  Indexed by sorted peak order.
+    max_high : float64 array, shape (npeaks,)
+        Cumulative maximum of *sorted_high*, to find overlapping windows.
     """
     for x in range(nx):
         start = offsets[x]
@@ -195,6 +198,15 @@ def _accumulate_peak_counts(
             bin_idx = np.searchsorted(sorted_low, mass, side="right") - 1
             if bin_idx >= 0 and mass <= sorted_high[bin_idx]:
                 result_sx[x, bin_idx] += 1
+            # The windows of previous peaks can overlap with this one; a limit
+            # shared by two consecutive windows belongs to the last one only
+            at_low = bin_idx >= 0 and mass == sorted_low[bin_idx]
+            bin_idx -= 1
+            while bin_idx >= 0 and mass <= max_high[bin_idx]:
+                high = sorted_high[bin_idx]
+                if mass < high or (mass == high and not at_low):
+                    result_sx[x, bin_idx] += 1
+                bin_idx -= 1
 
 
 def compute_peak_data_from_eventlist(
@@ -273,6 +285,7 @@ def compute_peak_data_from_eventlist(
     sort_idx = np.argsort(peak_low)
     sorted_low = peak_low[sort_idx]
     sorted_high = peak_high[sort_idx]
+    max_high = np.maximum.accumulate(sorted_high)
     # Inverse permutation: maps sorted-peak index back to original peak order.
     # Used to avoid numpy's advanced-indexing-on-LHS shape quirk where
     # result[w, s, :, sort_idx] = arr yields shape (npeaks, nx) not (nx, npeaks).
@@ -328,6 +341,7 @@ def compute_peak_data_from_eventlist(
                     sorted_high,
                     npeaks,
                     result_sx,
+                    max_high,
                 )
                 result[w, s] = result_sx[:, inv_sort_idx]
             if pbar is not None:
@@ -363,6 +377,19 @@ def compute_peak_data_from_eventlist(
                         & (event_masses <= sorted_high[bin_idx])
                     )
                     counts = np.bincount(bin_idx[in_peak], minlength=npeaks)
+                    # The windows of previous peaks can overlap with this one; a limit
+                    # shared by two consecutive windows belongs to the last one only
+                    at_low = event_masses == sorted_low[bin_idx]
+                    overlap = bin_idx > 0
+                    while overlap.any():
+                        bin_idx = bin_idx[overlap] - 1
+                        event_masses = event_masses[overlap]
+                        at_low = at_low[overlap]
+                        high = sorted_high[bin_idx]
+                        in_peak = event_masses < high
+                        in_peak |= (event_masses == high) & ~at_low
+                        counts += np.bincount(bin_idx[in_peak], minlength=npeaks)
+                        overlap = (bin_idx > 0) & (event_masses <= max_high[bin_idx])
                     result[w, s, x, sort_idx] = counts
             if pbar is not None:
                 pbar.update(1)
-- 
2.43.0


From 030e04c00e9960342738907472ede999d78fb7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 183/207] fix: FIB images after the last depth slice of Tofwerk
 files were dropped

---
 rsciio/tofwerk/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index cd4787b..7dc5a96 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -1403,7 +1403,10 @@ def file_reader(
         dominant_shape = max(shape_counts, key=lambda s: (shape_counts[s], s))
         slice_names = [
             n for n in all_names if fib_grp[n]["Data"].shape == dominant_shape
-        ][depth_start:depth_stop]
+        ]
+        if depth_range is not None:
+            # the number of images can be different from the number of writes
+            slice_names = slice_names[depth_start:depth_stop]
         skipped = [
             (n, fib_grp[n]["Data"].shape)
             for n in all_names
-- 
2.43.0


From b8962c504b400fe8c96f783362b14cef07757a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:46 +0000
Subject: [PATCH 184/207] fix: Tofwerk files couldn't be read with a
 depth_range beyond the FIB images

---
 rsciio/tofwerk/_api.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index 7dc5a96..fd94ff3 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -1404,6 +1404,7 @@ def file_reader(
         slice_names = [
             n for n in all_names if fib_grp[n]["Data"].shape == dominant_shape
         ]
+        n_images = len(slice_names)
         if depth_range is not None:
             # the number of images can be different from the number of writes
             slice_names = slice_names[depth_start:depth_stop]
@@ -1418,6 +1419,14 @@ def file_reader(
                 f"FIBImages: {len(skipped)} image(s) skipped — shape differs from "
                 f"dominant {dominant_shape}: {details}"
             )
+        if not slice_names:
+            _logger.warning(
+                f"depth_range={depth_range!r} excludes all {n_images} FIB images; "
+                "skipping fib_images signal."
+            )
+            produce_fib = False
+
+    if produce_fib:
         n_fib = len(slice_names)
         fib_ny, fib_nx = dominant_shape
         fib_pixel_size_um = _parse_pixel_size(f, fib_nx)
-- 
2.43.0


From 4b8d8f132925f3c6fd0df1601a17a1e69c13d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 185/207] fix: greyscale images with an alpha channel couldn't
 be read

---
 rsciio/image/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index b557c18..9b38a88 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -274,7 +274,10 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        # (the alpha channel of these images is discarded)
+        if dc.shape[-1] == 2 or (
+            (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all()
+        ):
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From 2045d61b22f38fe10eb0b0bbbd4cb840e53d55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 186/207] fix: images with several frames couldn't be read

---
 rsciio/image/_api.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 9b38a88..0140d5c 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -248,7 +248,24 @@ def file_reader(filename, lazy=False, **kwds):
 
     im = Image.open(filename)
     om["exif_tags"] = _parse_exif_tags(im)
-    axes = _parse_axes_from_metadata(om["exif_tags"], dc.shape)
+    axes = _parse_axes_from_metadata(om["exif_tags"], dc.shape[-2:])
+    if dc.ndim == 3:
+        # several frames
+        for axis in axes:
+            axis["index_in_array"] += 1
+            axis["navigate"] = False
+        axes.insert(
+            0,
+            {
+                "name": "",
+                "units": None,
+                "size": dc.shape[0],
+                "scale": 1.0,
+                "offset": 0.0,
+                "index_in_array": 0,
+                "navigate": True,
+            },
+        )
 
     return [
         {
@@ -268,17 +285,22 @@ file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 def _read_data(filename, **kwds):
     dc = iio.imread(filename)
-    if dc.ndim > 2 and dc.shape[0] == 1 and iio.improps(filename).is_batch:
-        # Single frame of formats supporting several frames, e.g. gif
+    # Formats supporting several frames, e.g. gif
+    is_stack = dc.ndim > 3 or (
+        dc.ndim == 3
+        and (dc.shape[-1] not in (2, 3, 4) or iio.improps(filename).is_batch)
+    )
+    if is_stack and dc.shape[0] == 1:
         dc = dc[0]
-    if len(dc.shape) > 2:
+        is_stack = False
+    if dc.ndim > (3 if is_stack else 2):
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
         # (the alpha channel of these images is discarded)
         if dc.shape[-1] == 2 or (
-            (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all()
+            (dc[..., 0] == dc[..., 1]).all() and (dc[..., 1] == dc[..., 2]).all()
         ):
-            dc = dc[:, :, 0]
+            dc = dc[..., 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
             from rsciio.utils import rgb
-- 
2.43.0


From ee0c428ffd88b4ef48a0fb224f9ed27017d34189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:39 +0000
Subject: [PATCH 187/207] fix: Delmic acquisitions with values without state
 were skipped

---
 rsciio/delmic/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index c0da4b7..ef65b63 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -106,10 +106,10 @@ def _h5svi_get_state(dataset: h5py.Dataset, default=None):
     """
     try:
         state = dataset.attrs["State"]
-    except IndexError:
+    except KeyError:
         return default
 
-    return state.tolist()
+    return np.atleast_1d(state).tolist()
 
 
 def read_image_title(acq: h5py.Group) -> str:
-- 
2.43.0


From 78404fe351237bc76d06828cac03db2b8b901ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:39 +0000
Subject: [PATCH 188/207] fix: Delmic AR data without concurrent SEM data
 couldn't be read

---
 rsciio/delmic/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index ef65b63..b1ff344 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -688,7 +688,9 @@ def file_reader(
                 _logger.warning(
                     "AR data present but no SEM concurrent data found to reconstruct it"
                 )
-                acq_data.extend(ar_data)  # Still pass it on, as-is
+                # Still pass it on, as-is
+                for ar_polarized in ar_data.values():
+                    acq_data.extend(ar_polarized)
             else:
                 for pol, ar_polarized in ar_data.items():
                     try:
-- 
2.43.0


From 03eb9ecf997c956b2f18d66993fbe4ee57f1602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:39 +0000
Subject: [PATCH 189/207] fix: axes of Delmic data without scale had no size

---
 rsciio/delmic/_api.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index b1ff344..2c99119 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -204,7 +204,9 @@ def make_axes(acq: h5py.Group) -> List[Dict[str, Any]]:
             axis_name, scale_key, offset_key = AXIS_INFO[dim.label]
         except KeyError as ex:  # pragma: no cover
             _logger.warning("Data %s has unknown axis %s", acq.name, ex)
-            axis_dict["name"] = dim.label
+            axis_dict.update(
+                {"name": dim.label, "size": image.shape[i], "navigate": False}
+            )
             continue
 
         axis_dict["name"] = axis_name
@@ -216,6 +218,9 @@ def make_axes(acq: h5py.Group) -> List[Dict[str, Any]]:
                     axis_name,
                     image.shape[i],
                 )
+            axis_dict.update(
+                {"size": image.shape[i], "navigate": offset_key is not None}
+            )
             continue
 
         try:
@@ -285,6 +290,9 @@ def make_axes(acq: h5py.Group) -> List[Dict[str, Any]]:
                 )
         except Exception as ex:  # pragma: no cover
             _logger.warning("Failed to parse axis %s: %s", axis_name, ex)
+            axis_dict.update(
+                {"size": image.shape[i], "navigate": offset_key is not None}
+            )
 
     return axes
 
-- 
2.43.0


From f602db91f95a0d1284ec63a18cd17b6d5ccacd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:02 +0000
Subject: [PATCH 190/207] fix: Delmic acquisitions without title, description
 or date were skipped

---
 rsciio/delmic/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index 2c99119..4756aa6 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -123,7 +123,7 @@ def read_image_title(acq: h5py.Group) -> str:
     try:
         title = acq["PhysicalData"]["Title"]
         title_str = title[()].decode("utf-8")
-    except (AttributeError, TypeError, UnicodeDecodeError) as ex:  # pragma: no cover
+    except (AttributeError, KeyError, TypeError, UnicodeDecodeError) as ex:  # pragma: no cover
         title_str = "__unnamed__"
         _logger.warning("Failed to read acquisition title: %s", ex)
 
@@ -395,9 +395,10 @@ def make_original_metadata(acq: h5py.Group) -> Dict[str, Any]:
             _logger.warning("Failed to parse original metadata %s: %s", name, ex)
 
     # Add metadata from the ImageData
-    t_offset = acq["ImageData"]["TOffset"]
-    acq_date = float(t_offset[()])  # unix timestamp
-    original_metadata["AcquisitionDate"] = acq_date
+    if "TOffset" in acq["ImageData"]:
+        t_offset = acq["ImageData"]["TOffset"]
+        acq_date = float(t_offset[()])  # unix timestamp
+        original_metadata["AcquisitionDate"] = acq_date
 
     # Add HDF5 Group name, typically "/Acquisition.."
     original_metadata["HDF5Group"] = acq.name
@@ -417,7 +418,7 @@ def make_original_metadata(acq: h5py.Group) -> Dict[str, Any]:
 
 def guess_signal_type(data, axes, original_metadata) -> AcquisitionType:
     # Primarily distinguish based on the dimensions, and use metadata and title as extra clue
-    title = original_metadata["ChannelDescription"]
+    title = original_metadata.get("ChannelDescription")
 
     if title == TITLE_DRIFT:  # Quick short-cut for drift correction (SEM over time)
         return AcquisitionType.Anchor
-- 
2.43.0


From 30d452fd5e4955baf4f5bd3d1c1fc4e1fa6c9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 191/207] fix: Delmic data with several axes of the same
 unknown name couldn't be read

---
 rsciio/delmic/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index 4756aa6..3b350f1 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -600,10 +600,9 @@ def reorder_dimensions(acq_data: Dict[str, Any]) -> None:
             return len(HS_AXES_ORDER) + 1
 
     orig_names = [a["name"] for a in axes]
-    sorted_names = sorted(orig_names, key=index_in_axes)
-    if sorted_names != orig_names:
-        # Build the new order of axes
-        order = [orig_names.index(name) for name in sorted_names]
+    # Build the new order of axes
+    order = sorted(range(len(axes)), key=lambda i: index_in_axes(orig_names[i]))
+    if order != list(range(len(axes))):
         # Move axes to the new order
         data = np.moveaxis(data, order, range(len(order)))
         acq_data["data"] = data
-- 
2.43.0


From 7f1d113d1a228d7f3f661ee2d187bf7bc607611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 192/207] fix: serial dates before the origin were converted
 one day late

---
 rsciio/utils/_date_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index b2aa1fb..6c7150c 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -18,6 +18,7 @@
 
 import datetime
 import logging
+import math
 
 import numpy as np
 from dateutil import parser, tz
@@ -64,7 +65,8 @@ def serial_date_to_datetime(serial):
     # Excel date&time format
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     secs = (serial % 1.0) * 86400
-    delta = datetime.timedelta(int(serial), secs)
+    # the fraction of the day is always positive, also before the origin
+    delta = datetime.timedelta(math.floor(serial), secs)
     return origin + delta
 
 
-- 
2.43.0


From 240212266e92128ece41195772719cf14ad6e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 193/207] fix: fractions of seconds were dropped from serial
 dates

---
 rsciio/utils/_date_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index 6c7150c..09c52d2 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -57,7 +57,7 @@ def datetime_to_serial_date(dt):
         dt = dt.replace(tzinfo=tz.tzutc())
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     delta = dt - origin
-    return float(delta.days) + (float(delta.seconds) / 86400.0)
+    return float(delta.days) + (delta.seconds + delta.microseconds / 1e6) / 86400.0
 
 
 def serial_date_to_datetime(serial):
-- 
2.43.0


From 8e02de5f52b516e5e51419ac0fda143f5108b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 194/207] fix: date without time couldn't be given as
 datetime64

---
 rsciio/utils/_date_time.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index 09c52d2..ec73d76 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -112,7 +112,12 @@ def get_date_time_from_metadata(metadata, formatting="ISO"):
         res = dt
     # numpy.datetime64 doesn't support time zone
     elif formatting == "datetime64":
-        res = np.datetime64(f"{date}T{time}")
+        if date and time:
+            res = np.datetime64(f"{date}T{time}")
+        elif date:
+            res = np.datetime64(date)
+        else:
+            raise ValueError("A time without date can't be given as `datetime64`.")
 
     return res
 
-- 
2.43.0


From 24ec0e3e45b432b3ff14e9bd3d9afc9f5f89cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 195/207] fix: Microsoft file times lost precision

---
 rsciio/utils/_date_time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index ec73d76..e37a3c3 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -127,12 +127,13 @@ def msfiletime_to_unix(msfiletime):
     built-in datetime
     Parameters
     ----------
-    msfiletime: 64-bit integer representing number of 10 microsecond ticks
+    msfiletime: 64-bit integer representing number of 0.1 microsecond ticks
     from 1601
 
     Returns
     -------
         datetime.datetime object"""
     return datetime.datetime(1601, 1, 1) + datetime.timedelta(
-        microseconds=msfiletime / 10
+        # whole microseconds, larger than the integers a float can represent
+        microseconds=int(msfiletime) // 10
     )
-- 
2.43.0


From 782bfacf8d6d4a1feebe3ad415cef6f5f1dbc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 196/207] fix: serial dates were converted with the present
 offset of the local time zone

---
 rsciio/utils/_date_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index e37a3c3..947811c 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -32,7 +32,8 @@ def serial_date_to_ISO_format(serial):
     format. By default, the serial date is converted in local time zone.
     """
     dt_utc = serial_date_to_datetime(serial)
-    dt_local = dt_utc.astimezone(tz.tzlocal())
+    # `tz.tzlocal` doesn't know the former offsets of the time zone
+    dt_local = dt_utc.astimezone()
     return dt_local.date().isoformat(), dt_local.time().isoformat(), dt_local.tzname()
 
 
-- 
2.43.0


From 94ea432ea0650dd5d4d287221ce68ff6f92636e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:46 +0000
Subject: [PATCH 197/207] fix: ripple: write lazy signals

---
 rsciio/ripple/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 188e55a..f279ecd 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -656,7 +656,8 @@ def write_raw(filename, signal, record_by, sig_axes, nav_axes):
          'vector' or 'image'
     """
     filename = os.path.splitext(filename)[0] + ".raw"
-    data = signal["data"]
+    # The data may be lazy
+    data = np.asarray(signal["data"])
     dshape = data.shape
     if len(dshape) == 3:
         if record_by == "vector":
-- 
2.43.0


From 19a39e9c1cc48f25d3b7805084eadba71b0148e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:46 +0000
Subject: [PATCH 198/207] fix: semper: write lazy signals

---
 rsciio/semper/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index a16ef1a..67322b1 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -522,7 +522,8 @@ class SemperFormat(object):
         None
 
         """
-        data = signal["data"]
+        # The data may be lazy
+        data = np.asarray(signal["data"])
         smetadata = DTBox(signal["metadata"], box_dots=True)
         assert len(data.shape) <= 3, "Only up to 3-dimensional datasets can be handled!"
         scales, offsets, units = [1.0] * 3, [0.0] * 3, [None] * 3  # Defaults!
-- 
2.43.0


From 88ec440ca7e9ce03fc31b3707043282228a76206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:56 +0000
Subject: [PATCH 199/207] fix: digitalsurf: write lazy signals

---
 rsciio/digitalsurf/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 61fecfc..e4cb301 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2420,7 +2420,8 @@ def file_writer(
         Maximum size is 128 B and and content will be cropped if this size is exceeded.
     """
     ds = DigitalSurfHandler(filename=filename)
-    ds.signal_dict = signal
+    # The data may be lazy
+    ds.signal_dict = dict(signal, data=np.asarray(signal["data"]))
 
     ds._build_sur_file_contents(
         set_comments,
-- 
2.43.0


From aab4b3524d42f8fcbdbf3dd1cf2e3b55de51a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 200/207] fix: emd: axes of series with a dimension of size one

---
 rsciio/emd/_emd_ncem.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 9f78657..ef37a84 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -241,7 +241,6 @@ class EMD_NCEM:
             raise IOError("Dataset can't be found.")
 
         if len(dataset_list) > 1:
-            # Squeeze the data only when
             if self.lazy:
                 import dask.array as da
 
@@ -251,12 +250,11 @@ class EMD_NCEM:
                 if transpose_required:
                     data_list = [da.transpose(d) for d in data_list]
                 data = da.stack(data_list)
-                data = da.squeeze(data)
             else:
                 data_list = [self._read_dataset(d)[0] for d in dataset_list]
                 if transpose_required:
                     data_list = [np.transpose(d) for d in data_list]
-                data = np.stack(data_list).squeeze()
+                data = np.stack(data_list)
         else:
             d = dataset_list[0]
             if self.lazy:
@@ -323,6 +321,15 @@ class EMD_NCEM:
         if transpose_required:
             dim_indices = dim_indices[::-1]
 
+        if len(dataset_list) > 1:
+            # Squeeze the data and keep the corresponding axes only
+            dim_indices = [
+                d for a, d in zip(array_indices, dim_indices) if shape[a] > 1
+            ]
+            data = data.squeeze()
+            shape = data.shape
+            array_indices = np.arange(1, len(shape))
+
         for arr_index, dim_index in zip(array_indices, dim_indices):
             dim = self.file.get(f"{group_path[0]}/dim{dim_index}")
             offset, scale = self._parse_axis(dim)
-- 
2.43.0


From 6690161be23a7a57a043ccfd6097f09ba63948e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 201/207] fix: digitalmicrograph: name of the energy axis of
 EDS spectra

---
 rsciio/digitalmicrograph/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7fcb4ef..999403a 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -517,7 +517,7 @@ class ImageObject(object):
         if self.signal_type == "EELS":
             if "eV" in self.units:
                 names[indices.pop(self.units.index("eV"))] = "Energy loss"
-        elif self.signal_type in ("EDS", "EDX"):
+        elif self.signal_type == "EDS_TEM":
             if "keV" in self.units:
                 names[indices.pop(self.units.index("keV"))] = "Energy"
         elif self.signal_type == "CL":
-- 
2.43.0


From 4f494929d15268fad46b6974595386cb4bf5dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:51 +0000
Subject: [PATCH 202/207] fix: nexus: titles made of two underscores

---
 rsciio/nexus/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index ca89a5b..4f7a5e7 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1234,13 +1234,13 @@ def file_writer(
             nxentry = f.create_group(f"entry{i + 1}")
             nxentry.attrs["NX_class"] = _parse_to_file("NXentry")
 
-            signal_name = md.get("General.title")
-            if not signal_name:
-                signal_name = f"unnamed__{i}"
+            signal_name = md.get("General.title") or ""
             if "/" in signal_name:
                 signal_name = signal_name.replace("/", "_")
             if signal_name.startswith("__"):
                 signal_name = signal_name[2:]
+            if not signal_name:
+                signal_name = f"unnamed__{i}"
 
             if i == 0 and use_default:
                 nxentry.attrs["default"] = signal_name
-- 
2.43.0


From 33a506cba77a72bf2b1a3b783542cb49ccd5605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 203/207] fix: hspy: place of the EELS metadata of files of
 versions before 1.2

---
 rsciio/_hierarchical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 4320e4e..89194aa 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -485,7 +485,7 @@ class HierarchicalReader:
                         del tem["exposure_units"]
                     if "Detector" not in tem:
                         tem["Detector"] = {}
-                    tem["Detector"] = tem["EELS"]
+                    tem["Detector"]["EELS"] = tem["EELS"]
                     del tem["EELS"]
                 if "EDS" in tem:
                     if "Detector" not in tem:
-- 
2.43.0


From fb7135f373aebbb2601541b77f74fbb7124ab406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:19 +0000
Subject: [PATCH 204/207] fix: hspy: read contiguous datasets lazily

---
 rsciio/_hierarchical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 89194aa..caac0e0 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -365,7 +365,8 @@ class HierarchicalReader:
             if not is_dask_array(data):
                 import dask.array as da
 
-                data = da.from_array(data, chunks=data.chunks)
+                # contiguous HDF5 datasets have no chunks
+                data = da.from_array(data, chunks=data.chunks or "auto")
             exp["attributes"]["_lazy"] = True
         else:
             if is_dask_array(data):
@@ -638,7 +639,9 @@ class HierarchicalReader:
 
                         # ragged arrays are already dask arrays
                         if not isinstance(data_, da.Array):
-                            data_ = da.from_array(data_, chunks=data_.chunks)
+                            data_ = da.from_array(
+                                data_, chunks=data_.chunks or "auto"
+                            )
                     else:
                         data_ = np.array(data_)
                     dictionary[kn] = data_
-- 
2.43.0


From 15523b5fa47f5e44f081db68055a87cd75daefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:49 +0000
Subject: [PATCH 205/207] fix: hspy: title of unnamed signals of files of
 versions before 1.2

---
 rsciio/_hierarchical.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index caac0e0..9118457 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -411,13 +411,6 @@ class HierarchicalReader:
                 group["peak_learning_results"], lazy=lazy
             )
 
-        # If the title was not defined on writing the Experiment is
-        # then called __unnamed__. The next "if" simply sets the title
-        # back to the empty string
-        if "General" in exp["metadata"] and "title" in exp["metadata"]["General"]:
-            if "__unnamed__" == exp["metadata"]["General"]["title"]:
-                exp["metadata"]["General"]["title"] = ""
-
         if self.version < Version("1.1"):
             # Load the decomposition results written with the old name,
             # mva_results
@@ -535,6 +528,13 @@ class HierarchicalReader:
                     exp["metadata"]["Signal"][key] = exp["metadata"][key]
                     del exp["metadata"][key]
 
+        # If the title was not defined on writing the Experiment is
+        # then called __unnamed__. The next "if" simply sets the title
+        # back to the empty string
+        if "General" in exp["metadata"] and "title" in exp["metadata"]["General"]:
+            if "__unnamed__" == exp["metadata"]["General"]["title"]:
+                exp["metadata"]["General"]["title"] = ""
+
         if self.version < Version("3.0"):
             if "Acquisition_instrument" in exp["metadata"]:
                 # Move tilt_stage to Stage.tilt_alpha
-- 
2.43.0


From d79091fe7df64a4c9cbdc343b39bca4bc6b771ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:50 +0000
Subject: [PATCH 206/207] fix: pantarhei: metadata of dimensions of files with
 several trivial dimensions or incomplete lists

---
 rsciio/pantarhei/_api.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index fc74572..585c954 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -295,22 +295,15 @@ def import_pr(data, meta_data, filename=None):
     ]:
         if key in meta_data:
             assert isinstance(meta_data[key], (list, tuple))
-            if isinstance(meta_data[key], list):
-                old_meta_data = meta_data[key].copy()
-            else:
-                old_meta_data = meta_data[key]
-            if len(old_meta_data) == data.ndim + 1:
-                item_in_numpy_order = old_meta_data[-2::-1]
-            else:
-                item_in_numpy_order = old_meta_data[::-1]
-            meta_data[key] = []
-            for i in range(data.ndim):
-                try:
-                    meta_data[key].append(item_in_numpy_order[new_order[i]])
-                except Exception as e:  # pragma: no cover
-                    raise Exception(
-                        f"Could not load meta data: {key} in hyperspy file: {e}."
-                    )
+            # entries of the last dimensions may be missing
+            items = list(content_type if key == "content.types" else meta_data[key])
+            items += [None] * (data_dimensions - len(items))
+            item_in_numpy_order = [
+                item
+                for i, item in enumerate(items[data_dimensions - 1 :: -1])
+                if i not in trivial_indices
+            ]
+            meta_data[key] = [item_in_numpy_order[i] for i in new_order]
     axes = []
     for i, (label, calib) in enumerate(zip(data_labels, calibration_ordered)):
         ax = {
-- 
2.43.0


From dd5fa0291d6df7c9c2242a39a25f4870223b3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:22 +0000
Subject: [PATCH 207/207] fix: tiff: RGB images with their colours in separate
 planes

---
 rsciio/tiff/_api.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 59a2d73..7532557 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -298,11 +298,15 @@ def _read_tiff(
     is_rgb = page.photometric == tifffile.PHOTOMETRIC.RGB and RGB_as_structured_array
     _logger.debug("Is RGB: %s" % is_rgb)
     if is_rgb:
-        axes = axes[:-1]
+        # the last dimension, or not for colours stored in separate planes
+        rgb_axis = axes.rindex("S") if "S" in axes else len(axes) - 1
+        axes = axes[:rgb_axis] + axes[rgb_axis + 1 :]
         names = ["R", "G", "B", "A"]
-        lastshape = shape[-1]
+        lastshape = shape[rgb_axis]
         dtype = np.dtype({"names": names[:lastshape], "formats": [dtype] * lastshape})
-        shape = shape[:-1]
+        shape = shape[:rgb_axis] + shape[rgb_axis + 1 :]
+    else:
+        rgb_axis = None
 
     op = {tag.name: tag.value for tag in page.tags}
 
@@ -374,7 +378,7 @@ def _read_tiff(
         }
         md["Signal"]["Noise_properties"] = {"Variance_linear_model": dic}
 
-    data_args = handle, is_rgb
+    data_args = handle, rgb_axis
     if lazy:
         from dask import delayed
         from dask.array import from_delayed
@@ -406,13 +410,13 @@ def _read_tiff(
     }
 
 
-def _load_data(handle, is_rgb, memmap=None, **kwds):
+def _load_data(handle, rgb_axis, memmap=None, **kwds):
     dc = handle.asarray(out=memmap)
     _logger.debug("data shape: {0}".format(dc.shape))
-    if is_rgb:
+    if rgb_axis is not None:
         from rsciio.utils import rgb
 
-        dc = rgb.regular_array2rgbx(dc)
+        dc = rgb.regular_array2rgbx(np.moveaxis(dc, rgb_axis, -1))
 
     return dc
 
-- 
2.43.0

