From 971137bd603c16f2590c87b09d1748536ce329e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 01/38] fix: File remembers whether it was opened writable

self._writable was always True, so modifying a read-only File raised an
h5py ValueError/KeyError rather than the documented OSError.
---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..3ac4398 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1663,7 +1663,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From 94ff8dd10bc45edfea42cd59494ade4de7020f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 02/38] fix: oned_as='column' makes 1D arrays into column
 vectors

The transposed array was assigned to an unused variable.
---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..1635c11 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -794,7 +794,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
             if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
+                new_data3 = new_data3.T
             data_to_store = new_data3
 
         # Reverse the dimension order if that option is set.
-- 
2.43.0


From 1125a70c275f7c7b8605ed2d2c3bac0485574112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 03/38] fix: iterating a File skips the references Group and is
 synchronized

dropwhile only dropped the references Group when it was the first name, and
the returned iterator used the HDF5 file after the lock was released.
---
 src/hdf5storage/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ac4398..676154b 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -42,7 +42,6 @@ import copy
 import datetime
 import importlib
 import inspect
-import itertools
 import os
 import pkgutil
 import posixpath
@@ -2126,11 +2125,11 @@ class File(collections.abc.MutableMapping):
             # but if the Group for references is in the root Group, we
             # will need to filter it out.
             refgrp = self._options.group_for_references
-            it = self._file.__iter__()
+            names = list(self._file)
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
-            return it
+                names = [k for k in names if k != refgrp]
+            return iter(names)
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
         """Reads the object at the specified `path` from the file.
-- 
2.43.0


From 79845196ab33755514c45c4f0d8d41a3a7dc8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 04/38] fix: store group_for_references normalised

With e.g. a trailing slash the references Group was not excluded when
iterating, taking the length, or reading its parent Group.
---
 src/hdf5storage/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 676154b..e45d2e8 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -726,8 +726,11 @@ class Options:
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
             pth = posixpath.normpath(value)
+            # normpath keeps exactly two leading slashes.
+            if pth.startswith("//"):
+                pth = pth[1:]
             if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
-- 
2.43.0


From dbfef95277865384ba30eacd7811e045eb63ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 05/38] fix: replace existing Attributes whose dtype or shape
 changed

An existing Attribute with another dtype or shape was left unchanged, so e.g.
overwriting a list with a tuple or a dict with a Counter kept the old type.
---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..f2b78e6 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1435,6 +1435,8 @@ def set_attributes_all(
                         and val.shape == existing[k].shape
                     ):
                         attrs.modify(k, val)
+                    else:
+                        attrs.create(k, val)
                 except:
                     attrs.create(k, val)
     # Discard all other attributes.
-- 
2.43.0


From f907c935591b3edd4663736b4531cedc9af43146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 06/38] fix: overwriting a Dataset compressed with lzf or szip

The missing compression_opts made the comparison to the existing Dataset
raise, after which creating the already existing Dataset failed.
---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1635c11..bc01650 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -955,6 +955,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 and data_to_store.nbytes >= f.options.compress_size_threshold
             ):
                 filters["compression"] = f.options.compression_algorithm
+                filters["compression_opts"] = None
                 if filters["compression"] == "gzip":
                     filters["compression_opts"] = f.options.gzip_compression_level
                 filters["shuffle"] = f.options.shuffle_filter
-- 
2.43.0


From 971ce982e041eb8d6142a28e3a842e97165c5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 07/38] fix: escape dict_like_keys_name and
 dict_like_values_name when writing

They are escaped when reading, so names needing escapes could not be read
back.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index bc01650..a30e1c3 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1845,7 +1845,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From 1c5594f0c6cd406528853c1b583d2f9705420a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 08/38] fix: dict keys without a distinct name of their own

'a' and b'a' were written to the same Dataset, losing one of the values, and
the empty str could not be written.
---
 src/hdf5storage/Marshallers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index a30e1c3..08249d8 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1807,6 +1807,11 @@ class PythonDictMarshaller(TypeMarshaller):
                 break
             try:
                 field_str = escape_path(convert_to_str(field))
+                # Empty names cannot be stored, and keys of different
+                # types can have the same name.
+                if len(field_str) == 0 or field_str in keys_as_str:
+                    any_non_valid_str_keys = True
+                    break
                 keys_as_str.append(field_str)
                 key_str_types.append(tps[type(field)])
             except:
-- 
2.43.0


From 8dde041d490c432a64c5bd230d32caba886a8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/38] fix: reading a Group without fields

The shape was taken from a variable that is only set if there is a field.
---
 src/hdf5storage/Marshallers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 08249d8..1d8db19 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1263,9 +1263,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 fields = sorted(struct_data)
 
             dt_whole: List[Union[Tuple[str, str], Tuple[str, str, Sequence[int]]]] = []
+            shape_whole: Tuple[int, ...] = (1,)
             for k in fields:
                 # Read the value.
                 v = struct_data[k]
+                shape_whole = v.shape
 
                 # If any of the elements are not Numpy types or if they
                 # don't all have the exact same dtype and shape, then
@@ -1296,9 +1298,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # Make the structured ndarray with the constructed
             # dtype. The shape is simply the shape of the object arrays
             # of its fields, so we might as well use the shape of
-            # v. Then, all the elements of every field need to be
-            # assigned. Now, if dtype's itemsize is 0, a TypeError will
-            # be thrown by numpy due to a bug in numpy. np.zeros (as
+            # the last one (single element if there are no fields). Then,
+            # all the elements of every field need to be assigned. Now,
+            # if dtype's itemsize is 0, a TypeError will be thrown by
+            # numpy due to a bug in numpy. np.zeros (as
             # well as ones and empty) does not like to make arrays with
             # no bytes. A workaround is to make an empty array of some
             # other type and convert its dtype. The smallest one we can
@@ -1306,9 +1309,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # at least no errors will happen.
             dtwhole = np.dtype(dt_whole)
             if dtwhole.itemsize == 0:
-                data = np.zeros(shape=v.shape, dtype="int8").astype(dtwhole)
+                data = np.zeros(shape=shape_whole, dtype="int8").astype(dtwhole)
             else:
-                data = np.zeros(shape=v.shape, dtype=dtwhole)
+                data = np.zeros(shape=shape_whole, dtype=dtwhole)
 
             for k, v in struct_data.items():
                 # There is no sense iterating through the elements if
-- 
2.43.0


From 35cb32c30df0d5364ceb3a596a7294cb574e9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 10/38] fix: add_marshaller adds nothing if an element is
 invalid

The valid ones before it were added to the user marshallers without the
lookups being updated.
---
 src/hdf5storage/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index e45d2e8..f5972c4 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1341,12 +1341,15 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
+        # Check them all before adding any.
+        marshallers = tuple(marshallers)
         for m in marshallers:
             if not isinstance(m, Marshallers.TypeMarshaller):
                 raise TypeError(
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
         self._update_marshallers()
-- 
2.43.0


From de12fe9a65307eec3d04fbed31c4e86601d77d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 11/38] fix: convert_to_numpy_str for arrays of numpy.bytes_

The bytes were encoded rather than decoded, which raised an exception.
---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f2b78e6..ae12e26 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -934,7 +934,7 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
-            return np.char.encode(data, "UTF-32")  # type: ignore[arg-type]
+            return np.char.decode(data, "UTF-8")
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
             # wrapped into an array and recursed.
-- 
2.43.0


From c09dbc8a29e438ed7c328d6208527d1590f99ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 12/38] fix: shape of convert_to_numpy_bytes of a 1D array
 without length

All the elements make up a single string.
---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index ae12e26..60dab5c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1135,7 +1135,7 @@ def convert_to_numpy_bytes(
             if len(shape) == 1:
                 if length is None:
                     length2 = shape[0]
-                    new_shape = [shape[0]]
+                    new_shape = [1]
                 else:
                     length2 = length
                     new_shape = [shape[0] // length2]
-- 
2.43.0


From d5e210aa2c4837636799324edf54dd9e4739f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 13/38] fix: paths next to a nested group_for_references are
 not inside it

With group_for_references='/a/refs', every path in /a was refused.
---
 src/hdf5storage/__init__.py | 58 ++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index f5972c4..f4f3f67 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1810,6 +1810,36 @@ class File(collections.abc.MutableMapping):
             if self._writable:
                 self._file.flush()
 
+    def _touches_references_group(
+        self: "File",
+        groupname: str,
+        targetname: str,
+        above: bool,
+    ) -> bool:
+        """Check if a processed path is in the Group for references.
+
+        Parameters
+        ----------
+        groupname : str
+            The Group part of the path.
+        targetname : str
+            The target part of the path.
+        above : bool
+            Whether to check for Groups containing the Group for
+            references (other than the root) as well.
+
+        Returns
+        -------
+        touches : bool
+            Whether the path is the Group for references, is inside of
+            it, or (if `above`) contains it.
+
+        """
+        refgrp = self._options.group_for_references
+        path = posixpath.commonpath((posixpath.join("/", groupname, targetname),))
+        common = posixpath.commonpath((refgrp, path))
+        return common == refgrp or (above and common == path and path != "/")
+
     def write(self: "File", data: Any, path: pathesc.Path = "/") -> None:
         """Writes one piece of data into the file.
 
@@ -1897,19 +1927,7 @@ class File(collections.abc.MutableMapping):
         towrite = []
         for p, v in mdict.items():
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._touches_references_group(groupname, targetname, above=True):
                 raise ValueError(
                     "Cannot write to paths inside the the "
                     "Group specified by the "
@@ -2003,19 +2021,7 @@ class File(collections.abc.MutableMapping):
         toread = []
         for p in paths:
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._touches_references_group(groupname, targetname, above=False):
                 raise ValueError(
                     "Cannot read from paths inside the the "
                     "Group specified by the "
-- 
2.43.0


From a3aaf5a99f90740072f837ad509b64c74aaf9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 14/38] fix: refuse to delete the references Group of an open
 File

The handle to the deleted Group was still used by later writes, whose data
was then lost.
---
 src/hdf5storage/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index f4f3f67..dcf8124 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2231,6 +2231,8 @@ class File(collections.abc.MutableMapping):
             If the file is closed or it isn't writable.
         TypeError
             If `path` is an invalid type.
+        ValueError
+            If `path` is an invalid path.
         KeyError
             If there is no object at `path` in the file.
 
@@ -2238,8 +2240,15 @@ class File(collections.abc.MutableMapping):
         # File had to be opened writable.
         if not self._writable:
             raise OSError("File is not writable.")
-        # Process the path.
+        # Process the path. We do not allow deleting any part of the Group
+        # specified by options.group_for_references.
         groupname, targetname = pathesc.process_path(path)
+        if self._touches_references_group(groupname, targetname, above=True):
+            raise ValueError(
+                "Cannot delete paths inside the the "
+                "Group specified by the "
+                "group_for_references option.",
+            )
         # File operations must be synchronized.
         with self._lock:
             # Check that the file is open.
-- 
2.43.0


From 85ace8d2e4340e5bf5b9ddb55de4e9d3d4c91a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 15/38] fix: keep the references Group when deleting unused
 variables

Writing to the root Group deleted it while its handle was still used, so
the data written to it afterwards was lost.
---
 src/hdf5storage/Marshallers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1d8db19..cdc23bf 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -32,6 +32,7 @@ import contextlib
 import datetime
 import importlib
 import inspect
+import posixpath
 import sys
 import warnings
 from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
@@ -884,8 +885,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # name in data if that option is set.
 
             if f.options.delete_unused_variables:
+                refgrp = f.options.group_for_references + "/"
                 for field in set(dsetgrp).difference(set(escaped_field_names)):
-                    del dsetgrp[field]
+                    # We must keep group_for_references
+                    if not refgrp.startswith(posixpath.join(dsetgrp.name, field, "")):
+                        del dsetgrp[field]
 
             # Go field by field making an object array (make an empty
             # object array and assign element wise) and write it inside
@@ -1866,8 +1870,11 @@ class PythonDictMarshaller(TypeMarshaller):
         # or if we are not storing the keys and values individually
 
         if any_non_valid_str_keys or f.options.delete_unused_variables:
+            refgrp = f.options.group_for_references + "/"
             for field in set(grp2).difference(set(names)):
-                del grp2[field]
+                # We must keep group_for_references
+                if not refgrp.startswith(posixpath.join(grp2.name, field, "")):
+                    del grp2[field]
 
         # Go through all the names and values and write them. The H5PATH
         # needs to be set as the path of grp2 on all of them if we are
-- 
2.43.0


From d070d2bf6cef8639175a525dd06f890c4e8590bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 16/38] fix: use the complex_names option when reading

Complex numbers written with other than the common field names were not
read back as complex numbers.
---
 src/hdf5storage/Marshallers.py | 4 ++--
 src/hdf5storage/utilities.py   | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index cdc23bf..1c837aa 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1379,7 +1379,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # If it is a complex type, then it needs to be decoded
             # properly.
             if underlying_type.startswith("complex"):
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If its underlying type is 'bool' but it is something else,
             # then it needs to be converted (means it was written with
@@ -1503,7 +1503,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # could possibly be a complex type which needs to be
             # properly decoded.
             if matlab_class in {"single", "double"}:
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If it is a logical, then it must be converted to
             # numpy.bool8.
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 60dab5c..6f19690 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1255,11 +1255,13 @@ def decode_complex(
     real_fields = ["r", "re", "real"]
     imag_fields = ["i", "im", "imag", "imaginary"]
 
-    cnames = list(complex_names)
+    cnames: List[Optional[str]] = [None, None]
+    if all(n is None or n in fields for n in complex_names):
+        cnames = list(complex_names)
     for s in fields:
-        if s.lower() in real_fields:
+        if s.lower() in real_fields and cnames[0] is None:
             cnames[0] = s
-        elif s.lower() in imag_fields:
+        elif s.lower() in imag_fields and cnames[1] is None:
             cnames[1] = s
 
     # If the real and imaginary fields were found, construct the complex
-- 
2.43.0


From def2ade4fa630259a66af01023cf85bb11cd409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 17/38] fix: unescape_path of consecutive hex escaped
 backslashes

Two of them became a single backslash.
---
 src/hdf5storage/pathesc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 40a8ed8..1580a68 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -139,6 +139,9 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     if count % 2 == 0:
         return s
     c = chr(int(s[(count + 1) :], base=16))
+    # Double backslashes are still going to be unescaped.
+    if c == slsh:
+        c = slsh * 2
     return slsh * (count - 1) + c
 
 
-- 
2.43.0


From 88ef59041012bab86c94b7cacd5179100b829c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 18/38] fix: process_path of a PurePath without parts

PurePosixPath('.') raised a TypeError from posixpath.join.
---
 src/hdf5storage/pathesc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 1580a68..89561d6 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -292,9 +292,9 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join(*parts[1:])
+            p = posixpath.join("", *parts[1:])
         else:
-            p = posixpath.join(*parts)
+            p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
         # Escape (and possibly convert to str) each element and then
         # join them all together.
-- 
2.43.0


From 6b14c4e015391fe53a69fa6344a2f30a94ed75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 19/38] fix: store fold of datetime.time and datetime.datetime

It was always 0 when read back.
---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1c837aa..feb356b 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2235,6 +2235,9 @@ class PythonDatetimeObjsMarshaller(PythonDictMarshaller):
         }
         if type(data) in attrs:
             cdata = {k: getattr(data, k) for k in attrs[type(data)]}
+            # fold is only stored if it isn't the default.
+            if getattr(data, "fold", 0) != 0:
+                cdata["fold"] = data.fold
         elif type(data) == datetime.timezone:
             parts = data.__reduce__()[1]
             if len(parts) == 1:
-- 
2.43.0


From 4edd8745313d9ac18b2607eb788add05e5d50882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 20/38] fix: refuse to write data over the references Group

---
 src/hdf5storage/utilities.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6f19690..8a604c5 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -243,6 +243,8 @@ class LowLevelFile:
         ------
         NotImplementedError
             If writing `data` is not supported.
+        ValueError
+            If `name` is the Group for references or contains it.
         TypeNotMatlabCompatibleError
             If writing a type not compatible with MATLAB and
             ``self.options.action_for_matlab_incompatible`` is set to
@@ -254,6 +256,17 @@ class LowLevelFile:
         hdf5storage.Options
 
         """
+        # Nothing may replace the Group for references, which holds the
+        # elements of object arrays, or a Group containing it.
+        path = posixpath.normpath(posixpath.join(grp.name, name))
+        if path != "/" and (self._options.group_for_references + "/").startswith(
+            path + "/",
+        ):
+            raise ValueError(
+                "Cannot write over the Group specified by the "
+                "group_for_references option.",
+            )
+
         # Get the marshaller for type(data). The required modules should
         # be here and imported. A workaround must be when data is a
         # dtype since dtypes are no longer type numpy.dtype in numpy
-- 
2.43.0


From 9fa067a5d6d915119af90ff2f672a716be66de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 21/38] fix: write zero dimensional str arrays when converting
 to UTF-16

---
 src/hdf5storage/Marshallers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index feb356b..e3d013d 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -781,7 +781,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 or (
                     isinstance(data_to_store, np.ndarray)
                     and new_data2.shape[-1]
-                    != data_to_store.shape[-1] * (data_to_store.dtype.itemsize // 4)
+                    != np.atleast_1d(data_to_store).shape[-1]
+                    * (data_to_store.dtype.itemsize // 4)
                 )
             ):
                 data_to_store = convert_numpy_str_to_uint32(data_to_store)
-- 
2.43.0


From 513f0be7452d110c02f47762de80c06a983da651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 22/38] fix: write np.chararray of str without converting to
 UTF-16

---
 src/hdf5storage/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8a604c5..be757c8 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -786,10 +786,11 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # each string, which is just 4 times the number of
     # characters. Then it is a mstter of getting a view of the
     # string (in flattened form so that it is contiguous) as uint32
-    # and then reshaping it.
+    # and then reshaping it. The view has to be of a plain array since
+    # a np.chararray can't hold numbers.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return data.ravel().view(np.uint32).reshape(tuple(shape))
+    return np.asarray(data).ravel().view(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
-- 
2.43.0


From 8662270c9852a9f3277d2cf061205cc19d6ecb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 23/38] fix: keep byte order marks and honor byte orders when
 converting to str

---
 src/hdf5storage/utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index be757c8..6574a84 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -850,10 +850,12 @@ def convert_to_str(
     ):
         if data.dtype.name == "uint8":
             return data.tobytes().decode("UTF-8")
+        # The codecs with an explicit byte order are used because the
+        # others drop a byte order mark at the start of the string.
         if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
+            return data.astype("<u2").tobytes().decode("UTF-16LE")
         if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
+            return data.astype("<u4").tobytes().decode("UTF-32LE")
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -861,7 +863,9 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            return (
+                data.astype(data.dtype.newbyteorder("<")).tobytes().decode("UTF-32LE")
+            )
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 37ceca20f53857ffc071bb1a1a98710cb255d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 24/38] fix: decode strings whose last character ends with null
 bytes

---
 src/hdf5storage/utilities.py | 37 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6574a84..aa388cb 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1000,31 +1000,22 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
-            # numpy.char.decode will be used to decode. It needs the
-            # encoding (UTF-8/16/32) which is gotten from the dtype. But
-            # it also needs the data to be in big endian format, so it
-            # must be byteswapped if it isn't. Without the swapping, an
-            # error occurs since trailing nulls are dropped in numpy
-            # bytes_ arrays. The dtype for each string element is just
-            # 'SX' where X is the number of bytes.
+            # numpy.char.decode can decode UTF-8. The dtype for each
+            # string element is just 'SX' where X is the number of
+            # bytes. A copy is needed to prevent errors.
             if data.dtype.name == "uint8":
-                encoding = "UTF-8"
-                swapbytes = False
                 dt = "S" + str(length_to_use)
-            else:
-                if data.dtype.name == "uint16":
-                    encoding = "UTF-16BE"
-                    dt = "S" + str(2 * length_to_use)
-                else:
-                    encoding = "UTF-32BE"
-                    dt = "S" + str(4 * length_to_use)
-                swapbytes = data.dtype.byteorder == "<" or (
-                    sys.byteorder == "little" and data.dtype.byteorder == "="
-                )
-            # Copy is needed to prevent errors.
-            if swapbytes:
-                return np.char.decode(data.copy().byteswap().view(dt), encoding)
-            return np.char.decode(data.copy().view(dt), encoding)
+                return np.char.decode(data.copy().view(dt), "UTF-8")
+
+            # UTF-16 and UTF-32 can't be decoded that way. Trailing nulls
+            # are dropped in numpy bytes_ arrays, which can be part of
+            # the last character. So each string must be converted on its
+            # own.
+            strs = [
+                convert_to_str(chunk).rstrip("\x00")
+                for chunk in data.reshape((-1, length_to_use))
+            ]
+            return np.array(strs, dtype=np.unicode_).reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         # Easily converted through constructor.
-- 
2.43.0


From 09ee33f0105f4376798113155dfe2ee3f8866536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 25/38] fix: read strings with surrogates stored as UTF-32

---
 src/hdf5storage/utilities.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index aa388cb..f174e8c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -855,7 +855,7 @@ def convert_to_str(
         if data.dtype.name == "uint16":
             return data.astype("<u2").tobytes().decode("UTF-16LE")
         if data.dtype.name == "uint32":
-            return data.astype("<u4").tobytes().decode("UTF-32LE")
+            return data.astype("<u4").tobytes().decode("UTF-32LE", "surrogatepass")
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -863,9 +863,8 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return (
-                data.astype(data.dtype.newbyteorder("<")).tobytes().decode("UTF-32LE")
-            )
+            chars = data.astype(data.dtype.newbyteorder("<")).tobytes()
+            return chars.decode("UTF-32LE", "surrogatepass")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 75dd1266adef6b2bca2dfaa8ec9f6a4fd7e012b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 26/38] fix: convert str arrays of the other byte order to
 uint32

---
 src/hdf5storage/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f174e8c..447c7f2 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -790,7 +790,8 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # a np.chararray can't hold numbers.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return np.asarray(data).ravel().view(np.uint32).reshape(tuple(shape))
+    native = np.asarray(data, dtype=data.dtype.newbyteorder("="))
+    return native.ravel().view(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
-- 
2.43.0


From ffe00e733531485a556518d6b8f586b5bd4d3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 27/38] fix: keep the byte order of complex data

---
 src/hdf5storage/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 447c7f2..94e9b0a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1321,15 +1321,16 @@ def encode_complex(
 
     """
     # Grab the dtype name, and convert it to the right non-complex type
-    # if it isn't already one.
+    # if it isn't already one, with the same byte order.
     dtype_name = data.dtype.name
     if dtype_name[0:7] == "complex":
         dtype_name = "float" + str(int(float(dtype_name[7:]) / 2))
+    dtype = np.dtype(dtype_name).newbyteorder(data.dtype.byteorder)
 
     # Create the new version of the data with the right field names for
     # the real and complex parts. This is easy to do with putting the
     # right dtype in the view function.
-    return data.view([(complex_names[0], dtype_name), (complex_names[1], dtype_name)])
+    return data.view([(complex_names[0], dtype), (complex_names[1], dtype)])
 
 
 def convert_attribute_to_string(value: Any) -> Optional[str]:
-- 
2.43.0


From d543a8f1eb10d8f26fb81c97b29ac8365b514917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 28/38] fix: convert bytes arrays that aren't contiguous to
 UTF-16

---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e3d013d..3ba4077 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -748,7 +748,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = np.zeros((0,), np.uint16)
             else:
                 new_data = (
-                    np.atleast_1d(data_to_store)
+                    np.ascontiguousarray(data_to_store)
                     .view(np.ndarray)
                     .view(np.uint8)
                     .astype(np.uint16)
-- 
2.43.0


From 80c17f0341bd60655ab46ea6345fd86437c6b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 29/38] fix: keep characters of strings in the same row when
 oned_as is column

---
 src/hdf5storage/Marshallers.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 3ba4077..8c1b95c 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -737,6 +737,19 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         if isinstance(data_to_store, np.core.records.recarray):
             data_to_store = data_to_store.view(np.ndarray)
 
+        # Strings need to become column vectors before they are converted
+        # to characters, so that the characters of each stay together in
+        # the same row.
+        if (
+            f.options.make_atleast_2d
+            and f.options.oned_as == "column"
+            and data.dtype.type in (np.bytes_, np.unicode_)
+        ):
+            column = np.atleast_2d(data_to_store)
+            if len(data_to_store.shape) == 1:
+                column = column.T
+            data_to_store = column
+
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
         # converting to uint16's and checking that each one's value is
-- 
2.43.0


From 4f85aa111bb1175fc20605e3bc53d6bbcf3d02dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 30/38] fix: write structured arrays with str fields

---
 src/hdf5storage/Marshallers.py |  4 +++-
 src/hdf5storage/utilities.py   | 25 +++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 8c1b95c..1dcadce 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -53,6 +53,7 @@ from .utilities import (
     convert_to_numpy_str,
     convert_to_str,
     decode_complex,
+    does_dtype_have_a_str,
     does_dtype_have_a_zero_shape,
     encode_complex,
     set_attributes_all,
@@ -858,7 +859,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # converting that field to a HDF5 Reference types, it will just
         # be written as a Group instead (dtypes have a useful hasobject
         # method). The same goes for if there is a null inside its
-        # dtype.
+        # dtype or a field is an numpy.str_, which h5py can't write.
         #
         # A flag, wrote_as_struct, is set depending on which path is
         # taken, which is then passed onto write_metadata.
@@ -872,6 +873,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     data_to_store.dtype.hasobject or "\\x00" in str(data_to_store.dtype)
                 )
                 or does_dtype_have_a_zero_shape(data_to_store.dtype)
+                or does_dtype_have_a_str(data_to_store.dtype)
             )
         ):
             wrote_as_struct = True
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 94e9b0a..6e47508 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -99,6 +99,31 @@ def does_dtype_have_a_zero_shape(dt: np.dtype) -> bool:
     return False
 
 
+def does_dtype_have_a_str(dt: np.dtype) -> bool:
+    """Determine whether a dtype (or its fields) are ``numpy.str_``.
+
+    Determine whether the given ``numpy.dtype`` or, for compound dtypes,
+    one of its fields at any depth is of ``numpy.str_``, which can't be
+    stored in an HDF5 Dataset.
+
+    .. versionadded:: 0.2
+
+    Parameters
+    ----------
+    dt : numpy.dtype
+        The dtype to check.
+
+    Returns
+    -------
+    yesno : bool
+        Whether `dt` or one of its fields is of ``numpy.str_``.
+
+    """
+    if dt.base.fields is not None:
+        return any(does_dtype_have_a_str(v[0]) for v in dt.base.fields.values())
+    return dt.base.type == np.unicode_
+
+
 def read_all_attributes_into(
     attrs: h5py.AttributeManager,
     out: MutableMapping[str, Any],
-- 
2.43.0


From ba138e83e1f89d9c4355c8820a80573c156bbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 31/38] fix: read structured arrays with only empty strings in
 a field

---
 src/hdf5storage/Marshallers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1dcadce..cc84289 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1308,6 +1308,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 except:
                     all_same = False
 
+                # A field can't have strings with no room for characters,
+                # which empty strings can be read as.
+                if dt.type in (np.bytes_, np.unicode_) and dt.itemsize == 0:
+                    dt = np.dtype(dt.kind + "1")
+
                 # If they are all the same, then dt and shape should be
                 # used. Otherwise, it has to be object.
                 if all_same:
-- 
2.43.0


From 1b4b96dcb1189005966c514dae9af270bd5d3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:25 +0000
Subject: [PATCH 32/38] fix: overwrite MATLAB_fields of names of more than one
 character

---
 src/hdf5storage/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6e47508..3c3e9c8 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1463,7 +1463,11 @@ def set_attributes_all(
             if k not in existing:
                 attrs.create(k, val)
             elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
+                # The elements are arrays, so they have to be compared one
+                # by one.
+                if np.shape(existing[k]) != val.shape or not all(
+                    np.array_equal(x, y) for x, y in zip(val, existing[k])
+                ):
                     attrs.create(k, val)
             else:
                 try:
-- 
2.43.0


From 3e991146f52d370d59e9c3a7285ae3a7db49c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 33/38] fix: names of references being written aren't given to
 others

---
 src/hdf5storage/utilities.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 3c3e9c8..f053c92 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -39,7 +39,7 @@ import copy
 import posixpath
 import random
 import sys
-from typing import Any, Dict, List, Optional, Tuple, Type, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
 
 import h5py
 import numpy as np
@@ -223,6 +223,9 @@ class LowLevelFile:
         # Length in characters we will use for random names in the
         # references Group.
         self._refs_group_name_length: int = 16
+        # Names in the references Group given to objects that are still
+        # being written, and might not be in it yet.
+        self._refs_group_pending_names: Set[str] = set()
 
     @property
     def f(self: "LowLevelFile") -> h5py.File:
@@ -524,7 +527,11 @@ class LowLevelFile:
         data_refs_flat = data_refs.reshape(-1)
         for index, x in enumerate(data.flat):
             name_for_ref = self.next_unused_ref_group_name()
-            obj = self.write_data(self._refs_group, name_for_ref, x, None)
+            self._refs_group_pending_names.add(name_for_ref)
+            try:
+                obj = self.write_data(self._refs_group, name_for_ref, x, None)
+            finally:
+                self._refs_group_pending_names.discard(name_for_ref)
             if obj is not None:
                 data_refs_flat[index] = obj.ref
                 obj_attrs = obj.attrs
@@ -677,7 +684,7 @@ class LowLevelFile:
         fmt = f"%0{self._refs_group_name_length}x"
         bits = self._refs_group_name_length * 4
         name = fmt % random.getrandbits(bits)
-        while name in self._refs_group:
+        while name in self._refs_group or name in self._refs_group_pending_names:
             name = fmt % random.getrandbits(bits)
         return name
 
-- 
2.43.0


From e003f66164f819e22b8cda6a4ec8a8fefaed4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 34/38] fix: MATLAB_int_decode of empty data

---
 src/hdf5storage/Marshallers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index cc84289..2b1d955 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1151,6 +1151,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 if tp in (np.bytes_, np.str_, np.bool_):
                     if dsetgrp.dtype.type == np.bytes_:
                         attributes["MATLAB_int_decode"] = ("value", 1)
+                    elif "MATLAB_empty" in attributes:
+                        # The shape is stored instead of the elements, so
+                        # use what an element would take up.
+                        attributes["MATLAB_int_decode"] = (
+                            "value",
+                            np.int64(1 if tp == np.bool_ else 2),
+                        )
                     else:
                         attributes["MATLAB_int_decode"] = (
                             "value",
-- 
2.43.0


From f57eaa181331e6195bce721971881949a2a7b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 35/38] fix: MATLAB_class of collections.Counter

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 2b1d955..902b854 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1806,6 +1806,7 @@ class PythonDictMarshaller(TypeMarshaller):
         self.__MATLAB_classes: Dict[Type[Any], str] = {
             dict: "struct",
             collections.OrderedDict: "struct",
+            collections.Counter: "struct",
         }
         # Set matlab_classes to empty since NumpyScalarArrayMarshaller
         # handles Groups by default now.
-- 
2.43.0


From bfd6eebf2efd0f517e68136a6226847d486c03e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 36/38] fix: Attributes that can't be converted to strings
 count as missing

---
 src/hdf5storage/utilities.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f053c92..13d0cd9 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1389,12 +1389,15 @@ def convert_attribute_to_string(value: Any) -> Optional[str]:
         return value
     if isinstance(value, str):
         return value
-    if isinstance(value, bytes):
-        return value.decode()
-    if isinstance(value, np.unicode_):
-        return str(value)
-    if isinstance(value, np.bytes_):
-        return value.decode()
+    try:
+        if isinstance(value, bytes):
+            return value.decode()
+        if isinstance(value, np.unicode_):
+            return str(value)
+        if isinstance(value, np.bytes_):
+            return value.decode()
+    except UnicodeDecodeError:
+        pass
     return None
 
 
@@ -1418,9 +1421,12 @@ def convert_attribute_to_string_array(value: Any) -> Optional[List[str]]:
         isn't.
 
     """
-    if value is None:
-        return value
-    return [convert_to_str(x) for x in value]
+    if value is None or isinstance(value, (str, bytes)):
+        return None
+    try:
+        return [convert_to_str(x) for x in value]
+    except (TypeError, UnicodeDecodeError):
+        return None
 
 
 def set_attributes_all(
-- 
2.43.0


From 0d0b53669b062284930d2dd4e82376d20a976639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:51 +0000
Subject: [PATCH 37/38] fix: File.write and item assignment refused paths given
 as lists

---
 src/hdf5storage/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index dcf8124..b39f8a9 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1874,6 +1874,11 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Sequences that can't be hashed (lists) can't be keys.
+        if isinstance(path, collections.abc.Sequence) and not isinstance(
+            path, (str, bytes)
+        ):
+            path = tuple(path)
         self.writes({path: data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
@@ -2210,7 +2215,7 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
-        self.writes({path: data})
+        self.write(data, path)
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
         """Deletes one path from the file.
-- 
2.43.0


From cb930a953c2ca35cb9f2ebed56c1ef6a05a5d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:32 +0000
Subject: [PATCH 38/38] fix: empty arrays of void without fields couldn't be
 read back

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 902b854..c9a96b6 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1399,6 +1399,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     data = np.zeros(tuple(shape), dtype="U" + str(nchars))
                 elif struct_dtype is not None:
                     data = np.zeros(tuple(shape), dtype=struct_dtype)
+                elif underlying_type.startswith("void") and underlying_type != "void":
+                    # numpy can't make void dtypes from their names.
+                    nbytes = int(underlying_type[len("void") :]) // 8
+                    data = np.zeros(tuple(shape), dtype="V" + str(nbytes))
                 else:
                     data = np.zeros(tuple(shape), dtype=underlying_type)
                 if matlab_class is not None or f.options.reverse_dimension_order:
-- 
2.43.0

