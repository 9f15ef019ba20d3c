From 615dfaee09fcd77df927f13f45316c5b81217d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:54 +0000
Subject: [PATCH 01/38] fix: leave the garbage collector state as found by dump
 and load

---
 hickle/hickle.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9ade798..49ae2fe 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -241,10 +241,14 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
 
 ###########
 # LOADERS #
@@ -392,10 +396,14 @@ def load(file_obj, path='/', safe=True, filename = None):
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
 
 
 
-- 
2.43.0


From 1983b8972cb90744e506f0f92ea22455d031e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:19 +0000
Subject: [PATCH 02/38] fix: hand the opened file to the hickle v3 reader,
 whatever way it was passed to load

---
 hickle/hickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 49ae2fe..5f06721 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -359,7 +359,7 @@ def load(file_obj, path='/', safe=True, filename = None):
             from hickle import legacy_v3
             warnings.warn("Input argument 'file_obj' appears to be a file made"
                           " with hickle v3. Using legacy load...")
-            return(legacy_v3.load(file_obj, path, safe))
+            return(legacy_v3.load(h5f, path, safe))
 
         # Else, check if the proper attributes for v4 loading are available
         if all(map(h_root_group.attrs.get, v4_attrs)):
-- 
2.43.0


From 99fd32bddfce6427e1753e73fe3706a39836de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:19 +0000
Subject: [PATCH 03/38] fix: close the file even if flushing it fails

---
 hickle/hickle.py | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 5f06721..3f4d816 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -236,19 +236,20 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
                 _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            if gc_enabled:
-                gc.enable()
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                if close_flag:
+                    h5f.close()
+            finally:
+                if gc_enabled:
+                    gc.enable()
 
 ###########
 # LOADERS #
@@ -391,19 +392,20 @@ def load(file_obj, path='/', safe=True, filename = None):
         raise ValueError("Provided argument 'file_obj' does not appear to be a valid hickle file! (%s)" % (error),error) from error
     finally:
         # Flush the h5py.File and close it lif it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            if gc_enabled:
-                gc.enable()
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                if close_flag:
+                    h5f.close()
+            finally:
+                if gc_enabled:
+                    gc.enable()
 
 
 
-- 
2.43.0


From a630cf21e1734d817af803cce593ae2047aeaab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 04/38] fix: restore False dict keys as False

---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 53b7442..d5e0350 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -30,13 +30,13 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_
 # by create_dictlike_dataset function
 dict_key_types_dict = {
     b'float': float,
-    b'bool': bool,
+    b'bool': lambda x : x == 'True',
     b'int': int,
     b'complex': complex,
     b'NoneType': lambda x : None,
     # str type keys required for h5py >= 3.x
     'float': float,
-    'bool': bool,
+    'bool': lambda x : x == 'True',
     'int': int,
     'complex': complex,
     'NoneType': lambda x : None
-- 
2.43.0


From 0ecb79ef0fd483022834197345f06649c6f75c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 05/38] fix: store dict keys of str, bytes and number
 subclasses as key value pairs

---
 hickle/loaders/load_builtins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index d5e0350..00a83c7 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -284,11 +284,11 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
-            if isinstance(key,str):
+            if key.__class__ is str:
                 if not _str_slashes.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
-            elif isinstance(key,bytes):
+            elif key.__class__ is bytes:
                 if not _byte_slashes.search(key):
                     try:
                         h_key = key.decode("utf8")
@@ -297,7 +297,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                     else:
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
-            elif key_base_type in dict_key_types_dict:
+            elif key.__class__ in (float,bool,int,complex,None.__class__):
                 h_key = "{!r}".format(key)
                 if not _str_slashes.search(h_key):
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
-- 
2.43.0


From 4ad654fb2fa5151cd3450e1ca1b0bde86b84e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 06/38] fix: store dict keys containing NUL as key value pairs

---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 00a83c7..12198ab 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -245,8 +245,8 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     )
     
 
-_byte_slashes = re.compile(b'[\\/]')
-_str_slashes = re.compile(r'[\\/]')
+_byte_slashes = re.compile(b'[\\/\0]')
+_str_slashes = re.compile(r'[\\/\0]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
-- 
2.43.0


From 10df99bea0e4dc3d212eb24eec97c631acee1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 07/38] fix: mark datasets of str and bytes subclasses as str
 and bytes

---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 12198ab..1071b49 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -173,7 +173,7 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
-        dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("ascii")
+        dataset.attrs["str_type"] = b'str' if isinstance(py_obj,str) else b'bytes'
         return dataset,()
         
     if len(py_obj) < 1:
-- 
2.43.0


From fdef87e81306863f8015c0e0eae703ac11f3b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 08/38] fix: register a container for matrices of strings and
 objects

---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5ad0ff2..e43479b 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -336,7 +336,7 @@ class_register = [
     # to keep things simple numpy.matrix will be handled by same functions as 
     # numpy.ndarray. As long as just required cause numpy.ma.core.MaskedArray 
     # uses it for data
-    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset]
+    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset,NDArrayLikeContainer]
 ]
 
 exclude_register = [
-- 
2.43.0


From 22ecefb793f66f4a9ba531cbf87855906cf559d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 09/38] fix: do not try to compress 0-dimensional arrays

---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index e43479b..18fa09f 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -123,7 +123,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ("data",py_obj,{},kwargs),
     else:
         h_node = h_group.create_dataset(
-            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
+            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-- 
2.43.0


From f20337e0976b513c31d18c1b13d9a97415bc4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 10/38] fix: load empty arrays of strings and objects

---
 hickle/loaders/load_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 18fa09f..eaa64b6 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -225,6 +225,10 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     resulting numpy.ndarray, numpy.ma.array
     """
     dtype = np.dtype(h_node.attrs['np_dtype'])
+    if h_node.shape is None:
+        # empty array of strings or objects
+        data = np.array([],dtype=dtype)
+        return py_obj_type(data) if issubclass(py_obj_type,np.matrix) else data
     if "str" in dtype.name:
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
-- 
2.43.0


From 7874a7a99ae30fc9fe75fc1599c310639b56776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 11/38] fix: store lists of single bytes strings item by item

---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 1071b49..c6cca68 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -125,7 +125,7 @@ def check_iterable_item_type(first_item,iter_obj):
         return None
 
     dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
+    if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
         return None
     for item in iter_obj:
         if np.ndim(item) != 0:
@@ -134,7 +134,7 @@ def check_iterable_item_type(first_item,iter_obj):
         if ( 
             common_dtype.name == 'object' or
             'str' in common_dtype.name or
-            ( 'bytes' in common_dtype.name and len(item) > 1 )
+            'bytes' in common_dtype.name
         ):
             return None
         if dtype != common_dtype:
-- 
2.43.0


From 2ffb80f4ef6c95f0f786216a87f8776836748b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 12/38] fix: store lists of integers exceeding 64 bit item by
 item

---
 hickle/loaders/load_builtins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index c6cca68..1be5d22 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -127,8 +127,10 @@ def check_iterable_item_type(first_item,iter_obj):
     dtype = np.dtype(first_item.__class__)
     if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
         return None
+    if isinstance(first_item,int) and first_item.bit_length() > 63:
+        return None
     for item in iter_obj:
-        if np.ndim(item) != 0:
+        if np.ndim(item) != 0 or ( isinstance(item,int) and item.bit_length() > 63 ):
             return None
         common_dtype = np.result_type(np.dtype(item.__class__),dtype)
         if ( 
-- 
2.43.0


From 0a19d88fb8e32fee74a769df33267d395201ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 13/38] fix: accept modes w+ and x+ when a path is given

---
 hickle/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index 139b59a..1150da4 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -144,7 +144,7 @@ def file_opener(f, path, mode='r',filename = None):
 
     # Were we handed a file object or just a file name string?
     if isinstance(f, (str, Path)):
-        return h5.File(f, mode.replace('b','')),path,True
+        return h5.File(f, mode.replace('b','') if mode[0] == 'r' else mode.replace('b','').replace('+','')),path,True
     if isinstance(f, h5.Group):
         if not f:
             raise ClosedFileError(
-- 
2.43.0


From 0005bf329b740c00cf36baf39b28c855b55b509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 14/38] fix: drop the reference manager of read-only hickle 4.x
 files

---
 hickle/lookup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index daeea27..e3ad442 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -385,6 +385,7 @@ class ReferenceManager(BaseManager, dict):
 
     __slots__ = (
         '_py_obj_type_table', # hickle_types_table h5py.Group storing type information
+        '_h_root_group', # node of the file this manager was created for
         '_py_obj_type_link', # dictionary linking py_obj_type and representation in hickle_types_table
         '_base_type_link', # dictionary linking base_type string and representation in hickle_types_table
         '_overlay', # in memory hdf5 dummy file hosting dummy hickle_types_table for hickle 4.x files
@@ -505,6 +506,7 @@ class ReferenceManager(BaseManager, dict):
             existing file opened for reading and writing
         """
         super().__init__(*args,**kwargs)
+        self._h_root_group = h_root_group
         self._py_obj_type_link = dict()
         self._base_type_link = dict()
         self._overlay = None
@@ -833,7 +835,8 @@ class ReferenceManager(BaseManager, dict):
         # remove this ReferenceManager object from the table of active ReferenceManager objects
         # and cleanly unlink from any h5py object instance and id references managed. Finalize
         # 'hickle_types_table' overlay if it was created by __init__ for hickle 4.x file
-        super().__exit__(exc_type, exc_value, exc_traceback, self._py_obj_type_table)
+        super().__exit__(exc_type, exc_value, exc_traceback, self._h_root_group)
+        self._h_root_group = None
         self._py_obj_type_table = None
         self._py_obj_type_link = None
         self._base_type_link = None
-- 
2.43.0


From c0c09b3aeb86edb5ff4c000aa5511377f9018915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 15/38] fix: refuse to exclude essential loaders enclosed in
 exclamation marks

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index e3ad442..8f03c6e 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1041,7 +1041,7 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
-        if hkl_str_to_ignore[0] == hkl_str_to_ignore[-1] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
+        if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
                     hkl_str_to_ignore
-- 
2.43.0


From b3d930ff2bf3e70c85fabc08ce219a59f7b8b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 16/38] fix: recover data on any ImportError and report the
 type tag of recovered 4.x data

---
 hickle/lookup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 8f03c6e..1808037 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -764,9 +764,9 @@ class ReferenceManager(BaseManager, dict):
                 # set is_container_flag to True if h_node is h5py.Group type object and false
                 # otherwise
                 return self.pickle_loads(type_ref), h_node.attrs.get('base_type', b'pickle'), isinstance(h_node, h5.Group)
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 # module missing or py_object_type not provided by module
-                return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type == 2 else b'!recover!' ),isinstance(h_node,h5.Group)
+                return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type != 1 else b'!recover!' ),isinstance(h_node,h5.Group)
             except (TypeError, pickle.UnpicklingError, EOFError):
                 raise ReferenceError(
                     "node '{}': '{}' attribute ('{}')invalid: not a pickle byte string".format(
@@ -810,7 +810,7 @@ class ReferenceManager(BaseManager, dict):
                     self._base_type_link[base_type_entry.id] = base_type
             try:
                 py_obj_type = self.pickle_loads(entry[()])
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 py_obj_type = AttemptRecoverCustom
                 entry_link = (py_obj_type,b'!recover!',base_type)
             else:
-- 
2.43.0


From 510cfea57cb56ef8c7f29abfb775d9c1845a0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:35 +0000
Subject: [PATCH 17/38] fix: name the broken types table entry in the error
 message

---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 1808037..41d2838 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -557,7 +557,7 @@ class ReferenceManager(BaseManager, dict):
             if not isinstance(base_type_ref,h5.Reference):
                 raise ReferenceError(
                     "inconsistent 'hickle_types_table' entries for py_obj_type '{}': "
-                    "no base_type".format(py_obj_type)
+                    "no base_type".format(entry.name)
                 )
             try:
                 base_type_entry = entry.file.get(base_type_ref,None)
@@ -566,7 +566,7 @@ class ReferenceManager(BaseManager, dict):
             if base_type_entry is None:
                 raise ReferenceError(
                     "inconsistent 'hickle_types_table' entries for py_obj_type '{}': "
-                    "stale base_type".format(py_obj_type)
+                    "stale base_type".format(entry.name)
                 )
             base_type = self._base_type_link.get(base_type_entry.id,None)
             if base_type is None:
-- 
2.43.0


From 5751a3cd62aca615c8e8e16f513dcf78e9cc3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:35 +0000
Subject: [PATCH 18/38] fix: dump scalar astropy times in string formats

---
 hickle/loaders/load_astropy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6bd9876..7008b4e 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -130,17 +130,18 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
-    if 'str' in py_obj.value.dtype.name:
+    value = np.asarray(py_obj.value)
+    if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
-        bytes_dtype_str = py_obj.value.dtype.str.replace('<U', '|S').replace('>U', '|S')
+        bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
         d = h_group.create_dataset(
             name,
-            data = np.array(py_obj.value.astype(bytes_dtype_str)),
-            **kwargs
+            data = np.array(value.astype(bytes_dtype_str)),
+            **( no_compression(kwargs) if value.ndim < 1 else kwargs )
         )
     else:
-        d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.value.dtype)
-    d.attrs['np_dtype'] = py_obj.value.dtype.str.encode('ascii')
+        d = h_group.create_dataset(name, data=value, dtype=value.dtype)
+    d.attrs['np_dtype'] = value.dtype.str.encode('ascii')
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
-- 
2.43.0


From 197aeb56889891d7a3c8dc15f5399cf7b5d4667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:37 +0000
Subject: [PATCH 19/38] fix: do not add a types table to a hickle 4.x file that
 is only loaded

---
 hickle/hickle.py |  4 ++--
 hickle/lookup.py | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 3f4d816..ebeb128 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -375,12 +375,12 @@ def load(file_obj, path='/', safe=True, filename = None):
                 # just in case issues arise. Especially as corresponding lambdas in
                 # load_numpy are not needed anymore and thus have been removed.
                 with LoaderManager.create_manager(h_root_group,True) as loader:
-                    with ReferenceManager.create_manager(h_root_group,fix_lambda_obj_type) as memo:
+                    with ReferenceManager.create_manager(h_root_group,fix_lambda_obj_type,read_only = True) as memo:
                         _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_legacy_loader)
                 return py_container.convert()
             # 4.1.x file and newer
             with LoaderManager.create_manager( h_root_group,False) as loader:
-                with ReferenceManager.create_manager(h_root_group,pickle_loads) as memo:
+                with ReferenceManager.create_manager(h_root_group,pickle_loads,read_only = True) as memo:
                     _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_loader)
             return py_container.convert()
 
diff --git a/hickle/lookup.py b/hickle/lookup.py
index 41d2838..5991613 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -451,7 +451,7 @@ class ReferenceManager(BaseManager, dict):
         h5file.close()
 
     @classmethod
-    def create_manager(cls,h_node, pickle_loads = pickle.loads):
+    def create_manager(cls,h_node, pickle_loads = pickle.loads, read_only = False):
         """
         creates a new ReferenceManager object for the h_root_group the h_node
         belongs to. 
@@ -468,6 +468,9 @@ class ReferenceManager(BaseManager, dict):
             defaults to pickle.loads. Must be set to fix_lambda_obj_type 
             for hickle file created by hickle 4.x.
 
+        read_only (bool):
+            if True the file is not modified even if opened for writing
+
         Raises
         ------
         LookupError:
@@ -476,12 +479,12 @@ class ReferenceManager(BaseManager, dict):
 
         def create_manager():
             return ( 
-                ReferenceManager(h_node,pickle_loads = pickle_loads),
+                ReferenceManager(h_node,pickle_loads = pickle_loads,read_only = read_only),
                 ReferenceManager.get_root(h_node)
             )
         return super().create_manager(h_node,create_manager)
 
-    def __init__(self, h_root_group, *args,pickle_loads = pickle.loads, **kwargs):
+    def __init__(self, h_root_group, *args,pickle_loads = pickle.loads, read_only = False, **kwargs):
         """
         constructs ReferenceManager object
 
@@ -496,6 +499,9 @@ class ReferenceManager(BaseManager, dict):
         pickle_loads (FunctionType,MethodType):
             see ReferenceManager.create_manager
 
+        read_only (bool):
+            see ReferenceManager.create_manager
+
         kwargs (dict):
             passed to dict.__init__
 
@@ -521,7 +527,7 @@ class ReferenceManager(BaseManager, dict):
         # structure.
         self._py_obj_type_table = h_root_group.get('hickle_types_table',None)
         if self._py_obj_type_table is None:
-            if h_root_group.file.mode == 'r+':
+            if h_root_group.file.mode == 'r+' and not read_only:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-- 
2.43.0


From f9611d34cf4622cd3772c18a4cb4d1c0efeb9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:50 +0000
Subject: [PATCH 20/38] fix: do not leave the loader tables half changed for
 type tags given as text

---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 5991613..e42fac9 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -974,6 +974,8 @@ class LoaderManager(BaseManager):
             file to be recognized as valid option
         """
     
+        if isinstance(hkl_str,str):
+            hkl_str = hkl_str.encode('ascii')
         if (
             myclass_type is object or
             isinstance(
@@ -1047,6 +1049,8 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
+        if isinstance(hkl_str_to_ignore,str):
+            hkl_str_to_ignore = hkl_str_to_ignore.encode('ascii')
         if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
-- 
2.43.0


From fa943f9fa4b8d2f9da93330a28d55069de6fbffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:56 +0000
Subject: [PATCH 21/38] fix: recover empty datasets and datasets of variable
 length strings

---
 hickle/lookup.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index e42fac9..f8511b5 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -218,16 +218,10 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
     __slots__ = ('attrs',)
 
     def __new__(cls,input_array,dtype=None,attrs={}):
-        array_copy = np.array(input_array,dtype=dtype)
-        obj = super().__new__(
-            cls,
-            shape = array_copy.shape,
-            dtype = array_copy.dtype,
-            buffer=array_copy,
-            offset=0,
-            strides=array_copy.strides,
-            order = 'C' if array_copy.flags.c_contiguous else 'F'
-        )
+        # h5py.Empty datasets have no content numpy.array could make sense of
+        if isinstance(input_array,h5.Empty):
+            input_array = ()
+        obj = np.array(input_array,dtype=dtype).view(cls)
         obj.attrs = {name:value for name,value in attrs.items() if name not in {'type'}}
         return obj
     
-- 
2.43.0


From 8bb8ca1b7ea5f34745e39e6b90f0a4542181f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:45 +0000
Subject: [PATCH 22/38] fix: make recovered data hashable, it may be a dict key
 or an item of a set

---
 hickle/lookup.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index f8511b5..cdabcb5 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -205,6 +205,9 @@ class RecoveredGroup(dict,AttemptRecoverCustom):
 
     __slots__ = ('attrs',)
 
+    # recovered from object which may have been key of a dict or item of a set
+    __hash__ = object.__hash__
+
     def __init__(self,*args,attrs={},**kwargs):
         super().__init__(*args,**kwargs)
         self.attrs={name:value for name,value in attrs.items() if name not in {'type'}}
@@ -217,6 +220,9 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
 
     __slots__ = ('attrs',)
 
+    # recovered from object which may have been key of a dict or item of a set
+    __hash__ = object.__hash__
+
     def __new__(cls,input_array,dtype=None,attrs={}):
         # h5py.Empty datasets have no content numpy.array could make sense of
         if isinstance(input_array,h5.Empty):
-- 
2.43.0


From c5b0f04efe71d7eba330c56b162c59bb1c8cea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:54 +0000
Subject: [PATCH 23/38] fix: look up loaders for classes of modules which have
 no spec

---
 hickle/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index cdabcb5..067c072 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1275,7 +1275,11 @@ class LoaderManager(BaseManager):
                     if not package_file:
                         package_spec = getattr(sys.modules.get(package_list[0],None),'__spec__',None)
                         if package_spec is None:
-                            package_spec = find_spec(package_list[0])
+                            try:
+                                package_spec = find_spec(package_list[0])
+                            except ValueError:
+                                # module has been created without any spec (e.g. __mp_main__)
+                                continue
                         if not getattr(package_spec,'has_location',False):
                             # can't resolve package or base module hosting mro_item
                             continue
-- 
2.43.0


From bb0c306581c0f0d6cd4738e8c770afb5d6f927ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:54 +0000
Subject: [PATCH 24/38] fix: look up loaders for classes of packages imported
 from an archive

---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 067c072..d21d603 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1290,11 +1290,11 @@ class LoaderManager(BaseManager):
                     )
                     try:
                         fid = open(package_loader_path,'rb')
-                    except FileNotFoundError:
+                    except (FileNotFoundError,NotADirectoryError):
                         try:
                             package_loader_path += 'c'
                             fid = open(package_loader_path,'rb')
-                        except FileNotFoundError:
+                        except (FileNotFoundError,NotADirectoryError):
                             # no file for loader module found
                             continue
                         else:
-- 
2.43.0


From dd0947c1b7a93f854264e7e7437adcdf4603d1b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:50:59 +0000
Subject: [PATCH 25/38] fix: keep metadata of astropy tables apart from
 attributes stored by hickle

---
 hickle/loaders/load_astropy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 7008b4e..2313903 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -9,7 +9,11 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+
+# names of the attributes which are stored by hickle along with the metadata of a table:
+# the description of the table and the position of the table within its parent
+table_attrs = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
 
 
 # %% FUNCTION DEFINITIONS
@@ -205,6 +209,10 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset representing astropy table and empty subitems list
     """
+    # attributes of a dataset can not tell metadata of the same name from the ones
+    # hickle stores
+    if not table_attrs.isdisjoint(py_obj.meta):
+        raise NotHicklable("table metadata uses names reserved by hickle")
     data = py_obj.as_array()
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
@@ -383,7 +391,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames'}
+            if metakey not in table_attrs
         }
     )
     return t
-- 
2.43.0


From dcd28f49afa8a29639d7829c18b9923381ad0669 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:51:36 +0000
Subject: [PATCH 26/38] fix: do not drop the mask of astropy tables

---
 hickle/loaders/load_astropy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 2313903..843bcc0 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -214,6 +214,8 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     if not table_attrs.isdisjoint(py_obj.meta):
         raise NotHicklable("table metadata uses names reserved by hickle")
     data = py_obj.as_array()
+    if isinstance(data,np.ma.MaskedArray):
+        raise NotHicklable("masked values of table can not be stored")
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
     colnames = [cn.encode('ascii') for cn in py_obj.colnames]
-- 
2.43.0


From 7c3eb52408bffaacabe59d17d39b43fccf5022c4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:51:48 +0000
Subject: [PATCH 27/38] fix: do not drop frame, distance and velocity of
 astropy coordinates

---
 hickle/loaders/load_astropy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 843bcc0..af73af0 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord
+from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -98,6 +98,13 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astorpy SkyCoord and empty subitems
     """
 
+    # only longitude and latitude are stored and restored as ICRS coordinates
+    if (
+        py_obj.frame.name != 'icrs' or
+        not isinstance(py_obj.data,UnitSphericalRepresentation) or
+        py_obj.data.differentials
+    ):
+        raise NotHicklable("only ICRS coordinates without distance and velocity can be stored")
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
-- 
2.43.0


From e1ffad58e30730bb3cbd7690cde8f97d7d922e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:10 +0000
Subject: [PATCH 28/38] fix: do not pack integers exceeding the precision of
 floats

Lists, tuples and sets mixing floats with integers of more than 53 bits
were stored as array of floats which rounded these integers.
---
 hickle/loaders/load_builtins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 1be5d22..19ef32f 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -129,9 +129,12 @@ def check_iterable_item_type(first_item,iter_obj):
         return None
     if isinstance(first_item,int) and first_item.bit_length() > 63:
         return None
+    int_bits = int(first_item).bit_length() if isinstance(first_item,(int,np.integer)) else 0
     for item in iter_obj:
         if np.ndim(item) != 0 or ( isinstance(item,int) and item.bit_length() > 63 ):
             return None
+        if isinstance(item,(int,np.integer)):
+            int_bits = max(int_bits,int(item).bit_length())
         common_dtype = np.result_type(np.dtype(item.__class__),dtype)
         if ( 
             common_dtype.name == 'object' or
@@ -141,6 +144,9 @@ def check_iterable_item_type(first_item,iter_obj):
             return None
         if dtype != common_dtype:
             dtype = common_dtype
+    if int_bits > 53 and dtype.kind in 'fc':
+        # integers which exceed the precision of the common floating point dtype
+        return None
     return dtype
 
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
-- 
2.43.0


From df06c5fb97e985fd27ac192c0c21e92bcb69946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 29/38] fix: decode text of hickle 3 files, which h5py 3
 returns as bytes

---
 hickle/legacy_v3/loaders/load_python3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 9ec82bc..522dcdc 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -142,7 +142,9 @@ def load_bytes_dataset(h_node):
 
 def load_string_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-    return str(data[0])
+    data = data[0]
+    # h5py >= 3 returns text as bytes
+    return data.decode('utf8') if isinstance(data, bytes) else str(data)
 
 def load_unicode_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-- 
2.43.0


From cb09fb049a0f77c0f081aa0f749db08bb2770901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 30/38] fix: do not turn False keys of hickle 3 dicts into True

---
 hickle/legacy_v3/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 6ed0d6c..604cd57 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -94,13 +94,13 @@ container_types_dict = {
 container_key_types_dict = {
     b"<type 'str'>": literal_eval,
     b"<type 'float'>": float,
-    b"<type 'bool'>": bool,
+    b"<type 'bool'>": literal_eval,
     b"<type 'int'>": int,
     b"<type 'complex'>": complex,
     b"<type 'tuple'>": literal_eval,
     b"<class 'str'>": literal_eval,
     b"<class 'float'>": float,
-    b"<class 'bool'>": bool,
+    b"<class 'bool'>": literal_eval,
     b"<class 'int'>": int,
     b"<class 'complex'>": complex,
     b"<class 'tuple'>": literal_eval
-- 
2.43.0


From 84e00d6aa34f649bc60a7605c8b4865d886ea12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 31/38] fix: load hickle 3 dicts with keys which are not ASCII

---
 hickle/legacy_v3/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index b7e0034..dac7987 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -32,7 +32,7 @@ def sort_keys(key_list):
         key_list2 = []
         for key in key_list:
             if isinstance(key, str):
-                key = bytes(key, 'ascii')
+                key = bytes(key, 'utf8')
             key_list2.append(key)
         key_list = key_list2
 
-- 
2.43.0


From e6d2677f9787bc49a567a73a8f06bb3f9d3a3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 32/38] fix: do not load masks of hickle 3 files as items of
 their own

---
 hickle/legacy_v3/hickle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 1653682..2f1d0a7 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -604,8 +604,8 @@ def _load(py_container, h_group):
         sub_data = py_subcontainer.convert()
         py_container.append(sub_data)
 
-    else:
-        # must be a dataset
+    elif get_type(h_group) != b'ndarray_masked_mask':
+        # must be a dataset, masks are loaded along with their data
         subdata = load_dataset(h_group)
         py_container.append(subdata)
 
-- 
2.43.0


From 6701c21f3e900881d2234811e000c3b0d247caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:02 +0000
Subject: [PATCH 33/38] fix: pickle structured dtypes and arrays, their dtype
 string lacks the fields

---
 hickle/loaders/load_numpy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index eaa64b6..266e451 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,no_compression
+from hickle.helpers import PyContainer,NotHicklable,no_compression
 
 
 # %% FUNCTION DEFINITIONS
@@ -67,6 +67,9 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
+    # the dtype string has no place for the fields and shape of structured dtypes
+    if py_obj.names is not None or py_obj.subdtype is not None:
+        raise NotHicklable("dtype string of structured dtype is not complete")
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
@@ -96,6 +99,8 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
+    if dtype.names is not None:
+        raise NotHicklable("dtype string of structured dtype is not complete")
 
     # Check if py_obj contains strings
     if "str" in dtype.name:
@@ -154,6 +159,8 @@ def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
 
+    if py_obj.dtype.names is not None:
+        raise NotHicklable("dtype string of structured dtype is not complete")
     h_node = h_group.create_group(name)
     h_node.attrs['np_dtype'] = py_obj.dtype.str.encode('ascii')
     return h_node,(("data",py_obj.data,{},kwargs),('mask',py_obj.mask,{},kwargs))
-- 
2.43.0


From 8fac3c60247d110b42deb3e5a91c00843afe6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:16 +0000
Subject: [PATCH 34/38] fix: hand subclasses of dict their items as mapping,
 Counter counts the pairs of a list

---
 hickle/loaders/load_builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 19ef32f..ba48918 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -528,7 +528,8 @@ class DictLikeContainer(PyContainer):
         self._content[key_index] = item
 
     def convert(self):
-        return self.object_type(self._content)
+        # pass a mapping, not all subclasses take a list of items for the items of a dict
+        return self.object_type(dict(self._content))
 
     
 
-- 
2.43.0


From 7e8b38c68be739eac700b23d76f253b8f8be2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:17 +0000
Subject: [PATCH 35/38] fix: pickle the masked constant of numpy, which can not
 be rebuilt from data and mask

---
 hickle/loaders/load_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 266e451..e271865 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -159,6 +159,8 @@ def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
 
+    if py_obj is np.ma.masked:
+        raise NotHicklable("masked constant can not be built from data and mask")
     if py_obj.dtype.names is not None:
         raise NotHicklable("dtype string of structured dtype is not complete")
     h_node = h_group.create_group(name)
-- 
2.43.0


From b80eb1b5826993a45af78432925c4dd740b0703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:29 +0000
Subject: [PATCH 36/38] fix: keep the imaginary part of complex quantities

---
 hickle/loaders/load_astropy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index af73af0..714c669 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -40,7 +40,9 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy quantity and empty subitems
     """
 
-    d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
+    # values which are no real numbers would lose their imaginary part
+    dtype = 'complex128' if np.iscomplexobj(py_obj.value) else 'float64'
+    d = h_group.create_dataset(name, data=py_obj.value, dtype=dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
-- 
2.43.0


From 5b6a7dbaadccf4ac9014b5ea8dcf4d70fd9d5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 37/38] fix: pickle times which are masked or have no number or
 text as value

---
 hickle/loaders/load_astropy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 714c669..8095514 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -144,6 +144,8 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
     value = np.asarray(py_obj.value)
+    if py_obj.masked or value.dtype.kind not in 'iufSU':
+        raise NotHicklable("masked times and values other than numbers and text can not be stored")
     if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
         bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
-- 
2.43.0


From d6ebab23f0cbb190377efd1ce0eb3d53fbc00126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 38/38] fix: pickle tables with units on their columns, which
 were dropped

---
 hickle/loaders/load_astropy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 8095514..7ba5568 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -224,6 +224,8 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     # hickle stores
     if not table_attrs.isdisjoint(py_obj.meta):
         raise NotHicklable("table metadata uses names reserved by hickle")
+    if any(column.info.unit is not None for column in py_obj.itercols()):
+        raise NotHicklable("units of table columns can not be stored")
     data = py_obj.as_array()
     if isinstance(data,np.ma.MaskedArray):
         raise NotHicklable("masked values of table can not be stored")
-- 
2.43.0

