From 43d239cbf82b8febe8e4f6351be2f30ca219071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 01/62] fix: store lists, tuples and sets of bytes item by item

A single byte item made check_iterable_item_type return a zero width bytes
dtype: dump either raised or, for mixed content such as [1,b'a'], silently
stored empty strings.
---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 53b7442..d8cf3be 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -125,7 +125,7 @@ def check_iterable_item_type(first_item,iter_obj):
         return None
 
     dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
+    if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
         return None
     for item in iter_obj:
         if np.ndim(item) != 0:
@@ -134,7 +134,7 @@ def check_iterable_item_type(first_item,iter_obj):
         if ( 
             common_dtype.name == 'object' or
             'str' in common_dtype.name or
-            ( 'bytes' in common_dtype.name and len(item) > 1 )
+            'bytes' in common_dtype.name
         ):
             return None
         if dtype != common_dtype:
-- 
2.43.0


From c2ba341a2877cc2662b0489f00db8b29dc4c7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:58 +0000
Subject: [PATCH 02/62] fix: do not store list items by a lossy cast to a
 common dtype

[2**53+1,1.0] or [numpy.uint64(2**63),-1] silently lost precision and
[2**63] raised OverflowError. Store the items one by one in these cases.
---
 hickle/loaders/load_builtins.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index d8cf3be..e9482d6 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -141,6 +141,17 @@ def check_iterable_item_type(first_item,iter_obj):
             dtype = common_dtype
     return dtype
 
+def is_lossless_cast(item,dtype):
+    """
+    checks if item still has the very same value after being casted to dtype
+    """
+    try:
+        value = dtype.type(item).item()
+    except (OverflowError,TypeError,ValueError):
+        return False
+    item = item.item() if isinstance(item,np.generic) else item
+    return value == item or ( value != value and item != item )
+
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
     """ Dumper for list, set, tuple
 
@@ -185,6 +196,10 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         item_dtype = check_iterable_item_type(py_obj[0],py_obj[1:])
         list_len = len(py_obj)
 
+    if item_dtype and not all(is_lossless_cast(item,item_dtype) for item in py_obj):
+        # casting would alter at least one of the items, store each on its own
+        item_dtype = None
+
     if item_dtype or list_len < 1:
         # create a dataset and map all items to least common dtype
         shape = (list_len,) if list_len > 0 else None
-- 
2.43.0


From a6974309ba9d6a6564f102c9fac217e79a5363c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:58 +0000
Subject: [PATCH 03/62] fix: restore False dict keys as False

bool('False') is True, thus {False:x} was loaded as {True:x}.
---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index e9482d6..74e9599 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -30,13 +30,13 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_
 # by create_dictlike_dataset function
 dict_key_types_dict = {
     b'float': float,
-    b'bool': bool,
+    b'bool': lambda x : x == 'True',
     b'int': int,
     b'complex': complex,
     b'NoneType': lambda x : None,
     # str type keys required for h5py >= 3.x
     'float': float,
-    'bool': bool,
+    'bool': lambda x : x == 'True',
     'int': int,
     'complex': complex,
     'NoneType': lambda x : None
-- 
2.43.0


From ba6995cde4a95c900c28c0f8714fe49ce634eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:18 +0000
Subject: [PATCH 04/62] fix: store dict keys containing NUL as key value pair

The name of an HDF5 node ends at the first NUL, {'a\0b':1} was loaded as {'':1}.
---
 hickle/loaders/load_builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 74e9599..488d81d 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -260,8 +260,9 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     )
     
 
-_byte_slashes = re.compile(b'[\\/]')
-_str_slashes = re.compile(r'[\\/]')
+# slashes and NUL can not be part of the name of an HDF5 node
+_byte_slashes = re.compile(b'[\\/\0]')
+_str_slashes = re.compile(r'[\\/\0]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
-- 
2.43.0


From 112c9ad4ecdddf3950914f15e19d3692976706af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:18 +0000
Subject: [PATCH 05/62] fix: decode instances of str subclasses on load

The class name was stored as str_type, thus numpy.str_('a') and any other str
subclass came back as the repr of the raw dataset content.
---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 488d81d..3ce47f3 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -184,7 +184,7 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
-        dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("ascii")
+        dataset.attrs["str_type"] = b'str' if isinstance(py_obj,str) else b'bytes'
         return dataset,()
         
     if len(py_obj) < 1:
-- 
2.43.0


From 12f6d132c2782f99dad060f5f12997825e5b576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:19 +0000
Subject: [PATCH 06/62] fix: store keys of str and bytes subclasses as key
 value pair

{numpy.str_('a'):1} could be dumped but failed to load (key type 'str_' not understood).
---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 3ce47f3..fa60d7d 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -300,11 +300,11 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
-            if isinstance(key,str):
+            if key.__class__ is str:
                 if not _str_slashes.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
-            elif isinstance(key,bytes):
+            elif key.__class__ is bytes:
                 if not _byte_slashes.search(key):
                     try:
                         h_key = key.decode("utf8")
-- 
2.43.0


From 0e0c103773f0cd2ca2e3e7933fc37dfb24ad9245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:52 +0000
Subject: [PATCH 07/62] fix: restore collections.Counter from a mapping

Counter called with the list of key value pairs counts the pairs, thus
Counter({('a',2):1}) and the like were silently loaded with other content.
---
 hickle/loaders/load_builtins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index fa60d7d..bb8c5c1 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -536,7 +536,10 @@ class DictLikeContainer(PyContainer):
         self._content[key_index] = item
 
     def convert(self):
-        return self.object_type(self._content)
+        # hand over a mapping as subclasses like collections.Counter do not treat
+        # a list of pairs as the content to be restored
+        content = dict(self._content)
+        return content if self.object_type is dict else self.object_type(content)
 
     
 
-- 
2.43.0


From 84dae5c849a1ee9f3ef50bbad78ff0c1973035b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:55 +0000
Subject: [PATCH 08/62] fix: restore named tuples

Named tuples could be dumped but not be loaded any more as they do not accept
their content as single iterable argument.
---
 hickle/loaders/load_builtins.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index bb8c5c1..30e34f1 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -369,6 +369,17 @@ def load_none_dataset(h_node,base_type,py_obj_type):
     """
     return None
     
+def make_listlike(py_obj_type,content):
+    """
+    converts content to py_obj_type. Named tuples expect the items as separate arguments
+    and thus provide the _make method for creating an instance from an iterable.
+    """
+    if content.__class__ is py_obj_type:
+        return content
+    if isinstance(py_obj_type,type) and issubclass(py_obj_type,tuple) and hasattr(py_obj_type,'_make'):
+        return py_obj_type._make(content)
+    return py_obj_type(content)
+
 def load_list_dataset(h_node,base_type,py_obj_type):
     """
     loads any kind of list like dataset
@@ -406,7 +417,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
             # decode bytes representing python string before final conversion
             content = bytes(content).decode("utf8")
-    return py_obj_type(content) if content.__class__ is not py_obj_type else content
+    return make_listlike(py_obj_type,content)
 
 def load_hickle_4_x_string(h_node,base_type,py_obj_type):
     """
@@ -472,7 +483,7 @@ class ListLikeContainer(PyContainer):
         self._content[index] = item
         
     def convert(self):
-        return self._content if self.object_type is self._content.__class__ else self.object_type(self._content)
+        return make_listlike(self.object_type,self._content)
 
 class SetLikeContainer(PyContainer):
     """
-- 
2.43.0


From 0b3a0b38a9bbc4a6b2e9709ae30ce911a5ad4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 09/62] fix: serialize collections.defaultdict

Its default_factory was dropped on dump and the file could not be loaded any
more as the dict content was passed as default_factory.
---
 hickle/loaders/load_builtins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 30e34f1..6544b13 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -12,6 +12,7 @@ hickle.
 # %% IMPORTS
 # Built-in imports
 import warnings
+import collections
 import re
 import operator
 
@@ -289,6 +290,8 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
     list is always empty 
     """
 
+    if isinstance(py_obj,collections.defaultdict):
+        raise NotHicklable("default_factory can not be restored from key value pairs")
     h_dictgroup = h_group.create_group(name)
     key_value_pair_name = "data{:d}"
 
-- 
2.43.0


From 983ea712d877103e5a3f01dfecee01bf197e0f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 10/62] fix: serialize scipy dictionary of keys matrices

They are dict subclasses and were dumped as plain dict, the resulting file
could not be loaded.
---
 hickle/loaders/load_scipy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_scipy.py b/hickle/loaders/load_scipy.py
index 607c324..659bc39 100644
--- a/hickle/loaders/load_scipy.py
+++ b/hickle/loaders/load_scipy.py
@@ -7,7 +7,7 @@ import copy
 from scipy import sparse
 
 # hickle imports
-from hickle.helpers import PyContainer,H5NodeFilterProxy
+from hickle.helpers import PyContainer,H5NodeFilterProxy,NotHicklable
 from hickle.loaders.load_numpy import load_ndarray_dataset,create_np_array_dataset
 
 
@@ -47,6 +47,13 @@ def create_sparse_dataset(py_obj, h_group, name, **kwargs):
         ('shape',py_obj.shape,{},kwargs)
     )
 
+def create_dok_dataset(py_obj, h_group, name, **kwargs):
+    """
+    prevents that dictionary of keys matrices are dumped as plain dict which
+    they are derived from. Their shape and dtype would be lost otherwise.
+    """
+    raise NotHicklable("dictionary of keys matrix")
+
 ndarray_type_string = pickle.dumps(np.ndarray)
 tuple_type_string = pickle.dumps(tuple)
 
@@ -117,8 +124,11 @@ class SparseMatrixContainer(PyContainer):
 class_register = [
     [scipy.sparse.csr_matrix, b'csr_matrix', create_sparse_dataset, None, SparseMatrixContainer],
     [scipy.sparse.csc_matrix, b'csc_matrix', create_sparse_dataset, None, SparseMatrixContainer],
-    [scipy.sparse.bsr_matrix, b'bsr_matrix', create_sparse_dataset, None, SparseMatrixContainer]
+    [scipy.sparse.bsr_matrix, b'bsr_matrix', create_sparse_dataset, None, SparseMatrixContainer],
+    [scipy.sparse.dok_matrix, b'dok_matrix', create_dok_dataset]
 ]
+if hasattr(scipy.sparse,'dok_array'):
+    class_register.append([scipy.sparse.dok_array, b'dok_array', create_dok_dataset])
 
 exclude_register = []
 
-- 
2.43.0


From e44d8c418d71e984253d1d4f5208851547654455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 11/62] fix: dump zero dimensional arrays when compression is
 requested

HDF5 does not support chunks and filters on scalar datasets, dump raised
TypeError for numpy.array(1) and masked scalars.
---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5ad0ff2..440f191 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -123,7 +123,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ("data",py_obj,{},kwargs),
     else:
         h_node = h_group.create_dataset(
-            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
+            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-- 
2.43.0


From b638c7ce07b517d517328f038f87a8027567d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 12/62] fix: restore string and object numpy.matrix instances

They are dumped as group but no container was registered for np_matrix. They
were loaded as RecoveredGroup.
---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 440f191..18fa09f 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -336,7 +336,7 @@ class_register = [
     # to keep things simple numpy.matrix will be handled by same functions as 
     # numpy.ndarray. As long as just required cause numpy.ma.core.MaskedArray 
     # uses it for data
-    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset]
+    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset,NDArrayLikeContainer]
 ]
 
 exclude_register = [
-- 
2.43.0


From 490ceabe1b121e59a235496653c34d27339203be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 13/62] fix: restore the shape of string and object arrays

Arrays without items failed to load or lost their shape and arrays of equally
long lists were loaded with additional dimensions.
---
 hickle/loaders/load_numpy.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 18fa09f..f5d9988 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -96,6 +96,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
+    shape = py_obj.shape if "str" in dtype.name or dtype.name == 'object' else ()
 
     # Check if py_obj contains strings
     if "str" in dtype.name:
@@ -127,6 +128,9 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
+    if shape:
+        # nested lists of items do not allow to unambiguously restore the shape
+        h_node.attrs['np_shape'] = shape
     return h_node,sub_items
 
 def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
@@ -225,6 +229,10 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     resulting numpy.ndarray, numpy.ma.array
     """
     dtype = np.dtype(h_node.attrs['np_dtype'])
+    if h_node.shape is None:
+        # string or object array without any item
+        data = np.empty(h_node.attrs.get('np_shape',(0,)),dtype=dtype)
+        return py_obj_type(data) if issubclass(py_obj_type,np.matrix) else data
     if "str" in dtype.name:
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
@@ -290,7 +298,16 @@ class NDArrayLikeContainer(ListLikeContainer):
             super(NDArrayLikeContainer,self).append(name,item,h5_attrs)
     
     def convert(self):
-        data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        shape = self._h5_attrs.get('np_shape',None)
+        if shape is None:
+            data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        else:
+            data = np.empty(shape,dtype = self._h5_attrs['np_dtype'])
+            for index in np.ndindex(*shape):
+                item = self._content
+                for level in index:
+                    item = item[level]
+                data[index] = item
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
 class NDMaskedArrayContainer(PyContainer):
-- 
2.43.0


From c524c73dcabd80918b34fce3ccb4409ae36eea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 14/62] fix: restore the fields of structured arrays, scalars
 and dtypes

The dtype string of structured dtypes just names their size. Structured arrays
failed to load, structured scalars, zero dimensional arrays and dtypes lost
their fields.
---
 hickle/loaders/load_numpy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index f5d9988..acc9d55 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,no_compression
+from hickle.helpers import PyContainer,no_compression,NotHicklable
 
 
 # %% FUNCTION DEFINITIONS
@@ -67,6 +67,8 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
+    if py_obj.names or py_obj.subdtype:
+        raise NotHicklable("fields and shape are not part of the dtype string")
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
@@ -205,6 +207,9 @@ def load_np_scalar_dataset(h_node,base_type,py_obj_type):
     resulting numpy.scalar
     """
 
+    if h_node.dtype.names:
+        # np_dtype just names size of structured scalar
+        return h_node[()]
     dtype = np.dtype(h_node.attrs["np_dtype"])
     return dtype.type(h_node[()])
 
@@ -228,7 +233,8 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     -------
     resulting numpy.ndarray, numpy.ma.array
     """
-    dtype = np.dtype(h_node.attrs['np_dtype'])
+    # np_dtype just names the item size of structured arrays
+    dtype = h_node.dtype if h_node.dtype.names else np.dtype(h_node.attrs['np_dtype'])
     if h_node.shape is None:
         # string or object array without any item
         data = np.empty(h_node.attrs.get('np_shape',(0,)),dtype=dtype)
@@ -324,6 +330,9 @@ class NDMaskedArrayContainer(PyContainer):
 
     def convert(self):
         dtype = self._h5_attrs['np_dtype']
+        if getattr(self._content['data'],'dtype',np.dtype(dtype)).names:
+            # np_dtype just names the item size of structured arrays
+            dtype = self._content['data'].dtype
         data = np.ma.array(self._content['data'], mask=self._content['mask'], dtype=dtype)
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
-- 
2.43.0


From 1b58eb257610f4ff3205ce90d9599b0c1afea058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 15/62] fix: do not mark the remains of a failed dump as valid
 hickle file

When dumping an item raised, the file was already marked as hickle file and
load silently returned the items dumped so far, missing list items being
replaced by empty tuples.
---
 hickle/hickle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9ade798..d319cb6 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -228,12 +228,14 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         elif h_root_group.items():
             raise ValueError("Unable to create group (name already exists)")
 
-        h_root_group.attrs["HICKLE_VERSION"] = __version__
-        h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
-
         with LoaderManager.create_manager(h_root_group,False,options) as loader:
             with ReferenceManager.create_manager(h_root_group) as memo:
                 _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
+
+        # mark as hickle file not before py_obj has been dumped completely to ensure
+        # that load does not mistake the remains of a failed dump for a valid file
+        h_root_group.attrs["HICKLE_VERSION"] = __version__
+        h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
         h5f.flush()
-- 
2.43.0


From 4fea78dc45fcb9132d6a236fc1a73a2fbedd80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:43 +0000
Subject: [PATCH 16/62] fix: restore the state of the garbage collector after
 dump and load

The garbage collector was switched on even if the caller had disabled it and
stayed disabled if closing the file failed.
---
 hickle/hickle.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index d319cb6..dd79a20 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -36,6 +36,7 @@ filename parameter to a non empty string.
 # Built-in imports
 import io
 import sys
+import threading
 import warnings
 import types
 import functools as ft
@@ -69,6 +70,25 @@ __all__ = ['dump', 'load']
 
 # %% FUNCTION DEFINITIONS
 
+# serializes closing of files by different threads to ensure that all of them
+# see the state of the garbage collector chosen by the caller
+_close_lock = threading.RLock()
+
+def close_file(h5f):
+    """ close the h5py.File opened by hickle. """
+
+    # disable python garbage collector while closing to prevent Unrecognized
+    # typecode ValueError caused by h5py objects collected to earlay most 
+    # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+    with _close_lock:
+        gc_enabled = gc.isenabled()
+        gc.disable()
+        try:
+            h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
+
 
 ###########
 # DUMPERS #
@@ -240,13 +260,8 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         # Flush the the h5py.File  and close it if it was opened by hickle.
         h5f.flush()
 
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc.disable()
         if close_flag:
-            h5f.close()
-        gc.enable()
+            close_file(h5f)
 
 ###########
 # LOADERS #
@@ -391,13 +406,8 @@ def load(file_obj, path='/', safe=True, filename = None):
         # Flush the h5py.File and close it lif it was opened by hickle.
         h5f.flush()
 
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc.disable()
         if close_flag:
-            h5f.close()
-        gc.enable()
+            close_file(h5f)
 
 
 
-- 
2.43.0


From 13ba3dff20ab9cd373fed69836f1f1faabb1e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 17/62] fix: dump scalar string, datetime, datetime64 and
 ymdhms astropy times

Scalar times of string formats have no dtype, dump raised AttributeError.
Values without HDF5 equivalent are serialized.
---
 hickle/loaders/load_astropy.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6bd9876..1434286 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -9,7 +9,7 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
 # %% FUNCTION DEFINITIONS
@@ -130,17 +130,20 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
-    if 'str' in py_obj.value.dtype.name:
+    value = np.asarray(py_obj.value)
+    if value.dtype.kind in 'OMV':
+        raise NotHicklable("values of format '{}' have no HDF5 equivalent".format(py_obj.format))
+    if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
-        bytes_dtype_str = py_obj.value.dtype.str.replace('<U', '|S').replace('>U', '|S')
+        bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
         d = h_group.create_dataset(
             name,
-            data = np.array(py_obj.value.astype(bytes_dtype_str)),
-            **kwargs
+            data = np.array(value.astype(bytes_dtype_str)),
+            **( no_compression(kwargs) if value.ndim < 1 else kwargs )
         )
     else:
-        d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.value.dtype)
-    d.attrs['np_dtype'] = py_obj.value.dtype.str.encode('ascii')
+        d = h_group.create_dataset(name, data=value, dtype=value.dtype)
+    d.attrs['np_dtype'] = value.dtype.str.encode('ascii')
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
-- 
2.43.0


From 45a48f2d6ea7bb71f2b5866805c517187dca281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 18/62] fix: keep the imaginary part of complex astropy
 quantities

Complex scalars silently lost it and dumping complex arrays raised.
---
 hickle/loaders/load_astropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 1434286..34e4a65 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -36,7 +36,8 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy quantity and empty subitems
     """
 
-    d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
+    d = h_group.create_dataset(name, data=py_obj.value,
+                               dtype='complex128' if np.iscomplexobj(py_obj.value) else 'float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
-- 
2.43.0


From 67c6fc4a0538d4bab68be12df40409f2b2614775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 19/62] fix: keep the wrap angle of astropy longitudes

Longitude(-10*deg,wrap_angle=180*deg) was silently loaded as 350 deg.
---
 hickle/loaders/load_astropy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 34e4a65..f39fced 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -12,6 +12,9 @@ import sys
 from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
+# wrap_angle used by Longitude objects unless specified otherwise
+DEFAULT_WRAP_ANGLE = Angle(360,'deg')
+
 # %% FUNCTION DEFINITIONS
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
@@ -66,6 +69,8 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy angle and empty subitems
     """
 
+    if getattr(py_obj,'wrap_angle',DEFAULT_WRAP_ANGLE) != DEFAULT_WRAP_ANGLE:
+        raise NotHicklable("wrap_angle can not be restored from value and unit")
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From 5e48fb1f495cb1e66b108ee97af00210ef211e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 20/62] fix: keep frame, distance and velocity of astropy
 SkyCoord objects

Only longitude and latitude are stored. Coordinates of any other frame were
silently loaded as ICRS coordinates and distances and velocities were lost.
---
 hickle/loaders/load_astropy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index f39fced..9d59647 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord
+from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -100,6 +100,12 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astorpy SkyCoord and empty subitems
     """
 
+    if (
+        py_obj.frame.name != 'icrs' or
+        py_obj.data.__class__ is not UnitSphericalRepresentation or
+        py_obj.data.differentials
+    ):
+        raise NotHicklable("frame, distance and velocities can not be restored from longitude and latitude")
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
-- 
2.43.0


From 7139cb272d631c825d2d15aa786bc4e97db36aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 21/62] fix: keep units and masks of astropy tables

Units and masks of columns were silently lost and dumping columns of strings
raised. Serialize these tables.
---
 hickle/loaders/load_astropy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 9d59647..c3f8bbe 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -219,6 +219,12 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset representing astropy table and empty subitems list
     """
+    if (
+        py_obj.has_mixin_columns or
+        py_obj.has_masked_columns or
+        any(col.unit is not None or col.dtype.kind in 'UO' for col in py_obj.itercols())
+    ):
+        raise NotHicklable("units, masks and strings can not be restored from structured array")
     data = py_obj.as_array()
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
-- 
2.43.0


From e931457d297e7c4c276f3579a4909476e4207f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 22/62] fix: store lists containing numpy.void scalars item by
 item

They have no dtype in common with text, dump raised TypeError.
---
 hickle/loaders/load_builtins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 6544b13..613c219 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -126,12 +126,15 @@ def check_iterable_item_type(first_item,iter_obj):
         return None
 
     dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
+    if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name or 'void' in dtype.name:
         return None
     for item in iter_obj:
         if np.ndim(item) != 0:
             return None
-        common_dtype = np.result_type(np.dtype(item.__class__),dtype)
+        item_dtype = np.dtype(item.__class__)
+        if 'void' in item_dtype.name:
+            return None
+        common_dtype = np.result_type(item_dtype,dtype)
         if ( 
             common_dtype.name == 'object' or
             'str' in common_dtype.name or
-- 
2.43.0


From c04096d4e67f7c57b6632087620200ea392879fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:50 +0000
Subject: [PATCH 23/62] fix: dump lists containing ragged sequences

numpy.ndim raises ValueError for [[1],'q'], thus [1,[[1],'q']] could not be dumped.
---
 hickle/loaders/load_builtins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 613c219..4bd70a9 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -129,7 +129,11 @@ def check_iterable_item_type(first_item,iter_obj):
     if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name or 'void' in dtype.name:
         return None
     for item in iter_obj:
-        if np.ndim(item) != 0:
+        try:
+            if np.ndim(item) != 0:
+                return None
+        except ValueError:
+            # numpy.ndim refuses sequences with items of different length
             return None
         item_dtype = np.dtype(item.__class__)
         if 'void' in item_dtype.name:
-- 
2.43.0


From fe47cd280be0469be8a8613db69a6f7f6e316c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:17 +0000
Subject: [PATCH 24/62] fix: restore zero dimensional object arrays

The item of a zero dimensional object array was mistaken for the list of items
if it was a list and loaded as array of one or more dimensions.
---
 hickle/loaders/load_numpy.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index acc9d55..3c03e8b 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -98,7 +98,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
 
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
-    shape = py_obj.shape if "str" in dtype.name or dtype.name == 'object' else ()
+    shape = py_obj.shape if dtype.name == 'object' or ( "str" in dtype.name and py_obj.ndim > 0 ) else None
 
     # Check if py_obj contains strings
     if "str" in dtype.name:
@@ -113,26 +113,23 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             # store content as list of strings
             h_node,sub_items = create_listlike_dataset(py_obj.tolist(), h_group, name, **kwargs)
     elif dtype.name == 'object':
-        # If so, convert py_obj to list
-        py_obj = py_obj.tolist()
-
-        # Check if py_obj is a list
-        if isinstance(py_obj, list):
-            # If so, dump py_obj into the current group
-            h_node,sub_items = create_listlike_dataset(py_obj, h_group, name, **kwargs)
+        # Check if py_obj has any dimension and thus is converted to a list
+        if py_obj.ndim > 0:
+            # If so, dump items of py_obj into the current group
+            h_node,sub_items = create_listlike_dataset(py_obj.tolist(), h_group, name, **kwargs)
         else:
-            # If not, create a new group and dump py_obj into that
+            # If not, create a new group and dump its single item into that
             h_node = h_group.create_group(name)
-            sub_items = ("data",py_obj,{},kwargs),
+            sub_items = ("data",py_obj.item(),{},kwargs),
     else:
         h_node = h_group.create_dataset(
             name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-    if shape:
+    if shape is not None:
         # nested lists of items do not allow to unambiguously restore the shape
-        h_node.attrs['np_shape'] = shape
+        h_node.attrs['np_shape'] = np.array(shape,dtype=int)
     return h_node,sub_items
 
 def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
@@ -308,12 +305,13 @@ class NDArrayLikeContainer(ListLikeContainer):
         if shape is None:
             data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
         else:
-            data = np.empty(shape,dtype = self._h5_attrs['np_dtype'])
-            for index in np.ndindex(*shape):
+            items = np.empty(int(np.prod(shape)),dtype = self._h5_attrs['np_dtype'])
+            for flat_index,index in enumerate(np.ndindex(*shape)):
                 item = self._content
                 for level in index:
                     item = item[level]
-                data[index] = item
+                items[flat_index] = item
+            data = items.reshape(shape)
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
 class NDMaskedArrayContainer(PyContainer):
-- 
2.43.0


From daca9faf5f84e80dc843204d264078465debc219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:11 +0000
Subject: [PATCH 25/62] fix: restore the meta data of astropy tables

The attributes hickle uses to restore the position of a table inside lists and
dicts were returned as meta data, while meta data using these names or values
other than numbers and strings were altered.
---
 hickle/loaders/load_astropy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index c3f8bbe..ed78e00 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -15,7 +15,23 @@ from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,
 # wrap_angle used by Longitude objects unless specified otherwise
 DEFAULT_WRAP_ANGLE = Angle(360,'deg')
 
+# attributes used by hickle which thus can not host meta data of tables
+RESERVED_ATTRS = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+
 # %% FUNCTION DEFINITIONS
+def is_attribute(name, value):
+    """
+    checks if name and value of table meta data can be restored from HDF5 attribute
+    """
+    return (
+        isinstance(name,str) and name and '\0' not in name and name not in RESERVED_ATTRS and (
+            isinstance(value,(bool,float,complex,np.number,np.bool_)) or
+            ( value.__class__ is int and value.bit_length() < 64 ) or
+            ( value.__class__ is str and '\0' not in value ) or
+            ( value.__class__ is np.ndarray and value.dtype.kind in 'biufc' )
+        )
+    )
+
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
     dumps an astropy quantity
@@ -225,6 +241,8 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
         any(col.unit is not None or col.dtype.kind in 'UO' for col in py_obj.itercols())
     ):
         raise NotHicklable("units, masks and strings can not be restored from structured array")
+    if not all(is_attribute(key,value) for key,value in py_obj.meta.items()):
+        raise NotHicklable("meta data can not be restored from attributes")
     data = py_obj.as_array()
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
@@ -403,7 +421,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames'}
+            if metakey not in RESERVED_ATTRS
         }
     )
     return t
-- 
2.43.0


From 35e0ddbf5d768b8d7bac373fc652712d0332d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:12 +0000
Subject: [PATCH 26/62] fix: keep the byte order of astropy table columns

---
 hickle/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index ed78e00..0e6a8ad 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -243,7 +243,7 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
         raise NotHicklable("units, masks and strings can not be restored from structured array")
     if not all(is_attribute(key,value) for key,value in py_obj.meta.items()):
         raise NotHicklable("meta data can not be restored from attributes")
-    data = py_obj.as_array()
+    data = py_obj.as_array(keep_byteorder=True)
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
     colnames = [cn.encode('ascii') for cn in py_obj.colnames]
-- 
2.43.0


From c32801a93c3920edc74aa714f355a1ffc1f81a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:12 +0000
Subject: [PATCH 27/62] fix: keep mask, location, precision and subformat of
 astropy times

---
 hickle/loaders/load_astropy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 0e6a8ad..bc7042e 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -156,6 +156,9 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy time and empty subitems
     """
 
+    if py_obj.masked or py_obj.location is not None or py_obj.precision != 3 or py_obj.out_subfmt != '*':
+        raise NotHicklable("mask, location, precision and subformat can not be restored from value, format and scale")
+
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
     value = np.asarray(py_obj.value)
-- 
2.43.0


From 62ba1a011d8be98344c4dcd74980c8b6ff4dcfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 28/62] fix: dump lists of objects which refuse conversion to a
 numpy array

---
 hickle/loaders/load_builtins.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 4bd70a9..40fa156 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -120,10 +120,15 @@ def check_iterable_item_type(first_item,iter_obj):
 
     if (
         operator.length_hint(first_item) > 1 or
-        ( operator.length_hint(first_item) == 1 and not isinstance(first_item,(str,bytes)) ) or
-        np.ndim(first_item) != 0
+        ( operator.length_hint(first_item) == 1 and not isinstance(first_item,(str,bytes)) )
     ):
         return None
+    try:
+        if np.ndim(first_item) != 0:
+            return None
+    except TypeError:
+        # object refuses conversion to array
+        return None
 
     dtype = np.dtype(first_item.__class__)
     if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name or 'void' in dtype.name:
@@ -132,8 +137,9 @@ def check_iterable_item_type(first_item,iter_obj):
         try:
             if np.ndim(item) != 0:
                 return None
-        except ValueError:
-            # numpy.ndim refuses sequences with items of different length
+        except (ValueError,TypeError):
+            # numpy.ndim refuses sequences with items of different length and
+            # objects which can not be converted to an array
             return None
         item_dtype = np.dtype(item.__class__)
         if 'void' in item_dtype.name:
-- 
2.43.0


From 668843da48318603d23a7e589f16fdb1467e09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 29/62] fix: restore masked astropy times, which pickle can not

---
 hickle/loaders/load_astropy.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index bc7042e..a0a3edf 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -156,8 +156,8 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy time and empty subitems
     """
 
-    if py_obj.masked or py_obj.location is not None or py_obj.precision != 3 or py_obj.out_subfmt != '*':
-        raise NotHicklable("mask, location, precision and subformat can not be restored from value, format and scale")
+    if py_obj.location is not None or py_obj.precision != 3 or py_obj.out_subfmt != '*':
+        raise NotHicklable("location, precision and subformat can not be restored from value, format and scale")
 
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
@@ -178,6 +178,8 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
+    if py_obj.masked:
+        d.attrs['mask'] = np.asarray(py_obj.mask)
 
     return d,()
 
@@ -308,9 +310,14 @@ def load_astropy_time_dataset(h_node,base_type,py_obj_type):
             ustr = '<U' if sys.byteorder == 'little' else '>U'
             bytes_dtype_str = dtype.str.replace('|S', ustr)
             time_data = np.array(h_node[()]).astype(bytes_dtype_str)
-            return py_obj_type(time_data, format=fmt, scale=scale)
-        return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt, scale=scale)
-    return py_obj_type(np.array(h_node[()],dtype = h_node.dtype), format=fmt, scale=scale)
+        else:
+            time_data = np.array(h_node[()],dtype=dtype)
+    else:
+        time_data = np.array(h_node[()],dtype = h_node.dtype)
+    mask = h_node.attrs.get('mask',None)
+    if mask is not None:
+        time_data = np.ma.array(time_data,mask=mask)
+    return py_obj_type(time_data, format=fmt, scale=scale)
 
 
 def load_astropy_angle_dataset(h_node,base_type,py_obj_type):
-- 
2.43.0


From ff3e01d02c285e311853b506975aaced1c5e5cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 30/62] fix: dump lists starting with an instance of a bytes
 subclass

---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 40fa156..8fdf773 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -126,7 +126,7 @@ def check_iterable_item_type(first_item,iter_obj):
     try:
         if np.ndim(first_item) != 0:
             return None
-    except TypeError:
+    except (ValueError,TypeError):
         # object refuses conversion to array
         return None
 
-- 
2.43.0


From 8831b9b0242714572e5d971edef4390c94d58009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 31/62] fix: restore named tuples without fields

---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 8fdf773..773fb9b 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -418,7 +418,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if h_node.shape is None:
 
         # empty list tuple or set just return new instance of py_obj_type
-        return py_obj_type() if isinstance(py_obj_type,tuple) else py_obj_type(())
+        return make_listlike(py_obj_type,())
 
     str_type = h_node.attrs.get('str_type', None)
     content = h_node[()]
-- 
2.43.0


From f81d81e4f3e4c9686a7c50c1700796a58e41f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:09 +0000
Subject: [PATCH 32/62] fix: accept the documented modes w+ and x+ for file
 names

---
 hickle/fileio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index 139b59a..ca92015 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -144,7 +144,9 @@ def file_opener(f, path, mode='r',filename = None):
 
     # Were we handed a file object or just a file name string?
     if isinstance(f, (str, Path)):
-        return h5.File(f, mode.replace('b','')),path,True
+        # h5py files are always readable, 'w+' and 'x+' are the same as 'w' and 'x'
+        mode = mode.replace('b','')
+        return h5.File(f, mode.replace('+','') if mode[0:1] in ('w','x') else mode),path,True
     if isinstance(f, h5.Group):
         if not f:
             raise ClosedFileError(
-- 
2.43.0


From 54cb6a0e43076f29bd2deb87abaf2de21bfd7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:09 +0000
Subject: [PATCH 33/62] fix: truncate file objects opened with mode w

---
 hickle/fileio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index ca92015..7b3f006 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -208,6 +208,10 @@ def file_opener(f, path, mode='r',filename = None):
                 "invalid file mode must be one out of 'w','w+','x','x+','r','r+','a'. "
                 "at max including a 'b' which will be ignored"
         )
+        if mode[0] == 'w':
+            # not done by the fileobj driver of h5py
+            f.seek(0)
+            f.truncate()
         return h5.File(
             f,
             mode.replace('b','') if mode[0] == 'r'  else mode[0],
-- 
2.43.0


From 955b36a8f5060a6938c5682eeb5f4fc470f920e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:09 +0000
Subject: [PATCH 34/62] fix: do not record unknown options in the file

---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index daeea27..610d6a3 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1102,6 +1102,10 @@ class LoaderManager(BaseManager):
             )
         else:
             def set_option_items():
+                # do not leave any option behind in case one of them is not known
+                for option_key,on in options.items():
+                    if on and option_key not in self.__class__.__py_types__:
+                        raise LookupError("Option '{}' invalid".format(option_key))
                 for option_key,on in options.items():
                     if not on:
                         continue
-- 
2.43.0


From 7f9843f39a430407f9a68d914709bd5772687841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 35/62] fix: close the file opened by hickle even if flushing
 it fails

---
 hickle/hickle.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index dd79a20..b85ded9 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -258,10 +258,11 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
-        h5f.flush()
-
-        if close_flag:
-            close_file(h5f)
+        try:
+            h5f.flush()
+        finally:
+            if close_flag:
+                close_file(h5f)
 
 ###########
 # LOADERS #
@@ -404,10 +405,11 @@ def load(file_obj, path='/', safe=True, filename = None):
         raise ValueError("Provided argument 'file_obj' does not appear to be a valid hickle file! (%s)" % (error),error) from error
     finally:
         # Flush the h5py.File and close it lif it was opened by hickle.
-        h5f.flush()
-
-        if close_flag:
-            close_file(h5f)
+        try:
+            h5f.flush()
+        finally:
+            if close_flag:
+                close_file(h5f)
 
 
 
-- 
2.43.0


From e6d4ade9452e7558e8fc5dc859648bf929741490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:14 +0000
Subject: [PATCH 36/62] fix: do not create a types table when loading from a
 file opened for writing

---
 hickle/hickle.py |  4 ++--
 hickle/lookup.py | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index b85ded9..85430ed 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -388,12 +388,12 @@ def load(file_obj, path='/', safe=True, filename = None):
                 # just in case issues arise. Especially as corresponding lambdas in
                 # load_numpy are not needed anymore and thus have been removed.
                 with LoaderManager.create_manager(h_root_group,True) as loader:
-                    with ReferenceManager.create_manager(h_root_group,fix_lambda_obj_type) as memo:
+                    with ReferenceManager.create_manager(h_root_group,fix_lambda_obj_type,True) as memo:
                         _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_legacy_loader)
                 return py_container.convert()
             # 4.1.x file and newer
             with LoaderManager.create_manager( h_root_group,False) as loader:
-                with ReferenceManager.create_manager(h_root_group,pickle_loads) as memo:
+                with ReferenceManager.create_manager(h_root_group,pickle_loads,True) as memo:
                     _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_loader)
             return py_container.convert()
 
diff --git a/hickle/lookup.py b/hickle/lookup.py
index 610d6a3..754e9a1 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -450,7 +450,7 @@ class ReferenceManager(BaseManager, dict):
         h5file.close()
 
     @classmethod
-    def create_manager(cls,h_node, pickle_loads = pickle.loads):
+    def create_manager(cls,h_node, pickle_loads = pickle.loads, readonly = False):
         """
         creates a new ReferenceManager object for the h_root_group the h_node
         belongs to. 
@@ -467,6 +467,9 @@ class ReferenceManager(BaseManager, dict):
             defaults to pickle.loads. Must be set to fix_lambda_obj_type 
             for hickle file created by hickle 4.x.
 
+        readonly (bool):
+            if True the file is not modified even if it is opened for writing
+
         Raises
         ------
         LookupError:
@@ -475,12 +478,12 @@ class ReferenceManager(BaseManager, dict):
 
         def create_manager():
             return ( 
-                ReferenceManager(h_node,pickle_loads = pickle_loads),
+                ReferenceManager(h_node,pickle_loads = pickle_loads,readonly = readonly),
                 ReferenceManager.get_root(h_node)
             )
         return super().create_manager(h_node,create_manager)
 
-    def __init__(self, h_root_group, *args,pickle_loads = pickle.loads, **kwargs):
+    def __init__(self, h_root_group, *args,pickle_loads = pickle.loads, readonly = False, **kwargs):
         """
         constructs ReferenceManager object
 
@@ -495,6 +498,9 @@ class ReferenceManager(BaseManager, dict):
         pickle_loads (FunctionType,MethodType):
             see ReferenceManager.create_manager
 
+        readonly (bool):
+            see ReferenceManager.create_manager
+
         kwargs (dict):
             passed to dict.__init__
 
@@ -519,7 +525,7 @@ class ReferenceManager(BaseManager, dict):
         # structure.
         self._py_obj_type_table = h_root_group.get('hickle_types_table',None)
         if self._py_obj_type_table is None:
-            if h_root_group.file.mode == 'r+':
+            if h_root_group.file.mode == 'r+' and not readonly:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-- 
2.43.0


From 7435858eabbb7d01c15408f1d9b8b073c94d3870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:49 +0000
Subject: [PATCH 37/62] fix: release the manager of the file after loading
 hickle 4.x files

---
 hickle/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 754e9a1..eccc548 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -387,6 +387,7 @@ class ReferenceManager(BaseManager, dict):
         '_py_obj_type_table', # hickle_types_table h5py.Group storing type information
         '_py_obj_type_link', # dictionary linking py_obj_type and representation in hickle_types_table
         '_base_type_link', # dictionary linking base_type string and representation in hickle_types_table
+        '_file', # h5py.File the ReferenceManager was created for
         '_overlay', # in memory hdf5 dummy file hosting dummy hickle_types_table for hickle 4.x files
         'pickle_loads' # reference to pickle.loads method
     )
@@ -513,6 +514,7 @@ class ReferenceManager(BaseManager, dict):
         super().__init__(*args,**kwargs)
         self._py_obj_type_link = dict()
         self._base_type_link = dict()
+        self._file = h_root_group.file
         self._overlay = None
         self.pickle_loads = pickle_loads
 
@@ -839,7 +841,9 @@ class ReferenceManager(BaseManager, dict):
         # remove this ReferenceManager object from the table of active ReferenceManager objects
         # and cleanly unlink from any h5py object instance and id references managed. Finalize
         # 'hickle_types_table' overlay if it was created by __init__ for hickle 4.x file
-        super().__exit__(exc_type, exc_value, exc_traceback, self._py_obj_type_table)
+        # Note: the types table may belong to the overlay, the manager is registered for the file
+        super().__exit__(exc_type, exc_value, exc_traceback, self._file)
+        self._file = None
         self._py_obj_type_table = None
         self._py_obj_type_link = None
         self._base_type_link = None
-- 
2.43.0


From db6f8ed9dbd0c3f835982c207412b0456f73cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 38/62] fix: refuse to exclude the base types managed by hickle
 core

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index eccc548..a5c378c 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1048,7 +1048,7 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
-        if hkl_str_to_ignore[0] == hkl_str_to_ignore[-1] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
+        if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
                     hkl_str_to_ignore
-- 
2.43.0


From fa7aff3884c5372a74b83498b63fba32e8ae5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:01 +0000
Subject: [PATCH 39/62] fix: recover data if importing the module of its class
 fails

---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index a5c378c..de58ed4 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -770,7 +770,7 @@ class ReferenceManager(BaseManager, dict):
                 # set is_container_flag to True if h_node is h5py.Group type object and false
                 # otherwise
                 return self.pickle_loads(type_ref), h_node.attrs.get('base_type', b'pickle'), isinstance(h_node, h5.Group)
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 # module missing or py_object_type not provided by module
                 return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type == 2 else b'!recover!' ),isinstance(h_node,h5.Group)
             except (TypeError, pickle.UnpicklingError, EOFError):
@@ -816,7 +816,7 @@ class ReferenceManager(BaseManager, dict):
                     self._base_type_link[base_type_entry.id] = base_type
             try:
                 py_obj_type = self.pickle_loads(entry[()])
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 py_obj_type = AttemptRecoverCustom
                 entry_link = (py_obj_type,b'!recover!',base_type)
             else:
-- 
2.43.0


From a7121f349cfbc466d3c6ef45d862e87d9f2248e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:37 +0000
Subject: [PATCH 40/62] fix: recover data of objects stored as null dataset

---
 hickle/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index de58ed4..4a4c891 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -218,6 +218,9 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
     __slots__ = ('attrs',)
 
     def __new__(cls,input_array,dtype=None,attrs={}):
+        if isinstance(input_array,h5.Empty):
+            # null dataset, e.g. representing an empty list
+            input_array = ()
         array_copy = np.array(input_array,dtype=dtype)
         obj = super().__new__(
             cls,
-- 
2.43.0


From 5acf3a6bfddab778daa930e8a5a695c2181ae7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:37 +0000
Subject: [PATCH 41/62] fix: warn if a pickled object can not be restored

---
 hickle/lookup.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 4a4c891..eba7de1 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1523,7 +1523,13 @@ def load_pickled_data(h_node, base_type, py_obj_type):
     """
     try:
         return pickle.loads(h_node[()])
-    except (ImportError,AttributeError):
+    except (ImportError,AttributeError) as e:
+        warnings.warn(
+            "pickled object can not be restored: {}. Data recovered ({})".format(
+                e,h_node.name.rsplit('/')[-1]
+            ),
+            DataRecoveredWarning
+        )
         return RecoveredDataset(h_node[()],dtype = h_node.dtype,attrs = dict(h_node.attrs))
 
         
-- 
2.43.0


From e733c1df2a754755ffa360e25908cdcd1379cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 42/62] fix: dump objects of modules without spec

---
 hickle/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index eba7de1..f4c8190 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1279,7 +1279,11 @@ class LoaderManager(BaseManager):
                     if not package_file:
                         package_spec = getattr(sys.modules.get(package_list[0],None),'__spec__',None)
                         if package_spec is None:
-                            package_spec = find_spec(package_list[0])
+                            try:
+                                package_spec = find_spec(package_list[0])
+                            except ValueError:
+                                # module has no spec, e.g. it was not created by the import system
+                                continue
                         if not getattr(package_spec,'has_location',False):
                             # can't resolve package or base module hosting mro_item
                             continue
-- 
2.43.0


From 40dac8245a2ac7984c67448710855fc59027792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 43/62] fix: decode strings loaded from hickle v3 files

---
 hickle/legacy_v3/loaders/load_python3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 9ec82bc..2996594 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -142,7 +142,8 @@ def load_bytes_dataset(h_node):
 
 def load_string_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-    return str(data[0])
+    # h5py >= 3.0 returns bytes
+    return data[0].decode('utf8') if isinstance(data[0], bytes) else str(data[0])
 
 def load_unicode_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-- 
2.43.0


From f5e31b7960d7aa4a179b79c4cf3d0d52a24619e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 44/62] fix: load lists of arbitrary bytes from hickle v3 files

---
 hickle/legacy_v3/loaders/load_python3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 2996594..4d5fd4d 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -121,8 +121,8 @@ def load_list_dataset(h_node):
     py3_str_type = get_py3_string_type(h_node)
 
     if py3_str_type == b"<class 'bytes'>":
-        # Yuck. Convert numpy._bytes -> str -> bytes
-        return [bytes(str(item, 'utf8'), 'utf8') for item in data]
+        # Convert numpy._bytes -> bytes
+        return [bytes(item) for item in data]
     if py3_str_type == b"<class 'str'>":
         return [str(item, 'utf8') for item in data]
     else:
-- 
2.43.0


From dc31fe49572296b8f51547c9ba36c428296f8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 45/62] fix: load dictionary key False from hickle v3 files

---
 hickle/legacy_v3/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 6ed0d6c..604cd57 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -94,13 +94,13 @@ container_types_dict = {
 container_key_types_dict = {
     b"<type 'str'>": literal_eval,
     b"<type 'float'>": float,
-    b"<type 'bool'>": bool,
+    b"<type 'bool'>": literal_eval,
     b"<type 'int'>": int,
     b"<type 'complex'>": complex,
     b"<type 'tuple'>": literal_eval,
     b"<class 'str'>": literal_eval,
     b"<class 'float'>": float,
-    b"<class 'bool'>": bool,
+    b"<class 'bool'>": literal_eval,
     b"<class 'int'>": int,
     b"<class 'complex'>": complex,
     b"<class 'tuple'>": literal_eval
-- 
2.43.0


From 0c3daeeb63daccce58f852bd556e1322cb1baa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 46/62] fix: load dictionaries with non ascii keys from hickle
 v3 files

---
 hickle/legacy_v3/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index b7e0034..dac7987 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -32,7 +32,7 @@ def sort_keys(key_list):
         key_list2 = []
         for key in key_list:
             if isinstance(key, str):
-                key = bytes(key, 'ascii')
+                key = bytes(key, 'utf8')
             key_list2.append(key)
         key_list = key_list2
 
-- 
2.43.0


From f19c6510b69ae21e8d3542444f42bebdcb801c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 47/62] fix: load containers of masked arrays from hickle v3
 files

---
 hickle/legacy_v3/hickle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 1653682..8b8b49c 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -606,6 +606,9 @@ def _load(py_container, h_group):
 
     else:
         # must be a dataset
+        if get_type(h_group) == b'ndarray_masked_mask':
+            # loaded along with the data of the masked array
+            return py_container
         subdata = load_dataset(h_group)
         py_container.append(subdata)
 
-- 
2.43.0


From a00d0df477d338250c9b11190b14bad97b0948cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 48/62] fix: load hickle v3 files through all kinds of file
 objects

---
 hickle/hickle.py           | 2 +-
 hickle/legacy_v3/hickle.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 85430ed..6ee4fe2 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -373,7 +373,7 @@ def load(file_obj, path='/', safe=True, filename = None):
             from hickle import legacy_v3
             warnings.warn("Input argument 'file_obj' appears to be a file made"
                           " with hickle v3. Using legacy load...")
-            return(legacy_v3.load(file_obj, path, safe))
+            return(legacy_v3.load(h5f, path, safe))
 
         # Else, check if the proper attributes for v4 loading are available
         if all(map(h_root_group.attrs.get, v4_attrs)):
diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 8b8b49c..05769c1 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -487,7 +487,11 @@ def load(fileobj, path='/', safe=True):
     close_flag = False
 
     try:
-        h5f, close_flag = file_opener(fileobj)
+        if isinstance(fileobj, h5.File) and fileobj:
+            # opened by caller, the wrapper is only required for dumping
+            h5f = fileobj
+        else:
+            h5f, close_flag = file_opener(fileobj)
         h_root_group = h5f.get(path)
         try:
             assert 'CLASS' in h5f.attrs.keys()
-- 
2.43.0


From 9cf5920a32c9dfd8d11d56feda98e5e973f2cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 49/62] fix: load values which were added to a hickle v3 file

---
 hickle/hickle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 6ee4fe2..9aef430 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -347,7 +347,8 @@ def load(file_obj, path='/', safe=True, filename = None):
         v4_attrs = ['HICKLE_VERSION', 'HICKLE_PYTHON_VERSION']
 
         # Check if the proper attributes for v3 loading are available
-        if all(map(h5f.attrs.get, v3_attrs)):
+        # values added to the file by newer versions are marked by their own attributes
+        if all(map(h5f.attrs.get, v3_attrs)) and not all(map(h_root_group.attrs.get, v4_attrs)):
             # Check if group attribute 'CLASS' has value 'hickle
             if(h5f.attrs['CLASS'] not in ( b'hickle','hickle')):  # pragma: no cover
                 # If not, raise error
-- 
2.43.0


From fc7961aa640f718fd6b198c0187032036b28f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 50/62] fix: load lists of empty and single character strings
 from hickle 4.0 files

---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 773fb9b..b47d5e2 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -425,7 +425,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if str_type in (b'str','str'):
 
         # decode bytes representing python string before final conversion
-        if h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
+        if ( h_node.dtype.itemsize > 1 or h_node.ndim == 1 ) and 'bytes' in h_node.dtype.name:
 
             # string dataset 4.0.x style convert it back to python string
             content = np.asarray(content, dtype=str).tolist()
-- 
2.43.0


From f3fb1eed7385c13b50cd3bac33595ae8ecece192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:20 +0000
Subject: [PATCH 51/62] fix: load scalar astropy quantities from hickle v3
 files

---
 hickle/legacy_v3/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_astropy.py b/hickle/legacy_v3/loaders/load_astropy.py
index 17ca3d4..fa6d640 100644
--- a/hickle/legacy_v3/loaders/load_astropy.py
+++ b/hickle/legacy_v3/loaders/load_astropy.py
@@ -147,7 +147,7 @@ def create_astropy_table(py_obj, h_group, call_id=0, **kwargs):
 def load_astropy_quantity_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
     unit = h_node.attrs["unit"][0]
-    q = Quantity(data, unit, copy=False)
+    q = Quantity(data, unit)
     return q
 
 def load_astropy_time_dataset(h_node):
-- 
2.43.0


From bc7083da88f48001eb839cf94668201a4a1d803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:43 +0000
Subject: [PATCH 52/62] fix: load object arrays from hickle 4.0 files before
 anything else

---
 hickle/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index f4c8190..f47e638 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1402,6 +1402,9 @@ def type_legacy_mro(cls):
         mro list for cls as returned by type.mro  or in case cls is a function or method
         a single element tuple is returned
     """
+    if cls is _moc_numpy_array_object_lambda:
+        # replaces lambda defined by numpy loader, ensure that the latter is loaded
+        return (np.ndarray,)
     if isinstance(
         cls,
         (types.FunctionType,types.BuiltinFunctionType,types.MethodType,types.BuiltinMethodType)
-- 
2.43.0


From 5ecea15f2f91591c16a587d17039d17278616be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:38 +0000
Subject: [PATCH 53/62] fix: load loaders by one thread at a time

---
 hickle/helpers.py | 19 +++++++++++++++++++
 hickle/lookup.py  |  7 ++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/hickle/helpers.py b/hickle/helpers.py
index b0f3e30..a6832b0 100644
--- a/hickle/helpers.py
+++ b/hickle/helpers.py
@@ -32,6 +32,25 @@ class ToDoError(Exception):     # pragma: no cover
 
 # %% CLASS DEFINITIONS
 
+def synchronized(lock):
+    """
+    decorator for functions and methods which shall be executed by one thread at a time only
+
+    Parameters
+    ----------
+    lock (threading.Lock, threading.RLock):
+        the lock to be held while decorated function is executed
+    """
+
+    def decorate(func):
+        @ft.wraps(func)
+        def locked(*args,**kwargs):
+            with lock:
+                return func(*args,**kwargs)
+        return locked
+    return decorate
+
+
 class PyContainer():
     """
     Abstract base class for all PyContainer classes acting as proxy between
diff --git a/hickle/lookup.py b/hickle/lookup.py
index f47e638..8ba25aa 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -96,6 +96,7 @@ import warnings
 import types
 import re
 import weakref
+import threading
 import os.path
 from importlib.util import find_spec, module_from_spec,spec_from_file_location,spec_from_loader
 from importlib import invalidate_caches
@@ -107,7 +108,7 @@ import numpy as np
 import h5py as h5
 
 # hickle imports
-from .helpers import PyContainer,not_dumpable,nobody_is_my_name,no_compression,NotHicklable
+from .helpers import PyContainer,not_dumpable,nobody_is_my_name,no_compression,NotHicklable,synchronized
 from .loaders import optional_loaders, attribute_prefix
 
 if sys.version_info[:2] <= (3,5): # pragma: no cover
@@ -863,6 +864,9 @@ _managed_by_hickle = {'hickle', ''}
 
 _custom_loader_enabled_builtins = {'__main__':('','')}
 
+# loader tables are shared by all threads, none of them may see a partially registered loader
+_loader_lock = threading.RLock()
+
 class LoaderManager(BaseManager):
     """
     Handles the file specific lookup of loader to be used to dump or load
@@ -1145,6 +1149,7 @@ class LoaderManager(BaseManager):
             self._mro = type.mro
         self._file = h_root_group.file
         
+    @synchronized(_loader_lock)
     def load_loader(self, py_obj_type,*,base_type=None):
         """
         Checks if given `py_obj` requires an additional loader to be handled
-- 
2.43.0


From 1a04386531c932c1114dc6f69472bb6862e0d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:32 +0000
Subject: [PATCH 54/62] fix: wait for loader modules imported by another thread

---
 hickle/lookup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 8ba25aa..3e16f82 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -99,7 +99,7 @@ import weakref
 import threading
 import os.path
 from importlib.util import find_spec, module_from_spec,spec_from_file_location,spec_from_loader
-from importlib import invalidate_caches
+from importlib import invalidate_caches,import_module
 
 # Package imports
 import collections
@@ -1276,7 +1276,10 @@ class LoaderManager(BaseManager):
             # check if loader module has already been loaded. If use that instead
             # of importing it anew
             loader = sys.modules.get(loader_name,None)
-            if loader is None:
+            if loader is not None:
+                # may just be imported by another thread, wait until it is complete
+                loader = import_module(loader_name)
+            else:
                 # Try to load a loader with this name
                 loader_spec = find_spec(loader_name)
                 if loader_spec is None:
-- 
2.43.0


From 406e2df78279c543e1bc61508de32db54494a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:26 +0000
Subject: [PATCH 55/62] fix: recognize sparse matrices of hickle 4.0 files
 while load_scipy is imported by another thread

---
 hickle/loaders/load_scipy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_scipy.py b/hickle/loaders/load_scipy.py
index 659bc39..72bd961 100644
--- a/hickle/loaders/load_scipy.py
+++ b/hickle/loaders/load_scipy.py
@@ -79,8 +79,9 @@ class SparseMatrixContainer(PyContainer):
         
         # in case object type is return_first (hickle 4.x file) than switch filter
         # to redirect loading of sub items to numpy ndarray type. Otherwise set to 
-        # PyContainer.filter method
-        if object_type is return_first:
+        # PyContainer.filter method. Compare names as another thread may have
+        # caused this module to be imported a second time meanwhile
+        if getattr(object_type,'__name__',None) == return_first.__name__:
             self.filter = self._redirect_to_ndarray
         else:
             self.filter = super(SparseMatrixContainer,self).filter
-- 
2.43.0


From a0c5357fa3adf201efcc209b47de83bc12edd9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:33 +0000
Subject: [PATCH 56/62] fix: do not share the name of the type table overlay
 between files

Loading two hickle 4.0 files at the same time failed when their names differ
in the extension only or when both are file like objects, as both types
table overlays were opened with the same name.
---
 hickle/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 3e16f82..7a57f68 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -535,7 +535,8 @@ class ReferenceManager(BaseManager, dict):
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-                    '{}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0]),
+                    # name has to differ from that of any other overlay open at the same time
+                    '{}.{:x}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0],id(self)),
                     mode='w', driver='core',backing_store=False
                 )
                 self._py_obj_type_table = h5_overlay.create_group("hickle_types_table",track_order = True)
-- 
2.43.0


From 32cf5a263165592ae39d6165ab4a7db742beb1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:54 +0000
Subject: [PATCH 57/62] fix: store keys of classes named like a builtin type as
 key value pairs

The key type was decided by the name of its class, so that for example
numpy.True_ (class numpy.bool) was restored as False.
---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index b47d5e2..a273311 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -329,7 +329,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                     else:
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
-            elif key_base_type in dict_key_types_dict:
+            elif key_base_type in dict_key_types_dict and key.__class__.__module__ == 'builtins':
                 h_key = "{!r}".format(key)
                 if not _str_slashes.search(h_key):
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
-- 
2.43.0


From 55bb38603c667c9e2ee13a71f6a94dd891a35aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:42 +0000
Subject: [PATCH 58/62] fix: dump integers exceeding the limit of integer
 string conversion

---
 hickle/loaders/load_builtins.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index a273311..f8ae3ef 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -71,7 +71,12 @@ def create_scalar_dataset(py_obj, h_group, name, **kwargs):
     # the sign is not counted by bit_length thus any integer which has more than
     # 63 bits has to be converted into string
     if isinstance(py_obj, int) and (py_obj.bit_length() > 63):# and ( py_obj < -2**63 or py_obj >= 2**63 ) :
-        return h_group.create_dataset(name,data = bytearray(str(py_obj), 'ascii'),**kwargs),()
+        try:
+            digits = str(py_obj)
+        except ValueError as error:
+            # more digits than sys.get_int_max_str_digits() allows to be converted
+            raise NotHicklable("number of digits exceeds limit of integer string conversion") from error
+        return h_group.create_dataset(name,data = bytearray(digits, 'ascii'),**kwargs),()
 
     return h_group.create_dataset(name, data=py_obj, **no_compression(kwargs)),()
 
@@ -330,10 +335,15 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
             elif key_base_type in dict_key_types_dict and key.__class__.__module__ == 'builtins':
-                h_key = "{!r}".format(key)
-                if not _str_slashes.search(h_key):
-                    yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
-                    continue
+                try:
+                    h_key = "{!r}".format(key)
+                except ValueError:
+                    # integer exceeds limit of integer string conversion
+                    pass
+                else:
+                    if not _str_slashes.search(h_key):
+                        yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
+                        continue
             sub_node_name = key_value_pair_name.format(idx)
             yield sub_node_name,(key,py_subobj),{'key_idx':idx,'key_base_type':b'key_value'},kwargs
     return h_dictgroup,package_dict_items()
-- 
2.43.0


From a0b69479b8d4ec719ae945a5a7129141be718734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:42 +0000
Subject: [PATCH 59/62] fix: do not lose or round units of astropy quantities

---
 hickle/loaders/load_astropy.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index a0a3edf..3772e14 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -4,7 +4,7 @@ from astropy.coordinates import Angle, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
-from astropy.units import Quantity
+from astropy.units import Quantity, Unit
 import numpy as np
 import sys
 
@@ -32,6 +32,20 @@ def is_attribute(name, value):
         )
     )
 
+def unit_attribute(unit):
+    """
+    provides string representing unit or raises NotHicklable if unit can not be
+    restored from it, e.g. units not enabled in astropy or scaled units 
+    """
+    try:
+        unit_string = unit.to_string()
+        unit_bytes = unit_string.encode('ascii')
+        if Unit(unit_string) == unit:
+            return unit_bytes
+    except ValueError:
+        pass
+    raise NotHicklable("unit can not be restored from its name")
+
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
     dumps an astropy quantity
@@ -55,10 +69,11 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy quantity and empty subitems
     """
 
+    unit = unit_attribute(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value,
                                dtype='complex128' if np.iscomplexobj(py_obj.value) else 'float64',
                                **no_compression(kwargs))
-    d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
+    d.attrs['unit'] = unit
     return d,()
 
 
@@ -87,9 +102,10 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
 
     if getattr(py_obj,'wrap_angle',DEFAULT_WRAP_ANGLE) != DEFAULT_WRAP_ANGLE:
         raise NotHicklable("wrap_angle can not be restored from value and unit")
+    unit = unit_attribute(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
-    d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
+    d.attrs['unit'] = unit
     return d,()
 
 
@@ -206,9 +222,10 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy constant and empty subitems list
     """
 
+    unit = unit_attribute(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
-    d.attrs["unit"] = py_obj.unit.to_string().encode('ascii')
+    d.attrs["unit"] = unit
     d.attrs["abbrev"] = py_obj.abbrev.encode('ascii')
     d.attrs["name"] = py_obj.name.encode('ascii')
     d.attrs["reference"] = py_obj.reference.encode('ascii')
-- 
2.43.0


From 842e566280176148d1e837c15a31a9ba8f906a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:42 +0000
Subject: [PATCH 60/62] fix: dump tables and constants whose texts or
 attributes exceed what attributes can host

---
 hickle/loaders/load_astropy.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 3772e14..6b86f1e 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -15,6 +15,10 @@ from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,
 # wrap_angle used by Longitude objects unless specified otherwise
 DEFAULT_WRAP_ANGLE = Angle(360,'deg')
 
+# HDF5 restricts object header messages and thereby attributes to 64 KiB including
+# attribute name, which may take up to 4 bytes per character
+MAX_ATTR_SIZE = 2**13
+
 # attributes used by hickle which thus can not host meta data of tables
 RESERVED_ATTRS = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
 
@@ -24,11 +28,12 @@ def is_attribute(name, value):
     checks if name and value of table meta data can be restored from HDF5 attribute
     """
     return (
-        isinstance(name,str) and name and '\0' not in name and name not in RESERVED_ATTRS and (
+        isinstance(name,str) and name and '\0' not in name and name not in RESERVED_ATTRS and
+        len(name) < MAX_ATTR_SIZE and (
             isinstance(value,(bool,float,complex,np.number,np.bool_)) or
             ( value.__class__ is int and value.bit_length() < 64 ) or
             ( value.__class__ is str and '\0' not in value ) or
-            ( value.__class__ is np.ndarray and value.dtype.kind in 'biufc' )
+            ( value.__class__ is np.ndarray and value.dtype.kind in 'biufc' and value.nbytes < MAX_ATTR_SIZE )
         )
     )
 
@@ -223,6 +228,8 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     """
 
     unit = unit_attribute(py_obj.unit)
+    if not all(text.isascii() for text in (py_obj.abbrev,py_obj.name,py_obj.reference)):
+        raise NotHicklable("attributes of constant are restricted to ASCII characters")
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
     d.attrs["unit"] = unit
@@ -260,9 +267,14 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     if (
         py_obj.has_mixin_columns or
         py_obj.has_masked_columns or
-        any(col.unit is not None or col.dtype.kind in 'UO' for col in py_obj.itercols())
+        any(
+            col.unit is not None or col.dtype.kind in 'UO' or
+            col.description is not None or col.format is not None or col.meta or
+            not col.name.isascii() or '\0' in col.name
+            for col in py_obj.itercols()
+        )
     ):
-        raise NotHicklable("units, masks and strings can not be restored from structured array")
+        raise NotHicklable("units, masks, strings and column attributes can not be restored from structured array")
     if not all(is_attribute(key,value) for key,value in py_obj.meta.items()):
         raise NotHicklable("meta data can not be restored from attributes")
     data = py_obj.as_array(keep_byteorder=True)
-- 
2.43.0


From b0c221ed8fb5491b25850553a1cb3c8453f150e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:42 +0000
Subject: [PATCH 61/62] fix: keep masks of astropy quantities, angles,
 coordinates and times

---
 hickle/loaders/load_astropy.py | 42 +++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6b86f1e..7fa78a0 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -9,7 +9,7 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,PyContainer,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
 # wrap_angle used by Longitude objects unless specified otherwise
@@ -74,6 +74,8 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy quantity and empty subitems
     """
 
+    if getattr(py_obj,'mask',None) is not None:
+        raise NotHicklable("mask can not be restored from value and unit")
     unit = unit_attribute(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value,
                                dtype='complex128' if np.iscomplexobj(py_obj.value) else 'float64',
@@ -105,6 +107,8 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy angle and empty subitems
     """
 
+    if getattr(py_obj,'mask',None) is not None:
+        raise NotHicklable("mask can not be restored from value and unit")
     if getattr(py_obj,'wrap_angle',DEFAULT_WRAP_ANGLE) != DEFAULT_WRAP_ANGLE:
         raise NotHicklable("wrap_angle can not be restored from value and unit")
     unit = unit_attribute(py_obj.unit)
@@ -138,11 +142,12 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     """
 
     if (
+        getattr(py_obj,'masked',False) or
         py_obj.frame.name != 'icrs' or
         py_obj.data.__class__ is not UnitSphericalRepresentation or
         py_obj.data.differentials
     ):
-        raise NotHicklable("frame, distance and velocities can not be restored from longitude and latitude")
+        raise NotHicklable("frame, distance, velocities and mask can not be restored from longitude and latitude")
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
@@ -177,6 +182,12 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy time and empty subitems
     """
 
+    if py_obj.masked:
+        # the mask is not part of the time values and would be lost by pickle
+        return h_group.create_group(name),(
+            ('time',py_obj.unmasked,{},kwargs),
+            ('mask',np.array(py_obj.mask),{},kwargs)
+        )
     if py_obj.location is not None or py_obj.precision != 3 or py_obj.out_subfmt != '*':
         raise NotHicklable("location, precision and subformat can not be restored from value, format and scale")
 
@@ -199,8 +210,6 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
-    if py_obj.masked:
-        d.attrs['mask'] = np.asarray(py_obj.mask)
 
     return d,()
 
@@ -343,9 +352,6 @@ def load_astropy_time_dataset(h_node,base_type,py_obj_type):
             time_data = np.array(h_node[()],dtype=dtype)
     else:
         time_data = np.array(h_node[()],dtype = h_node.dtype)
-    mask = h_node.attrs.get('mask',None)
-    if mask is not None:
-        time_data = np.ma.array(time_data,mask=mask)
     return py_obj_type(time_data, format=fmt, scale=scale)
 
 
@@ -465,10 +471,30 @@ def load_astropy_table(h_node,base_type,py_obj_type):
     )
     return t
 
+class MaskedTimeContainer(PyContainer):
+    """
+    handles masked astropy times
+    """
+    __slots__ = ()
+
+    def __init__(self,h5_attrs,base_type,object_type):
+        super(MaskedTimeContainer,self).__init__(h5_attrs,base_type,object_type,_content = {})
+
+    def append(self,name,item,h5_attrs):
+        self._content[name] = item
+
+    def convert(self):
+        # items of scalar objects can not be masked, thus convert to array first
+        time = self._content['time']
+        masked_time = time.reshape(-1)
+        masked_time[np.reshape(self._content['mask'],-1)] = np.ma.masked
+        return masked_time.reshape(time.shape)
+
+
 # %% REGISTERS
 class_register = [
     [Quantity, b'astropy_quantity', create_astropy_quantity, load_astropy_quantity_dataset],
-    [Time, b'astropy_time', create_astropy_time, load_astropy_time_dataset],
+    [Time, b'astropy_time', create_astropy_time, load_astropy_time_dataset, MaskedTimeContainer],
     [Angle, b'astropy_angle', create_astropy_angle, load_astropy_angle_dataset],
     [SkyCoord, b'astropy_skycoord', create_astropy_skycoord, load_astropy_skycoord_dataset],
     [Constant, b'astropy_constant', create_astropy_constant, load_astropy_constant_dataset],
-- 
2.43.0


From 17438a1a8477e001824cf36eace92ed3d32e7437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:42 +0000
Subject: [PATCH 62/62] fix: restore exact time from astropy times

---
 hickle/loaders/load_astropy.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 7fa78a0..46e0a08 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -196,6 +196,14 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     value = np.asarray(py_obj.value)
     if value.dtype.kind in 'OMV':
         raise NotHicklable("values of format '{}' have no HDF5 equivalent".format(py_obj.format))
+    # precision of value may not be sufficient to restore the exact time
+    try:
+        is_exact = np.all(py_obj.__class__(value,format=py_obj.format,scale=py_obj.scale) == py_obj)
+    except Exception:
+        # astropy refuses to convert value to scale
+        is_exact = False
+    if not is_exact and value.size >= MAX_ATTR_SIZE // 8:
+        raise NotHicklable("exact time exceeds maximum size of attribute")
     if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
         bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
@@ -210,6 +218,9 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
+    if not is_exact:
+        d.attrs['jd1'] = py_obj.jd1
+        d.attrs['jd2'] = py_obj.jd2
 
     return d,()
 
@@ -340,6 +351,12 @@ def load_astropy_time_dataset(h_node,base_type,py_obj_type):
     """
     fmt = load_str_attr_ascii(h_node.attrs,"format")
     scale = load_str_attr_ascii(h_node.attrs,"scale")
+    jd1,jd2 = h_node.attrs.get('jd1',None),h_node.attrs.get('jd2',None)
+    if jd1 is not None and jd2 is not None:
+        time = py_obj_type(jd1,jd2,format='jd',scale=scale)
+        time.format = fmt
+        return time
+
     dtype = h_node.attrs.get('np_dtype','')
     if dtype:
         dtype = np.dtype(dtype)
-- 
2.43.0

