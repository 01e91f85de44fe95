From 4e1549b9ee4802b14e56210bfef75df187c3d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:03 +0000
Subject: [PATCH 01/55] fix: store lists, tuples and sets of numbers as one
 dataset only if no item changes

bytes items, integers exceeding 64 bits, mixtures of wide integers and floats
and ragged nested items crashed on dump or were silently altered.
---
 hickle/loaders/load_builtins.py | 43 +++++++++++++++++----------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 53b7442..d01ebaa 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -13,7 +13,7 @@ hickle.
 # Built-in imports
 import warnings
 import re
-import operator
+import itertools
 
 # Package imports
 import numpy as np
@@ -42,6 +42,9 @@ dict_key_types_dict = {
     'NoneType': lambda x : None
 }
 
+# python types for which a list of items may be stored as one single dataset
+python_number_types = (bool, int, float, complex)
+
 # %% FUNCTION DEFINITIONS
 
 def create_scalar_dataset(py_obj, h_group, name, **kwargs):
@@ -117,28 +120,26 @@ def check_iterable_item_type(first_item,iter_obj):
     the least common dtype or none if not all items can be casted
     """
 
-    if (
-        operator.length_hint(first_item) > 1 or
-        ( operator.length_hint(first_item) == 1 and not isinstance(first_item,(str,bytes)) ) or
-        np.ndim(first_item) != 0
-    ):
-        return None
-
-    dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
-        return None
-    for item in iter_obj:
-        if np.ndim(item) != 0:
+    dtype = None
+    wide_int = False
+    for item in itertools.chain((first_item,),iter_obj):
+        item_type = item.__class__
+        if item_type not in python_number_types and not issubclass(item_type,(np.number,np.bool_)):
+            # neither a number nor a bool, has to be dumped as dedicated item
+            return None
+        item_dtype = np.dtype(item_type)
+        if item_dtype.kind not in 'biufc':
             return None
-        common_dtype = np.result_type(np.dtype(item.__class__),dtype)
-        if ( 
-            common_dtype.name == 'object' or
-            'str' in common_dtype.name or
-            ( 'bytes' in common_dtype.name and len(item) > 1 )
-        ):
+        if item_dtype.kind in 'iu':
+            # python integers not fitting into 64-bits can not be stored as int64
+            # and those exceeding 53 bits can not be represented by float64 and complex128
+            num_bits = int(item).bit_length()
+            if item_type is int and num_bits > 63:
+                return None
+            wide_int = wide_int or num_bits > 53
+        dtype = item_dtype if dtype is None else np.result_type(item_dtype,dtype)
+        if wide_int and dtype.kind in 'fc':
             return None
-        if dtype != common_dtype:
-            dtype = common_dtype
     return dtype
 
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
-- 
2.43.0


From 6205dece6770c08297a11c6f24fa0301b3546b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:19 +0000
Subject: [PATCH 02/55] fix: restore False, NUL containing, NaN and subclassed
 dict keys

A False key was loaded as True, str and bytes keys were cut at the first NUL,
more than one NaN key collided and keys of a class derived from str or bytes
could be dumped but not loaded.
---
 hickle/loaders/load_builtins.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index d01ebaa..56b6c32 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -30,13 +30,13 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_
 # by create_dictlike_dataset function
 dict_key_types_dict = {
     b'float': float,
-    b'bool': bool,
+    b'bool': lambda x : x in ('True',b'True'),
     b'int': int,
     b'complex': complex,
     b'NoneType': lambda x : None,
     # str type keys required for h5py >= 3.x
     'float': float,
-    'bool': bool,
+    'bool': lambda x : x in ('True',b'True'),
     'int': int,
     'complex': complex,
     'NoneType': lambda x : None
@@ -246,8 +246,9 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     )
     
 
-_byte_slashes = re.compile(b'[\\/]')
-_str_slashes = re.compile(r'[\\/]')
+# keys containing slashes or NUL can not be used as name of hdf5 node
+_byte_slashes = re.compile(b'[\\/\0]')
+_str_slashes = re.compile('[\\\\/\0]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
@@ -285,11 +286,11 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
-            if isinstance(key,str):
+            if key.__class__ is str:
                 if not _str_slashes.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
-            elif isinstance(key,bytes):
+            elif key.__class__ is bytes:
                 if not _byte_slashes.search(key):
                     try:
                         h_key = key.decode("utf8")
@@ -298,7 +299,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                     else:
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
-            elif key_base_type in dict_key_types_dict:
+            elif ( key is None or key.__class__ in python_number_types ) and key == key:
                 h_key = "{!r}".format(key)
                 if not _str_slashes.search(h_key):
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
-- 
2.43.0


From 1066753caadd03f79d793dba6503c2fbb533d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:35 +0000
Subject: [PATCH 03/55] fix: restore instances of classes derived from str and
 bytes

The str_type attribute was set to the name of the derived class and thus the
raw array of bytes was passed to its constructor on load.
---
 hickle/loaders/load_builtins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 56b6c32..4959215 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -174,7 +174,7 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
-        dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("ascii")
+        dataset.attrs["str_type"] = b'str' if isinstance(py_obj,str) else b'bytes'
         return dataset,()
         
     if len(py_obj) < 1:
@@ -392,6 +392,8 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
             # decode bytes representing python string before final conversion
             content = bytes(content).decode("utf8")
+    elif isinstance(py_obj_type,type) and issubclass(py_obj_type,bytes):
+        content = bytes(content)
     return py_obj_type(content) if content.__class__ is not py_obj_type else content
 
 def load_hickle_4_x_string(h_node,base_type,py_obj_type):
-- 
2.43.0


From cc4df2937b7d068e87737914ce573c924917a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:42 +0000
Subject: [PATCH 04/55] fix: restore namedtuple, Counter and defaultdict
 objects

They were dumped without complaint but could not be loaded any more or in case
of Counter were loaded with different content.
---
 hickle/loaders/load_builtins.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 4959215..9ac9409 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -11,6 +11,7 @@ hickle.
 
 # %% IMPORTS
 # Built-in imports
+import collections
 import warnings
 import re
 import itertools
@@ -275,6 +276,10 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
     list is always empty 
     """
 
+    if isinstance(py_obj,collections.defaultdict):
+        # the default factory can only be restored from pickle string
+        raise NotHicklable("default_factory not supported")
+
     h_dictgroup = h_group.create_group(name)
     key_value_pair_name = "data{:d}"
 
@@ -377,7 +382,7 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if h_node.shape is None:
 
         # empty list tuple or set just return new instance of py_obj_type
-        return py_obj_type() if isinstance(py_obj_type,tuple) else py_obj_type(())
+        return getattr(py_obj_type,'_make',py_obj_type)(())
 
     str_type = h_node.attrs.get('str_type', None)
     content = h_node[()]
@@ -394,7 +399,10 @@ def load_list_dataset(h_node,base_type,py_obj_type):
             content = bytes(content).decode("utf8")
     elif isinstance(py_obj_type,type) and issubclass(py_obj_type,bytes):
         content = bytes(content)
-    return py_obj_type(content) if content.__class__ is not py_obj_type else content
+    if content.__class__ is py_obj_type:
+        return content
+    # named tuples expect one argument per item use their factory function instead
+    return getattr(py_obj_type,'_make',py_obj_type)(content)
 
 def load_hickle_4_x_string(h_node,base_type,py_obj_type):
     """
@@ -460,7 +468,10 @@ class ListLikeContainer(PyContainer):
         self._content[index] = item
         
     def convert(self):
-        return self._content if self.object_type is self._content.__class__ else self.object_type(self._content)
+        if self.object_type is self._content.__class__:
+            return self._content
+        # named tuples expect one argument per item use their factory function instead
+        return getattr(self.object_type,'_make',self.object_type)(self._content)
 
 class SetLikeContainer(PyContainer):
     """
@@ -524,7 +535,7 @@ class DictLikeContainer(PyContainer):
         self._content[key_index] = item
 
     def convert(self):
-        return self.object_type(self._content)
+        return self.object_type(dict(self._content))
 
     
 
-- 
2.43.0


From 0f9960bccc4da297602b6b0049c1df2c6d8aa381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:20 +0000
Subject: [PATCH 05/55] fix: pickle numpy arrays and scalars whose dtype HDF5
 does not support

Dumping datetime64, timedelta64, StringDType, ... raised TypeError instead.
---
 hickle/loaders/load_numpy.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5ad0ff2..4db9f9a 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -8,16 +8,33 @@ Utilities and dump / load handlers for handling numpy and scipy arrays
 
 # %% IMPORTS
 # Package imports
+import h5py
 import numpy as np
 import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,no_compression
+from hickle.helpers import PyContainer,NotHicklable,no_compression
 
 
 # %% FUNCTION DEFINITIONS
 
+def require_hdf5_dtype(dtype):
+    """
+    raises NotHicklable if dtype has no exact HDF5 counterpart, eg.: datetime64
+
+    Parameters
+    ----------
+    dtype (numpy.dtype):
+        the dtype of the array or scalar to be dumped
+    """
+    try:
+        supported = h5py.h5t.py_create(dtype,logical=True).dtype == dtype
+    except (TypeError,ValueError):
+        supported = False
+    if not supported:
+        raise NotHicklable("dtype '{}' not supported by HDF5".format(dtype))
+
 def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     """ dumps an numpy.dtype object to h5py file
 
@@ -40,6 +57,7 @@ def create_np_scalar_dataset(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset and empty list of subitems
     """
 
+    require_hdf5_dtype(py_obj.dtype)
     d = h_group.create_dataset(name, data=py_obj, **no_compression(kwargs))
 
     d.attrs["np_dtype"] = py_obj.dtype.str.encode("ascii")
@@ -122,6 +140,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             h_node = h_group.create_group(name)
             sub_items = ("data",py_obj,{},kwargs),
     else:
+        require_hdf5_dtype(dtype)
         h_node = h_group.create_dataset(
             name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
         )
-- 
2.43.0


From f077ba32f86e412a763019c1b5f0e685973f4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:20 +0000
Subject: [PATCH 06/55] fix: do not pass compression arguments on 0-d arrays

HDF5 scalar datasets reject them, dumping such arrays raised TypeError.
---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 4db9f9a..ca5d047 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -142,7 +142,7 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     else:
         require_hdf5_dtype(dtype)
         h_node = h_group.create_dataset(
-            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
+            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-- 
2.43.0


From afa87ec2d4c17737cb798d8aa258059410e25895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:20 +0000
Subject: [PATCH 07/55] fix: restore structured arrays and dtypes

The type string stored along with them does not describe their fields, they
could be dumped but not loaded or were loaded without any fields.
---
 hickle/loaders/load_numpy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index ca5d047..faf4d2b 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -85,6 +85,9 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
+    if py_obj.kind in 'VT':
+        # neither structure nor shape are described by the type string
+        raise NotHicklable("dtype '{}' not representable by string".format(py_obj))
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
@@ -252,6 +255,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
             # itemsize of dtype is > 1
             string_data = bytes(string_data).decode("utf8")
         return np.asarray(string_data,dtype=dtype)
+    if dtype.kind == 'V':
+        # structure is not described by np_dtype attribute but by the dataset itself
+        dtype = h_node.dtype
     if issubclass(py_obj_type,np.matrix):
         return py_obj_type(data=h_node[()],dtype=dtype)
     # TODO how to restore other ndarray derived object_types
@@ -325,7 +331,9 @@ class NDMaskedArrayContainer(PyContainer):
         self._content[name] = item
 
     def convert(self):
-        dtype = self._h5_attrs['np_dtype']
+        dtype = np.dtype(self._h5_attrs['np_dtype'])
+        if dtype.kind == 'V':
+            dtype = self._content['data'].dtype
         data = np.ma.array(self._content['data'], mask=self._content['mask'], dtype=dtype)
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
-- 
2.43.0


From f26bf2bdbb28c5de9126bd675c40fcddfbf0476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:20 +0000
Subject: [PATCH 08/55] fix: keep shape of empty string and of object arrays

Arrays which can not be rebuilt from the corresponding nested list were loaded
with a different shape or could not be loaded at all.
---
 hickle/loaders/load_numpy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index faf4d2b..5be819c 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -118,6 +118,15 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
 
+    if "str" in dtype.name or dtype.name == 'object':
+        # content is stored as nested list, verify that shape can be restored from it
+        try:
+            listed_shape = np.array(py_obj.tolist(),dtype = dtype).shape
+        except ValueError:
+            listed_shape = None
+        if listed_shape != py_obj.shape or py_obj.size < 1:
+            raise NotHicklable("shape of array can not be restored")
+
     # Check if py_obj contains strings
     if "str" in dtype.name:
         if py_obj.ndim < 1:
-- 
2.43.0


From 6920f27225c7b3f819470cda85deed927dfcfaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:20 +0000
Subject: [PATCH 09/55] fix: load string and object type numpy.matrix

They were loaded as RecoveredGroup cause no container was registered.
---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5be819c..febba15 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -372,7 +372,7 @@ class_register = [
     # to keep things simple numpy.matrix will be handled by same functions as 
     # numpy.ndarray. As long as just required cause numpy.ma.core.MaskedArray 
     # uses it for data
-    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset]
+    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset,NDArrayLikeContainer]
 ]
 
 exclude_register = [
-- 
2.43.0


From dbc341ddfd816bbb40f5983b08fdce73547fc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:20 +0000
Subject: [PATCH 10/55] fix: load numpy.ma.masked constant

---
 hickle/loaders/load_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index febba15..a55c84e 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -183,6 +183,9 @@ def create_np_masked_array_dataset(py_obj, h_group, name, **kwargs):
 
     """
 
+    if py_obj is np.ma.masked:
+        raise NotHicklable("masked constant is a singleton")
+
     # Obtain dtype of py_obj
 
     h_node = h_group.create_group(name)
-- 
2.43.0


From 898ef67a602f6c810d5677107579106526634812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 11/55] fix: pickle dok sparse arrays

They are derived from dict, dumped as such could not be loaded any more.
---
 hickle/loaders/load_scipy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_scipy.py b/hickle/loaders/load_scipy.py
index 607c324..1e8f2cf 100644
--- a/hickle/loaders/load_scipy.py
+++ b/hickle/loaders/load_scipy.py
@@ -7,7 +7,7 @@ import copy
 from scipy import sparse
 
 # hickle imports
-from hickle.helpers import PyContainer,H5NodeFilterProxy
+from hickle.helpers import PyContainer,NotHicklable,H5NodeFilterProxy
 from hickle.loaders.load_numpy import load_ndarray_dataset,create_np_array_dataset
 
 
@@ -47,6 +47,12 @@ def create_sparse_dataset(py_obj, h_group, name, **kwargs):
         ('shape',py_obj.shape,{},kwargs)
     )
 
+def create_dok_dataset(py_obj, h_group, name, **kwargs):
+    """
+    dok sparse arrays are derived from dict but can not be restored from its items
+    """
+    raise NotHicklable("dok sparse arrays not supported")
+
 ndarray_type_string = pickle.dumps(np.ndarray)
 tuple_type_string = pickle.dumps(tuple)
 
@@ -117,8 +123,12 @@ class SparseMatrixContainer(PyContainer):
 class_register = [
     [scipy.sparse.csr_matrix, b'csr_matrix', create_sparse_dataset, None, SparseMatrixContainer],
     [scipy.sparse.csc_matrix, b'csc_matrix', create_sparse_dataset, None, SparseMatrixContainer],
-    [scipy.sparse.bsr_matrix, b'bsr_matrix', create_sparse_dataset, None, SparseMatrixContainer]
+    [scipy.sparse.bsr_matrix, b'bsr_matrix', create_sparse_dataset, None, SparseMatrixContainer],
+    [scipy.sparse.dok_matrix, b'dok_matrix', create_dok_dataset, None],
 ]
 
+if hasattr(scipy.sparse,'dok_array'):
+    class_register.append([scipy.sparse.dok_array, b'dok_array', create_dok_dataset, None])
+
 exclude_register = []
 
-- 
2.43.0


From 7276d0cbdcf680017103b087b8471da64660ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 12/55] fix: keep dtype and imaginary part of astropy Quantity
 and Angle

Values were always converted to float64.
---
 hickle/loaders/load_astropy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6bd9876..cb889dc 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -9,7 +9,7 @@ import numpy as np
 import sys
 
 # hickle imports
-from hickle.helpers import no_compression,load_str_list_attr_ascii,load_str_attr_ascii
+from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
 # %% FUNCTION DEFINITIONS
@@ -36,7 +36,9 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy quantity and empty subitems
     """
 
-    d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
+    if py_obj.dtype.kind not in 'fc':
+        raise NotHicklable("only float and complex values supported")
+    d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
@@ -65,7 +67,9 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy angle and empty subitems
     """
 
-    d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
+    if py_obj.dtype.kind not in 'fc':
+        raise NotHicklable("only float and complex values supported")
+    d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
     return d,()
-- 
2.43.0


From 470ceb8c38c21faade4f271a7feb939530e2830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 13/55] fix: keep wrap_angle of astropy Longitude

---
 hickle/loaders/load_astropy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index cb889dc..8dc92bb 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, SkyCoord
+from astropy.coordinates import Angle, Longitude, SkyCoord
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -69,6 +69,8 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
 
     if py_obj.dtype.kind not in 'fc':
         raise NotHicklable("only float and complex values supported")
+    if isinstance(py_obj,Longitude) and py_obj.wrap_angle != Longitude(0,'deg').wrap_angle:
+        raise NotHicklable("wrap_angle not supported")
     d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
     d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
-- 
2.43.0


From c054f5bdf9ff784d4a19214db72aacab329f8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 14/55] fix: keep frame, distance and differentials of astropy
 SkyCoord

Anything but longitude and latitude was dropped and the result loaded as ICRS.
---
 hickle/loaders/load_astropy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 8dc92bb..475a013 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -1,6 +1,6 @@
 # %% IMPORTS
 # Package imports
-from astropy.coordinates import Angle, Longitude, SkyCoord
+from astropy.coordinates import Angle, Longitude, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
 from astropy.table import Table
 from astropy.time import Time
@@ -100,6 +100,12 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astorpy SkyCoord and empty subitems
     """
 
+    if (
+        py_obj.data.__class__ is not UnitSphericalRepresentation or
+        py_obj.data.differentials or
+        not py_obj.is_equivalent_frame(SkyCoord(0,0,unit='deg'))
+    ):
+        raise NotHicklable("only longitude and latitude within default frame supported")
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
-- 
2.43.0


From 69b0c214e3eb10041913459f0ff0077df49f75ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 15/55] fix: dump any kind of astropy Time

Scalar string and datetime formats could not be dumped, location and precision
were lost.
---
 hickle/loaders/load_astropy.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 475a013..d3937e1 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -140,19 +140,26 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy time and empty subitems
     """
 
+    value = np.asarray(py_obj.value)
+    if (
+        py_obj.masked or py_obj.location is not None or value.dtype.kind not in 'Uf' or
+        py_obj.precision != 3 or py_obj.in_subfmt != '*' or py_obj.out_subfmt != '*'
+    ):
+        raise NotHicklable("only value, format and scale supported")
+
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
-    if 'str' in py_obj.value.dtype.name:
+    if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
-        bytes_dtype_str = py_obj.value.dtype.str.replace('<U', '|S').replace('>U', '|S')
+        bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
         d = h_group.create_dataset(
             name,
-            data = np.array(py_obj.value.astype(bytes_dtype_str)),
-            **kwargs
+            data = value.astype(bytes_dtype_str),
+            **( no_compression(kwargs) if value.ndim < 1 else kwargs )
         )
     else:
-        d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.value.dtype)
-    d.attrs['np_dtype'] = py_obj.value.dtype.str.encode('ascii')
+        d = h_group.create_dataset(name, data=value, dtype=value.dtype)
+    d.attrs['np_dtype'] = value.dtype.str.encode('ascii')
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
-- 
2.43.0


From 2407e664d803d353bc13365be5acfe592e2590e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 16/55] fix: keep units, masks, strings and any meta data of
 astropy Table

Dumping tables with string columns or non trivial meta data failed while units
and masks were silently dropped.
---
 hickle/loaders/load_astropy.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index d3937e1..c9a3f1d 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -2,13 +2,14 @@
 # Package imports
 from astropy.coordinates import Angle, Longitude, SkyCoord, UnitSphericalRepresentation
 from astropy.constants import Constant
-from astropy.table import Table
+from astropy.table import Column, Table
 from astropy.time import Time
 from astropy.units import Quantity
 import numpy as np
 import sys
 
 # hickle imports
+from hickle.loaders.load_numpy import require_hdf5_dtype
 from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
@@ -223,7 +224,19 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset representing astropy table and empty subitems list
     """
+    if not py_obj.colnames or not all(
+        col.__class__ is Column and col.unit is None and col.format is None and
+        col.description is None and not col.meta and col.name.isascii()
+        for col in py_obj.columns.values()
+    ) or not all(
+        isinstance(key,str) and key and key not in ('type','base_type','colnames') and
+        ( isinstance(value,(str,float)) or isinstance(value,int) and value.bit_length() < 64 ) and
+        '\0' not in '{}{}'.format(key,value)
+        for key,value in py_obj.meta.items()
+    ):
+        raise NotHicklable("only columns of plain data and simple meta data supported")
     data = py_obj.as_array()
+    require_hdf5_dtype(data.dtype)
     d = h_group.create_dataset(name, data=data, dtype=data.dtype, **kwargs)
 
     colnames = [cn.encode('ascii') for cn in py_obj.colnames]
-- 
2.43.0


From 5982fe44269b8763afa5105035e6ae2734862c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:14 +0000
Subject: [PATCH 17/55] fix: pickle astropy quantities having a not enabled
 unit

They could be dumped but the unit string stored could not be parsed on load.
---
 hickle/loaders/load_astropy.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index c9a3f1d..32f5fa6 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -4,7 +4,7 @@ from astropy.coordinates import Angle, Longitude, SkyCoord, UnitSphericalReprese
 from astropy.constants import Constant
 from astropy.table import Column, Table
 from astropy.time import Time
-from astropy.units import Quantity
+from astropy.units import Quantity, Unit
 import numpy as np
 import sys
 
@@ -14,6 +14,18 @@ from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,
 
 
 # %% FUNCTION DEFINITIONS
+def encode_unit(unit):
+    """
+    converts unit to string, raises NotHicklable if it can not be restored thereof
+    """
+    try:
+        unit_string = unit.to_string().encode('ascii')
+        if Unit(unit_string) == unit:
+            return unit_string
+    except ValueError:
+        pass
+    raise NotHicklable("unit '{}' can not be restored from string".format(unit))
+
 def create_astropy_quantity(py_obj, h_group, name, **kwargs):
     """
     dumps an astropy quantity
@@ -39,9 +51,10 @@ def create_astropy_quantity(py_obj, h_group, name, **kwargs):
 
     if py_obj.dtype.kind not in 'fc':
         raise NotHicklable("only float and complex values supported")
+    unit = encode_unit(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
-    d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
+    d.attrs['unit'] = unit
     return d,()
 
 
@@ -72,9 +85,10 @@ def create_astropy_angle(py_obj, h_group, name, **kwargs):
         raise NotHicklable("only float and complex values supported")
     if isinstance(py_obj,Longitude) and py_obj.wrap_angle != Longitude(0,'deg').wrap_angle:
         raise NotHicklable("wrap_angle not supported")
+    unit = encode_unit(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.dtype,
                                **no_compression(kwargs))
-    d.attrs['unit'] = py_obj.unit.to_string().encode('ascii')
+    d.attrs['unit'] = unit
     return d,()
 
 
-- 
2.43.0


From 9403c131257752f0d137cb82c88a933fff3721f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:22 +0000
Subject: [PATCH 18/55] fix: do not turn on garbage collection disabled by
 caller

---
 hickle/hickle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9ade798..9de9f5f 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -241,10 +241,12 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
         if close_flag:
             h5f.close()
-        gc.enable()
+        if gc_enabled:
+            gc.enable()
 
 ###########
 # LOADERS #
@@ -392,10 +394,12 @@ def load(file_obj, path='/', safe=True, filename = None):
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
         if close_flag:
             h5f.close()
-        gc.enable()
+        if gc_enabled:
+            gc.enable()
 
 
 
-- 
2.43.0


From 09e5069fba9cff1d9907138d8a693f385731bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:22 +0000
Subject: [PATCH 19/55] fix: accept documented modes w+ and x+ for files
 specified by name

---
 hickle/fileio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index 139b59a..cae4e10 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -144,7 +144,9 @@ def file_opener(f, path, mode='r',filename = None):
 
     # Were we handed a file object or just a file name string?
     if isinstance(f, (str, Path)):
-        return h5.File(f, mode.replace('b','')),path,True
+        # h5py does only accept '+' flag along with 'r', all other modes imply it
+        h5_mode = mode.replace('b','')
+        return h5.File(f, h5_mode if h5_mode.startswith('r') else h5_mode.replace('+','')),path,True
     if isinstance(f, h5.Group):
         if not f:
             raise ClosedFileError(
-- 
2.43.0


From c7484dfc6c13d451a507bfad1555c0ac5bfaf0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:39 +0000
Subject: [PATCH 20/55] fix: remove partially dumped data if dump fails

Otherwise an incomplete object could be loaded without any error and dumping
to the same path again was rejected.
---
 hickle/hickle.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9de9f5f..6b6981b 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -228,12 +228,21 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         elif h_root_group.items():
             raise ValueError("Unable to create group (name already exists)")
 
+        root_attrs = set(h_root_group.attrs)
         h_root_group.attrs["HICKLE_VERSION"] = __version__
         h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
 
-        with LoaderManager.create_manager(h_root_group,False,options) as loader:
-            with ReferenceManager.create_manager(h_root_group) as memo:
-                _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
+        try:
+            with LoaderManager.create_manager(h_root_group,False,options) as loader:
+                with ReferenceManager.create_manager(h_root_group) as memo:
+                    _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
+        except BaseException:
+            # do not leave partially dumped data behind, which could be mistaken
+            # for the complete object on load
+            h_root_group.clear()
+            for name in set(h_root_group.attrs) - root_attrs:
+                del h_root_group.attrs[name]
+            raise
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
         h5f.flush()
-- 
2.43.0


From c057588649a958f161ee5b4b26d2b54911980802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 21/55] fix: load hickle 3.x files from file like objects and
 h5py groups

---
 hickle/hickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 6b6981b..6fb4cfe 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -366,7 +366,7 @@ def load(file_obj, path='/', safe=True, filename = None):
             from hickle import legacy_v3
             warnings.warn("Input argument 'file_obj' appears to be a file made"
                           " with hickle v3. Using legacy load...")
-            return(legacy_v3.load(file_obj, path, safe))
+            return(legacy_v3.load(h5f, path, safe))
 
         # Else, check if the proper attributes for v4 loading are available
         if all(map(h_root_group.attrs.get, v4_attrs)):
-- 
2.43.0


From fb4c472c116e0447a3398bfed73ca0a315077bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 22/55] fix: load strings of hickle 3.x files

With h5py >= 3.x they were loaded as the string representation of bytes.
---
 hickle/legacy_v3/loaders/load_python3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 9ec82bc..1f15df6 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -142,7 +142,8 @@ def load_bytes_dataset(h_node):
 
 def load_string_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-    return str(data[0])
+    # h5py >= 3.x returns strings as bytes
+    return data[0].decode('utf8') if isinstance(data[0],bytes) else str(data[0])
 
 def load_unicode_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-- 
2.43.0


From 34763278800a34b00d36a23fbff743b8e8a1bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 23/55] fix: load hickle 3.x dicts with non ascii or bool keys

Non ascii keys raised UnicodeEncodeError, a False key was loaded as True.
---
 hickle/legacy_v3/helpers.py | 2 +-
 hickle/legacy_v3/lookup.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index b7e0034..dac7987 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -32,7 +32,7 @@ def sort_keys(key_list):
         key_list2 = []
         for key in key_list:
             if isinstance(key, str):
-                key = bytes(key, 'ascii')
+                key = bytes(key, 'utf8')
             key_list2.append(key)
         key_list = key_list2
 
diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 6ed0d6c..604cd57 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -94,13 +94,13 @@ container_types_dict = {
 container_key_types_dict = {
     b"<type 'str'>": literal_eval,
     b"<type 'float'>": float,
-    b"<type 'bool'>": bool,
+    b"<type 'bool'>": literal_eval,
     b"<type 'int'>": int,
     b"<type 'complex'>": complex,
     b"<type 'tuple'>": literal_eval,
     b"<class 'str'>": literal_eval,
     b"<class 'float'>": float,
-    b"<class 'bool'>": bool,
+    b"<class 'bool'>": literal_eval,
     b"<class 'int'>": int,
     b"<class 'complex'>": complex,
     b"<class 'tuple'>": literal_eval
-- 
2.43.0


From cbb24ffb73bf00a722ef32cdb856adf04d78b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:10 +0000
Subject: [PATCH 24/55] fix: do not add item attributes to meta data of astropy
 Table inside containers

---
 hickle/loaders/load_astropy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 32f5fa6..cca3f45 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -13,6 +13,9 @@ from hickle.loaders.load_numpy import require_hdf5_dtype
 from hickle.helpers import NotHicklable,no_compression,load_str_list_attr_ascii,load_str_attr_ascii
 
 
+# attributes of hdf5 node of Table which are not part of its meta data
+_table_node_attrs = {'type','base_type','colnames','item_index','key_idx','key_base_type'}
+
 # %% FUNCTION DEFINITIONS
 def encode_unit(unit):
     """
@@ -243,7 +246,7 @@ def create_astropy_table(py_obj, h_group, name, **kwargs):
         col.description is None and not col.meta and col.name.isascii()
         for col in py_obj.columns.values()
     ) or not all(
-        isinstance(key,str) and key and key not in ('type','base_type','colnames') and
+        isinstance(key,str) and key and key not in _table_node_attrs and
         ( isinstance(value,(str,float)) or isinstance(value,int) and value.bit_length() < 64 ) and
         '\0' not in '{}{}'.format(key,value)
         for key,value in py_obj.meta.items()
@@ -428,7 +431,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames'}
+            if metakey not in _table_node_attrs
         }
     )
     return t
-- 
2.43.0


From ec606fc53146bc26485b39d368e27ce5f5416ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:07 +0000
Subject: [PATCH 25/55] fix: load hickle 3.x lists of bytes which are not valid
 utf8

---
 hickle/legacy_v3/loaders/load_python3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 1f15df6..b1cbff3 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -121,8 +121,8 @@ def load_list_dataset(h_node):
     py3_str_type = get_py3_string_type(h_node)
 
     if py3_str_type == b"<class 'bytes'>":
-        # Yuck. Convert numpy._bytes -> str -> bytes
-        return [bytes(str(item, 'utf8'), 'utf8') for item in data]
+        # Convert numpy.bytes_ -> bytes
+        return [bytes(item) for item in data]
     if py3_str_type == b"<class 'str'>":
         return [str(item, 'utf8') for item in data]
     else:
-- 
2.43.0


From 57e3f44224ce09fdae4844c634edea50b5c24aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:04 +0000
Subject: [PATCH 26/55] fix: load hickle 4.0 lists of strings containing empty
 or non ascii strings

---
 hickle/loaders/load_builtins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 9ac9409..375b5ff 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -389,7 +389,11 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if str_type in (b'str','str'):
 
         # decode bytes representing python string before final conversion
-        if h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
+        if 'bytes' in h_node.dtype.name and not (isinstance(py_obj_type,type) and issubclass(py_obj_type,str)):
+
+            # list of strings 4.0.x style convert it back to python strings
+            content = np.char.decode(content,'utf8').tolist()
+        elif h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
 
             # string dataset 4.0.x style convert it back to python string
             content = np.asarray(content, dtype=str).tolist()
-- 
2.43.0


From 6d0e77d34c65c4a19c7fa2aa022e39dfbe5fac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:04 +0000
Subject: [PATCH 27/55] fix: load object arrays of hickle 4.0 files before any
 other numpy type

---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index daeea27..b948d18 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1381,6 +1381,10 @@ def type_legacy_mro(cls):
         mro list for cls as returned by type.mro  or in case cls is a function or method
         a single element tuple is returned
     """
+    if cls is _moc_numpy_array_object_lambda:
+        # lambda was used as type of numpy object arrays only, ensure that loader for
+        # numpy is available even if no other numpy type has been encountered yet
+        return (np.ndarray,cls)
     if isinstance(
         cls,
         (types.FunctionType,types.BuiltinFunctionType,types.MethodType,types.BuiltinMethodType)
-- 
2.43.0


From dd744ff4d6dc52a259fa9f9231da9022487d6f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:45 +0000
Subject: [PATCH 28/55] fix: load arrays of single character strings of hickle
 4.0 files

---
 hickle/loaders/load_numpy.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index a55c84e..42032d7 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -278,6 +278,33 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     return np.array(h_node[()], dtype=dtype)
 
 
+def load_hickle_4_x_ndarray(h_node,base_type,py_obj_type):
+    """
+    loads ndarray like object from dataset stored by hickle 4.x
+
+    Parameters
+    ----------
+    h_node (h5py.Dataset):
+        the hdf5 node to load data from
+
+    base_type (bytes):
+        bytes string denoting base_type
+
+    py_obj_type (numpy.ndarray, numpy.ma.array, ...):
+        final type of restored array
+
+    Returns
+    -------
+    resulting numpy.ndarray, numpy.ma.array
+    """
+    dtype = np.dtype(h_node.attrs['np_dtype'])
+    if "str" in dtype.name and 'bytes' in h_node.dtype.name:
+        # each string is stored as one item of the dataset, also if all of them
+        # consist of one single character
+        return np.asarray(h_node[()],dtype=dtype)
+    return load_ndarray_dataset(h_node,base_type,py_obj_type)
+
+
 def load_ndarray_masked_dataset(h_node,base_type,py_obj_type):
     """
     restores masked array from data and mask datasets as stored by
@@ -363,6 +390,7 @@ class_register = [
     [np.generic, b"np_scalar", create_np_scalar_dataset, load_np_scalar_dataset,None,False],
 
     [np.ndarray, b"ndarray", create_np_array_dataset, load_ndarray_dataset,NDArrayLikeContainer],
+    [np.ndarray, b"ndarray", None, load_hickle_4_x_ndarray,None,True,'hickle-4.x'],
     [np.ma.core.MaskedArray, b"ndarray_masked", create_np_masked_array_dataset, None,NDMaskedArrayContainer],
 
     # NOTE: The following is load only
-- 
2.43.0


From 1666e8a01013fcc3dc010f2a1c82fe43b1d6dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:59 +0000
Subject: [PATCH 29/55] fix: refuse to exclude loaders managed by hickle core

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index b948d18..518afe0 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1038,7 +1038,7 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
-        if hkl_str_to_ignore[0] == hkl_str_to_ignore[-1] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
+        if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
                     hkl_str_to_ignore
-- 
2.43.0


From ccfda7093135893a6193aec4ee68199515752ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:12 +0000
Subject: [PATCH 30/55] fix: recover dict keys and set items of missing
 classes, warn about pickled ones

---
 hickle/lookup.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 518afe0..278e1fb 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -205,6 +205,9 @@ class RecoveredGroup(dict,AttemptRecoverCustom):
 
     __slots__ = ('attrs',)
 
+    # may have to replace the key of a dict or the item of a set
+    __hash__ = object.__hash__
+
     def __init__(self,*args,attrs={},**kwargs):
         super().__init__(*args,**kwargs)
         self.attrs={name:value for name,value in attrs.items() if name not in {'type'}}
@@ -217,6 +220,9 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
 
     __slots__ = ('attrs',)
 
+    # may have to replace the key of a dict or the item of a set
+    __hash__ = object.__hash__
+
     def __new__(cls,input_array,dtype=None,attrs={}):
         array_copy = np.array(input_array,dtype=dtype)
         obj = super().__new__(
@@ -1511,6 +1517,12 @@ def load_pickled_data(h_node, base_type, py_obj_type):
     try:
         return pickle.loads(h_node[()])
     except (ImportError,AttributeError):
+        warnings.warn(
+            "class required to restore pickled object missing. Data recovered ({})".format(
+                h_node.name.rsplit('/')[-1]
+            ),
+            DataRecoveredWarning
+        )
         return RecoveredDataset(h_node[()],dtype = h_node.dtype,attrs = dict(h_node.attrs))
 
         
-- 
2.43.0


From 2819b90ea2ebdbd633eefccd12dd035962b5877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:23 +0000
Subject: [PATCH 31/55] fix: recover empty lists, tuples and sets of missing
 classes

---
 hickle/lookup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 278e1fb..0544ae5 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1546,7 +1546,9 @@ def recover_custom_dataset(h_node,base_type,py_obj_type):
     )
     attrs = dict(h_node.attrs)
     attrs['base_type'] = base_type
-    return RecoveredDataset(h_node[()],dtype=h_node.dtype,attrs=attrs)
+    # dataset of empty list, tuple or set has no data
+    data = h_node[()] if h_node.shape is not None else ()
+    return RecoveredDataset(data,dtype=h_node.dtype,attrs=attrs)
 
 class RecoverGroupContainer(PyContainer):
     """
-- 
2.43.0


From d9b7520da84d9001469965159442e641d52474bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 32/55] fix: garbage collected manager must not drop the
 manager of a later dump or load of the same file

---
 hickle/lookup.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 0544ae5..be49a55 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -271,7 +271,7 @@ class BaseManager(metaclass = ManagerMeta):
     __managers__ = None
 
     @classmethod
-    def _drop_manager(cls, fileid):
+    def _drop_manager(cls, fileid, owner = None):
         """
         finalizer callback to properly remove a <manager> object from
         the <manager>.__managers__ structure when corresponding file is
@@ -286,10 +286,15 @@ class BaseManager(metaclass = ManagerMeta):
         fileid (h5py.FileId):
             Id identifying the hdf5 file the ReferenceManager was created for
 
+        owner (weakref.ref):
+            if set drop the manager only if it is the one referred to by owner. A
+            manager may be garbage collected long after it has been replaced by another
+            one created for the same file.
+
         """
         try:
             manager = cls.__managers__.get(fileid,None)
-            if manager is None:
+            if manager is None or (owner is not None and manager[0] is not owner()):
                 return
             cls.__managers__.pop(fileid,None)
         except: # pragma: no cover
@@ -331,7 +336,7 @@ class BaseManager(metaclass = ManagerMeta):
             )
         )
         table = cls.__managers__[h_node.file.id] = create_entry()
-        weakref.finalize(table[0],cls._drop_manager,h_node.file.id)
+        weakref.finalize(table[0],cls._drop_manager,h_node.file.id,weakref.ref(table[0]))
         return table[0]
 
     @classmethod
-- 
2.43.0


From 78191edf66879c6a89ddebeec629660a962a54f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:24 +0000
Subject: [PATCH 33/55] fix: loading 4.x files whose names differ by extension
 only at the same time

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index be49a55..cf5cbb6 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -534,7 +534,7 @@ class ReferenceManager(BaseManager, dict):
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-                    '{}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0]),
+                    '{}.{:x}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0],id(self)),
                     mode='w', driver='core',backing_store=False
                 )
                 self._py_obj_type_table = h5_overlay.create_group("hickle_types_table",track_order = True)
-- 
2.43.0


From d1ada9b097d2cbc5a1592b5a69d41f4d70564535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 34/55] fix: dump and load objects of classes defined in
 modules without spec

---
 hickle/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index cf5cbb6..bdaf47d 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1273,7 +1273,11 @@ class LoaderManager(BaseManager):
                     if not package_file:
                         package_spec = getattr(sys.modules.get(package_list[0],None),'__spec__',None)
                         if package_spec is None:
-                            package_spec = find_spec(package_list[0])
+                            try:
+                                package_spec = find_spec(package_list[0])
+                            except ValueError:
+                                # module created at runtime
+                                continue
                         if not getattr(package_spec,'has_location',False):
                             # can't resolve package or base module hosting mro_item
                             continue
-- 
2.43.0


From bf5f9dc873e728d10c597349270bb932f73c0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 35/55] fix: dump and load objects of classes imported from zip
 archives

---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index bdaf47d..1f7474f 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1288,11 +1288,11 @@ class LoaderManager(BaseManager):
                     )
                     try:
                         fid = open(package_loader_path,'rb')
-                    except FileNotFoundError:
+                    except (FileNotFoundError,NotADirectoryError):
                         try:
                             package_loader_path += 'c'
                             fid = open(package_loader_path,'rb')
-                        except FileNotFoundError:
+                        except (FileNotFoundError,NotADirectoryError):
                             # no file for loader module found
                             continue
                         else:
-- 
2.43.0


From 087bc75b51ddbf87fadb03a59f6110eeaf91b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:40 +0000
Subject: [PATCH 36/55] fix: flags are restored from plain integers

A new process, which has not come across the combination of flags before,
refused to restore it from a numpy integer or the text of a large one.
---
 hickle/loaders/load_builtins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 375b5ff..84f8e4d 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -336,6 +336,9 @@ def load_scalar_dataset(h_node, base_type, py_obj_type):
     """
     data = h_node[()] if h_node.size < 2 else memoryview(h_node[()])
 
+    # subclasses of int like enum.IntFlag may not accept anything but plain int
+    if issubclass(py_obj_type,int):
+        data = int(data)
 
     return py_obj_type(data) if data.__class__ is not py_obj_type else data
 
-- 
2.43.0


From bde442e1d2ac328138f1b8255eae5dcd7ba190eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:55 +0000
Subject: [PATCH 37/55] fix: object arrays whose items numpy can not convert
 are pickled

numpy raises RuntimeError for some mixtures of lists and quantities.
---
 hickle/loaders/load_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 42032d7..dc99dac 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -122,7 +122,8 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
         # content is stored as nested list, verify that shape can be restored from it
         try:
             listed_shape = np.array(py_obj.tolist(),dtype = dtype).shape
-        except ValueError:
+        except Exception:
+            # items may be anything which numpy tries to convert into an array
             listed_shape = None
         if listed_shape != py_obj.shape or py_obj.size < 1:
             raise NotHicklable("shape of array can not be restored")
-- 
2.43.0


From 561594f07548a0ed63e63f1f2681ebbbfa7e0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:20 +0000
Subject: [PATCH 38/55] fix: keep arrays without dimensions held by object
 arrays

Building an array from the stored list unwraps them; such arrays are pickled.
---
 hickle/loaders/load_numpy.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index dc99dac..c8e809d 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -119,14 +119,17 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     dtype = py_obj.dtype
 
     if "str" in dtype.name or dtype.name == 'object':
-        # content is stored as nested list, verify that shape can be restored from it
+        # content is stored as nested list, verify that shape and, in case of
+        # objects, items can be restored from it
         try:
-            listed_shape = np.array(py_obj.tolist(),dtype = dtype).shape
+            listed = np.array(py_obj.tolist(),dtype = dtype)
         except Exception:
             # items may be anything which numpy tries to convert into an array
-            listed_shape = None
-        if listed_shape != py_obj.shape or py_obj.size < 1:
+            listed = None
+        if listed is None or listed.shape != py_obj.shape or py_obj.size < 1:
             raise NotHicklable("shape of array can not be restored")
+        if dtype.name == 'object' and any(item is not py_item for item,py_item in zip(listed.flat,py_obj.flat)):
+            raise NotHicklable("items of array can not be restored")
 
     # Check if py_obj contains strings
     if "str" in dtype.name:
-- 
2.43.0


From 581661964add15ca0b83e718a3537f2cad21757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:57 +0000
Subject: [PATCH 39/55] fix: load single quantities from hickle 3 files with
 numpy 2

---
 hickle/legacy_v3/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/legacy_v3/loaders/load_astropy.py b/hickle/legacy_v3/loaders/load_astropy.py
index 17ca3d4..fa6d640 100644
--- a/hickle/legacy_v3/loaders/load_astropy.py
+++ b/hickle/legacy_v3/loaders/load_astropy.py
@@ -147,7 +147,7 @@ def create_astropy_table(py_obj, h_group, call_id=0, **kwargs):
 def load_astropy_quantity_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
     unit = h_node.attrs["unit"][0]
-    q = Quantity(data, unit, copy=False)
+    q = Quantity(data, unit)
     return q
 
 def load_astropy_time_dataset(h_node):
-- 
2.43.0


From fa63c4f9d8026035d809976b51970b52355a8836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:57 +0000
Subject: [PATCH 40/55] fix: load data which was added to a hickle 3 file

---
 hickle/hickle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 6fb4cfe..24fafb4 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -339,8 +339,10 @@ def load(file_obj, path='/', safe=True, filename = None):
         v3_attrs = ['CLASS', 'VERSION', 'PYTHON_VERSION']
         v4_attrs = ['HICKLE_VERSION', 'HICKLE_PYTHON_VERSION']
 
-        # Check if the proper attributes for v3 loading are available
-        if all(map(h5f.attrs.get, v3_attrs)):
+        # Check if the proper attributes for v3 loading are available. Data which
+        # was added later to a v3 file is marked by the v4 attributes of its group
+        if (all(map(h5f.attrs.get, v3_attrs)) and
+                not all(map(h_root_group.attrs.get, v4_attrs))):
             # Check if group attribute 'CLASS' has value 'hickle
             if(h5f.attrs['CLASS'] not in ( b'hickle','hickle')):  # pragma: no cover
                 # If not, raise error
-- 
2.43.0


From 6160b7346a8a2d7838e2f3b8bfa331ee1fec86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:57 +0000
Subject: [PATCH 41/55] fix: keep hickle 3 data loadable after other data was
 added to its group

---
 hickle/legacy_v3/hickle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 1653682..174b9cc 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -599,6 +599,9 @@ def _load(py_container, h_group):
 
         for h_name in h_keys:
             h_node = h_group[h_name]
+            if py_subcontainer.container_type == b'hickle' and 'type' not in h_node.attrs:
+                # not part of this hickle, added to the file by newer versions
+                continue
             py_subcontainer = _load(py_subcontainer, h_node)
 
         sub_data = py_subcontainer.convert()
-- 
2.43.0


From bc867a6dbdeafffc52fe87758e12278ba4b42e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:09 +0000
Subject: [PATCH 42/55] fix: dump structured arrays and tables whose dtype is
 too large for HDF5

---
 hickle/loaders/load_numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index c8e809d..fdbc982 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -29,7 +29,9 @@ def require_hdf5_dtype(dtype):
         the dtype of the array or scalar to be dumped
     """
     try:
-        supported = h5py.h5t.py_create(dtype,logical=True).dtype == dtype
+        h5_type = h5py.h5t.py_create(dtype,logical=True)
+        # description of dtype has to fit into one single message of HDF5 object header
+        supported = h5_type.dtype == dtype and len(h5_type.encode()) < 0xFF00
     except (TypeError,ValueError):
         supported = False
     if not supported:
-- 
2.43.0


From e93954ba86ec034fd54d64884e3187e10dce65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:59 +0000
Subject: [PATCH 43/55] fix: dump arrays of more than 32 dimensions

---
 hickle/loaders/load_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index fdbc982..205a82a 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -159,6 +159,8 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ("data",py_obj,{},kwargs),
     else:
         require_hdf5_dtype(dtype)
+        if py_obj.ndim > 32:
+            raise NotHicklable("HDF5 supports 32 dimensions at most")
         h_node = h_group.create_dataset(
             name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
-- 
2.43.0


From 979362ed2d4d6c5f6c5a0c9d46e0e2e60a7150ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:17 +0000
Subject: [PATCH 44/55] fix: accept filename argument along with (file,name)
 tuple or dict

the documentation states that the name inside tuple or dict takes precedence,
but passing filename too was rejected with FileError
---
 hickle/fileio.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index cae4e10..0b40eb1 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -166,19 +166,18 @@ def file_opener(f, path, mode='r',filename = None):
         return f,''.join((base_path,path.rstrip('/'))),False
 
     # get the name of the file
-    if not isinstance(filename,(str,bytes)):
-        if filename is not None:
-            raise ValueError("'filename' must be of type 'str' or 'bytes'")
-        if isinstance(f,(tuple,list)) and len(f) > 1:
-            f,filename = f[:2]
-        elif isinstance(f,dict):
-            f,filename = f['file'],f['name']
-        else:
-            filename = getattr(f,'filename',None)
+    if not isinstance(filename,(str,bytes)) and filename is not None:
+        raise ValueError("'filename' must be of type 'str' or 'bytes'")
+    if isinstance(f,(tuple,list)) and len(f) > 1:
+        f,filename = f[:2]
+    elif isinstance(f,dict):
+        f,filename = f['file'],f['name']
+    elif filename is None:
+        filename = getattr(f,'filename',None)
+        if filename is None:
+            filename = getattr(f,'name',None)
             if filename is None:
-                filename = getattr(f,'name',None)
-                if filename is None:
-                    filename = repr(f)
+                filename = repr(f)
     if getattr(f,'closed',False):
         raise ClosedFileError(
             "HDF5 file {}has been closed or h5py.Group or h5py.Dataset are not accessible. "
-- 
2.43.0


From 7cad0e4d504a82896a1f5255c618058a5dbb7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:17 +0000
Subject: [PATCH 45/55] fix: do not apply chunks, scaleoffset, maxshape and
 fillvalue to the type table

explicit chunks and scaleoffset, as advertised in README, and maxshape and
fillvalue made any dump fail even if they fit the dumped arrays, because they
were also used for the internal hickle_types_table entries
---
 hickle/helpers.py | 3 ++-
 hickle/lookup.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/helpers.py b/hickle/helpers.py
index b0f3e30..d3f776a 100644
--- a/hickle/helpers.py
+++ b/hickle/helpers.py
@@ -194,7 +194,8 @@ class no_compression(dict):
 
     # list of keyword parameters to filter
     __filter_keys__ = {
-        "compression", "shuffle", "compression_opts", "chunks", "fletcher32", "scaleoffset"
+        "compression", "shuffle", "compression_opts", "chunks", "fletcher32", "scaleoffset",
+        "maxshape", "fillvalue"
     }
 
     def __init__(self, mapping):
diff --git a/hickle/lookup.py b/hickle/lookup.py
index 1f7474f..769135b 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -664,7 +664,7 @@ class ReferenceManager(BaseManager, dict):
                 str(len(self._py_obj_type_table)),
                 data=type_entry,
                 shape=(1,type_entry.size),
-                **kwargs
+                **no_compression(kwargs)
             )
             # assign a reference to base_type entry within 'hickle_types_table' to
             # the 'base_type' attribute of the newly created py_obj_type entry.
-- 
2.43.0


From d64a917da7ee50a90d15926f805ec816b3e2fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 46/55] fix: drop the ReferenceManager of the file loaded from,
 not of the overlay

Loading a hickle 4.0.x file opened read only creates the types table in an
in memory overlay. On exit the manager registered for the overlay was
dropped, the one of the file itself remained and any further load through
the same h5py handle failed.
---
 hickle/lookup.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 769135b..584e05f 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -399,6 +399,7 @@ class ReferenceManager(BaseManager, dict):
         '_py_obj_type_link', # dictionary linking py_obj_type and representation in hickle_types_table
         '_base_type_link', # dictionary linking base_type string and representation in hickle_types_table
         '_overlay', # in memory hdf5 dummy file hosting dummy hickle_types_table for hickle 4.x files
+        '_h_root_group', # h5py.Group the manager has been created for
         'pickle_loads' # reference to pickle.loads method
     )
 
@@ -519,6 +520,7 @@ class ReferenceManager(BaseManager, dict):
         self._py_obj_type_link = dict()
         self._base_type_link = dict()
         self._overlay = None
+        self._h_root_group = h_root_group
         self.pickle_loads = pickle_loads
 
         # get the 'hickle_types_table' member of h_root_group or create it anew
@@ -843,8 +845,11 @@ class ReferenceManager(BaseManager, dict):
 
         # remove this ReferenceManager object from the table of active ReferenceManager objects
         # and cleanly unlink from any h5py object instance and id references managed. Finalize
-        # 'hickle_types_table' overlay if it was created by __init__ for hickle 4.x file
-        super().__exit__(exc_type, exc_value, exc_traceback, self._py_obj_type_table)
+        # 'hickle_types_table' overlay if it was created by __init__ for hickle 4.x file. The
+        # overlay is not part of the file this ReferenceManager was created for
+        if self._h_root_group:
+            super().__exit__(exc_type, exc_value, exc_traceback, self._h_root_group)
+        self._h_root_group = None
         self._py_obj_type_table = None
         self._py_obj_type_link = None
         self._base_type_link = None
-- 
2.43.0


From 0e0c0f076baeceda0941bef07072eb794234ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:06 +0000
Subject: [PATCH 47/55] fix: do not keep the file of a loaded sparse matrix
 open until garbage collection

The bound method stored on SparseMatrixContainer made it refer to itself.
A file reached through an external link stayed open after load returned.
---
 hickle/loaders/load_scipy.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/hickle/loaders/load_scipy.py b/hickle/loaders/load_scipy.py
index 1e8f2cf..1097bef 100644
--- a/hickle/loaders/load_scipy.py
+++ b/hickle/loaders/load_scipy.py
@@ -62,10 +62,9 @@ class SparseMatrixContainer(PyContainer):
     PyContainer used to restore sparse Matrix
     """
 
-    # instance attribute shadowing class method of same name
-    # points per default to shadowed method
-    __slots__ = ('filter',)
-    
+    # flag indicating that group was created by hickle 4.x
+    __slots__ = ('_legacy',)
+
     _index_name_map = {
         'data':0,
         'indices':1,
@@ -75,14 +74,16 @@ class SparseMatrixContainer(PyContainer):
 
     def __init__(self,h5_attrs, base_type, object_type):
         super(SparseMatrixContainer,self).__init__(h5_attrs,base_type,object_type,_content = [None]*4)
-        
-        # in case object type is return_first (hickle 4.x file) than switch filter
-        # to redirect loading of sub items to numpy ndarray type. Otherwise set to 
-        # PyContainer.filter method
-        if object_type is return_first:
-            self.filter = self._redirect_to_ndarray
-        else:
-            self.filter = super(SparseMatrixContainer,self).filter
+        self._legacy = object_type is return_first
+
+    def filter(self,h_parent):
+        # in case object type was return_first (hickle 4.x file) redirect loading of
+        # sub items to numpy ndarray type. Otherwise use PyContainer.filter method.
+        # NOTE: storing bound methods on the container would keep it and thereby the
+        #       file h_parent belongs to alive until collected by the garbage collector
+        if self._legacy:
+            return self._redirect_to_ndarray(h_parent)
+        return super(SparseMatrixContainer,self).filter(h_parent)
 
     def _redirect_to_ndarray(self,h_parent):
         """
-- 
2.43.0


From 753cbf97d9ee0a54bf7cb207d416d041d2872b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 48/55] fix: integers of any size can be dumped

Python refuses to convert integers of more than 4300 digits to decimal, and
subclasses of int may provide their own __str__ method.
---
 hickle/loaders/load_builtins.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 84f8e4d..f739262 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -74,7 +74,13 @@ def create_scalar_dataset(py_obj, h_group, name, **kwargs):
     # the sign is not counted by bit_length thus any integer which has more than
     # 63 bits has to be converted into string
     if isinstance(py_obj, int) and (py_obj.bit_length() > 63):# and ( py_obj < -2**63 or py_obj >= 2**63 ) :
-        return h_group.create_dataset(name,data = bytearray(str(py_obj), 'ascii'),**kwargs),()
+        # subclasses may provide their own __str__ method and the number of decimal digits
+        # python is willing to convert is limited, contrary to hexadecimal ones
+        try:
+            digits = int.__repr__(py_obj)
+        except ValueError:
+            digits = hex(py_obj)
+        return h_group.create_dataset(name,data = bytearray(digits, 'ascii'),**kwargs),()
 
     return h_group.create_dataset(name, data=py_obj, **no_compression(kwargs)),()
 
@@ -305,8 +311,12 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
             elif ( key is None or key.__class__ in python_number_types ) and key == key:
-                h_key = "{!r}".format(key)
-                if not _str_slashes.search(h_key):
+                try:
+                    h_key = "{!r}".format(key)
+                except ValueError:
+                    # integer exceeds limit of decimal digits
+                    h_key = None
+                if h_key is not None and not _str_slashes.search(h_key):
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
             sub_node_name = key_value_pair_name.format(idx)
@@ -338,7 +348,7 @@ def load_scalar_dataset(h_node, base_type, py_obj_type):
 
     # subclasses of int like enum.IntFlag may not accept anything but plain int
     if issubclass(py_obj_type,int):
-        data = int(data)
+        data = int(data) if h_node.size < 2 else int(bytes(data),0)
 
     return py_obj_type(data) if data.__class__ is not py_obj_type else data
 
-- 
2.43.0


From c4bafb3b26d63b4e38356f04c8f49c706f17143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:06 +0000
Subject: [PATCH 49/55] fix: recover data of classes whose module fails to
 import

Types of pickled objects and of table entries restored when writing already
were recovered on any ImportError, those of nodes loaded only if the module
did not exist at all.
---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 584e05f..4b47cc0 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -775,7 +775,7 @@ class ReferenceManager(BaseManager, dict):
                 # set is_container_flag to True if h_node is h5py.Group type object and false
                 # otherwise
                 return self.pickle_loads(type_ref), h_node.attrs.get('base_type', b'pickle'), isinstance(h_node, h5.Group)
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 # module missing or py_object_type not provided by module
                 return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type == 2 else b'!recover!' ),isinstance(h_node,h5.Group)
             except (TypeError, pickle.UnpicklingError, EOFError):
@@ -821,7 +821,7 @@ class ReferenceManager(BaseManager, dict):
                     self._base_type_link[base_type_entry.id] = base_type
             try:
                 py_obj_type = self.pickle_loads(entry[()])
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 py_obj_type = AttemptRecoverCustom
                 entry_link = (py_obj_type,b'!recover!',base_type)
             else:
-- 
2.43.0


From c66084199ff8335dbbf861c7062ae6e51d2d03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:50 +0000
Subject: [PATCH 50/55] fix: restore dtype and wrap angle of SkyCoord

Coordinates are stored as float64 and loaded using the default wrap angle,
fall back to pickle for any other.
---
 hickle/loaders/load_astropy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index cca3f45..cf5c4b4 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -121,9 +121,11 @@ def create_astropy_skycoord(py_obj, h_group, name, **kwargs):
     if (
         py_obj.data.__class__ is not UnitSphericalRepresentation or
         py_obj.data.differentials or
+        py_obj.data.lon.dtype != 'float64' or py_obj.data.lat.dtype != 'float64' or
+        py_obj.data.lon.wrap_angle != Longitude(0,'deg').wrap_angle or
         not py_obj.is_equivalent_frame(SkyCoord(0,0,unit='deg'))
     ):
-        raise NotHicklable("only longitude and latitude within default frame supported")
+        raise NotHicklable("only float64 longitude and latitude within default frame supported")
     lon = py_obj.data.lon.value
     lat = py_obj.data.lat.value
     dd = np.stack((lon, lat), axis=-1)
-- 
2.43.0


From 69aa56185a5dba41dad3eeee539f7fc51823294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:50 +0000
Subject: [PATCH 51/55] fix: dump astropy Constants of any dtype, text and unit

Constants described by non-ASCII text could not be dumped and values of
other dtypes were loaded as float64. Fall back to pickle for these.
---
 hickle/loaders/load_astropy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index cf5c4b4..bfd4884 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -209,9 +209,15 @@ def create_astropy_constant(py_obj, h_group, name, **kwargs):
     tuple containing h5py.Dataset representing astropy constant and empty subitems list
     """
 
+    if py_obj.dtype != 'float64' or not all(
+        text.isascii() and '\0' not in text
+        for text in (py_obj.abbrev, py_obj.name, py_obj.reference, py_obj.system or '')
+    ):
+        raise NotHicklable("only float64 value and ASCII texts supported")
+    unit = encode_unit(py_obj.unit)
     d = h_group.create_dataset(name, data=py_obj.value, dtype='float64',
                                **no_compression(kwargs))
-    d.attrs["unit"] = py_obj.unit.to_string().encode('ascii')
+    d.attrs["unit"] = unit
     d.attrs["abbrev"] = py_obj.abbrev.encode('ascii')
     d.attrs["name"] = py_obj.name.encode('ascii')
     d.attrs["reference"] = py_obj.reference.encode('ascii')
-- 
2.43.0


From 554816a04e7a86e2e6b7e0cc7550f9e9ec85d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:14 +0000
Subject: [PATCH 52/55] fix: loading v3 files does not change the h5py.File
 object of the caller

legacy_v3 turns the file object passed into an instance of its own class, which
overrides track_times of datasets created by the caller later on.
---
 hickle/hickle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 24fafb4..1226341 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -368,7 +368,8 @@ def load(file_obj, path='/', safe=True, filename = None):
             from hickle import legacy_v3
             warnings.warn("Input argument 'file_obj' appears to be a file made"
                           " with hickle v3. Using legacy load...")
-            return(legacy_v3.load(h5f, path, safe))
+            # legacy_v3 modifies the file object passed, do not touch the one of the caller
+            return(legacy_v3.load(h5.File(h5f.id), path, safe))
 
         # Else, check if the proper attributes for v4 loading are available
         if all(map(h_root_group.attrs.get, v4_attrs)):
-- 
2.43.0


From 59ac24a0231d4b3a9876223407ff2f12ec401425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:32 +0000
Subject: [PATCH 53/55] fix: restore class of record arrays and other
 numpy.ndarray derived types

They were loaded as numpy.ndarray and could not be loaded at all if they consist
of strings, records were loaded as numpy.void.
---
 hickle/loaders/load_numpy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 205a82a..856a474 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -244,6 +244,8 @@ def load_np_scalar_dataset(h_node,base_type,py_obj_type):
     """
 
     dtype = np.dtype(h_node.attrs["np_dtype"])
+    if issubclass(py_obj_type,np.record):
+        return np.array(h_node[()]).view(np.recarray)[()]
     return dtype.type(h_node[()])
 
 
@@ -280,10 +282,10 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
         dtype = h_node.dtype
     if issubclass(py_obj_type,np.matrix):
         return py_obj_type(data=h_node[()],dtype=dtype)
-    # TODO how to restore other ndarray derived object_types
-    # simply using classname for casting does not work, in
+    # simply calling ndarray derived object_types does not work, in
     # case they use the same interface like numpy.ndarray
-    return np.array(h_node[()], dtype=dtype)
+    data = np.array(h_node[()], dtype=dtype)
+    return data if data.__class__ is py_obj_type else data.view(py_obj_type)
 
 
 def load_hickle_4_x_ndarray(h_node,base_type,py_obj_type):
@@ -363,7 +365,7 @@ class NDArrayLikeContainer(ListLikeContainer):
     
     def convert(self):
         data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
-        return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
+        return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else data.view(self.object_type)
 
 class NDMaskedArrayContainer(PyContainer):
     """
-- 
2.43.0


From b7f056287b215df946339a062bdda30d4e4cc126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:32 +0000
Subject: [PATCH 54/55] fix: do not lose state of numpy.ndarray derived types

Types which describe by __reduce__ how to restore them, eg. astropy.table.Column,
were reduced to their items. Let pickle handle them.
---
 hickle/loaders/load_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 856a474..ba88912 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -117,6 +117,10 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     and iterable of subitems
     """
 
+    if py_obj.__class__.__reduce__ is not np.ndarray.__reduce__:
+        # has to restore more than its items
+        raise NotHicklable("state of '{}' not supported".format(py_obj.__class__.__name__))
+
     # Obtain dtype of py_obj
     dtype = py_obj.dtype
 
-- 
2.43.0


From 4a826849741c693546862cad4e5a058f00140cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:16 +0000
Subject: [PATCH 55/55] fix: restore class of 0-dimensional string arrays of
 numpy.ndarray derived type

---
 hickle/loaders/load_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index ba88912..be035df 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -280,7 +280,8 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
             # not converted to list of string but saved as ar consequently
             # itemsize of dtype is > 1
             string_data = bytes(string_data).decode("utf8")
-        return np.asarray(string_data,dtype=dtype)
+        data = np.asarray(string_data,dtype=dtype)
+        return data if data.__class__ is py_obj_type else data.view(py_obj_type)
     if dtype.kind == 'V':
         # structure is not described by np_dtype attribute but by the dataset itself
         dtype = h_node.dtype
-- 
2.43.0

