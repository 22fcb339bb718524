From ae16789800ec88840df721f8244740fc4411e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 01/27] fix: select per dimension when integers and a sequence
 are mixed in an adapter's keys

---
 biggus/_init.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..8f7b1ef 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1511,7 +1511,8 @@ class NumpyArrayAdapter(_ArrayAdapter):
         keys = self._keys
         tuple_keys = [(i, key) for i, key in enumerate(keys)
                       if isinstance(key, tuple)]
-        if len(tuple_keys) > 1:
+        has_scalar = any(map(_is_scalar, keys))
+        if len(tuple_keys) > 1 or (tuple_keys and has_scalar):
             # Since we're potentially dealing with very large datasets
             # we want to cut down the array as much as possible in the
             # first iteration.
@@ -1539,7 +1540,9 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
             for i, key in tuple_keys:
-                array = np.take(array, key, axis=dimensions[i])
+                # (An empty tuple needs to be told that it holds integers.)
+                array = np.take(array, np.array(key, dtype=int),
+                                axis=dimensions[i])
         else:
             array = self.concrete.__getitem__(keys)
         return array
-- 
2.43.0


From 52dfae3eeaee30b7b9ced778ba661b710970c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 02/27] fix: turn boolean mask keys of adapters into indices,
 so they can be indexed again and combined

---
 biggus/_init.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 8f7b1ef..7409e10 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1322,7 +1322,7 @@ class _ArrayAdapter(Array):
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
             result_key = self._cleanup_new_key(key, size, axis)
-            result_keys.append(key)
+            result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
     @property
@@ -1365,6 +1365,9 @@ class _ArrayAdapter(Array):
                       'of size {0} is greater than axis {1} with ' \
                       'size {2}'.format(key.size, axis, size)
                 raise IndexError(msg)
+            # Use the equivalent indices, which can be indexed again and
+            # are independent of the keys for other dimensions.
+            key = tuple(np.nonzero(key)[0])
         elif isinstance(key, collections.Iterable) and \
                 not isinstance(key, six.string_types):
             # Make sure we capture the values in case we've
-- 
2.43.0


From 27d546eddd2728dff4a85d5b82cc5a3a36cf5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 03/27] fix: refuse out-of-range indices of constant arrays and
 of the leading dimensions of broadcast arrays

---
 biggus/_init.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7409e10..371e381 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3201,6 +3201,18 @@ ceil = _ufunc_wrapper(np.ceil)
 trunc = _ufunc_wrapper(np.trunc)
 
 
+def _check_index(index, size, axis):
+    """
+    Raise an IndexError if the integer index is out of bounds for an
+    axis of the given size.
+
+    """
+    if not -size <= index < size:
+        msg = 'index {0} is out of bounds for axis {1} with' \
+              ' size {2}'.format(index, axis, size)
+        raise IndexError(msg)
+
+
 def _sliced_shape(shape, keys):
     """
     Returns the shape that results from slicing an array of the given
@@ -3219,14 +3231,20 @@ def _sliced_shape(shape, keys):
     for key in keys:
         shape_dim += 1
         if _is_scalar(key):
-            continue
+            _check_index(key, shape[shape_dim], shape_dim)
         elif isinstance(key, slice):
             size = len(range(*key.indices(shape[shape_dim])))
             sliced_shape.append(size)
         elif isinstance(key, np.ndarray) and key.dtype == np.dtype('bool'):
             # Numpy boolean indexing.
+            if key.size > shape[shape_dim]:
+                msg = 'too many boolean indices for axis {0} with ' \
+                      'size {1}'.format(shape_dim, shape[shape_dim])
+                raise IndexError(msg)
             sliced_shape.append(builtins.sum(key))
         elif isinstance(key, (tuple, np.ndarray)):
+            for index in key:
+                _check_index(index, shape[shape_dim], shape_dim)
             sliced_shape.append(len(key))
         elif key is np.newaxis:
             shape_dim -= 1
-- 
2.43.0


From 951822ddf0f1325f63fabfb11c37f126f47b6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 04/27] fix: index a mosaic's tiling dimension as its
 concatenation: negative indices and steps, masks, bounds, empty selections

---
 biggus/_init.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 371e381..f94974d 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2005,12 +2005,16 @@ class LinearMosaic(Array):
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
             axis_key = keys[axis]
+            size = self.shape[axis]
             if _is_scalar(axis_key):
+                _check_index(axis_key, size, axis)
+                if axis_key < 0:
+                    axis_key += size
                 # Find the single relevant tile
                 tile_index = np.searchsorted(splits, axis_key) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_key - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2018,10 +2022,21 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
+                elif (isinstance(axis_key, np.ndarray) and
+                        axis_key.dtype == np.dtype('bool')):
+                    if axis_key.size > size:
+                        msg = 'too many boolean indices for axis {0} with ' \
+                              'size {1}'.format(axis, size)
+                        raise IndexError(msg)
+                    all_axis_indices = tuple(np.nonzero(axis_key)[0])
                 else:
                     all_axis_indices = tuple(axis_key)
+                    for index in all_axis_indices:
+                        _check_index(index, size, axis)
+                    all_axis_indices = tuple(index if index >= 0 else
+                                             index + size
+                                             for index in all_axis_indices)
                 tile_indices = np.searchsorted(splits, all_axis_indices) - 1
                 pairs = zip(all_axis_indices, tile_indices)
                 i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
@@ -2044,9 +2059,11 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
+                if not tiles:
+                    # Nothing is selected, but we still need a tile to
+                    # define the other dimensions.
+                    tile_slice[axis] = slice(0, 0)
+                    tiles.append(self._tiles[0][tuple(tile_slice)])
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 15435f8c2fcf0e420ad2fa9e5e6b1a7d38845b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 05/27] fix: index a stack's dimensions independently, and
 allow a selection of none of its items

---
 biggus/_init.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f94974d..948ee97 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1809,13 +1809,25 @@ class ArrayStack(Array):
 
         stack_shape = _sliced_shape(self._stack.shape, stack_keys)
         if stack_shape:
-            stack = self._stack[stack_keys]
-            # If the result was 0D, convert it back to an array.
+            # Apply the keys one at a time, last first, because NumPy would
+            # combine several sequences of indices instead of treating
+            # each dimension independently.
+            stack = self._stack
+            for axis in range(stack_ndim - 1, -1, -1):
+                stack = stack[(slice(None),) * axis + (stack_keys[axis],)]
+            # Don't modify our own stack.
             stack = np.array(stack)
             for index in np.ndindex(stack_shape):
                 item = stack[index]
                 stack[index] = item[item_keys]
-            result = ArrayStack(stack)
+            if stack.size:
+                result = ArrayStack(stack)
+            else:
+                # There are no items left to make a stack from.
+                item_shape = _sliced_shape(self._item_shape, item_keys)
+                empty = ma.empty(stack_shape + item_shape, dtype=self.dtype,
+                                 fill_value=self.fill_value)
+                result = NumpyArrayAdapter(empty)
         else:
             result = self._stack[stack_keys][item_keys]
         return result
-- 
2.43.0


From d87b41b47da0b50e655fead3c633ec102f0577ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 06/27] fix: broadcast and index arrays which already have
 broadcast leading dimensions, of any length, by any key

---
 biggus/_init.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 948ee97..4c95ee7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -898,8 +898,9 @@ class BroadcastArray(ArrayContainer):
         # Compute the broadcast shape.
         shape = self._shape_from_broadcast_dict(self.array.shape, broadcast)
         for length in leading_shape:
-            if length < 1:
-                raise ValueError('Leading shape must all be >=1.')
+            if length < 0:
+                raise ValueError('Leading shape must all be >=1 '
+                                 '(or 0, for an empty array).')
         self._leading_shape = tuple(leading_shape)
         self._broadcast_shape = tuple(shape)
         self._shape = self._leading_shape + self._broadcast_shape
@@ -957,11 +958,34 @@ class BroadcastArray(ArrayContainer):
                                               'implemented.'
                                               ''.format(type(key)))
         # Try to avoid a copy of self.array if we can.
-        if all(key == slice(None) for key in array_keys):
+        if all(isinstance(key, slice) and key == slice(None)
+               for key in array_keys):
             sub_array = self.array
         else:
             sub_array = self.array[tuple(array_keys)]
-        return type(self)(sub_array, new_broadcast_dict, leading_shape)
+        return self._broadcast_array(sub_array, new_broadcast_dict,
+                                     leading_shape)
+
+    @classmethod
+    def _broadcast_array(cls, array, broadcast, leading_shape):
+        """
+        Broadcast an array, where the keys of `broadcast` are dimensions of
+        the given array, even if it is a BroadcastArray with a leading shape.
+
+        """
+        if isinstance(array, BroadcastArray) and array._leading_shape:
+            # Dimensions are counted from the end of the leading shape by
+            # the constructor, so broadcast the leading shape here.
+            n_leading = len(array._leading_shape)
+            leading_shape = tuple(leading_shape) + tuple(
+                broadcast.get(axis, length)
+                for axis, length in enumerate(array._leading_shape))
+            contained_broadcast = array._broadcast_dict.copy()
+            contained_broadcast.update({axis - n_leading: length
+                                        for axis, length in broadcast.items()
+                                        if axis >= n_leading})
+            array, broadcast = array.array, contained_broadcast
+        return cls(array, broadcast, leading_shape)
 
     @classmethod
     def broadcast_arrays(cls, array1, array2):
@@ -980,10 +1004,10 @@ class BroadcastArray(ArrayContainer):
         shape, bcast_kwargs1, bcast_kwargs2 = (
             cls._compute_broadcast_kwargs(array1.shape, array2.shape))
         if any(bcast_kwargs1.values()):
-            array1 = cls(array1, **bcast_kwargs1)
+            array1 = cls._broadcast_array(array1, **bcast_kwargs1)
 
         if any(bcast_kwargs2.values()):
-            array2 = cls(array2, **bcast_kwargs2)
+            array2 = cls._broadcast_array(array2, **bcast_kwargs2)
 
         return array1, array2
 
-- 
2.43.0


From eb98ed07ade240c4102397abe868cd47b514b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 07/27] fix: resize the right dimension when selecting from a
 new axis after dropping or adding dimensions

---
 biggus/_init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 4c95ee7..20273f1 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -803,10 +803,12 @@ class NewAxesArray(ArrayContainer):
         contained_array_keys = []
         existing_array_axis = 0
         broadcast_dict = {}
+        result_axis = 0
 
         for key_index, key in enumerate(keys):
             if key is np.newaxis:
                 new_axes[existing_array_axis] += 1
+                result_axis += 1
                 continue
 
             if is_newaxis.pop(0):
@@ -821,14 +823,14 @@ class NewAxesArray(ArrayContainer):
                 elif isinstance(key, slice):
                     new_size = len(range(*key.indices(1)))
                     if new_size != 1:
-                        broadcast_dict[key_index] = new_size
+                        broadcast_dict[result_axis] = new_size
                 elif isinstance(key, tuple):
                     for index in key:
                         if not -1 <= index < 1:
                             raise IndexError('index {} is out of bounds for '
                                              'axis {} with size 1'
                                              ''.format(key, key_index))
-                    broadcast_dict[key_index] = len(key)
+                    broadcast_dict[result_axis] = len(key)
                 else:
                     raise NotImplementedError('NewAxesArray indexing not yet '
                                               'supported for {} keys.'
@@ -842,6 +844,8 @@ class NewAxesArray(ArrayContainer):
                     axes_to_combine.append(existing_array_axis)
                 contained_array_keys.append(key)
                 existing_array_axis += 1
+            if not _is_scalar(key):
+                result_axis += 1
 
         new_axes = list(new_axes)
         for axis in sorted(axes_to_combine, reverse=True):
-- 
2.43.0


From 6c6e7aa839bde1c214e88499baf37addfd851ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 08/27] fix: accept negative axes when transposing

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 20273f1..8ba04be 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1659,6 +1659,8 @@ class TransposedArray(ArrayContainer):
             axes = np.arange(array.ndim)[::-1]
         elif len(axes) != array.ndim:
             raise ValueError('Incorrect number of dimensions.')
+        elif any(axis < 0 for axis in axes):
+            axes = [axis if axis >= 0 else array.ndim + axis for axis in axes]
         self.axes = axes
         self._forward_axes_map = {src: dest for dest, src in enumerate(axes)}
         self._inverse_axes_map = {dest: src for dest, src in enumerate(axes)}
-- 
2.43.0


From 60599f2523fc91b3f58baa5d533701983668883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 09/27] fix: report the exact number of bytes of arrays beyond
 2**63 bytes

---
 biggus/_init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 8ba04be..9a20ee8 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -486,7 +486,9 @@ class Array(six.with_metaclass(ABCMeta, object)):
     @property
     def nbytes(self):
         """The total number of bytes required to store the array data."""
-        return int(np.product(self.shape) * self.dtype.itemsize)
+        # Use Python integers, because they don't overflow.
+        n_elements = np.product(np.array(self.shape, dtype=object))
+        return int(n_elements * self.dtype.itemsize)
 
     @property
     def ndim(self):
-- 
2.43.0


From 805a7d0de0450956f8b27c55bc283c3aadf45e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 10/27] fix: NewAxesArray always realises to an array, never a
 scalar

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9a20ee8..9586623 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -860,11 +860,13 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        # The Ellipsis ensures an array (never a scalar) is returned.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        # The Ellipsis ensures an array (never a scalar) is returned.
+        return array.__getitem__(self._newaxis_keys() + (Ellipsis,))
 
 
 @export
-- 
2.43.0


From 4efea0b88904c80ef17598dc3a36b6694cb80522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 11/27] fix: adapters keep the type and fill value of a single
 masked element

---
 biggus/_init.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9586623..b593572 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1505,19 +1505,27 @@ class _ArrayAdapter(Array):
     def _apply_keys(self):
         pass
 
-    def ndarray(self):
+    def _realise(self):
         array = self._apply_keys()
+        if array is ma.masked:
+            # A single masked element has lost its type.
+            array = ma.MaskedArray(np.zeros((), dtype=self.dtype), mask=True,
+                                   fill_value=self.fill_value)
+        return array
+
+    def ndarray(self):
+        array = self._realise()
+        if ma.isMaskedArray(array):
+            array = array.filled()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
         if array.ndim == 0:
             array = np.array(array)
-        if ma.isMaskedArray(array):
-            array = array.filled()
         return array
 
     def masked_array(self):
-        array = self._apply_keys()
+        array = self._realise()
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-- 
2.43.0


From e3b36efd81488008c5ec3a2021dbbc5af3e36308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 12/27] fix: combine the minima and maxima of all the chunks of
 the reduced axis

---
 biggus/_init.py | 52 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b593572..58a25c8 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2406,7 +2406,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
 
 class _MinStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2417,28 +2417,36 @@ class _MinStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            result = np.minimum(self.result, result)
+        self.result = result
 
 
 class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
+        # Start out all masked, and unmask if something is not masked.
+        self.mask = np.ones(processed_chunk_shape, dtype=bool)
 
     def finalise(self):
-        array = self.result
-        # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
-        chunk = Chunk(self.current_keys, array)
+        chunk = Chunk(self.current_keys,
+                      ma.array(self.result, mask=self.mask))
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
+        # Replace the masked values with one which can't affect the result.
+        data = ma.filled(data, ma.minimum_fill_value(data))
+        result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            result = np.minimum(self.result, result)
+        self.result = result
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2449,23 +2457,31 @@ class _MaxStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        result = np.max(data, axis=self.axis)
+        if self.result is not None:
+            result = np.maximum(self.result, result)
+        self.result = result
 
 
 class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
+        # Start out all masked, and unmask if something is not masked.
+        self.mask = np.ones(processed_chunk_shape, dtype=bool)
 
     def finalise(self):
-        array = self.result
-        # Promote array-scalar to 0-dimensional array.
-        if array.ndim == 0:
-            array = np.ma.array(array)
-        chunk = Chunk(self.current_keys, array)
+        chunk = Chunk(self.current_keys,
+                      ma.array(self.result, mask=self.mask))
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
+        # Replace the masked values with one which can't affect the result.
+        data = ma.filled(data, ma.maximum_fill_value(data))
+        result = np.max(data, axis=self.axis)
+        if self.result is not None:
+            result = np.maximum(self.result, result)
+        self.result = result
 
 
 class _SumStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 6d0ad9f91bfa838c14c23ec2b37130064168ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 13/27] fix: sum masked arrays which have no mask over any axis

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 58a25c8..2b4bd84 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2518,8 +2518,8 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
-        self.running_total += np.sum(data.filled(0), axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
 
 
 class _MeanStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 32149254c025848fd181a44a338205a397fb1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 14/27] fix: accumulate means and the counts behind them in
 types with the necessary range

---
 biggus/_init.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2b4bd84..5c4bbb3 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2522,6 +2522,17 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         self.running_total += np.sum(ma.filled(data, 0), axis=self.axis)
 
 
+def _accumulator_dtype(dtype):
+    """
+    Return the type in which to accumulate statistics, such as the mean,
+    of elements of the given type.
+
+    Half precision, and the integer types, don't have the necessary range.
+
+    """
+    return np.promote_types((np.zeros(1, dtype=dtype) / 1.).dtype, np.float32)
+
+
 class _MeanStreamsHandler(_AggregationStreamsHandler):
     nice_name = 'mean'
 
@@ -2531,8 +2542,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         super(_MeanStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+        dtype = _accumulator_dtype(self.array.dtype)
+        self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
@@ -2543,7 +2554,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2553,9 +2565,10 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        self.running_count = np.zeros(shape, dtype=int)
+        self.running_masked_count = np.zeros(shape, dtype=int)
+        dtype = _accumulator_dtype(self.array.dtype)
+        self.running_total = np.zeros(shape, dtype=dtype)
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
@@ -2578,7 +2591,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(ma.filled(data, 0), axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From 8c8b8b7f28f3af1ba9d310bd48dbaabf8817e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 15/27] fix: start std and var once only, whatever the length
 of the first chunk

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5c4bbb3..39f3eae 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2608,7 +2608,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         super(_StdStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.k = 1
+        self.k = 0
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
@@ -2624,7 +2624,8 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.k == 0:
+            self.k = 1
             self.a = data[0]
             data = data[1:]
 
-- 
2.43.0


From f1044e0855fcb532e2c3c084381218423e96ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 16/27] fix: accumulate std and var in types with the necessary
 range

---
 biggus/_init.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 39f3eae..477ca91 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2609,7 +2609,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         self.k = 0
-        self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self._dtype = _accumulator_dtype(self.array.dtype)
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
     def finalise(self):
@@ -2658,11 +2658,11 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         del self.target_shape[self.axis]
 
     def bootstrap(self, processed_chunk_shape):
-        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        dtype = _accumulator_dtype(self.array.dtype)
         self.a = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.q = np.zeros(processed_chunk_shape, dtype=dtype).flatten()
         self.running_count = np.zeros(processed_chunk_shape,
-                                      dtype=dtype).flatten()
+                                      dtype=int).flatten()
         self.current_shape = processed_chunk_shape
 
     def finalise(self):
-- 
2.43.0


From 282b822d863ac630d153a0ba5a43119279017c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 17/27] fix: only combine the chunk streams of operands which
 are cut into the same chunks

---
 biggus/_init.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 477ca91..7450072 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -265,6 +265,9 @@ class ConsumerNode(Node):
                     self.abort()
                     return
                 if any(chunk is QUEUE_FINISHED for chunk in input_chunks):
+                    if not all(chunk is QUEUE_FINISHED
+                               for chunk in input_chunks):
+                        raise ValueError('mismatched input chunks')
                     break
                 self.output(self.process_chunks(input_chunks))
             # Finalise the final chunk (process_chunks does this for all
@@ -362,15 +365,46 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._layout_cache = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
+        def _layout(self, array, masked):
+            """
+            Determine how the chunks of the given array are produced.
+
+            Returns whether they can be computed from the streams of
+            chunks of its sources, which must all be cut into the same
+            chunks, and the slices into which each of its dimensions is
+            cut.
+
+            """
+            layout = self._layout_cache.get(id(array), None)
+            if layout is None:
+                streamed = hasattr(array, 'streams_handler')
+                if streamed:
+                    sources_cuts = [self._layout(source, masked)[1]
+                                    for source in array.sources]
+                    cuts = sources_cuts[0]
+                    streamed = all(other == cuts for other in sources_cuts)
+                if not streamed:
+                    cuts = _all_slices_inner(array.shape, always_slices=True)
+                    cuts = [list(slices) for slices in cuts]
+                else:
+                    handler = array.streams_handler(masked)
+                    if hasattr(handler, 'output_keys'):
+                        cuts = list(handler.output_keys(cuts))
+                layout = (streamed, cuts)
+                self._layout_cache[id(array)] = layout
+            return layout
+
         def _make_node(self, array, iteration_order, masked):
             cache_key = id(array)
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                if hasattr(array, 'streams_handler'):
+                streamed, _ = self._layout(array, masked)
+                if streamed:
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
                     iteration_order = node.input_iteration_order(
-- 
2.43.0


From 755491b9f61370200ebf185a52271f186ff814cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 18/27] fix: only share the chunk stream of an array between
 consumers which need the same order

---
 biggus/_init.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7450072..0168e7a 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -400,10 +400,15 @@ class AllThreadedEngine(Engine):
             return layout
 
         def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+            streamed, cuts = self._layout(array, masked)
+            # Unless there is just the one chunk, a node can only be shared
+            # by consumers which need the chunks in the same order.
+            order = None
+            if any(len(slices) != 1 for slices in cuts):
+                order = tuple(iteration_order)
+            cache_key = (id(array), order)
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                streamed, _ = self._layout(array, masked)
                 if streamed:
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
-- 
2.43.0


From 694cd5c3fbc8dc7d034a5dfac6e2dd915850f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 19/27] fix: don't leave a producer, and so the caller, waiting
 for a consumer which has failed

---
 biggus/_init.py | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0168e7a..ffe2a43 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -93,6 +93,29 @@ QUEUE_FINISHED = None
 QUEUE_ABORT = Exception
 
 
+class ClosableQueue(queue.Queue):
+    """
+    A limited-size queue, from one node to another, whose consumer can stop
+    consuming without leaving the producer waiting for space.
+
+    """
+    def __init__(self, maxsize):
+        queue.Queue.__init__(self, maxsize=maxsize)
+        self.closed = False
+
+    def close(self):
+        """Discard the content of the queue, and all that is yet to come."""
+        # The producer might have seen the queue as open before it was
+        # closed, but then there is space for the one item it goes on to put.
+        self.closed = True
+        while not self.empty():
+            self.get()
+
+    def put(self, item):
+        if not self.closed:
+            queue.Queue.put(self, item)
+
+
 class Node(six.with_metaclass(ABCMeta, object)):
     """A node of an expression evaluation graph."""
 
@@ -104,6 +127,11 @@ class Node(six.with_metaclass(ABCMeta, object)):
         for queue in self.output_queues:
             queue.put(QUEUE_ABORT)
 
+    def is_unwanted(self):
+        """Return whether all the consumers of this node have stopped."""
+        return (len(self.output_queues) > 0 and
+                all(queue.closed for queue in self.output_queues))
+
     def add_output_queue(self, output_queue):
         """
         Register a queue so it will receive the output Chunks from this
@@ -185,6 +213,8 @@ class ProducerNode(Node):
             chunk_index = self.chunk_index_gen(self.array.shape,
                                                self.iteration_order)
             for key in chunk_index:
+                if self.is_unwanted():
+                    break
                 # Now we have the slices that describe the next chunk.
                 # For example, key might be equivalent to
                 # `[11:12, 0:3, :, :]`.
@@ -227,7 +257,7 @@ class ConsumerNode(Node):
         registers each queue as an output of its corresponding node.
 
         """
-        self.input_queues = [queue.Queue(maxsize=3) for _ in input_nodes]
+        self.input_queues = [ClosableQueue(maxsize=3) for _ in input_nodes]
         for input_node, input_queue in zip(input_nodes, self.input_queues):
             input_node.add_output_queue(input_queue)
 
@@ -258,6 +288,8 @@ class ConsumerNode(Node):
         """
         try:
             while True:
+                if self.is_unwanted():
+                    return
                 input_chunks = [input.get() for input in self.input_queues]
                 for input in self.input_queues:
                     input.task_done()
@@ -279,6 +311,10 @@ class ConsumerNode(Node):
         else:
             for queue in self.output_queues:
                 queue.put(QUEUE_FINISHED)
+        finally:
+            # Don't block the input nodes, which might have other consumers.
+            for input in self.input_queues:
+                input.close()
 
 
 class StreamsHandlerNode(ConsumerNode):
-- 
2.43.0


From 7d0e2901d19d4db26043249d72335823a14d8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 20/27] fix: realise and index Python scalar operands in the
 type reported for the operation

---
 biggus/_init.py | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ffe2a43..57f20b7 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3116,6 +3116,27 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
         return chunk
 
 
+def _scalar_operand(scalar, array, other, numpy_op):
+    """
+    Return the array for a Python scalar which is to be combined with
+    another array.
+
+    As in NumPy, the scalar takes the type which results from combining it
+    with the other array, unless the operation needs its operands to differ
+    in type, in which case the given array is returned.
+
+    """
+    ones = np.ones(1, dtype=other.dtype)
+    dtype = np.result_type(ones, scalar)
+    try:
+        numpy_op(ones, np.ones(1, dtype=dtype))
+    except TypeError:
+        pass
+    else:
+        array = ConstantArray(array.shape, scalar, dtype)
+    return array
+
+
 class _Elementwise(ComputedArray):
     """"
     Represents an elementwise operation applied to one or two input arrays.
@@ -3126,6 +3147,10 @@ class _Elementwise(ComputedArray):
 
     """
     def __init__(self, array1, array2, numpy_op, ma_op=None):
+        # Keep the initial arrays for later type checking.
+        initial_array1 = array1
+        initial_array2 = array2
+
         array1 = ensure_array(array1)
 
         expected_n_arrays = None
@@ -3151,31 +3176,30 @@ class _Elementwise(ComputedArray):
                 # Trigger an exception (TypeError).
                 numpy_op(np.array([1], dtype=array1.dtype))
 
-            # Keep initial_array2 for later type checking.
-            initial_array2 = array2
-
             # Dual input elementwise
             array2 = ensure_array(array2)
 
-            # Broadcast both arrays to the full broadcast shape.
-            # TypeError will be raised if not broadcastable.
-            array1, array2 = BroadcastArray.broadcast_arrays(array1, array2)
-
             # Explicitly check the type, using is, not isinstance;
             # this is to trap the case where a Python int of float is provided,
             # rather than a numpy int or float.  The type promotion is handled
             # differently, for consistency with numpy (1.8 & 1.9) behaviour.
             if type(initial_array2) is int or type(initial_array2) is float:
-                second_array = initial_array2
-            else:
-                second_array = np.ones(1, dtype=array2.dtype)
+                array2 = _scalar_operand(initial_array2, array2, array1,
+                                         numpy_op)
+            elif type(initial_array1) is int or type(initial_array1) is float:
+                array1 = _scalar_operand(initial_array1, array1, array2,
+                                         lambda a, b: numpy_op(b, a))
+
+            # Broadcast both arrays to the full broadcast shape.
+            # TypeError will be raised if not broadcastable.
+            array1, array2 = BroadcastArray.broadcast_arrays(array1, array2)
 
             # Type-promotion - The resultant dtype depends on both the array
             # dtypes and the operation. Avoid using np.find_common_dtype(),
             # here, as integer division yields a float, whereas standard type
             # coercion rules with find_common_dtype yields an integer.
             dtype = numpy_op(np.ones(1, dtype=array1.dtype),
-                             second_array).dtype
+                             np.ones(1, dtype=array2.dtype)).dtype
 
         self._dtype = dtype
         self._array1 = array1
-- 
2.43.0


From 604a6f1df659fa5b22e016245829869a1d883d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 21/27] fix: realise 0-dimensional elementwise results as
 arrays of the reported type

---
 biggus/_init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 57f20b7..f9c15d9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3234,7 +3234,8 @@ class _Elementwise(ComputedArray):
 
     def ndarray(self):
         np_operands = ndarrays(self.sources)
-        result = self._numpy_op(*np_operands)
+        # NB. NumPy returns a scalar when all the operands are 0-dimensional.
+        result = np.asarray(self._numpy_op(*np_operands))
         return result
 
     def masked_array(self):
@@ -3243,6 +3244,10 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
+        if self.ndim == 0:
+            # NumPy returns a scalar, or the "masked" constant, when all
+            # the operands are 0-dimensional.
+            result = ma.array(result, dtype=self.dtype)
         return result
 
     def streams_handler(self, masked):
-- 
2.43.0


From 3d6f9e1041f3ae4c15a9b72befbef9bea047f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 22/27] fix: allow a missing data tolerance when the whole of a
 masked array is averaged

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index f9c15d9..b410421 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2650,9 +2650,10 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
         mask = self.running_count == 0
         denominator = np.ma.array(self.running_count, mask=mask, dtype=float)
         array = np.ma.array(self.running_total, mask=mask) / denominator
-        # Promote array-scalar to 0-dimensional array.
+        # Promote array-scalar to 0-dimensional array (a copy, because the
+        # mask of `ma.masked` is read-only).
         if array.ndim == 0:
-            array = np.ma.array(array)
+            array = np.ma.array(array, copy=True)
         # Apply masked/missing data threshold (mdtol).
         if self._mdtol < 1:
             mask_update = np.true_divide(self.running_masked_count,
-- 
2.43.0


From a8bdf7e2aa522551fafff2c958d4cbb8ca90466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 23/27] fix: don't let slices which begin or end before the
 dimension wrap around when they are normalised

---
 biggus/experimental/key_grouper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/experimental/key_grouper.py b/biggus/experimental/key_grouper.py
index 5b4e299..2876f6e 100644
--- a/biggus/experimental/key_grouper.py
+++ b/biggus/experimental/key_grouper.py
@@ -27,6 +27,12 @@ def normalize_slice(slice_instance, dim_length):
         stop = dim_length + stop
     if start is not None and start < 0:
         start = dim_length + start
+    if step is None or step > 0:
+        # Anything before the beginning of the dimension is its beginning,
+        # rather than something counted from its end.
+        if stop is not None:
+            stop = max(stop, 0)
+        start = max(start, 0)
     if start == 0:
         start = None
     if stop == dim_length:
-- 
2.43.0


From 6d75e4e9896f39a4b8f68710c14b4ba433559e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 24/27] fix: group any number of keys, rather than give up
 after 10000

---
 biggus/experimental/key_grouper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/biggus/experimental/key_grouper.py b/biggus/experimental/key_grouper.py
index 2876f6e..6bc4797 100644
--- a/biggus/experimental/key_grouper.py
+++ b/biggus/experimental/key_grouper.py
@@ -118,9 +118,9 @@ def dimension_group_to_lowest_common(dim_length, dim_keys):
 
         # Prevent an infinite loop.
         i += 1
-        if i > 9999:
-            # This should never happen, but it may be possible with some inputs
-            # (unverified).
+        if i > sum(lengths):
+            # This should never happen, because each iteration consumes at
+            # least one key.
             raise RuntimeError('The algorithm failed to find key groups.')
 
     return groups
-- 
2.43.0


From a7f1bc4d2b8a3db5dadc5aa52ed26aeb4494d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 25/27] fix: keep slices of slices as slices, rather than read
 everything to apply sequences of indices

---
 biggus/_init.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index b410421..ae3a359 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1412,6 +1412,19 @@ def ones(shape, dtype=float):
     return ConstantArray(shape, 1, dtype=dtype)
 
 
+def _regular_slice(start, size, step):
+    """
+    Return the slice which selects `size` indices, none of them negative,
+    which begin with `start` and are `step` apart.
+
+    """
+    if size == 0:
+        return slice(0, 0)
+    last = start + (size - 1) * step
+    stop = last + 1 if step > 0 else last - 1
+    return slice(start, stop if stop >= 0 else None, step)
+
+
 class _ArrayAdapter(Array):
     """
     Abstract base class for exposing a "concrete" data source as a
@@ -1551,9 +1564,16 @@ class _ArrayAdapter(Array):
                 # A slice src_key means we have to apply the new key
                 # to the sliced version of the concrete dimension.
                 start, stop, stride = src_key.indices(src_size)
-                indices = tuple(range(start, stop, stride))
+                indices = range(start, stop, stride)
                 new_key = new_keys.pop(0)
-                result_key = self._remap_new_key(indices, new_key, axis)
+                if isinstance(new_key, slice):
+                    # A slice of a slice is still a slice.
+                    first, end, step = new_key.indices(len(indices))
+                    size = len(range(first, end, step))
+                    result_key = _regular_slice(start + first * stride,
+                                                size, step * stride)
+                else:
+                    result_key = self._remap_new_key(indices, new_key, axis)
             else:
                 new_key = new_keys.pop(0)
                 result_key = self._remap_new_key(src_key, new_key, axis)
-- 
2.43.0


From 30cf777d188324b5b5978bbcaff1bcae025a3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 26/27] fix: read only what is selected when integers are mixed
 with sequences, and of the tiles of a mosaic

---
 biggus/_init.py | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index ae3a359..7a99de2 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1655,32 +1655,22 @@ class NumpyArrayAdapter(_ArrayAdapter):
             # we want to cut down the array as much as possible in the
             # first iteration.
             # But we can't reliably mix tuple keys with other tuple
-            # keys or with scalar keys. So the possible first cuts are:
-            #  - all scalars + all slices (iff there are any scalars)
-            #  - [tuple + all slices for tuple in tuples]
-            # Each possible cut will reduce the dataset to different
-            # size, and *ideally* we want to choose the smallest one.
-
-            # For now though ...
-            # ... use all the non-tuple keys first (if we have any) ...
-            dimensions = np.arange(len(keys))
-            if len(tuple_keys) != len(keys):
-                cut_keys = list(keys)
-                for i, key in tuple_keys:
-                    cut_keys[i] = slice(None)
-                array = self.concrete[tuple(cut_keys)]
-                is_scalar = list(map(_is_scalar, cut_keys))
-                dimensions -= np.cumsum(is_scalar)
-            else:
-                # Use ellipsis indexing to ensure we have a real ndarray
-                # instance to work with. (Otherwise self.concrete would
-                # need to implement `take` or `__array__`.)
-                array = self.concrete[...]
-            # ... and then do each tuple in turn.
-            for i, key in tuple_keys:
+            # keys or with scalar keys. So the first cut uses all the
+            # slices, slices in place of the scalars and ...
+            # ... for now, the first of the tuples (when there are more
+            # tuples, *ideally* we want to choose the smallest cut) ...
+            cut_keys = [slice(key, key + 1 or None) if _is_scalar(key)
+                        else key for key in keys]
+            for i, _ in tuple_keys[1:]:
+                cut_keys[i] = slice(None)
+            array = self.concrete[tuple(cut_keys)]
+            # ... then do each of the other tuples in turn ...
+            for i, key in tuple_keys[1:]:
                 # (An empty tuple needs to be told that it holds integers.)
-                array = np.take(array, np.array(key, dtype=int),
-                                axis=dimensions[i])
+                array = np.take(array, np.array(key, dtype=int), axis=i)
+            # ... and finally drop the dimensions of the scalars.
+            array = array[tuple(0 if _is_scalar(key) else slice(None)
+                                for key in keys)]
         else:
             array = self.concrete.__getitem__(keys)
         return array
@@ -2204,6 +2194,11 @@ class LinearMosaic(Array):
                         step = 1
                         stop = start + 1
                         tile_slice[axis] = slice(start, stop, step)
+                    elif isinstance(axis_key, slice):
+                        # The indices within each tile are as far apart.
+                        step = axis_indices[1] - axis_indices[0]
+                        tile_slice[axis] = _regular_slice(
+                            axis_indices[0], len(axis_indices), step)
                     else:
                         tile_slice[axis] = axis_indices
 
-- 
2.43.0


From 2940e0ca0c53c4dbd2c9316642869d5a49c15c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:54 +0000
Subject: [PATCH 27/27] fix: unsigned 64-bit indices on a LinearMosaic

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7a99de2..7c2085e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2153,7 +2153,7 @@ class LinearMosaic(Array):
                 tile_index = np.searchsorted(splits, axis_key) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] = axis_key - offsets[tile_index]
+                tile_indices[axis] = int(axis_key) - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2184,7 +2184,7 @@ class LinearMosaic(Array):
                 for tile_index, group_of_pairs in i:
                     axis_indices = list(zip(*group_of_pairs))[0]
                     tile = self._tiles[tile_index]
-                    axis_indices = np.array(axis_indices)
+                    axis_indices = np.array(axis_indices, dtype=int)
                     axis_indices -= offsets[tile_index]
                     if len(axis_indices) == 1:
                         # Even if we only need one value from this tile
-- 
2.43.0

