From 30b72350f242f282ea3373ddab3e748b13ae16cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:24 +0000
Subject: [PATCH 01/95] fix: resolve negative, numpy-integer and strided
 indices in MPIArray.global_slice

A negative or numpy integer on the distributed axis was never matched to the
rank holding it, and a strided slice restarted its phase on every rank.
---
 caput/mpiarray.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69bba87..7f33dcc 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -305,7 +305,7 @@ class _global_resolver:
         local_length = self.array.shape[self.axis]
 
         # Expand a single integer or slice index
-        if isinstance(slobj, int | slice):
+        if isinstance(slobj, int | np.integer | slice):
             slobj: SelectionTupleLike = (slobj, Ellipsis)
 
         # Add an ellipsis if length of slice object is too short
@@ -331,8 +331,11 @@ class _global_resolver:
 
         # Process the parallel axis. Calculate the correct index for the
         # containing rank, and set None on all others.
-        if isinstance(slice_list[self.axis], int):
-            index = slice_list[self.axis] - self.offset
+        if isinstance(slice_list[self.axis], int | np.integer):
+            index = slice_list[self.axis]
+            if index < 0:
+                index = index + self.length  # Resolve negative indices
+            index = index - self.offset
             slice_list[self.axis] = (
                 None if (index < 0 or index >= local_length) else index
             )
@@ -367,13 +370,26 @@ class _global_resolver:
             else:
                 stop = local_length
 
-            # If step is defined we don't need to adjust this, but it's no longer a
-            # complete slice
+            # If step is defined it's no longer a complete slice, and the elements
+            # selected on this rank must stay in phase with the global axis
             if step is not None:
                 fullslice = False
+                start, stop, step = s.indices(self.length)
+                start = start - self.offset
+                stop = stop - self.offset
+                if step > 0 and start < 0:
+                    start = start % step
+                elif step < 0 and start >= local_length:
+                    start = local_length - 1 - (local_length - 1 - start) % -step
 
             # If there is no data on this node place None on the parallel axis
-            if start >= local_length or stop < 0:
+            if step is not None and step < 0:
+                slice_list[self.axis] = (
+                    None
+                    if (start < 0 or stop >= start)
+                    else slice(start, None if stop < 0 else stop, step)
+                )
+            elif start >= local_length or stop < 0:
                 slice_list[self.axis] = None
             else:
                 # Normalise the indices and create slice
-- 
2.43.0


From 445401c8127068758a158fad37a953ac3a51d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:50 +0000
Subject: [PATCH 02/95] fix: accept a negative distributed axis in MPIArray(),
 wrap and redistribute

The negative value was stored as the distributed axis, which every later
operation (and a redistribute to the axis already distributed) misread.
---
 caput/mpiarray.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 7f33dcc..0260d59 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -622,6 +622,9 @@ class MPIArray(np.ndarray):
         if comm is None:
             comm = mpitools.world
 
+        # Resolve a negative axis index
+        axis = range(len(global_shape))[axis]
+
         # Determine local section of distributed axis
         local_num, local_start, _ = mpitools.split_local(global_shape[axis], comm=comm)
 
@@ -756,6 +759,9 @@ class MPIArray(np.ndarray):
                 "Cannot wrap, distributed axis local length is incorrect."
             )
 
+        # Resolve a negative axis index
+        axis = range(array.ndim)[axis]
+
         return cls._view_from_data_and_params(array, axis, totallen, local_start, comm)
 
     def redistribute(self, axis: int) -> MPIArray:
@@ -780,6 +786,9 @@ class MPIArray(np.ndarray):
         MemoryError
             If there is not enough memory to perform the redistribution.
         """
+        # Resolve a negative axis index
+        axis = range(self.ndim)[axis]
+
         # Check to see if this is the current distributed axis
         if self.axis == axis or self.comm is None:
             return self
-- 
2.43.0


From 43872b7c5ae23164d8a0a7bb45932bcda488366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:50 +0000
Subject: [PATCH 03/95] fix: MPIArray.gather of non-contiguous data, and wait
 on the root's own receive

A transposed local array could not be sent, and on the root the send request
replaced the receive request, so the root's own block was never waited for.
---
 caput/mpiarray.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 0260d59..48a4ec0 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1573,11 +1573,12 @@ class MPIArray(np.ndarray):
                 tbuf = np.empty(tshape, dtype=self.dtype)
 
                 # Set up the non-blocking receive request
-                request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
+                recv_request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
 
             # Send the data
             if self.comm.rank == ri:
-                request = self.comm.Isend(self._prep_buf(self.local_array), dest=rank)
+                sbuf = np.ascontiguousarray(self.local_array)
+                request = self.comm.Isend(self._prep_buf(sbuf), dest=rank)
 
                 # Wait until the data has been sent
                 stat = mpitools.MPI.Status()
@@ -1591,7 +1592,7 @@ class MPIArray(np.ndarray):
             if self.comm.rank == rank:
                 # Wait until the data has arrived
                 stat = mpitools.MPI.Status()
-                request.Wait(status=stat)
+                recv_request.Wait(status=stat)
 
                 if stat.error != mpitools.MPI.SUCCESS:
                     raise RuntimeError(
-- 
2.43.0


From 87f6c1a6d004c8817963af2b4280cdb0f289091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:50 +0000
Subject: [PATCH 04/95] fix: gather_local on a single process indexed with a
 list of slices

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fc4521c..ced645a 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -609,7 +609,7 @@ def gather_local(
     if comm is None or comm.size == 1:
         # only one process
         slc = [slice(s, s + n) for (s, n) in zip(local_start, local_size)]
-        global_array[slc] = local_array.copy()
+        global_array[tuple(slc)] = local_array.copy()
     else:
         local_sizes = comm.gather(local_size, root=root)
         local_starts = comm.gather(local_start, root=root)
-- 
2.43.0


From 88df3c4eb77365852133ca2a5e1e75678edff899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:28 +0000
Subject: [PATCH 05/95] fix: distribution metadata of MPIArray.T and of
 transposes with None or negative axes

---
 caput/mpiarray.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 48a4ec0..13855c8 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1407,9 +1407,12 @@ class MPIArray(np.ndarray):
 
         if len(axes) == 1 and isinstance(axes[0], tuple | list):
             axes: list | tuple = axes[0]
-        elif axes is None or axes == ():
+        elif axes in {(), (None,)}:
             axes: list = list(range(self.ndim - 1, -1, -1))
 
+        # Resolve negative axis indices
+        axes: list = [range(self.ndim)[ax] for ax in axes]
+
         tdata._global_shape = tuple(self.global_shape[ax] for ax in axes)
         tdata._local_shape = tuple(self.local_shape[ax] for ax in axes)
         tdata._local_offset = tuple(self.local_offset[ax] for ax in axes)
@@ -1419,6 +1422,11 @@ class MPIArray(np.ndarray):
 
         return tdata
 
+    @property
+    def T(self) -> MPIArray:
+        """View of the array with the order of the axes reversed."""
+        return self.transpose()
+
     def reshape(self, *shape: Sequence[int | None], order: str = "C") -> MPIArray:  # noqa: D417
         r"""Reshape the array.
 
-- 
2.43.0


From 7f9548dbaca2722c8972f5d1a0d502ec65d0a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:28 +0000
Subject: [PATCH 06/95] fix: MPIArray.reshape on ranks holding no data

With a zero local length a -1 wildcard divided by zero, and any target shape
was accepted, so ranks disagreed on the result.
---
 caput/mpiarray.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 13855c8..bdb3181 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1497,20 +1497,20 @@ class MPIArray(np.ndarray):
         local_shape[new_axis] = self.local_shape[self.axis]
 
         # We will check the reshaping in two steps so we can be sure that we are not
-        # messing up the axis distribution. In both cases we will *include* the
-        # distributed axis in the test as this takes care of cases where we are adding
-        # length-1 axes where there are currently no axes.
+        # messing up the axis distribution. In both cases we *exclude* the distributed
+        # axis from the test, as its local length may be zero, which would match
+        # any other shape.
         # First, we test any axes after the distributed axis...
-        post_shape = self.local_shape[self.axis :]
-        new_post_shape: list = local_shape[new_axis:]
+        post_shape = self.local_shape[(self.axis + 1) :]
+        new_post_shape: list = local_shape[(new_axis + 1) :]
         new_post_shape: tuple = _check_shapes(post_shape, new_post_shape)
         # Then, we test any axes before the distributed axis...
-        pre_shape = self.local_shape[: (self.axis + 1)]
-        new_pre_shape: list = local_shape[: (new_axis + 1)]
+        pre_shape = self.local_shape[: self.axis]
+        new_pre_shape: list = local_shape[:new_axis]
         new_pre_shape: tuple = _check_shapes(pre_shape, new_pre_shape)
 
         # Construct the new fleshed out local array shape
-        local_shape = new_pre_shape[:new_axis] + new_post_shape
+        local_shape = (*new_pre_shape, local_shape[new_axis], *new_post_shape)
 
         # Now we actually try the resize...
         new_data = self.local_array.reshape(local_shape, order=order)
-- 
2.43.0


From 3f4f54486d9864994f5cec1902e6070024a30d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:52 +0000
Subject: [PATCH 07/95] fix: refuse accumulating over the distributed axis
 given as a negative index

---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index bdb3181..4b2e666 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2033,7 +2033,7 @@ class MPIArray(np.ndarray):
     ) -> tuple[int, 3]:
         """Validate and infer the final distributed axis for a ufunc accumulation."""
         # An accumulation should give an array the same shape as the input.
-        if axis == input_.axis:
+        if axis in {input_.axis, input_.axis - input_.ndim}:
             raise AxisException(
                 f"Can not accumulate over the distributed axis (axis={input_.axis})"
             )
-- 
2.43.0


From fbca452a260e6ee090cdbf114aa85ebe0b3254a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:22 +0000
Subject: [PATCH 08/95] fix: length of an empty (or reversed) slice in
 distributed reads

_len_slice returned a negative length, so an empty selection failed.
---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 4b2e666..d2f772c 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -2225,7 +2225,7 @@ def _len_slice(slice_: slice, n: int) -> int:
     """Calculate the output length of a slice applied to an axis of length n."""
     if isinstance(slice_, slice):
         start, stop, step = slice_.indices(n)
-        return 1 + (stop - start - 1) // step
+        return len(range(start, stop, step))
 
     return len(slice_)
 
-- 
2.43.0


From 052d6ddb9bebdb6933201a9b370f9286c5307aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:34 +0000
Subject: [PATCH 09/95] fix: chunked IO of an empty MPIArray

A zero-size array asked for zero chunks and failed.
---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index d2f772c..fb054b3 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1759,7 +1759,7 @@ class MPIArray(np.ndarray):
         min_axis_size = int(np.ceil(largest_size / threshold_bytes))
 
         # Return early if we can
-        if skip or min_axis_size == 1:
+        if skip or min_axis_size <= 1:
             return 0, [slice(0, self.local_shape[0])]
 
         if self.ndim == 1:
-- 
2.43.0


From 1ecb5a4d33e520cac118d63e58a3c35c5ea46e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 10/95] fix: a path that continues below a dataset does not
 exist

It was used to index the dataset's data, so membership tests and create_group raised IndexError.
---
 caput/memdata/_memh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a782107..c468385 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -167,6 +167,9 @@ class _StorageRoot(_Storage):
         # Crawl the path.
         out = self
         for part in path_parts:
+            # Only groups have children: do not index into the data of a dataset
+            if not isinstance(out, _Storage):
+                raise KeyError(key)
             out = out[part]
         return out
 
-- 
2.43.0


From 32f23f7adbc13975fc98adf5d078b07a3d4e4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 11/95] fix: dataset_common_to_distributed along an axis other
 than the first

---
 caput/memdata/_memh5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index c468385..cd0b9d0 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -945,7 +945,9 @@ class MemGroup(_BaseGroup):
         md = mpiarray.MPIArray(
             dset_shape, axis=distributed_axis, comm=self.comm, dtype=dset_type
         )
-        md.local_array[:] = dset[sd:ed].copy()
+        local_sel = [slice(None)] * len(dset_shape)
+        local_sel[distributed_axis] = slice(sd, ed)
+        md.local_array[:] = dset[tuple(local_sel)].copy()
         attr_dict = {}  # temporarily save attrs of this dataset
         copyattrs(dset.attrs, attr_dict)
         del dset
-- 
2.43.0


From 47135148ac091d6b23359257d611af99c4765e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 12/95] fix: keep the selection when deep_group_copy writes to
 a file

The selected data was replaced with the whole dataset, and copying from one
file to another failed as datasets on disk have no `data` attribute.
---
 caput/memdata/_memh5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index cd0b9d0..630097c 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2576,10 +2576,12 @@ def deep_group_copy(
             else:
                 data = typeutils.ensure_unicode(data)
 
-        elif to_file:
+        elif to_file and typeutils.has_unicode(data.dtype):
             # If we shouldn't convert we at least need to ensure there aren't any
             # Unicode characters before writing
-            data = typeutils.check_unicode(entry)
+            raise TypeError(
+                f'Can not write dataset "{dset.name!s}" of unicode type into HDF5.'
+            )
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From 4550632980f3f4ea028cbda9d0f7b40aba9811a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 13/95] fix: serialise numpy scalars inside dictionary
 attributes

---
 caput/memdata/_memh5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 630097c..8d9fb5d 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2397,10 +2397,10 @@ def copyattrs(a1, a2, convert_strings=False):
             def default(self, o):
                 if isinstance(o, datetime.datetime):
                     return o.isoformat()
-                if isinstance(o, np.number):
-                    return o.data
+                if isinstance(o, np.generic):
+                    return o.item()
                 if isinstance(o, np.ndarray):
-                    if len(o) == 1:
+                    if o.ndim > 0 and len(o) == 1:
                         return o.tolist()[0]
                     return o.tolist()
                 if isinstance(o, bytes):  # pragma: py3
-- 
2.43.0


From 4f3442a13241b8b91a31dcd123f6c083be508fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 14/95] fix: load a file whose recorded container class cannot
 be imported

---
 caput/memdata/_memh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 8d9fb5d..877a637 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1720,8 +1720,9 @@ class MemDiskGroup(_BaseGroup):
         # Try to get a reference to the requested class (warn if we cannot find it)
         try:
             new_cls = importtools.import_class(clspath)
-        except (ImportError, KeyError):
+        except (ImportError, KeyError, AttributeError):
             warnings.warn(f"Could not import memh5 subclass {clspath}")
+            return cls
 
         # Check that it is a subclass of MemDiskGroup
         if not issubclass(new_cls, MemDiskGroup):
-- 
2.43.0


From c6a03eafb8d9689480606265b4ca3bb374e28945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 15/95] fix: pass on the hints argument when writing a
 distributed group

---
 caput/memdata/_memh5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 877a637..2bb086f 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -677,6 +677,7 @@ class MemGroup(_BaseGroup):
                 self,
                 filename,
                 mode,
+                hints=hints,
                 convert_attribute_strings=convert_attribute_strings,
                 convert_dataset_strings=convert_dataset_strings,
                 file_format=file_format,
-- 
2.43.0


From 75297629b1f9bcd7b18b2c2b370165fb7cc39a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 16/95] fix: keep sub-array fields when converting the strings
 of a structured type

The shape of the field was dropped, and with it all but its first element.
---
 caput/util/typeutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 4244302..340b24c 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -142,7 +142,8 @@ def _convert_dtype(
             # Recursively convert the type
             newtype = _iter_conv(type_) if isinstance(type_, list) else _conv(type_)
 
-            items.append((name, newtype))
+            # Keep the shape of sub-array fields
+            items.append((name, newtype, *item[2:]))
 
         return items
 
-- 
2.43.0


From b8d790cc970f5fe0db65c6ce85396bc71af470a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 17/95] fix: lock_file when the body fails before the output
 exists

The original exception was replaced with a FileNotFoundError and the lock
file left behind; directories (Zarr) could not be removed either.
---
 caput/memdata/_io.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 09bddec..a3bc762 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 
 import os
 
+from .fileformats import remove_file_or_dir
+
 
 def open_h5py_mpi(f, mode, use_mpi=True, comm=None):
     """Ensure that we have an h5py File object.
@@ -108,16 +110,17 @@ class lock_file:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if self.rank0:
-            # Check if exception was raised and delete the temp file if needed
-            if exc_type is not None:
-                if not self.preserve:
-                    os.remove(self.tmpfile)
-            # Otherwise things were successful and we should move the file over
-            else:
-                os.rename(self.tmpfile, self.filename)
-
-            # Finally remove the lock file
-            os.remove(self.lockfile)
+            try:
+                # Check if exception was raised and delete the temp file if needed
+                if exc_type is not None:
+                    if not self.preserve:
+                        remove_file_or_dir(self.tmpfile)
+                # Otherwise things were successful and we should move the file over
+                else:
+                    os.rename(self.tmpfile, self.filename)
+            finally:
+                # Finally remove the lock file
+                os.remove(self.lockfile)
 
         return False
 
-- 
2.43.0


From 55ef81b10221f30d7f37e128ab0fee3e9646e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:39 +0000
Subject: [PATCH 18/95] fix: save a container that lives on disk to another
 file

The output was opened read-only, always treated as HDF5, and encoded
dictionary attributes were decoded on the way.
---
 caput/memdata/_memh5.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 2bb086f..fff8821 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2252,8 +2252,15 @@ class MemDiskGroup(_BaseGroup):
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
         ):
+            kwargs.setdefault("mode", "w")
             with file_format.open(filename, **kwargs) as f:
-                deep_group_copy(self._data, f)
+                deep_group_copy(
+                    self._data,
+                    f,
+                    convert_attribute_strings=convert_attribute_strings,
+                    convert_dataset_strings=convert_dataset_strings,
+                    file_format=file_format,
+                )
         else:
             self._data.to_file(
                 filename,
@@ -2411,18 +2418,20 @@ def copyattrs(a1, a2, convert_strings=False):
                 # Let the default method raise the TypeError
                 return json.JSONEncoder.default(self, o)
 
+        to_zarr = zarr_available and isinstance(a2, zarr.attrs.Attributes)
+        to_h5 = isinstance(a2, h5py.AttributeManager)
+
         if (
-            isinstance(value, dict | np.ndarray | datetime.datetime)
-            and zarr_available
-            and isinstance(a2, zarr.attrs.Attributes)
-        ) or (
-            isinstance(value, dict | datetime.datetime)
-            and isinstance(a2, h5py.AttributeManager)
-        ):
+            to_zarr and isinstance(value, dict | np.ndarray | datetime.datetime)
+        ) or (to_h5 and isinstance(value, dict | datetime.datetime)):
             # Save to JSON converting datetimes.
             encoder = Memh5JSONEncoder()
             value = json_prefix + encoder.encode(value)
-        elif isinstance(value, str) and value.startswith(json_prefix):
+        elif (
+            isinstance(value, str)
+            and value.startswith(json_prefix)
+            and not (to_zarr or to_h5)
+        ):
             # Read from JSON, keep serialised datetimes as strings
             value = json.loads(value[len(json_prefix) :])
         return value
-- 
2.43.0


From 936a13968e136e8d2c606742208d2a303be724cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:39 +0000
Subject: [PATCH 19/95] fix: load an open Zarr group into memory

---
 caput/memdata/_memh5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index fff8821..f5e4e56 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1921,9 +1921,9 @@ class MemDiskGroup(_BaseGroup):
         lockfile = None
 
         if not ondisk:
-            if (zarr_available and isinstance(file_, zarr.Group)) or isinstance(
-                file_, h5py.Group
-            ):
+            if zarr_available and isinstance(file_, zarr.Group):
+                file_ = file_.store.path
+            elif isinstance(file_, h5py.Group):
                 file_ = file_.filename
 
             kwargs.pop("mode", None)
-- 
2.43.0


From da3e3ef7ada94c9dfbc7c179e1618442acaecb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:37 +0000
Subject: [PATCH 20/95] fix: name of the group returned by
 MemDiskGroup.create_group

---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index f5e4e56..6afc8b1 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2120,7 +2120,7 @@ class MemDiskGroup(_BaseGroup):
         :py:exc:`ValueError`
             If the group name is not allowed.
         """
-        path = posixpath.join(self.name, name)
+        path = format_abs_path(posixpath.join(self.name, name))
 
         if not self.group_name_allowed(path):
             raise ValueError(f"Group name {path} not allowed.")
-- 
2.43.0


From a33de48953d2ce538f5ca24ce552bed33dc84c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:06 +0000
Subject: [PATCH 21/95] fix: save again what was loaded from a bitshuffle
 compressed file

Recent h5py reports the filter as 'unknown', which it refuses for writing.
---
 caput/memdata/_memh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 6afc8b1..c266660 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2610,6 +2610,9 @@ def deep_group_copy(
         """
         compression = getattr(dset, "compression", None)
         compression_opts = getattr(dset, "compression_opts", None)
+        # `h5py` only names its own filters, it can't tell which plugin was used
+        if compression == "unknown":
+            compression, compression_opts = None, None
 
         if to_file:
             # massage args according to file format
-- 
2.43.0


From 9537482a2c4d0c5eb0fbed4fc6c23bb366cf8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:43 +0000
Subject: [PATCH 22/95] fix: read a config property redefined in a subclass
 with the new definition only

---
 caput/config.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/caput/config.py b/caput/config.py
index a138da1..12b8ef4 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -258,12 +258,17 @@ class Reader:
         import inspect
 
         config_keys = list(config.keys())
-        prop_keys = []
+        # A property redefined in a subclass replaces the one in the base class
+        props = {}
         for basecls in inspect.getmro(type(self))[::-1]:
-            for clsprop in basecls.__dict__.values():
+            for propname, clsprop in basecls.__dict__.items():
                 if isinstance(clsprop, Property):
-                    clsprop._from_config(self, config)
-                    prop_keys.append(clsprop.key)
+                    props[propname] = clsprop
+
+        prop_keys = []
+        for clsprop in props.values():
+            clsprop._from_config(self, config)
+            prop_keys.append(clsprop.key)
 
         if compare_keys:
             if isinstance(compare_keys, list):
-- 
2.43.0


From ece8d2ebf2eedb19e2e08681be14280e9e26f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:43 +0000
Subject: [PATCH 23/95] fix: float_in_range accepted NaN

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 12b8ef4..256ceeb 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -350,7 +350,7 @@ def float_in_range(
     def _prop(val):
         val = float(val)
 
-        if val < start or val > end:
+        if not (start <= val <= end):
             raise CaputConfigError(f"Input {val:f} not in range [{start:f}, {end:f}]")
 
         return val
-- 
2.43.0


From ed48b96e6a41f1e4efcba308a730bb816a7b8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:43 +0000
Subject: [PATCH 24/95] fix: error raised for a logging config of the wrong
 type

---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index 256ceeb..e8dac20 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -503,7 +503,7 @@ def logging_config(default: str | dict | None = None) -> Property[str | dict]:
         elif not isinstance(config, dict):
             raise ValueError(
                 f"Expected a string or YAML block for config value 'logging', got "
-                f"'{type(config.__name__)}'."
+                f"'{type(config).__name__}'."
             )
 
         # check entries, get module names and warn for duplicates when sorting into new
-- 
2.43.0


From 211a2b47176cce111c350eb6579b4b0e3c219692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:43 +0000
Subject: [PATCH 25/95] fix: file_format config property given as a string

---
 caput/pipeline/extensions/_configtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/extensions/_configtypes.py b/caput/pipeline/extensions/_configtypes.py
index c82a5bf..f25ff54 100644
--- a/caput/pipeline/extensions/_configtypes.py
+++ b/caput/pipeline/extensions/_configtypes.py
@@ -45,7 +45,7 @@ def file_format(default=None):
         if val is None:
             return None
 
-        if issubclass(val, fileformats.FileFormat):
+        if isinstance(val, type) and issubclass(val, fileformats.FileFormat):
             return val
 
         if not isinstance(val, str):
-- 
2.43.0


From 26d0f5284fa1ef6a3ec803137bce1b2f66e8d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:18 +0000
Subject: [PATCH 26/95] fix: tasks which take and return arrays

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 36d921f..555f849 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -1142,7 +1142,7 @@ class Task(config.Reader):
                 # Let the user know if there's a chance that data has been
                 # modified in-place
                 for opt in out if isinstance(out, tuple | list) else (out,):
-                    if opt in args:
+                    if any(opt is arg for arg in args):
                         logger.debug(
                             f"Task {self!s} may have modified dataset {opt!r} in-place. "
                             "If you encounter unexpected results, check that this is "
-- 
2.43.0


From 2454c53e7b649dde7cbb5ad9285ad6baecb20edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:18 +0000
Subject: [PATCH 27/95] fix: refuse extra outputs of a task with a single
 output key

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 555f849..a35f606 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -487,7 +487,7 @@ class Manager(config.Reader):
                 if not isinstance(out, tuple):
                     out = (out,)
 
-        elif len(task._out_keys) != len(out):
+        if len(task._out_keys) != len(out):
             raise exceptions.PipelineRuntimeError(
                 f"Found unexpected number of outputs in {task!s} "
                 f"(got {len(out)} expected {len(task._out_keys)})"
-- 
2.43.0


From 21dcc25cdec4bda237af99389c4394c06a32829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:18 +0000
Subject: [PATCH 28/95] fix: use the key_pattern given in the pipeline config

---
 caput/pipeline/_pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index a35f606..0c1c83a 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -148,6 +148,10 @@ class Manager(config.Reader):
         # Precompile the key pattern to skip
         self.key_match = re.compile(self.key_pattern)
 
+    def _finalise_config(self):
+        # The key pattern may have been set by the config
+        self.key_match = re.compile(self.key_pattern)
+
     @classmethod
     def from_yaml_file(cls, file_name, lint=False, psutil_profiling=False):
         """Initialize the pipeline from a YAML configuration file.
-- 
2.43.0


From b669908bcdd69c038afcfd5205ba54d202bdbc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:18 +0000
Subject: [PATCH 29/95] fix: report a config document without a pipeline block

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 0c1c83a..f62fc91 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -208,7 +208,7 @@ class Manager(config.Reader):
                     f"`{type(yaml_params['pipeline']).__name__}` (expected a dict here).",
                     location=yaml_params,
                 )
-        except TypeError as e:
+        except (KeyError, TypeError) as e:
             raise config.CaputConfigError(
                 "Couldn't find key 'pipeline' in YAML configuration document.",
                 location=yaml_params,
-- 
2.43.0


From 2636295a823d1b0dd76019dc72fe219bbe87c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:05 +0000
Subject: [PATCH 30/95] fix: report a task type that names no module as a
 config error

import_class looks a bare name up and raises KeyError when it is missing.
---
 caput/pipeline/_pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index f62fc91..497f6f8 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -591,6 +591,7 @@ class Manager(config.Reader):
             except (
                 config.CaputConfigError,
                 AttributeError,
+                KeyError,
                 ModuleNotFoundError,
             ) as exc:
                 raise config.CaputConfigError(
-- 
2.43.0


From aefec0ec4a153386f18f50c894d73f5e013ccff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:05 +0000
Subject: [PATCH 31/95] fix: several tasks may have an empty `out`

The missing keys were reported as duplicates of each other.
---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 497f6f8..df5cf1b 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -524,7 +524,7 @@ class Manager(config.Reader):
         """Make sure all in/requires values have corresponding out keys from another task."""
         all_out_values = []
         for t in self.task_specs:
-            if "out" in t:
+            if t.get("out") is not None:
                 if isinstance(t["out"], list | tuple):
                     all_out_values.extend(t["out"])
                 else:
-- 
2.43.0


From e92ec6fcfa94e29294c3e939bc0b507bba8aac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:17 +0000
Subject: [PATCH 32/95] fix: name the property when a config value cannot be
 converted

A value such as `num: x` for an integer escaped as a bare ValueError instead of
a CaputConfigError that names the key.
---
 caput/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/config.py b/caput/config.py
index e8dac20..83ca18f 100644
--- a/caput/config.py
+++ b/caput/config.py
@@ -156,7 +156,7 @@ class Property:
         if self.key in config:
             try:
                 val = self.proptype(config[self.key])
-            except TypeError as e:
+            except (TypeError, ValueError) as e:
                 raise CaputConfigError(
                     f"Can't read value of '{self.key}' as {self.proptype}: {e}",
                     location=config,
-- 
2.43.0


From 9a00dcfeb6e51b6f042851d8c008e0b3e0354f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:17 +0000
Subject: [PATCH 33/95] fix: report a missing input of a task without a type as
 a config error

---
 caput/pipeline/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index df5cf1b..2b2bbbb 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -552,7 +552,7 @@ class Manager(config.Reader):
                 for v in value:
                     if v not in unique_out_values:
                         raise config.CaputConfigError(
-                            f"Value '{key}' for task {task_spec['type']} has no corresponding "
+                            f"Value '{key}' for task {task_spec.get('type')} has no corresponding "
                             f"`out` from another task (Value {v} is not in {unique_out_values})."
                         )
 
-- 
2.43.0


From 7862df448a9b3fce4a6c5d6cd6703a4c9697c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:20 +0000
Subject: [PATCH 34/95] fix: do not share index maps between containers made
 from each other

Changing an index map in place also changed it in the container the axes were
taken from.
---
 caput/containers/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 07b8ed9..b15bd36 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -401,6 +401,9 @@ class ContainerPrototype(Container):
             # If no valid map provided in arguments copy from another object if set
             elif axes_from is not None:
                 axis_map = axes_from.index_map.get(axis, None)
+                if axis_map is not None:
+                    # The index maps of the two containers must be independent
+                    axis_map = axis_map.copy()
                 copy_axis_attrs = True
 
             # Set the index_map[axis] if we have a definition, otherwise throw an error
-- 
2.43.0


From 2521be1686e365cb05f6109e749af93d4512d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:20 +0000
Subject: [PATCH 35/95] fix: index selections take precedence over map
 selections

This is the documented order, but the keys were processed alphabetically.
---
 caput/pipeline/tasklib/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 16a6995..3fa1dcd 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -270,9 +270,12 @@ class SelectionsMixin:
         if not self.allow_index_map:
             del sel_parsers["map"]
 
-        # To enforce the precedence of range vs index selections, we rely on the fact
-        # that a sort will place the axis_range keys after axis_index keys
-        for k in sorted(self.selections or []):
+        # Enforce the precedence of range over index over map selections by processing
+        # them in that order
+        precedence = {"index": 1, "range": 2}
+        for k in sorted(
+            self.selections or [], key=lambda k: precedence.get(k.split("_")[-1], 0)
+        ):
             # Parse the key to get the axis name and type, accounting for the fact the
             # axis name may contain an underscore
             *axis, type_ = k.split("_")
-- 
2.43.0


From 25a7ed39d76913982cde73c8e1b04d56847ab7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:50 +0000
Subject: [PATCH 36/95] fix: keep array attributes of length one when writing
 Zarr files

They came back as scalars: the `axis` attribute of a one-dimensional dataset was
read as a string, and then taken apart into its characters.
---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index c266660..0f3109c 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2424,7 +2424,10 @@ def copyattrs(a1, a2, convert_strings=False):
         if (
             to_zarr and isinstance(value, dict | np.ndarray | datetime.datetime)
         ) or (to_h5 and isinstance(value, dict | datetime.datetime)):
-            # Save to JSON converting datetimes.
+            # Save to JSON converting datetimes. Array attributes keep their length, also
+            # if that is one
+            if isinstance(value, np.ndarray):
+                value = value.tolist()
             encoder = Memh5JSONEncoder()
             value = json_prefix + encoder.encode(value)
         elif (
-- 
2.43.0


From b7d5a19a7752beed80befaa8af9c06f96e7c60df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:44 +0000
Subject: [PATCH 37/95] fix: load with index lists on several axes, or from
 Zarr files

Index lists on two axes were paired up when reading Zarr files, which gave wrong
data, and failed for HDF5; a list on one axis of a Zarr dataset with more axes
failed too.
---
 caput/memdata/_memh5.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 0f3109c..51e4cc5 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2447,6 +2447,30 @@ def copyattrs(a1, a2, convert_strings=False):
         a2[key] = val
 
 
+def _read_selection(dset, selection):
+    """Read a selection from a dataset, with index lists applied to each axis separately.
+
+    This is needed as h5py only allows a single list, zarr would only accept lists for
+    all axes, and numpy and zarr pair up the entries of multiple lists.
+    """
+    indexed = selection if isinstance(selection, tuple) else (selection,)
+    axes = [ii for ii, sel in enumerate(indexed) if isinstance(sel, list)]
+
+    if axes and zarr_available and isinstance(dset, zarr.Array):
+        return dset.oindex[indexed]
+
+    if len(axes) < 2:
+        return dset[selection]
+
+    data = dset[
+        tuple(slice(None) if ii in axes[1:] else s for ii, s in enumerate(indexed))
+    ]
+    for ii in axes[1:]:
+        data = np.take(data, indexed[ii], axis=ii)
+
+    return data
+
+
 def deep_group_copy(
     g1,
     g2,
@@ -2574,7 +2598,7 @@ def deep_group_copy(
             return {"dtype": dset.dtype, "shape": dset.shape, "data": None}
 
         # Extract the data for the selection
-        data = dset[selection]
+        data = _read_selection(dset, selection)
         # If copying memory to memory, make a deep copy of this dataset
         # We don't need to make a copy if writing to disk
         if not to_file:
@@ -2953,7 +2977,7 @@ def _distributed_group_from_file(
                         if selection is None:
                             cdata = item[:]
                         else:
-                            cdata = item[selection]
+                            cdata = _read_selection(item, selection)
 
                         # Convert ascii string back to unicode if requested
                         if convert_dataset_strings:
-- 
2.43.0


From 8d97c352f360fe87d305098499a4edb1bf9e5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:03 +0000
Subject: [PATCH 38/95] fix: distributed reads of index lists from Zarr files

---
 caput/mpiarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index fb054b3..1a814b4 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1105,9 +1105,9 @@ class MPIArray(np.ndarray):
 
             if fh.opened:
                 fh.close()
-        else:
+        elif dist_arr.local_array.size > 0:
             # If using zarr we can directly read the full dataset into the final array
-            dset.get_basic_selection(sel, out=dist_arr.local_array)
+            dset.get_orthogonal_selection(sel, out=dist_arr.local_array)
 
         return dist_arr
 
-- 
2.43.0


From d0eee78a0180d4fbac57e20b90e29729c56a6e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:51 +0000
Subject: [PATCH 39/95] fix: load an empty index list from a Zarr file

---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 51e4cc5..2dfeb9f 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2457,7 +2457,10 @@ def _read_selection(dset, selection):
     axes = [ii for ii, sel in enumerate(indexed) if isinstance(sel, list)]
 
     if axes and zarr_available and isinstance(dset, zarr.Array):
-        return dset.oindex[indexed]
+        # An empty list would be taken as an array of floats
+        return dset.oindex[
+            tuple(np.array(s, dtype=int) if isinstance(s, list) else s for s in indexed)
+        ]
 
     if len(axes) < 2:
         return dset[selection]
-- 
2.43.0


From e063d7c26b6d595874dcac50f6c717ae8e67f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:11 +0000
Subject: [PATCH 40/95] fix: start and stop beyond the ends when concatenating
 time-ordered data

---
 caput/containers/tod.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dd2df28..bfc9259 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -719,17 +719,8 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
 def _start_stop_inds(
     start: np.number | None, stop: np.number | None, ntime: np.number
 ) -> tuple[np.number, np.number]:
-    if start is None:
-        start = 0
-    elif start < 0:
-        start = ntime + start
-    if stop is None:
-        stop = ntime
-    elif stop < 0:
-        stop = ntime + stop
-    elif stop > ntime:
-        stop = ntime
-    return start, stop
+    start, stop, _ = slice(start, stop).indices(ntime)
+    return start, max(start, stop)
 
 
 def _get_in_out_slice(
-- 
2.43.0


From b694d5ed9823deafcfa56ac6f5e4f14a7337c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:11 +0000
Subject: [PATCH 41/95] fix: do not modify the start and stop arguments of
 concatenate

---
 caput/containers/tod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index bfc9259..c2f4415 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -377,11 +377,16 @@ def concatenate(
     first_data = data_list[0]
     concatenation_axes = first_data.time_axes
 
-    # Ensure *start* and *stop* are mappings.
+    # Ensure *start* and *stop* are mappings (and are not those of the caller, as they
+    # get modified below).
     if not hasattr(start, "__getitem__"):
         start = dict.fromkeys(concatenation_axes, start)
+    else:
+        start = dict(start)
     if not hasattr(stop, "__getitem__"):
         stop = dict.fromkeys(concatenation_axes, stop)
+    else:
+        stop = dict(stop)
 
     # Get the length of all axes for which we are concatenating.
     concat_index_lengths = dict.fromkeys(concatenation_axes, 0)
-- 
2.43.0


From 1a0ddbcc14fca47f9f21aacc1a4cc17fe51bf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:11 +0000
Subject: [PATCH 42/95] fix: concatenate a tuple of inputs

---
 caput/containers/tod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index c2f4415..7a3f6f1 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -655,7 +655,7 @@ def _copy_non_time_data(
     if to_dataset_names is None:
         to_dataset_names = []
 
-    if isinstance(data, list):
+    if isinstance(data, (list, tuple)):
         # XXX Do something more sophisticated here when/if we aren't getting
         # all our non-time dependant information from the first entry.
         data = data[0]
-- 
2.43.0


From febaaa1c14868636c36437cd22b0813819d1d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:00 +0000
Subject: [PATCH 43/95] fix: fill the time axis when concatenating into a group
 on disk

---
 caput/containers/tod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 7a3f6f1..9692450 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -473,7 +473,8 @@ def concatenate(
                 current_concat_index_start[axis],
                 current_concat_index_n[axis],
             )
-            out.index_map[axis][out_slice] = (
+            # The `index_map` property would give a copy if the output is on disk
+            out._data["index_map"][axis][out_slice] = (
                 typeutils.ensure_unicode(data.index_map[axis][in_slice])
                 if convert_attribute_strings
                 else data.index_map[axis][in_slice]
-- 
2.43.0


From aac21b2c7ddb044667dadcb8e1d67d94e18098fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:00 +0000
Subject: [PATCH 44/95] fix: keep the history when concatenating time-ordered
 data

---
 caput/containers/tod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 9692450..022f598 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -436,6 +436,13 @@ def concatenate(
             )
         memdata.copyattrs(first_data.index_attrs[axis], out.index_attrs[axis])
 
+    # Copy over the history.
+    memdata.copyattrs(
+        first_data._data["history"].attrs,
+        out._data["history"].attrs,
+        convert_strings=convert_attribute_strings,
+    )
+
     # Copy over the reverse maps.
     for axis, reverse_map in first_data.reverse_map.items():
         out.create_reverse_map(axis, reverse_map)
-- 
2.43.0


From a8ea08535e864896cd874b729566068f62ee0eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:36 +0000
Subject: [PATCH 45/95] fix: numpy integers as start and stop of concatenate

---
 caput/containers/tod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 022f598..b47820b 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -379,11 +379,11 @@ def concatenate(
 
     # Ensure *start* and *stop* are mappings (and are not those of the caller, as they
     # get modified below).
-    if not hasattr(start, "__getitem__"):
+    if not hasattr(start, "keys"):
         start = dict.fromkeys(concatenation_axes, start)
     else:
         start = dict(start)
-    if not hasattr(stop, "__getitem__"):
+    if not hasattr(stop, "keys"):
         stop = dict.fromkeys(concatenation_axes, stop)
     else:
         stop = dict(stop)
-- 
2.43.0


From 51a6693a17898ecf8750b977d2ec929f1a5da15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:36 +0000
Subject: [PATCH 46/95] fix: concatenate data with a distributed dataset
 without a time axis

---
 caput/containers/tod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index b47820b..770fb6b 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -703,11 +703,15 @@ def _copy_non_time_data(
                     if convert_dataset_strings
                     else entry[:]
                 )
+                dist_args = {}
+                if isinstance(arr, mpiarray.MPIArray):
+                    dist_args = {"distributed": True, "distributed_axis": arr.axis}
                 target = out.create_dataset(
                     entry.name,
                     shape=entry.shape,
                     dtype=entry.dtype,
                     data=arr,
+                    **dist_args,
                 )
             memdata.copyattrs(
                 entry.attrs, target.attrs, convert_strings=convert_attribute_strings
-- 
2.43.0


From a26c97167da106dbb63097240622f085e249f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:36 +0000
Subject: [PATCH 47/95] fix: do not share data between the result of
 concatenate and its first input

---
 caput/containers/tod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 770fb6b..dfc8920 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -431,7 +431,7 @@ def concatenate(
                 (
                     typeutils.ensure_unicode(index_map)
                     if convert_dataset_strings
-                    else index_map
+                    else index_map.copy()
                 ),
             )
         memdata.copyattrs(first_data.index_attrs[axis], out.index_attrs[axis])
@@ -445,7 +445,7 @@ def concatenate(
 
     # Copy over the reverse maps.
     for axis, reverse_map in first_data.reverse_map.items():
-        out.create_reverse_map(axis, reverse_map)
+        out.create_reverse_map(axis, reverse_map.copy())
 
     all_dataset_names = _copy_non_time_data(
         data_list,
@@ -701,7 +701,7 @@ def _copy_non_time_data(
                 arr = (
                     typeutils.ensure_unicode(entry[:])
                     if convert_dataset_strings
-                    else entry[:]
+                    else entry[:].copy()
                 )
                 dist_args = {}
                 if isinstance(arr, mpiarray.MPIArray):
-- 
2.43.0


From 1bfc1dade96917fb62604bf036bf2a39df9f76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:22 +0000
Subject: [PATCH 48/95] fix: find the time axis of datasets in Zarr files

---
 caput/containers/tod.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dfc8920..14a3562 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -499,7 +499,7 @@ def concatenate(
             attrs = dataset.attrs
 
             # Figure out which axis we are concatenating over.
-            for a in typeutils.bytes_to_unicode(attrs["axis"]):
+            for a in _axis_names(attrs):
                 if a in concatenation_axes:
                     axis = a
                     break
@@ -533,7 +533,7 @@ def concatenate(
                 attrs = dataset.attrs
 
             # Do this *after* the filter, in case filter changed axis order.
-            axis_ind = list(typeutils.bytes_to_unicode(attrs["axis"])).index(axis)
+            axis_ind = _axis_names(attrs).index(axis)
 
             # Slice input data if the filter doesn't do it.
             if not filter_time_slice:
@@ -725,11 +725,19 @@ def _dset_has_axis(entry: Any, axes: tuple[str]) -> bool:
     if memdata.is_group(entry):
         return False
 
-    # Assume is a dataset. We need to ensure the output strings are Unicode as h5py may
-    # return them as byte strings if the input is an h5py.Dataset
-    dset_axes = typeutils.bytes_to_unicode(entry.attrs.get("axis", ()))
+    # Assume is a dataset.
+    return len(set(_axis_names(entry.attrs)).intersection(axes)) > 0
 
-    return len(set(dset_axes).intersection(axes)) > 0
+
+def _axis_names(attrs: Any) -> list[str]:
+    """Names of the axes of a dataset given its attributes."""
+    # We need to ensure the output strings are Unicode as h5py may return them as byte
+    # strings if the input is an h5py.Dataset, and that arrays are decoded if the input
+    # is a zarr.Array
+    decoded = {}
+    memdata.copyattrs(attrs, decoded, convert_strings=True)
+
+    return list(decoded.get("axis", ()))
 
 
 # XXX andata still calls these.
-- 
2.43.0


From f79c053978360837df08285d081798dce56c2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:23 +0000
Subject: [PATCH 49/95] fix: copy_datasets_filter modified the selection of the
 caller

---
 caput/containers/_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 18560c8..778d6fd 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -91,7 +91,8 @@ def copy_datasets_filter(
             f"but selections for {list(selection.keys())}."
         )
 
-    # Try to clean up selections
+    # Try to clean up selections (leaving the dictionary of the caller alone)
+    selection = dict(selection)
     for ax in list(selection):
         sel = selection[ax]
         # Remove any unnecessary slices
-- 
2.43.0


From 78532710aeb93080d17e358bd3443f172d23d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:23 +0000
Subject: [PATCH 50/95] fix: index arrays, masks and empty selections in
 copy_datasets_filter

---
 caput/containers/_util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 778d6fd..159a1d6 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -95,13 +95,16 @@ def copy_datasets_filter(
     selection = dict(selection)
     for ax in list(selection):
         sel = selection[ax]
-        # Remove any unnecessary slices
-        if sel == slice(None):
-            del selection[ax]
-        # Convert any indexed selections to slices where possible
+        if isinstance(sel, slice):
+            # Remove any unnecessary slices
+            if sel == slice(None):
+                del selection[ax]
+        # Make all indexed selections and masks lists of indices
         elif type(sel) in {list, tuple, np.ndarray}:
-            if list(sel) == list(range(sel[0], sel[-1])):
-                selection[ax] = slice(sel[0], sel[-1])
+            sel = np.asarray(sel)
+            if sel.dtype == bool:
+                sel = np.flatnonzero(sel)
+            selection[ax] = sel.tolist()
 
     stack = [source]
 
-- 
2.43.0


From 0184f0806fed11f9e663f6dd0be27d864ba3e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:23 +0000
Subject: [PATCH 51/95] fix: copy_datasets_filter from a common to a
 distributed dataset

---
 caput/containers/_util.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 159a1d6..395b80c 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -130,6 +130,8 @@ def copy_datasets_filter(
 
         dest_dset = dest[item.name]
 
+        original_ax_id = None
+
         # Make sure that both datasets are distributed to the same axis
         if isinstance(item, _memh5.MemDatasetDistributed):
             if not isinstance(dest_dset, _memh5.MemDatasetDistributed):
@@ -171,11 +173,19 @@ def copy_datasets_filter(
                 continue
             arr = _apply_sel(arr, sel, ax_ind)
 
+        if original_ax_id is None and isinstance(
+            dest_dset, _memh5.MemDatasetDistributed
+        ):
+            # Every rank has all of the source, and fills its part of the destination
+            arr = _apply_sel(
+                arr, dest_dset[:].local_bounds, dest_dset.distributed_axis
+            )
+
         dest_dset[:] = arr[:]
 
         # also copy attritutes
         _memh5.copyattrs(item.attrs, dest_dset.attrs)
 
-        if isinstance(dest_dset, _memh5.MemDatasetDistributed):
+        if original_ax_id is not None:
             # Redistribute back to the original axis
             dest_dset.redistribute(original_ax_id)
-- 
2.43.0


From 78079998d9780f1caf9a3fe653a3f8f29f3feccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:29 +0000
Subject: [PATCH 52/95] fix: copy_datasets_filter left the source redistributed

---
 caput/containers/_util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 395b80c..c14cb5b 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -188,4 +188,5 @@ def copy_datasets_filter(
 
         if original_ax_id is not None:
             # Redistribute back to the original axis
+            item.redistribute(original_ax_id)
             dest_dset.redistribute(original_ax_id)
-- 
2.43.0


From 5258900c32a912f240fb964b5c89dade3fba9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:48 +0000
Subject: [PATCH 53/95] fix: convert string types with padding, titles or
 foreign byte order

---
 caput/util/typeutils.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 340b24c..5f7d2f5 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -123,35 +123,30 @@ def _convert_dtype(
     datatype : dtype
         A new datatype with the converted string types.
     """
+    # Keep the shape of sub-array fields
+    if dt.subdtype is not None:
+        base, shape = dt.subdtype
+        return np.dtype((_convert_dtype(base, type_from, type_to), shape))
 
-    def _conv(t):
-        # If we get a tuple that should mean it's a type with some extended metadata, extract the
-        # type and throw away the metadata
-        if isinstance(t, tuple):
-            t = t[0]
-        return t.replace(type_from, type_to)
-
-    # For compound types we must recurse over the full compound type structure
-    def _iter_conv(x):
-        items = []
-
-        for item in x:
-            name = item[0]
-            type_ = item[1]
-
-            # Recursively convert the type
-            newtype = _iter_conv(type_) if isinstance(type_, list) else _conv(type_)
-
-            # Keep the shape of sub-array fields
-            items.append((name, newtype, *item[2:]))
-
-        return items
-
-    # For scalar types the conversion is easy
+    # For scalar types the conversion is easy (this throws away any extended metadata).
+    # The byteorder of unicode strings might not be the native one.
     if not dt.names:
-        return np.dtype(_conv(dt.str))
-    # For compound types we need to iterate through
-    return np.dtype(_iter_conv(dt.descr))
+        if dt.kind == type_from[1]:
+            dt = dt.newbyteorder("<")
+        return np.dtype(dt.str.replace(type_from, type_to))
+
+    # For compound types we must recurse over the full compound type structure, which
+    # must not include any padding
+    return np.dtype(
+        [
+            # A field has a title if there is a third item
+            (
+                (field[2], name) if len(field) > 2 else name,
+                _convert_dtype(field[0], type_from, type_to),
+            )
+            for name, field in ((name, dt.fields[name]) for name in dt.names)
+        ]
+    )
 
 
 def check_byteorder(arr_byteorder: np._ByteOrderChar) -> bool:
-- 
2.43.0


From c72db408315215baabd5ab841232765bcfd4dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:48 +0000
Subject: [PATCH 54/95] fix: test nested structured types for strings

---
 caput/util/typeutils.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/caput/util/typeutils.py b/caput/util/typeutils.py
index 5f7d2f5..0766400 100644
--- a/caput/util/typeutils.py
+++ b/caput/util/typeutils.py
@@ -206,26 +206,12 @@ def has_kind(dt: npt.DTypeLike, kind: npt._DTypeKind) -> bool:
     dtype_has_kind : bool
         True if it contains the requested kind.
     """
-    # For scalar types the conversion is easy
+    # For scalar types (or sub-arrays of them) the test is easy
     if not dt.names:
-        return dt.kind == kind
+        return dt.base.kind == kind if not dt.base.names else has_kind(dt.base, kind)
 
     # For compound types we must recurse over the full compound type structure
-    def _iter_conv(x):
-        for item in x:
-            type_ = item[1]
-
-            # Recursively convert the type
-            if isinstance(type_, list) and _iter_conv(type_):
-                return True
-            if isinstance(type_, tuple) and type_[0][1] == kind:
-                return True
-            if type_[1] == kind:
-                return True
-
-        return False
-
-    return _iter_conv(dt.descr)
+    return any(has_kind(dt.fields[name][0], kind) for name in dt.names)
 
 
 def has_unicode(dt: npt.DTypeLike) -> bool:
-- 
2.43.0


From 1e582c8e0ac84f3e1c5d95cfcd1008e1d228261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:46 +0000
Subject: [PATCH 55/95] fix: invert_no_zero of Python numbers, lists, booleans
 and integers

A zero Python number raised ZeroDivisionError, lists and boolean arrays
TypeError, and for integers `out` and the MPI distribution were ignored.
---
 caput/algorithms/_invert_no_zero/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 19ccbd5..789be15 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -29,9 +29,11 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
         if this cannot be preserved the output is C-contiguous. If `out` was not `None`,
         this is `out`.
     """
-    if not isinstance(x, np.generic | np.ndarray) or np.issubdtype(x.dtype, np.integer):
-        with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
-            return np.where(x == 0, 0.0, 1.0 / x)
+    if not isinstance(x, np.generic | np.ndarray):
+        x = np.asarray(x)
+
+    if x.dtype.kind in "biu":
+        x = x.astype(np.float64)
 
     if out is not None:
         if x.shape != out.shape:
-- 
2.43.0


From 212e40403955bd9f41a9d373bd64b91d5349373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:46 +0000
Subject: [PATCH 56/95] fix: fill the given output of invert_no_zero whatever
 its memory layout

A non-contiguous output was left untouched, and one with a different layout
than the input was filled in the wrong element order.
---
 caput/algorithms/_invert_no_zero/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/__init__.py b/caput/algorithms/_invert_no_zero/__init__.py
index 789be15..c4dd2c6 100644
--- a/caput/algorithms/_invert_no_zero/__init__.py
+++ b/caput/algorithms/_invert_no_zero/__init__.py
@@ -47,8 +47,16 @@ def invert_no_zero(x: npt.ArrayLike, out: npt.ArrayLike | None = None) -> npt.Ar
     # In order to be able to flatten the arrays to do element by element operations, we
     # need to ensure the inputs are numpy arrays, and so we take a view which will work
     # even if `x` (and thus `out`) are MPIArray's
-    _invert_no_zero(
-        x.view(np.ndarray).ravel(order="A"), out.view(np.ndarray).ravel(order="A")
-    )
+    local_out = out.view(np.ndarray)
+
+    # Flatten both in the same order, whatever their layouts are
+    order = "F" if np.isfortran(local_out) else "C"
+    flat_out = local_out.ravel(order=order)
+
+    _invert_no_zero(x.view(np.ndarray).ravel(order=order), flat_out)
+
+    # Flattening a non-contiguous output makes a copy
+    if not np.may_share_memory(flat_out, local_out):
+        local_out[...] = flat_out.reshape(local_out.shape, order=order)
 
     return out
-- 
2.43.0


From 89be0cc349da2347d830e6a1899d8f4c5358f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:46 +0000
Subject: [PATCH 57/95] fix: invert_no_zero of read-only arrays

---
 caput/algorithms/_invert_no_zero/_invert_no_zero.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx b/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
index c23d958..0d1abd1 100644
--- a/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
+++ b/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
@@ -23,7 +23,7 @@ ctypedef fused real_or_complex:
 @cython.wraparound(False)
 @cython.boundscheck(False)
 @cython.cdivision(True)
-cpdef _invert_no_zero(real_or_complex [:] array, real_or_complex [:] out):
+cpdef _invert_no_zero(const real_or_complex [:] array, real_or_complex [:] out):
 
     cdef bint cond
     cdef Py_ssize_t i = 0
-- 
2.43.0


From 9a7fd0ba23b9fce20508bfe2c2be6fe40ccaabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:46 +0000
Subject: [PATCH 58/95] fix: invert_no_zero of a value exactly at the threshold

The reciprocal of 1/DBL_MAX overflows to infinity.
---
 caput/algorithms/_invert_no_zero/_invert_no_zero.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx b/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
index 0d1abd1..5eb43c4 100644
--- a/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
+++ b/caput/algorithms/_invert_no_zero/_invert_no_zero.pyx
@@ -36,9 +36,9 @@ cpdef _invert_no_zero(const real_or_complex [:] array, real_or_complex [:] out):
 
     if (real_or_complex is cython.doublecomplex) or (real_or_complex is cython.floatcomplex):
         for i in prange(n, nogil=True):
-            cond = (fabs(array[i].real) < thresh) and (fabs(array[i].imag) < thresh)
+            cond = (fabs(array[i].real) <= thresh) and (fabs(array[i].imag) <= thresh)
             out[i] = 0.0 if cond else 1.0 / array[i]
     else:
         for i in prange(n, nogil=True):
-            cond = fabs(array[i]) < thresh
+            cond = fabs(array[i]) <= thresh
             out[i] = 0.0 if cond else 1.0 / array[i]
-- 
2.43.0


From 4d8246d29f0763b439b2c96f524eaec02acfab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:39 +0000
Subject: [PATCH 59/95] fix: truncating the largest numbers and NaNs

Rounding up could carry out of the exponent, turning finite values into inf and
NaNs into -0.
---
 caput/util/truncate.hpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index b728e0d..77562c3 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -46,7 +46,7 @@ const int64_t ERR_MAX_DOUBLE = 4611686018427387903L;
  *
  *  @warning Undefined results for err < 0 and err > 2**30.
  */
-inline int32_t bit_truncate(int32_t val, int32_t err) {
+static inline int32_t bit_truncate(int32_t val, int32_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int32_t gran = err;
@@ -83,7 +83,7 @@ inline int32_t bit_truncate(int32_t val, int32_t err) {
  *
  *  @warning Undefined results for err < 0 and err > 2**62.
  */
-inline int64_t bit_truncate_64(int64_t val, int64_t err) {
+static inline int64_t bit_truncate_64(int64_t val, int64_t err) {
     // *gran* is the granularity. It is the power of 2 that is *larger than* the
     // maximum error *err*.
     int64_t gran = err;
@@ -119,7 +119,7 @@ inline int64_t bit_truncate_64(int64_t val, int64_t err) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int32_t count_zeros(int32_t x) {
+static inline int32_t count_zeros(int32_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -133,7 +133,7 @@ inline int32_t count_zeros(int32_t x) {
  *  @brief Count the number of leading zeros in a binary number.
  *         Taken from https://stackoverflow.com/a/23857066
  */
-inline int64_t count_zeros_64(int64_t x) {
+static inline int64_t count_zeros_64(int64_t x) {
     x = x | (x >> 1);
     x = x | (x >> 2);
     x = x | (x >> 4);
@@ -153,7 +153,7 @@ inline int64_t count_zeros_64(int64_t x) {
  *
  * @returns The result of 2^e
  */
-inline float fast_pow(int8_t e) {
+static inline float fast_pow(int8_t e) {
     float* out_f;
     // Construct float bitwise
     uint32_t out_i = ((uint32_t)(127 + e) << 23);
@@ -172,7 +172,7 @@ inline float fast_pow(int8_t e) {
  *
  * @returns The result of 2^e
  */
-inline double fast_pow_double(int16_t e) {
+static inline double fast_pow_double(int16_t e) {
     double* out_f;
     // Construct float bitwise
     uint64_t out_i = ((uint64_t)(1023 + e) << 52);
@@ -186,12 +186,10 @@ inline double fast_pow_double(int16_t e) {
  *  @brief Truncate precision of a floating point number by applying the algorithm of
  *         `bit_truncate` to the mantissa.
  *
- *  Note that NaN and inf are not explicitly checked for. According to the IEEE spec, it is
- *  impossible for the truncation to turn an inf into a NaN. However, if the truncation
- *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
+ *  NaN and inf are kept for any error which is not infinite itself.
  *
  */
-inline float _bit_truncate_float(float val, float err) {
+static inline float _bit_truncate_float(float val, float err) {
     // cast float memory into an int
     int32_t* cast_val_ptr = (int32_t*)&val;
     // extract the exponent and sign
@@ -199,6 +197,10 @@ inline float _bit_truncate_float(float val, float err) {
     // strip sign
     int32_t val_pow = val_pre & MASK_EXPONENT_W_O_SIGN_FLOAT;
     int32_t val_s = val_pre >> LEN_EXPONENT_FLOAT;
+    // inf and NaN have no precision to truncate, unless any error is allowed
+    if (val_pow == MASK_EXPONENT_W_O_SIGN_FLOAT && !__builtin_isinf(err)) {
+        return val;
+    }
     // extract mantissa. mask is 2**23 - 1. Add back the implicit 24th bit
     int32_t val_man = (cast_val_ptr[0] & MASK_MANTISSA_FLOAT) + IMPLICIT_BIT_FLOAT;
     // scale the error to the integer representation of the mantissa
@@ -219,6 +221,10 @@ inline float _bit_truncate_float(float val, float err) {
     tr_man = (tr_man << (z_count - 8)) & MASK_MANTISSA_FLOAT;
     // round to zero case
     val_pow = ((z_count != 32) ? val_pow : 0);
+    // keep values which would be rounded up past the largest finite number
+    if (val_pow >= MASK_EXPONENT_W_O_SIGN_FLOAT) {
+        return val;
+    }
     // restore sign and exponent
     int32_t tr_val = tr_man | ((val_pow | (val_s << 8)) << 23);
     // cast back to float
@@ -232,12 +238,10 @@ inline float _bit_truncate_float(float val, float err) {
  *  @brief Truncate precision of a double floating point number by applying the algorithm of
  *         `bit_truncate` to the mantissa.
  *
- *  Note that NaN and inf are not explicitly checked for. According to the IEEE spec, it is
- *  impossible for the truncation to turn an inf into a NaN. However, if the truncation
- *  happens to remove all of the non-zero bits in the mantissa, a NaN can become inf.
+ *  NaN and inf are kept for any error which is not infinite itself.
  *
  */
-inline double _bit_truncate_double(double val, double err) {
+static inline double _bit_truncate_double(double val, double err) {
     // Step 1: Extract the sign, exponent and mantissa:
     // ------------------------------------------------
     // cast float memory into an int
@@ -247,6 +251,10 @@ inline double _bit_truncate_double(double val, double err) {
     // strip sign
     int64_t val_pow = val_pre & MASK_EXPONENT_W_O_SIGN_DOUBLE;
     int64_t val_s = val_pre >> LEN_EXPONENT_DOUBLE;
+    // inf and NaN have no precision to truncate, unless any error is allowed
+    if (val_pow == MASK_EXPONENT_W_O_SIGN_DOUBLE && !__builtin_isinf(err)) {
+        return val;
+    }
     // extract mantissa. mask is 2**52 - 1. Add back the implicit 53rd bit
     int64_t val_man = (cast_val_ptr[0] & MASK_MANTISSA_DOUBLE) + IMPLICIT_BIT_DOUBLE;
 
@@ -272,6 +280,10 @@ inline double _bit_truncate_double(double val, double err) {
     tr_man = (tr_man << (z_count - 11)) & MASK_MANTISSA_DOUBLE;
     // round to zero case
     val_pow = ((z_count != 64) ? val_pow : 0);
+    // keep values which would be rounded up past the largest finite number
+    if (val_pow >= MASK_EXPONENT_W_O_SIGN_DOUBLE) {
+        return val;
+    }
     // restore sign and exponent
     int64_t tr_val = tr_man | ((val_pow | (val_s << 11)) << 52);
     // cast back to double
-- 
2.43.0


From 5ead822288449900755186e28f1ebefca279cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:43 +0000
Subject: [PATCH 60/95] fix: truncation with zero weight set negative values to
 zero

The fallback error was negative for negative values.
---
 caput/util/truncate.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 970dca8..57180f2 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -104,7 +104,7 @@ def _bit_truncate_weights_float(float[:] val, float[:] inv_var, float fallback):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_float(val[i], fallback * val[i])
+            val[i] = _bit_truncate_float(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
@@ -126,7 +126,7 @@ def _bit_truncate_weights_double(double[:] val, double[:] inv_var, double fallba
         if inv_var[i] != 0:
             val[i] = _bit_truncate_double(val[i], 1.0 / inv_var[i]**0.5)
         else:
-            val[i] = _bit_truncate_double(val[i], fallback * val[i])
+            val[i] = _bit_truncate_double(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
 
-- 
2.43.0


From 692f098e1df46cabc46c7119232833cf01ad8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:43 +0000
Subject: [PATCH 61/95] fix: keep inf and NaN when truncating arrays to a
 relative precision

They were replaced with zeros.
---
 caput/util/truncate.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/caput/util/truncate.pyx b/caput/util/truncate.pyx
index 57180f2..bb71caf 100644
--- a/caput/util/truncate.pyx
+++ b/caput/util/truncate.pyx
@@ -7,7 +7,7 @@ from cython.parallel import prange
 import numpy as np
 cimport numpy as cnp
 
-from libc.math cimport fabs
+from libc.math cimport fabs, isfinite
 
 cdef extern from "truncate.hpp":
     inline int bit_truncate(int val, int err) nogil
@@ -103,7 +103,7 @@ def _bit_truncate_weights_float(float[:] val, float[:] inv_var, float fallback):
     for i in prange(n, nogil=True):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
-        else:
+        elif isfinite(val[i]):
             val[i] = _bit_truncate_float(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
@@ -125,7 +125,7 @@ def _bit_truncate_weights_double(double[:] val, double[:] inv_var, double fallba
     for i in prange(n, nogil=True):
         if inv_var[i] != 0:
             val[i] = _bit_truncate_double(val[i], 1.0 / inv_var[i]**0.5)
-        else:
+        elif isfinite(val[i]):
             val[i] = _bit_truncate_double(val[i], fabs(fallback * val[i]))
 
     return np.asarray(val)
@@ -149,7 +149,8 @@ def _bit_truncate_relative_float(float[:] val, float prec):
     cdef Py_ssize_t i = 0
 
     for i in prange(n, nogil=True):
-        val[i] = _bit_truncate_float(val[i], fabs(prec * val[i]))
+        if isfinite(val[i]):
+            val[i] = _bit_truncate_float(val[i], fabs(prec * val[i]))
 
     return np.asarray(val)
 
@@ -161,7 +162,8 @@ def _bit_truncate_relative_double(cnp.float64_t[:] val, cnp.float64_t prec):
     cdef Py_ssize_t i = 0
 
     for i in prange(n, nogil=True):
-        val[i] = _bit_truncate_double(val[i], fabs(prec * val[i]))
+        if isfinite(val[i]):
+            val[i] = _bit_truncate_double(val[i], fabs(prec * val[i]))
 
     return np.asarray(val, dtype=np.float64)
 
@@ -193,6 +195,9 @@ def bit_truncate_max_complex(complex128[:, :] val, float prec, float prec_max_ro
         max_abs = max_abs**0.5
 
         for j in range(m):
+            if not (isfinite(val[i, j].real) and isfinite(val[i, j].imag)):
+                continue
+
             # Get the precision to apply
             abs_prec = max(<float>cabs(val[i, j]) * prec, prec_max_row * max_abs)
 
-- 
2.43.0


From 69eba1468409af0c35598b7ffe9a36219972eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:14 +0000
Subject: [PATCH 62/95] fix: truncation of very small values

For values around 3e-32 (float) and 3e-293 (double) the power of two scaling the
error overflowed, and they were set to zero for any error.
---
 caput/util/truncate.hpp | 52 +++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/caput/util/truncate.hpp b/caput/util/truncate.hpp
index 77562c3..6797a57 100644
--- a/caput/util/truncate.hpp
+++ b/caput/util/truncate.hpp
@@ -1,9 +1,3 @@
-// 2**31 + 2**30 will be used to check for overflow
-const uint32_t HIGH_BITS = 3221225472;
-
-// 2**63 + 2**62 will be used to check for overflow
-const uint64_t HIGH_BITS_DOUBLE = 13835058055282163712UL;
-
 // The length of the part in a float that represents the exponent
 const int32_t LEN_EXPONENT_FLOAT = 8;
 
@@ -144,25 +138,6 @@ static inline int64_t count_zeros_64(int64_t x) {
 }
 
 
-/**
- * @brief Fast power of two float.
- *
- * Result is undefined for e < -126.
- *
- * @param   e   Exponent
- *
- * @returns The result of 2^e
- */
-static inline float fast_pow(int8_t e) {
-    float* out_f;
-    // Construct float bitwise
-    uint32_t out_i = ((uint32_t)(127 + e) << 23);
-    // Cast into float
-    out_f = (float*)&out_i;
-    return *out_f;
-}
-
-
 /**
  * @brief Fast power of two double.
  *
@@ -197,6 +172,10 @@ static inline float _bit_truncate_float(float val, float err) {
     // strip sign
     int32_t val_pow = val_pre & MASK_EXPONENT_W_O_SIGN_FLOAT;
     int32_t val_s = val_pre >> LEN_EXPONENT_FLOAT;
+    // zeros and subnormal values are kept
+    if (val_pow == 0) {
+        return val;
+    }
     // inf and NaN have no precision to truncate, unless any error is allowed
     if (val_pow == MASK_EXPONENT_W_O_SIGN_FLOAT && !__builtin_isinf(err)) {
         return val;
@@ -205,10 +184,12 @@ static inline float _bit_truncate_float(float val, float err) {
     int32_t val_man = (cast_val_ptr[0] & MASK_MANTISSA_FLOAT) + IMPLICIT_BIT_FLOAT;
     // scale the error to the integer representation of the mantissa
     // scale by 2**(23 + 127 - pow)
-    int32_t int_err = (int32_t)(err * fast_pow(150 - val_pow));
-    // make sure hasn't overflowed. if set to 2**30-1, will surely round to 0.
+    // this is beyond the range of a float for the smallest values
+    double scaled_err = (double)err * fast_pow_double(150 - val_pow);
+    // make sure it doesn't overflow. if set to 2**30-1, will surely round to 0.
     // must keep err < 2**30 for bit_truncate to work
-    int_err = (int_err & HIGH_BITS) ? ERR_MAX_FLOAT : int_err;
+    int32_t int_err =
+        (scaled_err >= 0 && scaled_err < ERR_MAX_FLOAT) ? (int32_t)scaled_err : ERR_MAX_FLOAT;
 
     // truncate
     int32_t tr_man = bit_truncate(val_man, int_err);
@@ -251,6 +232,10 @@ static inline double _bit_truncate_double(double val, double err) {
     // strip sign
     int64_t val_pow = val_pre & MASK_EXPONENT_W_O_SIGN_DOUBLE;
     int64_t val_s = val_pre >> LEN_EXPONENT_DOUBLE;
+    // zeros and subnormal values are kept
+    if (val_pow == 0) {
+        return val;
+    }
     // inf and NaN have no precision to truncate, unless any error is allowed
     if (val_pow == MASK_EXPONENT_W_O_SIGN_DOUBLE && !__builtin_isinf(err)) {
         return val;
@@ -261,10 +246,15 @@ static inline double _bit_truncate_double(double val, double err) {
     // Step 2: Scale the error to the integer representation of the mantissa:
     // ----------------------------------------------------------------------
     // scale by 2**(52 + 1023 - pow)
-    int64_t int_err = (int64_t)(err * fast_pow_double(1075 - val_pow));
-    // make sure hasn't overflowed. if set to 2**62-1, will surely round to 0.
+    // in two steps, as this is beyond the range of a double for the smallest values
+    int64_t err_pow = 1075 - val_pow;
+    int64_t err_pow_high = (err_pow > 1023) ? err_pow - 1023 : 0;
+    double scaled_err =
+        err * fast_pow_double(err_pow - err_pow_high) * fast_pow_double(err_pow_high);
+    // make sure it doesn't overflow. if set to 2**62-1, will surely round to 0.
     // must keep err < 2**62 for bit_truncate_double to work
-    int_err = (int_err & HIGH_BITS_DOUBLE) ? ERR_MAX_DOUBLE : int_err;
+    int64_t int_err =
+        (scaled_err >= 0 && scaled_err < ERR_MAX_DOUBLE) ? (int64_t)scaled_err : ERR_MAX_DOUBLE;
 
     // Step 3: Truncate the mantissa:
     // ------------------------------
-- 
2.43.0


From 556634e15ffef08046d12b4b5ef1003d37bf376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 63/95] fix: quantiles at the ends of the data

The highest quantile of a single element read past the end of the arrays, and the
lowest quantile with method 'lower' could return an element without weight.
---
 caput/algorithms/median/weighted.pyx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5ffdfbd..d4f767f 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -100,11 +100,19 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
         if qs == weights_left:
 
             i = _max_non_zero(A, W, 0, jj)
+
+            # There is nothing to the right of a single element
+            if jj + 1 == len(A):
+                return A[i]
+
             j = _min_non_zero(A, W, jj + 1, len(A) - 1)
 
-            if (W[j] == 0 and W[i] > 0) or method == "l":
+            # Elements without weight are not used when there is one with weight
+            if W[i] == 0 and W[j] > 0:
+                return A[j]
+            elif (W[j] == 0 and W[i] > 0) or method == "l":
                 return A[i]
-            elif (W[i] == 0 and W[j] > 0) or method == "h":
+            elif method == "h":
                 return A[j]
             else:  # method == "s":
                 return <data_t>((A[i] + A[j]) / 2)
-- 
2.43.0


From 647e4a89c4b82c19c871e694eaf17dfd2ee73066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 64/95] fix: lower and higher moving weighted medians

With more than one candidate the child of the node found first was taken (and its
children, without keeping track of the weights), which need not be a candidate.
---
 caput/algorithms/median/MedianTree.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.hpp b/caput/algorithms/median/MedianTree.hpp
index e2d4bd1..b1d0244 100644
--- a/caput/algorithms/median/MedianTree.hpp
+++ b/caput/algorithms/median/MedianTree.hpp
@@ -594,9 +594,13 @@ template<typename T>
 T Tree<T>::weighted_median_higher(node_ptr<T> node, double previous_weights,
                                   double next_weights, double midpoint) {
     // Take the highest value that qualifies.
-    while (node->right_weight + next_weights <= midpoint
-           && node->left_weight + previous_weights + node->data->weight <= midpoint && node->right)
-        node = node->right;
+    while (node->left_weight + previous_weights + node->data->weight <= midpoint) {
+        node_ptr<T> next = in_order_successor(node);
+        if (!next)
+            break;
+        previous_weights += node->data->weight + node->left_weight;
+        node = next;
+    }
     return (double)node->data->value;
 }
 
@@ -604,9 +608,13 @@ template<typename T>
 T Tree<T>::weighted_median_lower(node_ptr<T> node, double previous_weights,
                                  double next_weights, double midpoint) {
     // Take the lowest value that qualifies.
-    while (node->left_weight + previous_weights <= midpoint
-           && node->right_weight + next_weights + node->data->weight <= midpoint && node->left)
-        node = node->left;
+    while (node->right_weight + next_weights + node->data->weight <= midpoint) {
+        node_ptr<T> previous = in_order_predecessor(node);
+        if (!previous)
+            break;
+        next_weights += node->data->weight + node->right_weight;
+        node = previous;
+    }
     return (double)node->data->value;
 }
 
-- 
2.43.0


From bd203276dd974c4c9177330c2cc869b4cc98d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 65/95] fix: the moving median of a window without weight is
 NaN everywhere

The first window of one dimensional data and all windows of two dimensional data gave zero.
---
 caput/algorithms/median/MedianTree.pxd | 2 +-
 caput/algorithms/median/weighted.pyx   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/caput/algorithms/median/MedianTree.pxd b/caput/algorithms/median/MedianTree.pxd
index db94819..80543c0 100644
--- a/caput/algorithms/median/MedianTree.pxd
+++ b/caput/algorithms/median/MedianTree.pxd
@@ -9,7 +9,7 @@ cdef extern from "MedianTree.hpp" namespace "MedianTree":
         shared_ptr[Data[T]] insert(const T& element, const double weight) nogil
         bool remove(const shared_ptr[Data[T]] node) nogil
         T weighted_median(char method) nogil
-        int size()
+        int size() nogil
 
 cdef extern from "MedianTreeNodeData.hpp" namespace "MedianTree":
     cdef cppclass Data[T]:
diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index d4f767f..5d8f2ac 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -5,6 +5,7 @@
 import numpy as np
 import numpy.typing as npt
 
+from libc.math cimport NAN
 from libcpp.memory cimport shared_ptr
 from libcpp.deque cimport deque
 from cython.parallel import prange, parallel
@@ -396,7 +397,8 @@ def _mwm_1D(
             node = dummy
         fifo.push_back(node)
 
-    medians[0] = avl.weighted_median(method)
+    # Get the median giving NaN if the tree if empty (all zero weights)
+    medians[0] = avl.weighted_median(method) if avl.size() else np.nan
 
     # move window over the rest of the data
     for i in range(1, len_data):
@@ -487,7 +489,7 @@ def _mwm_2D(
                         node = dummy
                     fifo.push_back(node)
 
-            median_view[0, col] = avl.weighted_median(method)
+            median_view[0, col] = avl.weighted_median(method) if avl.size() else NAN
 
             # move window over the col
             for row in range(1, len_data_y):
@@ -515,6 +517,6 @@ def _mwm_2D(
                         else:
                             node = dummy
                         fifo.push_back(node)
-                median_view[row, col] = avl.weighted_median(method)
+                median_view[row, col] = avl.weighted_median(method) if avl.size() else NAN
 
     return medians
-- 
2.43.0


From 7255d09b23d5c966807cdc4560fc8f1d22f22b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 66/95] fix: check the shape of the weights of
 moving_weighted_median

Smaller weights were read out of bounds in two dimensions.
---
 caput/algorithms/median/weighted.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5d8f2ac..abeba81 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -321,10 +321,10 @@ def _check_arrays(
     if np.iscomplexobj(weights):
         raise ValueError(f"Weights must be real (got {weights.dtype})")
 
-    if data.ndim != weights.ndim:
+    if data.shape != weights.shape:
         raise ValueError(
             f"Expected data and weights to have same dimensions "
-            f"(is {data.ndim} and {weights.ndim})."
+            f"(is {data.shape} and {weights.shape})."
         )
 
     return data, weights
-- 
2.43.0


From 18cab0cec9986712e056754540baa11a6be5d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 67/95] fix: empty data, negative sizes and other types in
 moving_weighted_median

Empty two dimensional data was written to out of bounds, negative sizes gave numbers, and types that can be converted to float64 were refused.
---
 caput/algorithms/median/weighted.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index abeba81..ca88472 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -346,8 +346,18 @@ def moving_weighted_median(data, weights, size, method = "split"):
 
     if size == 0:
         raise ValueError('Got size=0, what do you expect me to do with that?')
+    if np.any(np.asarray(size) < 0):
+        raise ValueError('Need a positive window size (got {}).'.format(size))
     if size == 1:
         return np.where(weights != 0, data, weights)
+    if data.size == 0:
+        return np.empty(data.shape, dtype=np.float64)
+
+    # Convert types there is no specialised routine for
+    if data.dtype not in (np.intc, np.int_, np.float32, np.float64):
+        data = data.astype(np.float64)
+    if weights.dtype not in (np.intc, np.int_, np.float32, np.float64):
+        weights = weights.astype(np.float64)
 
     if data.ndim == 1:
         if isinstance(size, (tuple, list)):
-- 
2.43.0


From 61459eceae8c4d70b93b7e89a5fdda86cab58daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 68/95] fix: quantiles of non-contiguous and read-only arrays

---
 caput/algorithms/median/weighted.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index ca88472..332147d 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -224,8 +224,9 @@ def quantile(A, W, q, method = "split"):
 
     # Reshape the arrays to 2D. The last axis is the one along which the quantile will
     # be calculated
-    Ar = A.reshape(-1, A.shape[-1])
-    Wr = W.reshape(-1, W.shape[-1])
+    # (the routines need contiguous arrays)
+    Ar = np.require(A.reshape(-1, A.shape[-1]), requirements=["C", "W"])
+    Wr = np.require(W.reshape(-1, W.shape[-1]), requirements=["C", "W"])
 
     # Allocate the temporaries and output arrays
     At = np.ndarray(Ar.shape[-1], dtype=A.dtype)
-- 
2.43.0


From 770c3efb82d4bdfd14fbeb31ba705d9cd281805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 69/95] fix: accept read-only arrays in the spherical
 coordinate routines

---
 caput/astro/coordinates/_spherical.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 120bc84..09ef50d 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -13,7 +13,8 @@ from libc.math cimport sin, cos, hypot, M_PI_2
 
 
 def sph_to_cart(sph_coords):
-    cdef double[:, ::1] sph_view, cart_view
+    cdef const double[:, ::1] sph_view
+    cdef double[:, ::1] cart_view
     cdef Py_ssize_t i, n, nd
     cdef double r
 
@@ -88,7 +89,7 @@ def thetaphi_plane(sph_arr):
 
 def thetaphi_plane_cart(sph_coords):
     
-    cdef double[:, ::1] sph_view
+    cdef const double[:, ::1] sph_view
     cdef double[:, :, ::1] tp_view
     cdef Py_ssize_t i, n
     cdef double theta, phi
@@ -170,7 +171,7 @@ def great_circle_points(sph1, sph2, npoints):
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def cosine_rule(double[::1] mu, double[::1] x1, double[::1] x2):
+def cosine_rule(const double[::1] mu, const double[::1] x1, const double[::1] x2):
 
     cdef int nm = len(mu)
     cdef int n1 = len(x1)
-- 
2.43.0


From 1c8f7ef41d34a58b6a08dbd3dd0522ac40aceb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 70/95] fix: integer coordinates in cart_to_sph and
 thetaphi_plane

---
 caput/astro/coordinates/_spherical.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 09ef50d..7eda83a 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -57,6 +57,10 @@ def sph_to_cart(sph_coords):
 
 
 def cart_to_sph(cart_arr):
+    cart_arr = np.asarray(cart_arr)
+    if not np.issubdtype(cart_arr.dtype, np.floating):
+        cart_arr = cart_arr.astype(np.float64)
+
     sph_arr = np.empty_like(cart_arr)
 
     sph_arr[..., 2] = np.arctan2(cart_arr[..., 1], cart_arr[..., 0])
@@ -73,6 +77,10 @@ def sph_dot(arr1, arr2):
 
 
 def thetaphi_plane(sph_arr):
+    sph_arr = np.asarray(sph_arr)
+    if not np.issubdtype(sph_arr.dtype, np.floating):
+        sph_arr = sph_arr.astype(np.float64)
+
     thetahat = sph_arr.copy()
     thetahat[..., -2] += np.pi / 2.0
 
-- 
2.43.0


From 4c771e3394c8fe6422c453f742abd53739a0aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 71/95] fix: sph_dot broadcasts its arguments

---
 caput/astro/coordinates/_spherical.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 7eda83a..35d3822 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -73,7 +73,7 @@ def cart_to_sph(cart_arr):
 
 
 def sph_dot(arr1, arr2):
-    return np.inner(sph_to_cart(arr1), sph_to_cart(arr2))
+    return np.sum(sph_to_cart(arr1) * sph_to_cart(arr2), axis=-1)
 
 
 def thetaphi_plane(sph_arr):
-- 
2.43.0


From 26b11cf68b6ac45f16b6e39c1058192b99b91ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 72/95] fix: norm_vec2 of non-contiguous arrays

---
 caput/astro/coordinates/_spherical.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 35d3822..664b8dc 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -135,7 +135,8 @@ def norm_vec2(vec2):
     if not isinstance(vec2, np.ndarray) or vec2.shape[-1] != 2:
         raise ValueError("Argument must be a numpy array with last axis of length 2.")
 
-    vec_view = vec2.reshape(-1, 2)
+    vec = np.ascontiguousarray(vec2, dtype=np.float64).reshape(-1, 2)
+    vec_view = vec
 
     n = vec_view.shape[0]
 
@@ -146,6 +147,10 @@ def norm_vec2(vec2):
             vec_view[i, 0] /= norm
             vec_view[i, 1] /= norm
 
+    # The array may have been copied to make it contiguous
+    if not np.shares_memory(vec, vec2):
+        vec2[...] = vec.reshape(vec2.shape)
+
 
 def great_circle_points(sph1, sph2, npoints):
 
-- 
2.43.0


From e9356cf7cddd35779d49366fe5c8cdb886a58c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 73/95] fix: great circle between equal or nearly equal points

---
 caput/astro/coordinates/_spherical.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/caput/astro/coordinates/_spherical.pyx b/caput/astro/coordinates/_spherical.pyx
index 664b8dc..ae14ee0 100644
--- a/caput/astro/coordinates/_spherical.pyx
+++ b/caput/astro/coordinates/_spherical.pyx
@@ -164,11 +164,12 @@ def great_circle_points(sph1, sph2, npoints):
         raise Exception("Points antipodal, path undefined.")
 
     # Create difference unit vector
-    dcn = dc / np.dot(dc, dc) ** 0.5
+    d = np.dot(dc, dc) ** 0.5
+    dcn = dc / d if d > 0.0 else dc
 
     # Calculate central angle, and angle on corner O C1 C2
-    thc = np.arccos(np.dot(c1, c2))
-    alp = np.arccos(-np.dot(c1, dcn))
+    thc = 2.0 * np.arcsin(min(d / 2.0, 1.0))
+    alp = (np.pi - thc) / 2.0
 
     # Map regular angular intervals into distance along the displacement between
     # C1 and C2
-- 
2.43.0


From 755556fda503b05b5678c1d7a41c9184c973c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 74/95] fix: projected_distance broadcasts all its arguments

---
 caput/astro/coordinates/spherical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/astro/coordinates/spherical.py b/caput/astro/coordinates/spherical.py
index 599496a..7bbaca9 100644
--- a/caput/astro/coordinates/spherical.py
+++ b/caput/astro/coordinates/spherical.py
@@ -103,8 +103,10 @@ def projected_distance(ha, lat, dec, x, y, z=0.0):
     # We could use `sph_to_ground` here, but it's likely to be more memory
     # efficient to do this directly
     dist = x * (-1 * np.cos(dec) * np.sin(ha))
-    dist += y * (np.cos(lat) * np.sin(dec) - np.sin(lat) * np.cos(dec) * np.cos(ha))
-    dist += z * (np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec) * np.cos(ha))
+    dist = dist + y * (np.cos(lat) * np.sin(dec) - np.sin(lat) * np.cos(dec) * np.cos(ha))
+    dist = dist + z * (
+        np.sin(lat) * np.sin(dec) + np.cos(lat) * np.cos(dec) * np.cos(ha)
+    )
 
     return dist
 
-- 
2.43.0


From 9782673f39e2e955620fa129e17100d1dc8d2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 75/95] fix: random partitions over MPI ranks are disjoint and
 complete

---
 caput/util/mpitools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index ced645a..77c1d1c 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -490,6 +490,12 @@ def partition_list_mpi(
         r = comm.rank
         c = comm.size
 
+    if method == "rand" and c > 1 and comm is not None:
+        # Every rank has to use the same random order for the parts to be disjoint
+        order = bcast(np.random.permutation(len(full_list)), comm=comm)
+        full_list = [full_list[ind] for ind in order]
+        method = "con"
+
     return partition_list(full_list, r, c, method=method)
 
 
-- 
2.43.0


From 9c00b6bd4a8eda6de734614a511f70f2a3046661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 76/95] fix: write rows at their byte offset in
 parallel_rows_write_hdf5

---
 caput/util/mpitools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 77c1d1c..ce97b84 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -932,16 +932,17 @@ def lock_and_write_buffer(obj: object, fname: str, offset: int, size: int) -> No
 
     buf = memoryview(obj)
 
-    if len(buf) > size:
+    if buf.nbytes > size:
         raise Exception("Size doesn't match array length.")
 
     fd = os.open(fname, os.O_RDWR | os.O_CREAT)
 
     fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
 
+    os.lseek(fd, offset, os.SEEK_SET)
     nb = os.write(fd, buf)
 
-    if nb != len(buf):
+    if nb != buf.nbytes:
         raise Exception("Something funny happened with the reading.")
 
     fcntl.lockf(fd, fcntl.LOCK_UN)
@@ -963,6 +964,9 @@ def parallel_rows_write_hdf5(
 
     lr, sr, _ = split_local(shape[0], comm=comm)
 
-    nc = np.prod(shape[1:])
+    # Number of bytes in each row
+    nb = int(np.prod(shape[1:])) * local_data.dtype.itemsize
 
-    lock_and_write_buffer(local_data, fname, offset + sr * nc, lr * nc)
+    lock_and_write_buffer(
+        np.ascontiguousarray(local_data), fname, offset + int(sr) * nb, int(lr) * nb
+    )
-- 
2.43.0


From e0f73b791150d3dd760f6557ed808da29ea43bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 77/95] fix: transpose_blocks accepts any sequence as shape on
 one rank

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index ce97b84..dd2c508 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -752,7 +752,7 @@ def transpose_blocks(
     """
     if comm is None or comm.size == 1:
         # only one process
-        if row_array.shape[:-1] == shape[:-1]:
+        if row_array.shape[:-1] == tuple(shape[:-1]):
             # We are working on a single node and being asked to do
             # a trivial transpose.
             # Note that to mimic the mpi behaviour we have to allow the
-- 
2.43.0


From 37d3a600bdcced6f83c5555b601f1e70c13d7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 78/95] fix: cpu_count divides the cores of a node over its
 processes

---
 caput/util/mpitools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index dd2c508..0a7f9b5 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -165,7 +165,7 @@ def cpu_count(
             scomm = comm.Split_type(MPI.COMM_TYPE_SHARED)
 
     try:
-        nproc_per_node = comm.size // scomm.size
+        nproc_per_node = scomm.size
     except AttributeError:
         # This would happend if the default comm is None
         nproc_per_node = 1
@@ -173,7 +173,7 @@ def cpu_count(
     cpu_count = os.cpu_count()
 
     if cpu_count is not None:
-        cpu_count = int(cpu_count // nproc_per_node)
+        cpu_count = max(int(cpu_count // nproc_per_node), 1)
 
     return cpu_count
 
-- 
2.43.0


From 1537c338465ca6dc4b91fb1ac9d476bbf68d1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 79/95] fix: allocate_hdf5_dataset with the dataset name given
 as text

---
 caput/util/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 0a7f9b5..d66c837 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -898,7 +898,7 @@ def allocate_hdf5_dataset(
         plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
 
         # Create the dataset
-        dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
+        dset = h5py.h5d.create(f.id, os.fsencode(dsetname), tp, sp, plist)
 
         # Get the offset of the dataset into the file.
         state = dset.get_offset(), dset.get_storage_size()
-- 
2.43.0


From f66ce5ecbf9d2788e12e4e8754ba992e25423108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 80/95] fix: multithreaded poisson draws are integers whatever
 their number

---
 caput/algorithms/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index d73c831..61542b8 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -80,7 +80,7 @@ class MultithreadedRNG(np.random.Generator):
         "uniform": (2, np.float64, False, False),
         "normal": (2, np.float64, False, False),
         "standard_normal": (0, np.float64, True, True),
-        "poisson": (1, np.float64, False, False),
+        "poisson": (1, np.int64, False, False),
         "power": (1, np.float64, False, False),
     }
 
-- 
2.43.0


From 7f3dfcd8eae1f4750bc06fc4c0e93e3aa11c3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:27 +0000
Subject: [PATCH 81/95] fix: multithreaded generation into an existing array

---
 caput/algorithms/random.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/caput/algorithms/random.py b/caput/algorithms/random.py
index 61542b8..a0f59cf 100644
--- a/caput/algorithms/random.py
+++ b/caput/algorithms/random.py
@@ -156,12 +156,23 @@ class MultithreadedRNG(np.random.Generator):
                 size = None
 
             # Try and get an out argument
-            if has_out and "out" in kwargs:
-                out = kwargs.pop("out")
-                size = out.shape
+            if has_out and len(args) > nparam + 2:
+                out = args[nparam + 2]
+            elif has_out:
+                out = kwargs.pop("out", None)
             else:
                 out = None
 
+            # Only an array which can be filled in place is split between the threads.
+            # Leave anything else (and an inconsistent size) to the underlying method.
+            if out is not None:
+                if not out.flags.carray or (
+                    size is not None and np.broadcast_shapes(size) != out.shape
+                ):
+                    return method(self, *orig_args, **orig_kwargs)
+
+                size = out.shape
+
             # Try to figure out the dtype so we can pre-allocate the array for filling
             if has_dtype and len(args) > nparam + 1:
                 dtype = args[nparam + 1]
-- 
2.43.0


From 02d19b72890552f348490fe6fbcdabb39cfb2d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 82/95] fix: log levels may be given in lower case

---
 caput/pipeline/tasklib/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 9af355f..873506b 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -58,7 +58,7 @@ def _log_level(x):
     if isinstance(x, int):
         return x
 
-    if isinstance(x, str) and x in level_dict:
+    if isinstance(x, str) and x.upper() in level_dict:
         return level_dict[x.upper()]
 
     raise ValueError(f"Logging level {x!r} not understood")
-- 
2.43.0


From a61551c5bbefc3094f67db4eab788b7df275282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 83/95] fix: writing groups from pipeline tasks

---
 caput/pipeline/extensions/_extensions.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 047b938..f1c741e 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -348,6 +348,8 @@ class GroupIOMixin:
         """
         import h5py
 
+        from ...memdata import MemGroup, deep_group_copy
+
         file_format = fileformats.check_file_format(filename, file_format, output)
 
         try:
@@ -358,7 +360,7 @@ class GroupIOMixin:
 
         # Ensure parent directory is present.
         dirname = os.path.dirname(filename)
-        if not os.path.isdir(dirname):
+        if dirname != "" and not os.path.isdir(dirname):
             try:
                 os.makedirs(dirname)
             except OSError as e:
@@ -380,12 +382,13 @@ class GroupIOMixin:
                 output.file.filename, filename
             ):
                 # `output` already lives in this file.
-                output.flush()
+                output.file.flush()
 
             else:
                 # Copy to memory then to disk
                 # XXX This can be made much more efficient using a direct copy.
-                out_copy = MemGroup.from_hdf5(output)
+                out_copy = MemGroup()
+                deep_group_copy(output, out_copy)
 
                 # Lock file as we write
                 with lock_file(filename, comm=out_copy.comm) as fn:
@@ -406,9 +409,9 @@ class GroupIOMixin:
                         zarr.DirectoryStore(filename),
                         source_path=output.path,
                     )
-                logger.debug(
-                    f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
-                )
+                    logger.debug(
+                        f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
+                    )
 
 
 class ContainerIOMixin:
-- 
2.43.0


From 968b3f9c5f19b755679b9c9c0d47684fa910b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 84/95] fix: task output into the current directory

---
 caput/pipeline/extensions/_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index f1c741e..d4870ee 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -132,8 +132,8 @@ class _OneAndOne(Task):
                 "%s writing data to file %s.", self.__class__.__name__, output_filename
             )
             output_dirname = os.path.dirname(output_filename)
-            if not os.path.isdir(output_dirname):
-                os.makedirs(output_dirname)
+            if output_dirname != "" and not os.path.isdir(output_dirname):
+                os.makedirs(output_dirname, exist_ok=True)
             self.write_output(
                 output_filename,
                 output,
-- 
2.43.0


From 830ce3c6dbe5beafaa43237bbc115276628d25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 85/95] fix: cast task inputs which are empty or have no truth
 value

---
 caput/pipeline/extensions/_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index d4870ee..b3cb5bb 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -216,7 +216,7 @@ class SingleBase(_OneAndOne):
         except AttributeError:
             self.done = True
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         return self.read_process_write(input, self.input_filename, self.output_filename)
 
@@ -288,7 +288,7 @@ class IterBase(_OneAndOne):
             input_filename = middle + self.input_ext
             output_filename = middle + self.output_ext
 
-        if input:
+        if input is not None:
             input = self.cast_input(input)
         output = self.read_process_write(input, input_filename, output_filename)
         self.iteration += 1
-- 
2.43.0


From 044d0d2ed497c029aaf30d1906bd429ac6437b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 86/95] fix: outputs of untagged inputs are tagged by their
 count

---
 caput/pipeline/tasklib/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/base.py b/caput/pipeline/tasklib/base.py
index 873506b..11d55b7 100644
--- a/caput/pipeline/tasklib/base.py
+++ b/caput/pipeline/tasklib/base.py
@@ -350,7 +350,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
 
         # Extract a list of the tags for all input arguments
         input_tags = [
-            (str(icont.attrs.get("tag")) if isinstance(icont, MemDiskGroup) else "")
+            (str(icont.attrs.get("tag", "")) if isinstance(icont, MemDiskGroup) else "")
             for icont in input
         ]
 
@@ -558,7 +558,7 @@ class ContainerTask(MPILoggedTask, extensions.ContainerIOMixin):
         idict = dict(output.attrs)
         if "tag" in output.attrs:
             tag = output.attrs["tag"]
-        elif "input_tags" in output.attrs and len(output.attrs["input_tags"]):
+        elif len(output.attrs.get("input_tags", [])) and output.attrs["input_tags"][0]:
             tag = output.attrs["input_tags"][0]
         else:
             tag = self._count
-- 
2.43.0


From be58b6e97f48d636db9646f89bb1fa010cf04a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 87/95] fix: WaitZarrZip without any zip jobs

---
 caput/pipeline/tasklib/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 3fa1dcd..81f9a80 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -1049,7 +1049,7 @@ class WaitZarrZip(MPILoggedTask):
 
     def finish(self):
         """Wait for all Zarr zipping jobs to complete."""
-        for h in self._handles:
+        for h in self._handles or []:
             self.log.debug(f"Waiting on job processing {h.filename}")
 
             if h.handle is not None:
-- 
2.43.0


From c340fd04c4741e2cd7b1ed4df3f88a6aab6b20fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 88/95] fix: Truncate with weights of another type than the
 data

---
 caput/pipeline/tasklib/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 81f9a80..b425eb6 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -757,7 +757,9 @@ class Truncate(ContainerTask):
             weight = weight[:][slobj]
 
         # Broadcast `weight` against the shape of the truncation array
-        weight = np.broadcast_to(weight, data[:].shape).copy().reshape(-1)
+        # using the same precision as the data
+        dtype = data[:].real.dtype
+        weight = np.broadcast_to(weight, data[:].shape).astype(dtype).reshape(-1)
 
         if np.iscomplexobj(data):
             weight *= 2.0
-- 
2.43.0


From 668a501fe7131ef95dcc19b7b3daf638153c9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 89/95] fix: the error for an unknown queue system

It was itself an UnboundLocalError.
---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 083f55e..f73bf6d 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -305,7 +305,7 @@ def _resolve_system_config(conf: dict) -> dict:
             )
         else:
             raise ValueError(
-                f"Specified system `{system}`: is not known. "
+                f"Specified system `{sysname}`: is not known. "
                 f"Known systems are: {list(REGISTERED_SYSTEMS.keys())} "
                 f"and known clusters are: {list(REGISTERED_CLUSTERS.keys())}"
             )
-- 
2.43.0


From 2b1261d95ebff61daf96fc7ea4b1e33bb3823b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 90/95] fix: jobs for the default PBS system

The script referred to an unknown variable, and used settings which were not checked for.
---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 7c98664..b21e0b7 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -58,7 +58,7 @@ options = "--mail-user={email} --mail-type={mailtype}"
 command = "qsub"
 invoke = "mpirun"
 invoke_args = "-np {mpiproc:d} -npernode {pernode:d} -bind-to none"
-required = ["name", "nodes", "time", "directory", "ppn", "queue"]
+required = ["name", "nodes", "time", "directory", "ompnum", "pernode", "ppn", "queue"]
 script = """#!/bin/bash
 #PBS -l nodes={nodes:d}:ppn={ppn:d}
 #PBS -q {queue:s}
@@ -78,7 +78,7 @@ function setCrashed {{
 
 trap setCrashed ERR
 
-{module:s}
+{modules:s}
 
 source {venv:s}
 
-- 
2.43.0


From 99d68cb7bb61236b2630f7b860c29d59a4d515e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 91/95] fix: the default invoke_args of a queue system are used

---
 caput/pipeline/runner/_scheduler/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index f73bf6d..de621bd 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -434,9 +434,9 @@ def _resolve_job_script(conf: dict, directories: dict) -> str:
         conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")
 
     if "invoke_args" not in conf:
-        # Nothing here, but still need an empty string to
+        # Without a default we still need an empty string to
         # satisfy the script template
-        conf["invoke_args"] = ""
+        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
 
     # Path does not support type specifiers, so convert all `Path`
     # objects to strings
-- 
2.43.0


From eb581886b4508a6378beebcc025d759124067fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 92/95] fix: the default profiler of queued jobs exists

caput-pipeline run refuses --profiler=cProfiler.
---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index de621bd..5fd3450 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -112,7 +112,7 @@ def queue(
     submit: bool = False,
     lint: bool = True,
     profile: bool = False,
-    profiler: str | None = "cProfiler",
+    profiler: str | None = "cProfile",
     psutil: bool = False,
     overwrite: Literal["never", "failed"] = "never",
     email: str | None = None,
-- 
2.43.0


From 35693676a315166fe1b5414cecb7c7ad26f8720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 93/95] fix: a job which is refused leaves no job directory
 behind

A missing setting or virtualenv or an invalid mailtype was only noticed after
the directory had been created, so the corrected job was skipped as existing.
---
 caput/pipeline/runner/_scheduler/__init__.py | 38 +++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 5fd3450..8ddbf1a 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -219,19 +219,12 @@ def queue(
     system = resolved_config["system"]
     system_config = REGISTERED_SYSTEMS[system]
 
-    directories = _create_job_directories(resolved_config, overwrite)
+    directories = _resolve_job_directories(resolved_config, overwrite)
 
     if not directories:
         # The job already exists and we are not overwriting
         return
 
-    # Copy the config file to the job directory
-    sfile = _fix_path(configfile)
-    dfile = _fix_path(directories["jobdir"] / "config.yaml")
-
-    if sfile != dfile:
-        shutil.copyfile(sfile, dfile)
-
     # Forward profiler configuration
     resolved_config["profile"] = "--profile" if profile else ""
     resolved_config["profiler"] = f"--profiler={profiler}" if profile else ""
@@ -240,10 +233,6 @@ def queue(
     # Resolve the cluster job script based on the configuration
     jobscript = _resolve_job_script(resolved_config, directories)
 
-    # Write the job script to the job directory
-    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
-        f.write(jobscript)
-
     # Resolve mail options, if available for the queue system
     extra_options = []
 
@@ -266,6 +255,20 @@ def queue(
                 mail_config["options"].format(email=email, mailtype=mailtype).split()
             )
 
+    # Everything is in order, so create the job directory
+    directories["jobdir"].mkdir(parents=True, exist_ok=True)
+
+    # Copy the config file to the job directory
+    sfile = _fix_path(configfile)
+    dfile = _fix_path(directories["jobdir"] / "config.yaml")
+
+    if sfile != dfile:
+        shutil.copyfile(sfile, dfile)
+
+    # Write the job script to the job directory
+    with open(directories["jobdir"] / "jobscript.sh", "w") as f:
+        f.write(jobscript)
+
     if submit:
         # NOTE: explicitly set the environment to what Python thinks it should
         # be. This is because mpi4py will incorrectly modify the environment
@@ -324,8 +327,11 @@ def _resolve_system_config(conf: dict) -> dict:
     return cluster_conf
 
 
-def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
-    """Create job directories based on a configuration dictionary."""
+def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | None:
+    """Resolve job directories based on a configuration dictionary.
+
+    Nothing is created. Returns None if the job exists and should be left alone.
+    """
     directories = {}
 
     # If no temporary directory set, just use the final directory
@@ -344,7 +350,7 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
     if not finaldir.is_absolute():
         raise ValueError(f"Final output directory path {finaldir} must be absolute")
 
-    # Create temporary directory if required
+    # Check for an existing job
     jobdir = workdir / "job/"
     statusfile = jobdir / "STATUS"
 
@@ -361,8 +367,6 @@ def _create_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | Non
                         f"Successful job already exists at {workdir}. Skipping."
                     )
                     return None
-    else:
-        jobdir.mkdir(parents=True)
 
     directories["jobdir"] = jobdir
     directories["workdir"] = workdir
-- 
2.43.0


From b6ab23f06aeeae69c8349bee72470db51726c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 94/95] fix: a finished job which used a temporary directory is
 not run again

Its results have been moved to the final directory, which was not examined.
---
 caput/pipeline/runner/_scheduler/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 8ddbf1a..cd6cad1 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -352,11 +352,16 @@ def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | No
 
     # Check for an existing job
     jobdir = workdir / "job/"
-    statusfile = jobdir / "STATUS"
 
-    if jobdir.exists():
+    # A job which finished in a temporary directory was moved to the final one
+    for existing in (workdir, finaldir):
+        statusfile = existing / "job" / "STATUS"
+
+        if not statusfile.parent.exists():
+            continue
+
         if overwrite == "never":
-            logger.info(f"Job already exists at {workdir}. Skipping.")
+            logger.info(f"Job already exists at {existing}. Skipping.")
             return None
 
         if overwrite == "failed" and statusfile.exists():
@@ -364,7 +369,7 @@ def _resolve_job_directories(conf: dict, overwrite: str) -> dict[str, Path] | No
                 contents = fh.read()
                 if "FINISHED" in contents:
                     logger.info(
-                        f"Successful job already exists at {workdir}. Skipping."
+                        f"Successful job already exists at {existing}. Skipping."
                     )
                     return None
 
-- 
2.43.0


From 12dec4a1ea6c2920266a49e18e7685ae93a7445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:14 +0000
Subject: [PATCH 95/95] fix: linting a pipeline with its own virtual
 environment

References in its path were not expanded, and the packages were looked for in
lib/python3.1 for any version of Python from 3.10 on.
---
 caput/pipeline/runner/_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_core.py b/caput/pipeline/runner/_core.py
index 88541d6..b837f7d 100644
--- a/caput/pipeline/runner/_core.py
+++ b/caput/pipeline/runner/_core.py
@@ -163,6 +163,7 @@ def _load_template(templatefile: os.PathLike) -> str:
 
 def _load_venv(configfile: os.PathLike) -> None:
     """Load the venv specified under cluster/venv in the given configfile."""
+    import os
     import site
     from pathlib import Path
 
@@ -176,13 +177,15 @@ def _load_venv(configfile: os.PathLike) -> None:
 
     logger.info(f"Activating '{venv_path}'...")
 
-    base = Path(venv_path).resolve()
+    # References are expanded as they are when the job is queued
+    base = Path(os.path.expandvars(venv_path)).expanduser().resolve()
 
     if not base.exists():
         logger.warning(f"Path defined in 'cluster'/'venv' doesn't exist ({base})")
         sys.exit(1)
 
-    site_packages = base / "lib" / f"python{sys.version[:3]}" / "site-packages"
+    version = f"python{sys.version_info.major}.{sys.version_info.minor}"
+    site_packages = base / "lib" / version / "site-packages"
     prev_sys_path = list(sys.path)
 
     site.addsitedir(site_packages)
-- 
2.43.0

