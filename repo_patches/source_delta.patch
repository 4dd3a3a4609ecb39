From 938675b1975dda822fa667424f426133c9bc73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 01/37] fix: keep re-evaluated subexpressions in step with the
 evaluator's current layout

Without output caching (STORE_LAST_DEFAULT = False) a shared subexpression is
re-evaluated by its second parent and can lag behind the layout the evaluator
is moving fields from; it was then transformed as if it were already there.
---
 dedalus/core/evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..81f2576 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -120,6 +120,9 @@ class Evaluator:
             next_index = next(oscillate_indices)
             # Transform fields
             fields = self.get_fields(tasks)
+            # Bring uncached re-evaluations that lag behind to the current layout
+            for field in fields:
+                field.change_layout(self.dist.layouts[current_index])
             if current_index < next_index:
                 self.dist.paths[current_index].increment(fields)
             else:
-- 
2.43.0


From 22730aecce2fd4c0d324233dae56a05d5aa2f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 02/37] fix: skew of edge and constant fields in coefficient
 space

Edge (S1) and constant vectors hold coordinate components in coefficient space,
so applying the spin-component form gave a wrong result that depended on the
layout the operand happened to be in.
---
 dedalus/core/operators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..6fd36c8 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2130,12 +2130,19 @@ class SpinSkew(Skew):
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
         self.azimuth_axis = self.dist.get_axis(self.coordsys.coords[0])
+        # Constants and edge (S1) fields have coordinate rather than spin components in coeff space
+        input_basis = self.domain.get_basis(self.coordsys)
+        self.spin_components = (input_basis is not None) and (input_basis.dim > 1)
 
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
         # Build identity factors for each tangent space and coeffs
         shape = subproblem.field_shape(self)
         factors = [sparse.identity(size, format='csr') for size in shape]
+        # Left handed coordinate components
+        if not self.spin_components:
+            factors[self.index] = np.array([[0, 1], [-1, 0]])
+            return reduce(sparse.kron, factors, 1).tocsr()
         # Weight by spin (spinorder: -, +)
         factors[self.index] = np.array([[-1, 0], [0, 1]])
         # Multiply by 1j
@@ -2158,7 +2165,7 @@ class SpinSkew(Skew):
         out.preset_layout(arg.layout)
         # Apply skew
         if arg.data.size:
-            if arg.layout.grid_space[azimuth_axis+1]:
+            if arg.layout.grid_space[azimuth_axis+1] or not self.spin_components:
                 # Left handed
                 sx = axslice(self.index, 0, 1)
                 sy = axslice(self.index, 1, 2)
-- 
2.43.0


From 9ed2ec2598c2017f947e292e3218d824fdec3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 03/37] fix: L2 norm of rank-2 tensor fields

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..52cbcab 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -851,7 +851,7 @@ class Field(Current):
         elif rank == 1:
             self_inner_product = arithmetic.dot(np.conj(self), self)
         elif rank == 2:
-            self_inner_product = arithmetic.Trace(arithmetic.Dot(operators.Transpose(np.conj(self)), self))
+            self_inner_product = operators.Trace(arithmetic.dot(operators.TransposeComponents(np.conj(self)), self))
         else:
             raise ValueError("Norms only implemented up to rank-2 tensors.")
         # Compute L2 norm
-- 
2.43.0


From b9ff03ead79f3aca15055aa5d28f465826f0f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 04/37] fix: zero the unresolved modes of cosine transforms
 with a single resolved mode

---
 dedalus/core/transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..8200187 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -730,9 +730,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.forward_rescale_pos, data_out[posfreq])
-            if self.KM > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KM > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
     def resize_rescale_backward(self, data_in, data_out, axis, Kmax):
         """Resize by padding/trunction and rescale to unit amplitude."""
@@ -741,9 +741,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.backward_rescale_pos, data_out[posfreq])
-            if self.KN > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KN > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
 
 #@register_transform(basis.Cosine, 'scipy')
-- 
2.43.0


From 0bf5bcc1e5a4be58d596afcc44d9588081f39f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 05/37] fix: LBVP solve with processes that own no subproblems

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..c16b2ac 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -387,7 +387,8 @@ class LinearBoundaryValueSolver(SolverBase):
             sp_to_build = subproblems
         else:
             sp_to_build = [sp for sp in subproblems if sp not in self.subproblem_matsolvers]
-        if sp_to_build:
+        # Matrix construction is collective (NCC gathers), so processes without subproblems must participate
+        if self.dist.comm.allreduce(len(sp_to_build), op=MPI.SUM):
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
                 self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, self)
-- 
2.43.0


From d80bf717e8880e16956ad4a43b2ab02cafdab3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 06/37] fix: progress tracking when the clock has not advanced

---
 dedalus/tools/progress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/tools/progress.py b/dedalus/tools/progress.py
index 692fb39..14b2dd6 100644
--- a/dedalus/tools/progress.py
+++ b/dedalus/tools/progress.py
@@ -59,7 +59,7 @@ def track(iterable, write, desc='Iteration', iter=1, frac=1., dt=np.inf):
             last_iter_div = iter_div
             # Compute statistics
             percent = round(100 * completed / length)
-            rate = completed / elapsed_time
+            rate = completed / elapsed_time if elapsed_time else np.inf
             projected_time = length / rate
             remaining_time = projected_time - elapsed_time
             # Build and write message
-- 
2.43.0


From ba4ed1101fd7029d9194e22a43fbd7dda7245e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 07/37] fix: run statistics for runs ending during warmup, with
 a stopped clock, or by an exception

---
 dedalus/core/solvers.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c16b2ac..7d1a78f 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -728,8 +728,10 @@ class InitialValueSolver(SolverBase):
                     logger.info(f"Iteration={self.iteration}, Time={self.sim_time:e}, Step={timestep:e}")
         except:
             logger.error('Exception raised, triggering end of main loop.')
+            # Other processes may not have raised, so avoid communication
+            self.log_stats(collective=False)
             raise
-        finally:
+        else:
             self.log_stats()
 
     def print_subproblem_ranks(self, subproblems=None, dt=1):
@@ -753,16 +755,25 @@ class InitialValueSolver(SolverBase):
             handlers = self.evaluator.handlers
         self.evaluator.evaluate_handlers(handlers, iteration=self.iteration, wall_time=self.wall_time, sim_time=self.sim_time, timestep=dt)
 
-    def log_stats(self, format=".4g"):
-        """Log timing statistics with specified string formatting (optional)."""
-        self.run_time_end = self.wall_time
-        start_time = self.start_time_end
+    def log_stats(self, format=".4g", collective=True):
+        """
+        Log timing statistics with specified string formatting (optional).
+        Use collective=False to avoid communication, e.g. after a failure on some processes.
+        """
+        if collective:
+            self.run_time_end = self.wall_time
+        else:
+            self.run_time_end = time.time() - self.init_time
+        # Setup lasts until the end if no steps were taken
+        start_time = getattr(self, 'start_time_end', self.run_time_end)
+        # Run timings start with the first step after warmup
+        run_started = self.iteration > self.initial_iteration + self.warmup_iterations
         logger.info(f"Final iteration: {self.iteration}")
         logger.info(f"Final sim time: {self.sim_time}")
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
-        if self.profile:
+        if self.profile and collective and run_started:
             self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if run_started:
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
@@ -774,7 +785,8 @@ class InitialValueSolver(SolverBase):
                 logger.info(f"Profile output time: {profile_output_time:{format}} sec")
             logger.info(f"Run time (iter {self.warmup_iterations}-end): {run_time:{format}} sec")
             logger.info(f"CPU time (iter {self.warmup_iterations}-end): {run_time*cpus/3600:{format}} cpu-hr")
-            logger.info(f"Speed: {(modes*stages/cpus/run_time):{format}} mode-stages/cpu-sec")
+            speed = modes*stages/cpus/run_time if run_time else np.inf
+            logger.info(f"Speed: {speed:{format}} mode-stages/cpu-sec")
         else:
             logger.info(f"Timings unavailable because warmup did not complete.")
 
-- 
2.43.0


From c14c9e7389991d564e10862b27e1fa4638ed5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 08/37] fix: merging of virtual output files

---
 dedalus/tools/post.py | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index 92c2f65..c550cee 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -9,6 +9,7 @@ import xarray
 from xarray.backends import BackendEntrypoint
 import numpy as np
 from mpi4py import MPI
+from ..core.evaluator import H5VirtualFileHandler
 from ..tools.general import natural_sort
 
 import logging
@@ -130,6 +131,8 @@ def merge_virtual_analysis(base_path, cleanup=False):
     """
     set_path = pathlib.Path(base_path)
     virtual_file_paths = get_assigned_sets(set_path, distributed=False)
+    # Make sure all processes have listed the sets before any are modified
+    MPI.COMM_WORLD.Barrier()
     for virtual_file_path in virtual_file_paths:
         merge_virtual_file(virtual_file_path, cleanup=cleanup)
 
@@ -144,20 +147,22 @@ def merge_virtual_file(virtual_file_path, cleanup=False):
     cleanup : bool, optional
         Delete distributed files and virtual file after merging (default: False)
     """
-    merged_file_path = pathlib.Path(virtual_file_path)
-    logger.info("Merging virtual file {}".format(merged_file_path))
-    tmp_file_path = merged_file_path.parent.joinpath('tmp_{}.h5'.format(merged_file_path.stem))
-    shutil.move(merged_file_path, tmp_file_path)
-
-    # Create joint file, overwriting if it already exists
-    with h5py.File(str(merged_file_path), mode='w') as merged_file:
-        # Setup joint file based on first process file (arbitrary)
-        merge_virtual(merged_file, tmp_file_path)
-    os.remove(tmp_file_path)
+    virtual_file_path = pathlib.Path(virtual_file_path)
+    logger.info("Merging virtual file {}".format(virtual_file_path))
+    # Merge inside a copy, so that the virtual file is only replaced by a complete merged file
+    with h5py.File(str(virtual_file_path), mode='r') as file:
+        virtual_tasks = [name for name, dset in file['tasks'].items() if dset.is_virtual]
+    if virtual_tasks:
+        tmp_file_path = virtual_file_path.parent.joinpath('tmp_{}.h5'.format(virtual_file_path.stem))
+        shutil.copy(virtual_file_path, tmp_file_path)
+        with h5py.File(str(tmp_file_path), mode='r+') as file:
+            for task_name in virtual_tasks:
+                H5VirtualFileHandler.merge_task(file, task_name, overwrite=True)
+        os.replace(tmp_file_path, virtual_file_path)
 
     # Cleanup after completed merge, if directed
     if cleanup:
-        folder = merged_file_path.parent.joinpath("{}/".format(virtual_file_path.stem))
+        folder = virtual_file_path.parent.joinpath("{}/".format(virtual_file_path.stem))
         logger.info("cleaning up {}".format(folder))
         if os.path.isdir(folder):
             shutil.rmtree(folder)
@@ -184,6 +189,8 @@ def merge_analysis(base_path, cleanup=False):
     logger.info("Merging files from {}".format(base_path))
 
     set_paths = get_assigned_sets(base_path, distributed=True)
+    # Make sure all processes have listed the sets before any are modified
+    MPI.COMM_WORLD.Barrier()
     for set_path in set_paths:
         merge_distributed_set(set_path, cleanup=cleanup)
 
@@ -208,13 +215,19 @@ def merge_distributed_set(set_path, cleanup=False):
     proc_paths = natural_sort(proc_paths)
     joint_path = set_path.parent.joinpath("{}.h5".format(set_stem))
 
-    # Create joint file, overwriting if it already exists
-    with h5py.File(str(joint_path), mode='w') as joint_file:
+    # Process files without scales belong to a virtual joint file
+    if not (proc_paths and has_scales(proc_paths[0])):
+        merge_virtual_file(joint_path, cleanup=cleanup)
+        return
+    # Create joint file, replacing any existing file once complete
+    tmp_path = set_path.parent.joinpath("tmp_{}.h5".format(set_stem))
+    with h5py.File(str(tmp_path), mode='w') as joint_file:
         # Setup joint file based on first process file (arbitrary)
         merge_setup(joint_file, proc_paths)
         # Merge data from all process files
         for proc_path in proc_paths:
             merge_data(joint_file, proc_path)
+    os.replace(tmp_path, joint_path)
     # Cleanup after completed merge, if directed
     if cleanup:
         for proc_path in proc_paths:
@@ -222,6 +235,12 @@ def merge_distributed_set(set_path, cleanup=False):
         set_path.rmdir()
 
 
+def has_scales(path):
+    """Check if an HDF5 file contains output scales."""
+    with h5py.File(str(path), mode='r') as file:
+        return 'scales' in file
+
+
 def merge_setup(joint_file, proc_paths, virtual=False):
     """
     Merge HDF5 setup from part of a distributed analysis set into a joint file.
-- 
2.43.0


From 8db82584cbb3b214be3b6bf7fe35b144c9a36dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 09/37] fix: wavenumber scales of coefficient-space outputs

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 81f2576..0896da3 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -556,7 +556,7 @@ class H5FileHandlerBase(Handler):
                         data = basis.global_grids(self.dist, scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From 930c8450d32a8a350275de5c9685aecd82bce43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 10/37] fix: grid scales of outputs with different scales per
 axis

---
 dedalus/core/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 0896da3..bb008cd 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -550,10 +550,12 @@ class H5FileHandlerBase(Handler):
                 if basis is None:
                     sn = lookup = 'constant'
                 else:
-                    subaxis = axis - self.dist.get_basis_axis(basis)
+                    first_axis = self.dist.get_basis_axis(basis)
+                    subaxis = axis - first_axis
                     if layout.grid_space[axis]:
                         sn = basis.coordsys.coords[subaxis].name
-                        data = basis.global_grids(self.dist, scales)[subaxis].ravel()
+                        basis_scales = scales[first_axis:first_axis+basis.dim]
+                        data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
                         data = layout.global_group_arrays(op.domain, scales)[axis]
-- 
2.43.0


From e0d3dcdb37e17098be1041ee10fc8f1b1086c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 11/37] fix: file handlers only count and remove their own
 output sets

---
 dedalus/core/evaluator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index bb008cd..0677a1d 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -402,8 +402,14 @@ class H5FileHandlerBase(Handler):
 
         self.comm = comm = self.dist.comm_cart
         if comm.rank == 0:
-            set_pattern = '%s_s*' % (self.base_path.stem)
-            sets = list(self.base_path.glob(set_pattern))
+            # Find existing sets, excluding any other files with similar names
+            set_pattern = re.compile(re.escape(self.name) + r"_s(\d+)")
+            sets, set_nums = [], []
+            for path in sorted(self.base_path.glob("*")):
+                m = set_pattern.fullmatch(path.stem if path.suffix == ".h5" else path.name)
+                if m and (path.suffix == ".h5" or path.is_dir()):
+                    sets.append(path)
+                    set_nums.append(int(m.group(1)))
             if mode == "overwrite":
                 for set in sets:
                     if set.is_dir():
@@ -413,12 +419,7 @@ class H5FileHandlerBase(Handler):
                 set_num = 1
                 total_write_num = 0
             elif mode == "append":
-                set_nums = []
                 if sets:
-                    for set in sets:
-                        m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
-                        if m:
-                            set_nums.append(int(m.groups()[0]))
                     max_set = max(set_nums)
                     joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
                     p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
-- 
2.43.0


From 545226c2c6a375d8456617f5ef91e7e84ddfb413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 12/37] fix: post-processing only merges output sets of the
 given handler

---
 dedalus/tools/post.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index c550cee..8aaa9e7 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -1,6 +1,7 @@
 """Post-processing helpers."""
 
 import os
+import re
 import pathlib
 import hashlib
 import shutil
@@ -101,12 +102,12 @@ def get_assigned_sets(base_path, distributed=False):
 
     """
     base_path = pathlib.Path(base_path)
-    base_stem = base_path.stem
+    # Find sets, excluding any other files with similar names
+    set_pattern = re.compile(re.escape(base_path.stem) + r"_s\d+")
     if distributed:
-        set_paths = base_path.glob("{}_*".format(base_stem))
-        set_paths = filter(lambda path: path.is_dir(), set_paths)
+        set_paths = (path for path in base_path.glob("*") if path.is_dir() and set_pattern.fullmatch(path.name))
     else:
-        set_paths = base_path.glob("{}_*.h5".format(base_stem))
+        set_paths = (path for path in base_path.glob("*.h5") if set_pattern.fullmatch(path.stem))
     set_paths = natural_sort(set_paths)
     return set_paths[MPI_RANK::MPI_SIZE]
 
-- 
2.43.0


From 73431489f2ba6418a03f12c915329c93115a4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 13/37] fix: append-mode restart after an interrupted write

---
 dedalus/core/evaluator.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 0677a1d..d88780a 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -419,22 +419,18 @@ class H5FileHandlerBase(Handler):
                 set_num = 1
                 total_write_num = 0
             elif mode == "append":
-                if sets:
-                    max_set = max(set_nums)
-                    joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
-                    p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
-                    if os.path.exists(str(joined_file)):
-                        with h5py.File(str(joined_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
-                    elif os.path.exists(str(p0_file)):
-                        with h5py.File(str(p0_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
-                    else:
-                        last_write_num = 0
-                        logger.warning("Cannot determine write num from files. Restarting count.")
-                else:
-                    max_set = 0
-                    last_write_num = 0
+                max_set = max(set_nums, default=0)
+                last_write_num = 0
+                # Find last write from last readable set, since sets may be incomplete after an interrupted write
+                for n in sorted(np.unique(set_nums), reverse=True):
+                    joined_file = base_path.joinpath("{}_s{}.h5".format(self.name, n))
+                    p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(self.name, n))
+                    try:
+                        with h5py.File(str(joined_file if joined_file.exists() else p0_file), 'r') as testfile:
+                            last_write_num = np.max(testfile['/scales/write_number'])
+                        break
+                    except (OSError, RuntimeError, KeyError, ValueError):
+                        logger.warning("Cannot determine write num from set {}.".format(n))
                 set_num = max_set + 1
                 total_write_num = last_write_num
         else:
-- 
2.43.0


From 840b113be75ebcfa993a4f9656e2fc7c555d80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 14/37] fix: raise errors from writing output data

---
 dedalus/core/evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index d88780a..608fa45 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -519,6 +519,7 @@ class H5FileHandlerBase(Handler):
         file.create_group('scales')
         file['scales'].create_dataset(name='constant', data=np.zeros(1), dtype=np.float64)
         file['scales']['constant'].make_scale('constant')
+        file['scales']['constant'].flush()
         for name in ['sim_time', 'timestep', 'wall_time']:
             file['scales'].create_dataset(name=name, shape=(0,), maxshape=(self.max_writes,), dtype=np.float64) # shape[0] = 0 to chunk across writes
             file['scales'][name].make_scale(name)
@@ -605,6 +606,7 @@ class H5FileHandlerBase(Handler):
             dset = file['scales'][name]
             dset.resize(self.file_write_num, axis=0)
             dset[self.file_write_num-1] = kw[name]
+            dset.flush() # Raise write errors, which are suppressed when implicitly closing datasets
 
     def write_task(self, file, task):
         """Write task data."""
@@ -650,6 +652,7 @@ class H5GatherFileHandler(H5FileHandlerBase):
             dset = file['tasks'][task['name']]
             dset.resize(self.file_write_num, axis=0)
             dset[self.file_write_num-1] = data
+            dset.flush() # Raise write errors, which are suppressed when implicitly closing datasets
 
 
 class H5ParallelFileHandler(H5FileHandlerBase):
@@ -843,6 +846,7 @@ class H5VirtualFileHandler(H5FileHandlerBase):
             dset = proc_file['tasks'][task['name']]
             dset.resize(self.file_write_num, axis=0)
             dset[self.file_write_num-1] = out.data
+            dset.flush() # Raise write errors, which are suppressed when implicitly closing datasets
 
     @staticmethod
     def merge_task(file, task_name, overwrite=False):
-- 
2.43.0


From be454a2139dd752e30723ddefdbf95cb21e93ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 15/37] fix: raise errors from listing existing output sets

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 608fa45..147797a 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -405,7 +405,7 @@ class H5FileHandlerBase(Handler):
             # Find existing sets, excluding any other files with similar names
             set_pattern = re.compile(re.escape(self.name) + r"_s(\d+)")
             sets, set_nums = [], []
-            for path in sorted(self.base_path.glob("*")):
+            for path in sorted(base_path.iterdir() if base_path.exists() else []):
                 m = set_pattern.fullmatch(path.stem if path.suffix == ".h5" else path.name)
                 if m and (path.suffix == ".h5" or path.is_dir()):
                     sets.append(path)
-- 
2.43.0


From 24378dfe4c1bc11add7e27bea4b44c11b2da7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 16/37] fix: raise errors from writing output grid scales

---
 dedalus/core/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 147797a..c0d1bf7 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -560,8 +560,9 @@ class H5FileHandlerBase(Handler):
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-                        file['scales'].create_dataset(name=lookup, data=data)
-                        file['scales'][lookup].make_scale(sn)
+                        scale = file['scales'].create_dataset(name=lookup, data=data)
+                        scale.flush() # Raise write errors, which are suppressed when implicitly closing datasets
+                        scale.make_scale(sn)
                 scale = file['scales'][lookup]
                 dset.dims[1 + rank + axis].label = sn
                 dset.dims[1 + rank + axis].attach_scale(scale)
-- 
2.43.0


From 7d1c2eb1b98f034efccf0deb21993c663f07e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 17/37] fix: copy process files directly when merging virtual
 outputs, so that inaccessible files raise errors

---
 dedalus/core/evaluator.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index c0d1bf7..f3c4816 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -859,12 +859,21 @@ class H5VirtualFileHandler(H5FileHandlerBase):
         new_name = f"{task_name}_merged"
         new_shape = (1,) + old_dset.shape[1:] # shape[0] = 1 to automatically chunk within writes
         new_dset = file['tasks'].create_dataset(name=new_name, shape=new_shape, maxshape=old_dset.maxshape, dtype=old_dset.dtype)
-        new_dset.resize(old_dset.shape[0], axis=0)
+        new_dset.resize(0, axis=0)
         # Copy attributes and scales
         new_dset.attrs.update(old_dset.attrs)
-        # Copy data chunk by chunk
-        for chunk in new_dset.iter_chunks():
-            new_dset[chunk] = old_dset[chunk]
+        # Copy data directly from process files, write by write
+        # Reading the virtual dataset would silently give fill values for inaccessible process files
+        base_path = pathlib.Path(file.filename).parent
+        for source in old_dset.virtual_sources():
+            with h5py.File(str(base_path.joinpath(source.file_name)), mode='r') as proc_file:
+                proc_dset = proc_file[source.dset_name]
+                if proc_dset.shape[0] > new_dset.shape[0]:
+                    new_dset.resize(proc_dset.shape[0], axis=0)
+                slices = tuple(slice(start, start+size) for start, size in zip(proc_dset.attrs['local_start'], proc_dset.attrs['local_shape']))
+                for write in range(proc_dset.shape[0]):
+                    new_dset[(write,) + slices] = proc_dset[write]
+        new_dset.flush() # Raise write errors, which are suppressed when implicitly closing datasets
         # Overwrite old dataset if requested
         if overwrite:
             del file['tasks'][task_name]
-- 
2.43.0


From cfbdec771fefe583e0f97e9e50914499a2d25961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 18/37] fix: list output folders without suppressing errors
 when merging

---
 dedalus/tools/post.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index 8aaa9e7..36ad630 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -104,10 +104,12 @@ def get_assigned_sets(base_path, distributed=False):
     base_path = pathlib.Path(base_path)
     # Find sets, excluding any other files with similar names
     set_pattern = re.compile(re.escape(base_path.stem) + r"_s\d+")
+    # List directory directly, since globbing suppresses errors
+    paths = base_path.iterdir() if base_path.exists() else []
     if distributed:
-        set_paths = (path for path in base_path.glob("*") if path.is_dir() and set_pattern.fullmatch(path.name))
+        set_paths = (path for path in paths if path.is_dir() and set_pattern.fullmatch(path.name))
     else:
-        set_paths = (path for path in base_path.glob("*.h5") if set_pattern.fullmatch(path.stem))
+        set_paths = (path for path in paths if path.suffix == ".h5" and set_pattern.fullmatch(path.stem))
     set_paths = natural_sort(set_paths)
     return set_paths[MPI_RANK::MPI_SIZE]
 
@@ -212,7 +214,9 @@ def merge_distributed_set(set_path, cleanup=False):
     logger.info("Merging set {}".format(set_path))
 
     set_stem = set_path.stem
-    proc_paths = set_path.glob("{}_p*.h5".format(set_stem))
+    proc_pattern = re.compile(re.escape(set_stem) + r"_p\d+\.h5")
+    paths = set_path.iterdir() if set_path.exists() else []
+    proc_paths = (path for path in paths if proc_pattern.fullmatch(path.name))
     proc_paths = natural_sort(proc_paths)
     joint_path = set_path.parent.joinpath("{}.h5".format(set_stem))
 
-- 
2.43.0


From a66d044133e563f8ccce821a385ce69fa2214421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 19/37] fix: rebuild cached subproblem views of fields when
 their buffers change

---
 dedalus/core/subsystems.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..ac714fe 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -319,23 +319,28 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
+    @CachedAttribute
+    def _field_views_cache(self):
+        return {}
+
     def _input_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._input_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._field_views('input', fields, self._input_views)
 
-    @CachedMethod
     def _output_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._output_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._field_views('output', fields, self._output_views)
+
+    def _field_views(self, name, fields, buffer_views):
+        """Build views into field data. Cached until any field uses a different buffer (e.g. after changing scales)."""
+        buffers, views = self._field_views_cache.get((name, fields), (None, None))
+        if views is None or any(field.buffer is not buffer for field, buffer in zip(fields, buffers)):
+            buffers = [field.buffer for field in fields]
+            views = []
+            for field, buffer_data in zip(fields, buffer_views):
+                for buffer_view, field_slices in buffer_data:
+                    field_view = field.data[field_slices]
+                    views.append((buffer_view, field_view))
+            self._field_views_cache[(name, fields)] = (buffers, views)
+        return views
 
     def gather_inputs(self, fields, out=None):
         """Gather and precondition subproblem data from input-like field list."""
-- 
2.43.0


From 999bff3bea05f597f2ab7c661295c049c492de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 20/37] fix: load grid data of sizes where the recovered scales
 round up

---
 dedalus/core/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 52cbcab..dacf3fb 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -766,7 +766,11 @@ class Field(Current):
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        data_shape = np.array(global_data.shape[-dim:])
+        base_shape = np.array(layout.global_shape(self.domain, scales=1))
+        scales = data_shape / base_shape
+        # Correct rounding where scaled shapes (which are rounded up) would exceed data shape
+        scales = np.where(np.ceil(scales * base_shape) > data_shape, np.nextafter(scales, 0), scales)
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
-- 
2.43.0


From bd5045b5bdf0dfb0b79d1a11c62e7d9e95bcf4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 21/37] fix: always evaluate the RHS, including when revisiting
 earlier iterations after loading a state

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 7d1a78f..515fb1c 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -568,7 +568,8 @@ class InitialValueSolver(SolverBase):
         local_modes = sum([prod(sp.shape) for sp in self.subproblems])
         self.total_modes = self.dist.comm.allreduce(local_modes, op=MPI.SUM)
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        # Always scheduled, including when revisiting earlier iterations (e.g. after loading a state)
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
-- 
2.43.0


From d9ed4187119838365b72fd382dfca89d5d648625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 22/37] fix: report errors accessing the set folder when
 cleaning up a merged virtual set

---
 dedalus/tools/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index 36ad630..6036c18 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -167,7 +167,7 @@ def merge_virtual_file(virtual_file_path, cleanup=False):
     if cleanup:
         folder = virtual_file_path.parent.joinpath("{}/".format(virtual_file_path.stem))
         logger.info("cleaning up {}".format(folder))
-        if os.path.isdir(folder):
+        if folder.exists():
             shutil.rmtree(folder)
 
 
-- 
2.43.0


From b9ff8389c9295d22620793c65c43d740412a0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 23/37] fix: parallel_mkdir tolerates concurrent creation and
 raises errors on all processes

---
 dedalus/tools/parallel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dedalus/tools/parallel.py b/dedalus/tools/parallel.py
index b3d6494..0c26e60 100644
--- a/dedalus/tools/parallel.py
+++ b/dedalus/tools/parallel.py
@@ -72,8 +72,15 @@ class ProfileWrapper:
 def parallel_mkdir(path, comm=MPI.COMM_WORLD):
     """Create a directory from root process."""
     path = pathlib.Path(path)
+    error = None
     with Sync(comm=comm, enter=False, exit=True) as sync:
         if sync.comm.rank == 0:
-            if not path.exists():
-                path.mkdir()
+            try:
+                path.mkdir(exist_ok=True)
+            except OSError as e:
+                error = e
+    # Raise any error on all processes
+    error = comm.bcast(error, root=0)
+    if error is not None:
+        raise error
 
-- 
2.43.0


From bfe279a9fd0b5ae2fe02d12ceb5859522964ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 24/37] fix: TRANSPOSE_LIBRARY=mpi crashed: AlltoallvTranspose
 did not take the chunk shape

---
 dedalus/core/transposes.pyx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..fce4ae8 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -267,6 +267,7 @@ cdef class AlltoallvTranspose:
     cdef readonly int datasize, axis
     cdef readonly int N0, N1, N2, N3
     cdef readonly int[::1] global_shape
+    cdef readonly int[::1] chunk_shape
     cdef readonly int[::1] col_starts
     cdef readonly int[::1] row_starts
     cdef readonly int[::1] col_ends
@@ -284,10 +285,11 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
+        self.chunk_shape = chunk_shape = np.array(chunk_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +298,12 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
+        # Chunks
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
         # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        B1 = C1 * math.ceil(math.ceil(global_shape[axis] / C1) / pycomm.size)
+        B2 = C2 * math.ceil(math.ceil(global_shape[axis+1] / C2) / pycomm.size)
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
-- 
2.43.0


From 35ee590cc4fa4538d396aeac6aa9798cf27d3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 25/37] fix: grouped forward transposes left fields without
 distributed data in the wrong layout

---
 dedalus/core/distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..b017e3a 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -921,7 +921,7 @@ class Transpose:
             else:
                 # No communication: just update field layouts
                 for field in fields:
-                    field.preset_layout(self.layout1)
+                    field.preset_layout(self.layout0)
 
     # def increment_group(self, *fields):
     #     """Transpose group from layout0 to layout1."""
-- 
2.43.0


From 4688ab179c77dd0fb497ea961348797dcefa0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 26/37] fix: half-complex FFT left unresolved modes
 uninitialised with a single resolved mode

---
 dedalus/core/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 8200187..e377c78 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -610,7 +610,7 @@ class FFTWHalfComplexFFT(FFTWBase, RealFourierTransform):
         np.multiply(cdata_posfreq_cos, (1 / 2), temp_posfreq_cos)
         np.multiply(cdata_posfreq_msin, (1 / 2), temp_posfreq_msin)
         # Zero k > Kmax data
-        temp[axslice(axis, Kmax+1, -Kmax)] = 0
+        temp[axslice(axis, Kmax+1, self.N-Kmax)] = 0
 
     def forward(self, gdata, cdata, axis):
         """Apply forward transform along specified axis."""
-- 
2.43.0


From 24da063da07eb9a0c741accc96584c66c8b4b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 27/37] fix: discard partially evaluated arguments when an
 operator is evaluated anew

---
 dedalus/core/future.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedalus/core/future.py b/dedalus/core/future.py
index 58f9cd9..29df5f2 100644
--- a/dedalus/core/future.py
+++ b/dedalus/core/future.py
@@ -40,6 +40,7 @@ class Future(Operand):
     """
 
     store_last = STORE_LAST_DEFAULT
+    _args_id = None
 
     def __init__(self, *args, out=None):
         # # Check output consistency
@@ -158,6 +159,11 @@ class Future(Operand):
                 self.last_id = None
                 self.last_out = None
 
+        # Discard arguments left over from an earlier unfinished evaluation
+        if force or (id is not None and id != self._args_id):
+            self.reset()
+        self._args_id = id
+
         # Recursively attempt evaluation of all operator arguments
         # Track evaluation success with flag
         all_eval = True
-- 
2.43.0


From 87d1e7abd010ec5da6fc9b10d7c9d749b144b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 28/37] fix: always evaluate the right-hand side of boundary
 value problems

---
 dedalus/core/solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 515fb1c..f1b09b2 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -348,7 +348,8 @@ class LinearBoundaryValueSolver(SolverBase):
         self.subproblem_matsolvers = {}
         self.iteration = 0
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        # Always scheduled, including when repeating iterations (e.g. after resetting the counter or a failed solve)
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
@@ -450,7 +451,8 @@ class NonlinearBoundaryValueSolver(SolverBase):
             pert.valid_modes[:] = var.valid_modes
         self.iteration = 0
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        # Always scheduled, including when repeating iterations (e.g. after resetting the counter or a failed solve)
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
-- 
2.43.0


From 39414e801a3823996dabeb9d82921c4979ea7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 29/37] fix: sphere averages were not recognised as constant,
 so multiplying them failed in parallel

---
 dedalus/core/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..02f6ae3 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2767,6 +2767,10 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
             self.azimuth_basis.forward_coeff_permutation = self.forward_m_perm
             self.azimuth_basis.backward_coeff_permutation = self.backward_m_perm
 
+    @CachedAttribute
+    def constant(self):
+        return (self.mmax==0, self.shape[1]==1)
+
     @CachedAttribute
     def latitude_basis(self):
         shape = (1, self.shape[1])
-- 
2.43.0


From 09871d0fd17ad1b2ae3755d51c3fe52864f5ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 30/37] fix: assigning global data to vector and tensor fields

---
 dedalus/core/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index dacf3fb..94a0854 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -622,8 +622,9 @@ class Field(Current):
         return copy
 
     def set_global_data(self, global_data):
-        elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        component_slices = tuple(slice(None) for cs in self.tensorsig)
+        spatial_slices = self.layout.slices(self.domain, self.scales)
+        self.set_local_data(global_data[component_slices + spatial_slices])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
-- 
2.43.0


From fb0efb929780c53d4b605c483c47a3c7dd9dcd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:07 +0000
Subject: [PATCH 31/37] fix: initial value problems starting at negative times
 started at the absolute value

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index f1b09b2..df76c04 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -581,7 +581,7 @@ class InitialValueSolver(SolverBase):
             timestepper = timesteppers.schemes[timestepper]
         self.timestepper = timestepper(self)
         # Attributes
-        self.sim_time = self.initial_sim_time = problem.time.allreduce_data_max(layout='g')
+        self.sim_time = self.initial_sim_time = problem.time.allgather_data(layout='g').real.item()
         self.iteration = self.initial_iteration = 0
         self.warmup_iterations = warmup_iterations
         if np.isrealobj(self.dtype.type()):
-- 
2.43.0


From 4964ed2ce9d721c763afce2fbabfafb188fa04c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 32/37] fix: grids of sphere averages had the wrong size at
 scales other than 1

---
 dedalus/core/basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 02f6ae3..3abf93d 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -3046,21 +3046,21 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
         return reshape_vector(theta, dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def _native_colatitude_grid(self, scale):
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.grid_shape((1, scale))[1]
         cos_theta, weights = dedalus_sphere.sphere.quadrature(Lmax=N-1)
         theta = np.arccos(cos_theta).astype(np.float64)
         return theta
 
     def global_colatitude_weights(self, dist, scale=None):
         if scale == None: scale = 1
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.grid_shape((1, scale))[1]
         cos_theta, weights = dedalus_sphere.sphere.quadrature(Lmax=N-1)
         return reshape_vector(weights.astype(np.float64), dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def local_colatitude_weights(self, dist, scale=None):
         if scale == None: scale = 1
         local_elements = dist.grid_layout.local_elements(self.domain(dist), scales=scale)[dist.get_basis_axis(self)+1]
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.grid_shape((1, scale))[1]
         cos_theta, weights = dedalus_sphere.sphere.quadrature(Lmax=N-1)
         return reshape_vector(weights.astype(np.float64)[local_elements], dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
-- 
2.43.0


From 8890d9142bee7d90474d011a5e69acaa718c1778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 33/37] fix: grouped transposes of fields with different dtypes
 raised TypeError

---
 dedalus/core/distributor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index b017e3a..02ddb19 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -748,22 +748,23 @@ class Transpose:
 
     def _group_plans(self, fields):
         """Build group transpose plan."""
-        # Segment fields by sub_shapes and chunk_shapes
+        # Segment fields by sub_shapes, chunk_shapes, and dtypes
         field_groups = OrderedDict()
         for field in fields:
             sub_shape = self._sub_shape(field.domain, field.scales)
             chunk_shape = field.domain.chunk_shape(self.layout0)
-            if (sub_shape, chunk_shape) in field_groups:
-                field_groups[(sub_shape, chunk_shape)].append(field)
+            key = (sub_shape, chunk_shape, field.dtype)
+            if key in field_groups:
+                field_groups[key].append(field)
             else:
-                field_groups[(sub_shape, chunk_shape)] = [field]
+                field_groups[key] = [field]
         # Plan for each field group
         plans = []
-        for (sub_shape, chunk_shape), fields in field_groups.items():
+        for (sub_shape, chunk_shape, dtype), fields in field_groups.items():
             ncomp = 0
             for field in fields:
                 ncomp += prod([cs.dim for cs in field.tensorsig])
-            plan = self._plan(ncomp, sub_shape, chunk_shape, field.dtype) # Assumes last field's dtype is good for everybody
+            plan = self._plan(ncomp, sub_shape, chunk_shape, dtype)
             plans.append((fields, plan))
         return plans
 
-- 
2.43.0


From ac02a2d1342ebfe6acb23960878ae297364a0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 34/37] fix: lifts along distributed axes selected the wrong
 modes

---
 dedalus/core/basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 3abf93d..d376c63 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -810,7 +810,9 @@ class LiftJacobi(operators.Lift, operators.Copy):
             n += basis.size
         P = dist.Field(bases=basis)
         axis = dist.get_basis_axis(basis)
-        P['c'][axslice(axis, n, n+1)] = 1
+        # Select mode from local elements, since the axis may be distributed
+        local_elements = dist.coeff_layout.local_elements(P.domain, scales=1)[axis]
+        P['c'][axindex(axis, local_elements == n)] = 1
         return P
 
 
-- 
2.43.0


From 18ec0063ab43c37d14c02a8fedb5850598a283b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 35/37] fix: azimuthal averages failed on meshes distributing
 the colatitude

---
 dedalus/core/basis.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index d376c63..7bb4574 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5247,6 +5247,24 @@ class SphereAzimuthalAverage(AzimuthalAverage, operators.Average, operators.Spec
     subaxis_dependence = [True, False]  # Depends on m only
     subaxis_coupling = [False, False]  # No coupling
 
+    def check_conditions(self):
+        """Check that arguments are in a proper layout."""
+        arg0 = self.args[0]
+        colat_axis = self.dist.first_axis(self.input_basis) + 1
+        # Require coefficient space and locality along colatitude
+        # Packed azimuthal modes change the distribution of a distributed colatitude
+        is_coeff = not arg0.layout.grid_space[colat_axis]
+        is_local = arg0.layout.local[colat_axis]
+        return is_coeff and is_local
+
+    def enforce_conditions(self):
+        """Require arguments to be in a proper layout."""
+        arg0 = self.args[0]
+        colat_axis = self.dist.first_axis(self.input_basis) + 1
+        # Require coefficient space and locality along colatitude
+        arg0.require_coeff_space(colat_axis)
+        arg0.require_local(colat_axis)
+
     def operate(self, out):
         """Perform operation."""
         operand = self.args[0]
@@ -5276,6 +5294,24 @@ class SphericalAzimuthalAverage(AzimuthalAverage, operators.Average, operators.S
     subaxis_dependence = [True, False, False]  # Depends on m only
     subaxis_coupling = [False, False, False]  # No coupling
 
+    def check_conditions(self):
+        """Check that arguments are in a proper layout."""
+        arg0 = self.args[0]
+        colat_axis = self.dist.first_axis(self.input_basis) + 1
+        # Require coefficient space and locality along colatitude
+        # Packed azimuthal modes change the distribution of a distributed colatitude
+        is_coeff = not arg0.layout.grid_space[colat_axis]
+        is_local = arg0.layout.local[colat_axis]
+        return is_coeff and is_local
+
+    def enforce_conditions(self):
+        """Require arguments to be in a proper layout."""
+        arg0 = self.args[0]
+        colat_axis = self.dist.first_axis(self.input_basis) + 1
+        # Require coefficient space and locality along colatitude
+        arg0.require_coeff_space(colat_axis)
+        arg0.require_local(colat_axis)
+
     def operate(self, out):
         """Perform operation."""
         operand = self.args[0]
-- 
2.43.0


From 59396b206baa18c904d1e593f554994f5587eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 36/37] fix: colatitude interpolation of tensors overwrote its
 operand

---
 dedalus/core/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 7bb4574..bb62416 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5759,9 +5759,10 @@ class InterpolateColatitude(FutureLockedField, operators.Interpolate):
         # Set output lock
         out.lock_axis_to_grid(colat_axis)
         # Forward spin recombination
+        # Copy argument data since recombination may overwrite its input
         arg_temp = np.zeros_like(arg.data)
         out_temp = np.zeros_like(out.data)
-        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data, arg_temp)
+        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data.copy(), arg_temp)
         # Loop over spin components
         S = basis.spin_weights(arg.tensorsig)
         for i, s in np.ndenumerate(S):
-- 
2.43.0


From 1077027e0488e3cc000f0ca12f0a7478a8f2606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 37/37] fix: output scales of different shapes but equal data
 shared one dataset

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f3c4816..d79cbc3 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -557,7 +557,7 @@ class H5FileHandlerBase(Handler):
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
                         data = layout.global_group_arrays(op.domain, scales)[axis]
-                    scale_hash = hashlib.sha1(data).hexdigest()
+                    scale_hash = hashlib.sha1(str(data.shape).encode() + data.tobytes()).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
                         scale = file['scales'].create_dataset(name=lookup, data=data)
-- 
2.43.0

