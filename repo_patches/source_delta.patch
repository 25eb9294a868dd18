From e46f26fb12a3d68471dc288e1e5b18df557342a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 01/19] fix: seed the random stream of every MPI rank

The per-rank generator was created and thrown away, so AFQMC runs on more
than one rank drew their auxiliary fields from an unseeded generator and
random_seed had no effect.
---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index daa5471..ed565ff 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -917,7 +917,7 @@ class QMCbase(object):
             # Create a rank-specific seed using SeedSequence
             ss = backend.random.SeedSequence(self.random_seed)
             child_seeds = ss.spawn(self._mpi.size)
-            backend.random.default_rng(child_seeds[self._mpi.rank])
+            backend.random.seed(child_seeds[self._mpi.rank].generate_state(8))
         else:
             backend.random.seed(self.random_seed)
 
-- 
2.43.0


From adc033ed7fcd8d8dd6faf061dc89a5e675592ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 02/19] fix: reduce the electron-boson energies over all MPI
 ranks

PhaselessElecBoson.local_energy recomputed the total energy from the local
walkers and divided it by the global norm.
---
 openms/qmc/propagators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 01f7e8c..b684f0e 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1208,6 +1208,12 @@ class PhaselessElecBoson(Phaseless):
         eb = backend.dot(walkers.weights, eb.real)
         eg = backend.dot(walkers.weights, eg.real)
 
+        if walkers._mpi.size > 1:
+            # norm, e1 and e2 were already reduced by super().local_energy
+            etot = walkers._mpi.comm.allreduce(etot, op=MPI.SUM)
+            eb = walkers._mpi.comm.allreduce(eb, op=MPI.SUM)
+            eg = walkers._mpi.comm.allreduce(eg, op=MPI.SUM)
+
         logger.debug(self, f"Debug: total energy (unnormalized) is {etot}")
         logger.debug(self, f"Debug: e1 (unnormalized) is {e1}")
         logger.debug(self, f"Debug: e2 (unnormalized) is {e2}")
-- 
2.43.0


From 12ae5b37badbe24e77ca3085ca8d404161e1d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 03/19] fix: average the mean fields of the bilinear term over
 all MPI ranks

The electronic density matrix and the bosonic displacement that couple the
electrons and bosons were averaged over the walkers of one rank only, so
every rank propagated with a different Hamiltonian and the result depended
on how many ranks were used.
---
 openms/qmc/generic_walkers.py | 9 ++++++++-
 openms/qmc/propagators.py     | 6 ++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/openms/qmc/generic_walkers.py b/openms/qmc/generic_walkers.py
index ba23203..9b2d283 100644
--- a/openms/qmc/generic_walkers.py
+++ b/openms/qmc/generic_walkers.py
@@ -136,6 +136,12 @@ class BaseWalkers(object):
             logger.note(self, f" Number of walkers        : {self.nwalkers:5d}")
 
 
+    def global_sum(self, value):
+        r"""Sum a quantity that was accumulated over the local walkers over all ranks"""
+        if self._mpi.size > 1:
+            return self._mpi.comm.allreduce(value, op=MPI.SUM)
+        return value
+
     @property
     def raw_norm(self):
 
@@ -345,7 +351,8 @@ class Walkers_so(BaseWalkers):
         Qalpha = backend.zeros(trial.mol.nmodes, dtype=backend.complex128)
         sum_boson_DM = {}
         for imode in range(trial.mol.nmodes):
-            sum_boson_DM[imode] = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode]) / backend.sum(self.weights)
+            sum_boson_DM[imode] = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode])
+            sum_boson_DM[imode] = self.global_sum(sum_boson_DM[imode]) / self.global_sum(backend.sum(self.weights))
 
         for mode_index, mdim in enumerate(trial.mol.nboson_states):
             Qmat = backend.diag(backend.sqrt(backend.arange(1, mdim)), k = 1) \
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index b684f0e..da0eac0 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1760,10 +1760,8 @@ class PhaselessElecBoson(Phaseless):
         # logger.debug(self, f"walkers.Gf.shape = {walkers.Gf.shape}")
 
         if not self.decouple_bilinear:
-            walkers.rho = (
-                backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
-                / backend.sum(walkers.weights)
-            )
+            rho = backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
+            walkers.rho = walkers.global_sum(rho) / walkers.global_sum(backend.sum(walkers.weights))
         # logger.debug(self, f"test DM = {backend.trace(walkers.rho)}")
 
         # get Qalpha in either 1st or 2nd quantization
-- 
2.43.0


From b81d0c791f38aac7cccf124ba53a9315009c9ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 04/19] fix: keep per-walker energies with their walkers in
 population control

Resampling moved the walker wavefunctions but left the hybrid and local
energies in place, so the next weight update and the energy shift used the
energy of a different walker.
---
 openms/qmc/population_control.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index ce6276d..0d8f1c1 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -500,12 +500,19 @@ def population_control_factory(walkers, method="branching"):
 
         # pack the walker WF (phiwa, phib, boson_phiw) in one list
         packed_walkers = walkers._pack_walkers()
-        new_walkers, weights = control_func(packed_walkers, walkers.weights)
+        labeled_walkers = list(enumerate(packed_walkers))
+        labeled_walkers, weights = control_func(labeled_walkers, walkers.weights)
+        new_walkers = [walker for _, walker in labeled_walkers]
+        indices = [idx for idx, _ in labeled_walkers]
 
         # updte walker WF and weights
         walkers._unpack_walkers(new_walkers)
         walkers.weights = weights
 
+        # the other per-walker quantities have to follow their walkers
+        for name in ["ovlp", "detR", "log_detR", "eloc", "ehybrid"]:
+            setattr(walkers, name, getattr(walkers, name)[indices])
+
         # if MPI, we need to do inter-node redistribution
         if walkers._mpi.size > 1:
             inter_node_rebalance(walkers)
-- 
2.43.0


From 27910d378cfc745b0978c9899a1c8a4afcb22431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 05/19] fix: keep the resampling comb inside the cumulative
 weights

Round-off can leave the last cumulative weight below the last comb position,
which ran off the end of the population (IndexError), and a zero offset
selected a walker of zero weight.
---
 openms/qmc/population_control.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index 0d8f1c1..1f22e43 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -357,12 +357,14 @@ def comb_resampling(phiw, weights):
     # Generate N equally spaced markers with a random starting offset.
     offset = np.random.uniform(0, 1.0 / N)
     markers = offset + np.arange(N) / N
+    # keep the last marker inside the comb in the presence of round-off
+    markers = np.minimum(markers, np.nextafter(cumulative_sum[-1], 0.0))
 
     new_phiw = []
     for marker in markers:
         # np.searchsorted finds the index where marker should be inserted
         # to maintain the order, which selects the walker.
-        idx = np.searchsorted(cumulative_sum, marker)
+        idx = np.searchsorted(cumulative_sum, marker, side="right")
         new_phiw.append(copy.copy(phiw[idx]))
 
     new_weights = np.full(N, total_weight / N)
@@ -394,6 +396,8 @@ def stochastic_reconfiguration(phiw, weights):
     start = np.random.uniform(0, 1.0/N)
 
     positions = start + np.arange(N) / N
+    # keep the last position inside the comb in the presence of round-off
+    positions = np.minimum(positions, np.nextafter(cumulative_sum[-1], 0.0))
 
     # print("positions      =", positions)
     # print(" cumulative_sum=", cumulative_sum)
-- 
2.43.0


From 34b428eb00906cb9e922ebb93def4ac7467e7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 06/19] fix: do not share the default walker options between
 calculations

Every calculation wrote its options into the module-level defaults, so they
leaked into later calculations of the same process.
---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index ed565ff..10a2780 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -355,7 +355,7 @@ class QMCbase(object):
             "quantizaiton": "second",
         }
 
-        self.walker_options = gwalker.default_walker_options
+        self.walker_options = dict(gwalker.default_walker_options)
         tmp_walker_options = kwargs.get("walker_options", None)
         # print("tmp_walker_options = ", tmp_walker_options)
         if tmp_walker_options is not None:
-- 
2.43.0


From 2bcdc316d4d5cac684746267d347f56a85a03d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 07/19] fix: use the defined verbosity levels in logger.error
 and debug1-4

These functions raised NameError whenever they were called.
---
 openms/lib/logger.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openms/lib/logger.py b/openms/lib/logger.py
index b770d84..be08be0 100644
--- a/openms/lib/logger.py
+++ b/openms/lib/logger.py
@@ -61,7 +61,7 @@ def log(rec, msg, *args):
         flush(rec, msg, *args)
 
 def error(rec, msg, *args):
-    if rec.verbose >= VERBOSE_ERROR:
+    if rec.verbose >= VERBOSE_ERR:
         flush(rec, '\nERROR: '+msg+'\n', *args)
     sys.stderr.write('ERROR: ' + (msg%args) + '\n')
 
@@ -84,19 +84,19 @@ def debug(rec, msg, *args):
         flush(rec, msg, *args)
 
 def debug1(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG1:
+    if rec.verbose >= DEBUG1:
         flush(rec, msg, *args)
 
 def debug2(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG2:
+    if rec.verbose >= DEBUG2:
         flush(rec, msg, *args)
 
 def debug3(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG3:
+    if rec.verbose >= DEBUG3:
         flush(rec, msg, *args)
 
 def debug4(rec, msg, *args):
-    if rec.verbose >= VERBOSE_DEBUG4:
+    if rec.verbose >= DEBUG4:
         flush(rec, msg, *args)
 
 def stdout(rec, msg, *args):
-- 
2.43.0


From d0148f57973762ead0c823c23c8b78f2a749ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 08/19] fix: use the direct JK build when the ERIs do not fit
 in memory

RHF.get_jk called itself without end in that case.
---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 12abcb3..559079a 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -585,7 +585,7 @@ class RHF(hf.RHF):
                 self._eri = mol.intor("int2e", aosym="s8")
             vj, vk = hf.dot_eri_dm(self._eri, dm, hermi, with_j, with_k)
         else:
-            vj, vk = RHF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
+            vj, vk = hf.SCF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
 
         if self.qed.add_dse:
             vj_dse, vk_dse = self.get_dse_jk(dm)
-- 
2.43.0


From 8af87ae19e4ea3fca27c255ad69f897b227f9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 09/19] fix: do not normalize the caller's cavity mode vectors
 in place

Building a second calculation from the same cavity_mode array silently used
unit coupling strength.
---
 openms/lib/boson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 19c10f0..bb3c2d9 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -633,8 +633,8 @@ class Boson(object):
         # Cavity mode polarization vectors
         self.vec = None
 
-        if isinstance(vec, list):
-            vec = numpy.asarray(vec, dtype=float)
+        if isinstance(vec, (list, numpy.ndarray)):
+            vec = numpy.array(vec, dtype=float) # copy, it is normalized below
 
         if (not isinstance(vec, numpy.ndarray)
             or vec.shape != (self.nmodes, 3)):
-- 
2.43.0


From fce5858041724f2a62467254dd2ae6ef1152711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 10/19] fix: save every old MD output directory under an unused
 name

A name that was already taken (second run of the same process, or a reused
pid) moved the old output inside the earlier copy, and the next run failed.
---
 openms/qmd/bomd.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openms/qmd/bomd.py b/openms/qmd/bomd.py
index 7acd59f..d2f914c 100644
--- a/openms/qmd/bomd.py
+++ b/openms/qmd/bomd.py
@@ -15,6 +15,16 @@ import openms
 from openms.lib.misc import Molecule, au2A, au2K, call_name, fs2au, typewriter
 
 
+def old_dir_name(path):
+    r"""Return an unused name for saving an old output directory"""
+    name = new_name = path + "_old_" + str(os.getpid())
+    idx = 0
+    while os.path.exists(new_name):
+        idx += 1
+        new_name = f"{name}_{idx}"
+    return new_name
+
+
 class BaseMD(object):
     r"""Basic Class for nuclear/electronic propagator used in MQC dynamics
 
@@ -131,7 +141,7 @@ class BaseMD(object):
             # For MD output directory
             for md_idir in md_dir:
                 if os.path.exists(md_idir):
-                    shutil.move(md_idir, md_idir + "_old_" + str(os.getpid()))
+                    shutil.move(md_idir, old_dir_name(md_idir))
                 os.makedirs(md_idir)
 
                 # self.touch_file(md_idir)
@@ -139,7 +149,7 @@ class BaseMD(object):
             # For QM output directory
             for qm_idir in qm_log_dir:
                 if os.path.exists(qm_idir):
-                    shutil.move(qm_idir, qm_idir + "_old_" + str(os.getpid()))
+                    shutil.move(qm_idir, old_dir_name(qm_idir))
                 if save_qm_log:
                     os.makedirs(qm_idir)
 
-- 
2.43.0


From 8d2825188234c42b0938bda4656436d62b1dd596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 11/19] fix: accept MPI buffer specifications in the serial
 communicator

Scatterv was given [array, counts, displs, type], so the shared-noise mode
(debug_mpi) failed without mpi4py.
---
 openms/__mpi__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openms/__mpi__.py b/openms/__mpi__.py
index 7194360..65b11ec 100644
--- a/openms/__mpi__.py
+++ b/openms/__mpi__.py
@@ -4,6 +4,11 @@ from dataclasses import dataclass
 from typing import TypeVar
 
 
+def bare_buffer(buf):
+    """Return the array of an MPI buffer argument, i.e. of [array, counts, displs, type]."""
+    return buf[0] if isinstance(buf, (list, tuple)) else buf
+
+
 class FakeComm:
     """Fake MPI communicator class to reduce logic."""
 
@@ -34,7 +39,7 @@ class FakeComm:
         recvbuf[:] = sendbuf
 
     def Gatherv(self, sendbuf, recvbuf, root=0):
-        recvbuf[:] = sendbuf
+        bare_buffer(recvbuf)[:] = bare_buffer(sendbuf)
 
     def gather(self, sendbuf, root=0):
         return [sendbuf]
@@ -78,7 +83,7 @@ class FakeComm:
         recvbuf[:] = sendbuf
 
     def Scatterv(self, sendbuf, recvbuf, root=0):
-        recvbuf[:] = sendbuf
+        bare_buffer(recvbuf)[:] = bare_buffer(sendbuf)
 
     def scatter(self, sendbuf, root=0):
         assert sendbuf.shape[0] == 1, "Incorrect array shape in FakeComm.scatter"
-- 
2.43.0


From 456bf6ddf0f32790631938d4da5c182b40756452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 12/19] fix: make qmd.set_seed usable

The backend module has no attribute random, so every call of set_seed
raised AttributeError and the MD generator could not be seeded.
---
 openms/qmd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmd/__init__.py b/openms/qmd/__init__.py
index 36a433d..4dda029 100644
--- a/openms/qmd/__init__.py
+++ b/openms/qmd/__init__.py
@@ -100,7 +100,7 @@ rng = np.random.Generator(np.random.PCG64(SEED))
 def set_seed(seed):
     """Sets the seed for the random number generator used by the md module"""
     global rng
-    rng = np.random.Generator(bd.random.PCG64(seed))
+    rng = np.random.Generator(np.random.PCG64(seed))
 
 
 # from .tsh import TrajectorySurfaceHopping as SH
-- 
2.43.0


From 6048198229cc940136af4a39e9291055b6558c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:13 +0000
Subject: [PATCH 13/19] fix: keep the boson setup of a calculation out of the
 caller's molecule

---
 openms/qmc/qmc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 10a2780..a98fc8a 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -38,6 +38,7 @@ it means that the :math:`L` is effectively decomposed into :math:`X`
 
 """
 
+import copy
 import sys
 from abc import abstractmethod
 from pyscf import lo, scf, fci
@@ -286,6 +287,11 @@ class QMCbase(object):
         if not isinstance(self.system, Boson): # only check boson_freq is system itself not a boson object
             boson_freq = kwargs.get("boson_freq", None)
             if boson_freq is not None:
+                # keep the boson setup of this calculation out of the caller's
+                # molecule, which other calculations may share (a trial that
+                # is passed in already refers to that molecule)
+                if kwargs.get("trial", None) is None:
+                    self.system = self.mol = copy.copy(system)
                 self.system.boson_freq = boson_freq
                 self.system.nmodes = len(self.system.boson_freq)
                 nphoton = kwargs.get("nphoton", 3)
-- 
2.43.0


From e8aa4c0a4b412549cdf6d9179adcd501ccbcba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:55 +0000
Subject: [PATCH 14/19] fix: read FCIDUMP files with 8-fold symmetry

---
 openms/qmc/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 899920f..df03b9a 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -316,6 +316,11 @@ def read_fcidump(fname, norb):
                 eri[q - 1, p - 1, r - 1, s - 1] = integral
                 eri[p - 1, q - 1, s - 1, r - 1] = integral
                 eri[q - 1, p - 1, s - 1, r - 1] = integral
+                # files with 8-fold symmetry only list one of (pq|rs) and (rs|pq)
+                eri[r - 1, s - 1, p - 1, q - 1] = integral
+                eri[r - 1, s - 1, q - 1, p - 1] = integral
+                eri[s - 1, r - 1, p - 1, q - 1] = integral
+                eri[s - 1, r - 1, q - 1, p - 1] = integral
             elif p != 0:
                 h1e[p - 1, q - 1] = integral
                 h1e[q - 1, p - 1] = integral
-- 
2.43.0


From eeb3393eb6a4422a84f955b389fbaabdb6293eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 15/19] fix: let numba be imported on MPI ranks other than 0

---
 openms/__mpi__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openms/__mpi__.py b/openms/__mpi__.py
index 65b11ec..d78c64f 100644
--- a/openms/__mpi__.py
+++ b/openms/__mpi__.py
@@ -117,6 +117,11 @@ import builtins
 # Store original print
 original_print = builtins.print
 
+# Silent print of the ranks other than 0. It has to be reachable as an attribute of
+# this module, otherwise numba refuses to be imported after print is overwritten.
+def mpi_silent_print(*args, **kwargs): pass
+mpi_silent_print.__wrapped__ = True
+
 # Overwrite print if MPI is available
 def configure_print_for_mpi(MPI):
     global original_print  # make sure it's visible to other files
@@ -127,8 +132,6 @@ def configure_print_for_mpi(MPI):
         original_print = print
         rank = MPI.COMM_WORLD.Get_rank()
         if rank != 0:
-            def mpi_silent_print(*args, **kwargs): pass
-            mpi_silent_print.__wrapped__ = True
             #builtins.print = lambda *args, **kwargs: None
             builtins.print = mpi_silent_print
     except:
-- 
2.43.0


From 49437d3eb4e06799eaf397667321e140eabefdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:27 +0000
Subject: [PATCH 16/19] fix: evaluate the electron-boson energy of every mode
 in its own Fock block

---
 openms/qmc/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 5a58a9f..948edb8 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -675,6 +675,7 @@ def local_eng_eboson(omega, nboson_states, geb, Gfermions, Gboson):
         a = backend.diag(backend.sqrt(backend.arange(1, mdim)), k=1)
         h_od = a + a.T
         Hb[:, idx:idx+mdim, idx:idx+mdim] += h_od[None, :, :] * zalpha[:, imode][:, None, None]
+        idx += mdim
     eg = backend.einsum("zNM,zNM->z", Hb, Gboson)
     return eg
 
-- 
2.43.0


From f8d2d8cff0b9cf8279e25436e3ecea7273897644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:00 +0000
Subject: [PATCH 17/19] fix: optimised couplings and squeezing no longer
 overwrite the caller's arrays

update_var_params changed qed.couplings_var and qed.squeezed_var in place;
both may be the arrays the user passed in, which then no longer held the
start values for the next calculation.
---
 openms/mqed/vtqedhf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 90370b6..bce7cb5 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -540,10 +540,11 @@ class RHF(scqedhf.RHF):
         self.eta -= self.precond * self.eta_grad
         if self.qed.optimize_varf:
             #TODO: give user warning to use smaller precond if it diverges
-            self.qed.couplings_var -= self.precond * self.vlf_grad
+            # not in place: the array may be the one the user passed in
+            self.qed.couplings_var = self.qed.couplings_var - self.precond * self.vlf_grad
             self.qed.update_couplings()
         if self.qed.optimize_vsq:
-            self.qed.squeezed_var -= self.precond * self.vsq_grad
+            self.qed.squeezed_var = self.qed.squeezed_var - self.precond * self.vsq_grad
 
 
     def pre_update_var_params(self):
-- 
2.43.0


From dad98a640ec99d4db2a97d73176a0b867219407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 18/19] fix: resampling methods leave a rank alone whose
 walkers are all dead

---
 openms/qmc/population_control.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index 1f22e43..a4af0f7 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -351,6 +351,9 @@ def comb_resampling(phiw, weights):
     """
     N = len(weights)
     total_weight = np.sum(weights)
+    if total_weight == 0.0:
+        # all walkers (of this rank) are dead, there is nothing to resample
+        return list(phiw), weights.copy()
     norm_weights = weights / total_weight
     cumulative_sum = np.cumsum(norm_weights)
 
@@ -385,6 +388,9 @@ def stochastic_reconfiguration(phiw, weights):
     """
     N = len(weights)
     total_weight = np.sum(weights)
+    if total_weight == 0.0:
+        # all walkers (of this rank) are dead, there is nothing to resample
+        return list(phiw), weights.copy()
     norm_weights = weights / total_weight  # Normalize weights so they sum to 1
     cumulative_sum = np.cumsum(norm_weights)
 
-- 
2.43.0


From 83f5954ce7a9e7c8a70f66d9ce8a0f32982d10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 19/19] fix: refuse an integral file whose header contains null
 bytes

---
 openms/qmc/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index df03b9a..7f18019 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -306,6 +306,8 @@ def read_fcidump(fname, norb):
         lines = f.readlines()
         for line, info in enumerate(lines):
             if line < 4:
+                if "\0" in info:
+                    raise ValueError(f"{fname} is damaged: null bytes in its header")
                 continue
             line_content = info.split()
             integral = float(line_content[0])
-- 
2.43.0

