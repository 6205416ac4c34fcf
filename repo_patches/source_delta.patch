From aa62a27ff776de8a184bb3dfdfa54d324a01f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 01/51] fix: advance the Fock-block offset per mode in the
 electron-boson local energy

---
 openms/qmc/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 5a58a9f..948edb8 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -675,6 +675,7 @@ def local_eng_eboson(omega, nboson_states, geb, Gfermions, Gboson):
         a = backend.diag(backend.sqrt(backend.arange(1, mdim)), k=1)
         h_od = a + a.T
         Hb[:, idx:idx+mdim, idx:idx+mdim] += h_od[None, :, :] * zalpha[:, imode][:, None, None]
+        idx += mdim
     eg = backend.einsum("zNM,zNM->z", Hb, Gboson)
     return eg
 
-- 
2.43.0


From b89a189b81159f556ed44ac32d3c474e1873ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 02/51] fix: allow modes with different Fock dimensions in the
 bosonic local energy

---
 openms/qmc/estimators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 948edb8..957e140 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -626,11 +626,10 @@ def local_eng_boson_2nd(omega, nboson_states, Gb):
     Gb: ndarray, bosonic green function
     """
     # bosonc energy
-    basis = backend.asarray(
-        [backend.arange(mdim) for mdim in nboson_states]
+    # (modes may have different numbers of Fock states)
+    waTa = backend.concatenate(
+        [w * backend.arange(mdim) for w, mdim in zip(omega, nboson_states)]
     )
-
-    waTa = backend.einsum("m, mF->mF", omega, basis).ravel()
     eb = backend.einsum("F,zFF->z", waTa, Gb)
     #print("Debug: Bosonic Gf = ", Gb)
     #print("Debug: waTa =       ", waTa)
-- 
2.43.0


From c060b3a88e3058c8f75cc8faccdf32b59af84ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 03/51] fix: keep the phase of the hybrid energy when bounding
 it, so the phaseless cosine uses the overlap phase

---
 openms/qmc/propagators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 01f7e8c..98b5611 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -792,7 +792,8 @@ class Phaseless(PropagatorBase):
         # the hybrid energy scheme
         if self.energy_scheme == "hybrid":
             ehybrid = -(backend.log(ovlp_ratio) + cfb + cmf) / self.dt
-            ehybrid = backend.clip(
+            # bound the real part in place (the imaginary part carries the phase)
+            backend.clip(
                 ehybrid.real,
                 a_min=eshift.real - self.ebound,
                 a_max=eshift.real + self.ebound,
-- 
2.43.0


From 759ee821e24661b78237b1105722f50d56c81176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 04/51] fix: rescale the force bias to the configured bound
 instead of to one

---
 openms/qmc/propagators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 98b5611..083de03 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -524,7 +524,7 @@ class Phaseless(PropagatorBase):
 
         # Rescale only non-zero elements
         f_rescaled = fbias.copy()
-        f_rescaled[nonzeros] /= absf[nonzeros]
+        f_rescaled[nonzeros] *= self.bias_bound / absf[nonzeros]
 
         # Apply the rescaling to elements exceeding the max bound
         fbias = backend.where(idx_to_rescale, f_rescaled, fbias)
-- 
2.43.0


From dc2a4f3ada6174d0db119cca6c0d3f6d1be32f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 05/51] fix: keep the sign/phase of bosonic amplitudes when
 renormalising walkers

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index daa5471..850cef7 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -736,7 +736,7 @@ class QMCbase(object):
             ortho_walkers = backend.zeros_like(self.walkers.boson_phiw)
             norms = backend.einsum('ij,ij->i', self.walkers.boson_phiw, self.walkers.boson_phiw.conj())
             norms = backend.sqrt(norms)
-            self.walkers.boson_phiw = backend.abs(self.walkers.boson_phiw / norms[:, None])
+            self.walkers.boson_phiw = self.walkers.boson_phiw / norms[:, None]
             # for iw in range(self.walkers.boson_phiw.shape[0]):
             #    ortho_walkers[iw] = backend.linalg.qr(self.walkers.boson_phiw[iw])[0]
             # self.walkers.boson_phiw = ortho_walkers
-- 
2.43.0


From a423b414696c85a4818155e038a99084f3180143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:57 +0000
Subject: [PATCH 06/51] fix: sum the coupling products over modes in the
 pivoted Cholesky columns

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 899920f..12cd635 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -577,7 +577,7 @@ def _compute_eri_chunk(mol, nao, sj, sl, indices4bas, j, l, delta_max, g=None):
 
     if g is not None:
         # Add the modified term \sum_n g_{n,ij} g_{n,kl} dynamically
-        mod_chunk = numpy.einsum("n,njk->njk", g[:, j, l], g)
+        mod_chunk = numpy.einsum("n,njk->jk", g[:, j, l], g)
         eri_chunk += mod_chunk.reshape(nao * nao)
 
     return eri_chunk / numpy.sqrt(delta_max)
-- 
2.43.0


From 96d6194cf83df400a662900d1753dbc529087f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:57 +0000
Subject: [PATCH 07/51] fix: build the free-boson Hamiltonian for modes with
 different Fock dimensions

---
 openms/qmc/propagators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 083de03..b0c8fd0 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1132,10 +1132,9 @@ class PhaselessElecBoson(Phaseless):
         self.geb = geb
 
         nmodes = self.system.nmodes
-        basis = backend.asarray(
-            [backend.arange(mdim) for mdim in self.system.nboson_states]
+        waTa = backend.concatenate(
+            [w * backend.arange(mdim) for w, mdim in zip(self.system.boson_freq, self.system.nboson_states)]
         )
-        waTa = backend.einsum("m, mF->mF", self.system.boson_freq, basis).ravel()
         self.Hb = backend.diag(waTa)
         # logger.debug(self, f"Debug: Hb = {self.Hb}")
 
-- 
2.43.0


From 9224c460e6ee7c01e3105949d648af915b158ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:57 +0000
Subject: [PATCH 08/51] fix: occupy the lowest nalpha/nbeta molecular orbitals
 in the non-OAO trial

---
 openms/qmc/trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/trial.py b/openms/qmc/trial.py
index 662c19c..5727031 100644
--- a/openms/qmc/trial.py
+++ b/openms/qmc/trial.py
@@ -773,8 +773,8 @@ class TrialHF(TrialWFBase):
             tmp = backend.identity(nmo)[:, self.mf.mo_occ > 0]
             #self.psia = self.psib = tmp
             # psia and psib may have different size, when nalpha and nbeta are different
-            self.psia = tmp[:, self.nalpha]
-            self.psib = tmp[:, self.nbeta]
+            self.psia = tmp[:, : self.nalpha]
+            self.psib = tmp[:, : self.nbeta]
 
         # print("Debug: nelec  = ", self.mol.nelec)
         # print("Debug: mo_occ = ", self.mf.mo_occ)
-- 
2.43.0


From f744d5ee22d2427d7a529456f7bfb46039236cb9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 17:30:23 +0000
Subject: [PATCH 09/51] fix: sum the coupled energy estimates over all ranks

---
 openms/qmc/propagators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index b0c8fd0..966efa5 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1208,6 +1208,11 @@ class PhaselessElecBoson(Phaseless):
         eb = backend.dot(walkers.weights, eb.real)
         eg = backend.dot(walkers.weights, eg.real)
 
+        if walkers._mpi.size > 1:
+            etot = walkers._mpi.comm.allreduce(etot, op=MPI.SUM)
+            eb = walkers._mpi.comm.allreduce(eb, op=MPI.SUM)
+            eg = walkers._mpi.comm.allreduce(eg, op=MPI.SUM)
+
         logger.debug(self, f"Debug: total energy (unnormalized) is {etot}")
         logger.debug(self, f"Debug: e1 (unnormalized) is {e1}")
         logger.debug(self, f"Debug: e2 (unnormalized) is {e2}")
-- 
2.43.0


From 91f5f225ca7d0129a2633dc910ed0ba0426c519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:23 +0000
Subject: [PATCH 10/51] fix: keep each walker's energies with it during
 population control

---
 openms/qmc/population_control.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openms/qmc/population_control.py b/openms/qmc/population_control.py
index ce6276d..8dc92b1 100644
--- a/openms/qmc/population_control.py
+++ b/openms/qmc/population_control.py
@@ -499,11 +499,14 @@ def population_control_factory(walkers, method="branching"):
         # print(f"Sum(weights) before control: {backend.sum(walkers.weights):.3f}")
 
         # pack the walker WF (phiwa, phib, boson_phiw) in one list
-        packed_walkers = walkers._pack_walkers()
+        # together with the energies which enter the next weight update of each walker
+        packed_walkers = list(zip(walkers._pack_walkers(), walkers.ehybrid, walkers.eloc))
         new_walkers, weights = control_func(packed_walkers, walkers.weights)
 
         # updte walker WF and weights
-        walkers._unpack_walkers(new_walkers)
+        walkers._unpack_walkers([walker[0] for walker in new_walkers])
+        walkers.ehybrid = numpy.array([walker[1] for walker in new_walkers])
+        walkers.eloc = numpy.array([walker[2] for walker in new_walkers])
         walkers.weights = weights
 
         # if MPI, we need to do inter-node redistribution
-- 
2.43.0


From 9cf581a058d6202373c00ede4e9bcf55632a8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 11/51] fix: square the contracted field in the numba Coulomb
 kernel

---
 openms/qmc/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 957e140..32c843c 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -471,7 +471,7 @@ if NUMBA_AVAILABLE:
                 LG = np.dot(Ghalfa[iw].ravel(), rltensora[l].ravel())
                 if Ghalfb is not None and rltensorb is not None:
                     LG += np.dot(Ghalfb[iw].ravel(), rltensorb[l].ravel())
-                ecoul[iw] += 0.5 * LG
+                ecoul[iw] += 0.5 * LG * LG
 
         return ecoul
 
-- 
2.43.0


From d2c89ee6506ac8c52af3f9dac380a368596d679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:44 +0000
Subject: [PATCH 12/51] fix: QED-HF falls back to the integral-direct J/K
 engine instead of calling itself

When the two-electron integrals are not kept in memory RHF.get_jk called
itself without end; use SCF.get_jk as get_bare_jk already does.
---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 12abcb3..559079a 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -585,7 +585,7 @@ class RHF(hf.RHF):
                 self._eri = mol.intor("int2e", aosym="s8")
             vj, vk = hf.dot_eri_dm(self._eri, dm, hermi, with_j, with_k)
         else:
-            vj, vk = RHF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
+            vj, vk = hf.SCF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
 
         if self.qed.add_dse:
             vj_dse, vk_dse = self.get_dse_jk(dm)
-- 
2.43.0


From 865bd5259dd09145c6bca651791bbee30a5ef10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:44 +0000
Subject: [PATCH 13/51] fix: bilinear coupling subtracts the displacement once,
 not once per electron

The displacement enters as a constant; written as a one-body operator it is
S*z/N (as in the z**2/2 term), since the trace with the density gives N.
---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 19c10f0..7f73b55 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -1585,7 +1585,7 @@ class Photon(Boson):
         idx = 0
         for imode in range(self.nmodes):
             shift = numpy.eye(self.gmat.shape[1]) * self.z_alpha[imode] #/ mol.nelectron
-            shift = s1e * self.z_alpha[imode]
+            shift = s1e * self.z_alpha[imode] / self._mol.nelectron
             gtmp = (self.gmat[imode] - shift)
             gtmp *= numpy.sqrt(0.5*self.omega[imode])
 
-- 
2.43.0


From b4f9700eabc6bdc1ab3fe868341797a47fd7afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:07 +0000
Subject: [PATCH 14/51] fix: damping and level shift of the cavity Fock matrix

get_fock called damping() and level_shift() without importing them, so both
SCF options raised NameError. Use the PySCF functions; the previous Fock
matrix that damping mixes in is passed by both SCF loops.
---
 openms/mqed/qedhf.py   | 12 +++++++++---
 openms/mqed/scqedhf.py |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 559079a..42cb421 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -200,6 +200,7 @@ def kernel(
     mf.check_sanity()
 
     mf.cycles = 0
+    fock_last = None
     cput1 = logger.timer(mf, 'initialize scf', *cput0)
     for cycle in range(mf.max_cycle):
         dm_last = dm
@@ -211,7 +212,7 @@ def kernel(
         mf.grad_var_params(dm)
 
         h1e = mf.get_hcore(mol, dm)
-        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis)
+        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis, fock_last=fock_last)
 
         # Diagonalize Fock matrix and update density matrix
         mo_energy, mo_coeff = mf.eig(fock, s1e)
@@ -230,6 +231,7 @@ def kernel(
         mf.qed.update_boson_coeff(dm)
 
         # Check SCF convergence
+        fock_last = fock
         fock = mf.get_fock(h1e, s1e, vhf, dm)  # = h1e + vhf, no DIIS
         norm_eta = mf.norm_var_params()
         norm_gorb = numpy.linalg.norm(mf.get_grad(mo_coeff, mo_occ, fock))
@@ -311,6 +313,7 @@ def get_fock(
     diis_start_cycle=None,
     level_shift_factor=None,
     damp_factor=None,
+    fock_last=None,
 ):
     r"""
     Return Fock matrix in AO basis, :math:`F = h_{core} + V_{HF}`.
@@ -357,6 +360,8 @@ def get_fock(
     damp_factor : float
         Damping factor for Fock matrix, **optional**
         ``default = 0``.
+    fock_last : :class:`~numpy.ndarray`
+        Fock matrix of the previous SCF iteration, for damping.
 
     Return
     ------
@@ -387,13 +392,14 @@ def get_fock(
     if s1e is None: s1e = mf.get_ovlp()
 
     if 0 <= cycle < diis_start_cycle - 1 and abs(damp_factor) > 1e-4:
-        f = damping(s1e, dm * 0.5, f, damp_factor) # TODO: will produce error if damping is used
+        if fock_last is not None:
+            f = hf.damping(f, fock_last, damp_factor)
     if diis is not None and cycle >= diis_start_cycle:
         variables, gradients = mf.pre_update_var_params()
         params = diis.update(s1e, dm, f, mf, h1e, vhf, var=variables, var_grad=gradients)
         f = mf.set_params(params, fock_shape=f.shape)
     if abs(level_shift_factor) > 1e-4:
-        f = level_shift(s1e, dm * 0.5, f, level_shift_factor) # TODO: will produce error if level_shift is used
+        f = hf.level_shift(s1e, dm * 0.5, f, level_shift_factor)
     return f
 
 
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4b5e6dc..9c03bde 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -303,6 +303,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
     cput1 = logger.timer(mf, 'initialize scf', *cput0)
 
     mf.cycles = 0
+    fock_last = None
     for cycle in range(mf.max_cycle):
         time0 = time.time()
         dm_last = dm
@@ -324,7 +325,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
         time_hcore = time.time() - time1
 
         time1 = time.time()
-        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis)
+        fock = mf.get_fock(h1e, s1e, vhf, dm, cycle, mf_diis, fock_last=fock_last)
         time_fock = time.time() - time1
 
         mo_energy, mo_coeff = mf.eig(fock, s1e)
@@ -347,6 +348,7 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
         # instead of the statement "fock = h1e + vhf" because Fock matrix may
         # be modified in some methods.
         time1 = time.time()
+        fock_last = fock
         fock = mf.get_fock(h1e, s1e, vhf, dm)  # = h1e + vhf, no DIIS
         time_fock += time.time() - time1
 
-- 
2.43.0


From ac1564f668951acd88f86c026efb48d73e4373fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:12 +0000
Subject: [PATCH 15/51] fix: every cavity mode keeps its own photon ground
 state

The photon Hamiltonian of all modes was diagonalised as one block-diagonal
matrix and its lowest eigenvector used for every mode. That vector lives in a
single mode, so with two or more modes in the Fock basis all other modes were
left without a state and uncoupled. Diagonalise mode by mode.
---
 openms/lib/boson.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 7f73b55..57346c2 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -752,7 +752,11 @@ class Boson(object):
         self.cavity_type = None
         boson_size = sum(self.nboson_states)
         self.boson_coeff = numpy.zeros((boson_size, boson_size))
-        self.boson_coeff[:, 0] = 1.0/numpy.sqrt(boson_size)
+        for imode in range(self.nmodes):
+            # block of each mode; its first column is the photon state of the mode
+            mdim = self.nboson_states[imode]
+            idx = sum(self.nboson_states[:imode])
+            self.boson_coeff[idx : idx + mdim, idx] = 1.0/numpy.sqrt(mdim)
         self.e_boson = 0.0
         # for imode in range(self.nmodes):
         #     mdim = self.nboson_states[imode]
@@ -1012,7 +1016,7 @@ class Boson(object):
             idx = 0
             if mode > 0:
                 idx = sum(self.nboson_states[:mode])
-            bc = self.boson_coeff[idx:idx+mdim, 0].copy()
+            bc = self.boson_coeff[idx:idx+mdim, idx].copy()
 
             bc = bc * bc
             n0 = numpy.array(range(self.nboson_states[mode]))
@@ -1037,7 +1041,9 @@ class Boson(object):
         """
 
         if mode is None:
-            bc = self.boson_coeff[:, 0].copy()
+            # amplitudes of all modes, one block after the other
+            starts = [sum(self.nboson_states[:a]) for a in range(self.nmodes)]
+            bc = self.boson_coeff[:, starts].sum(axis=1)
             return numpy.outer(numpy.conj(bc), bc)
 
         mdim = self.nboson_states[mode]
@@ -1045,7 +1051,7 @@ class Boson(object):
         if mode > 0:
             idx = sum(self.nboson_states[:mode]) #  + mode
 
-        bc = self.boson_coeff[idx:idx+mdim, 0].copy()
+        bc = self.boson_coeff[idx:idx+mdim, idx].copy()
         return numpy.outer(numpy.conj(bc), bc)
 
 
@@ -1122,11 +1128,17 @@ class Boson(object):
         if hasattr(self, "Hph_sc"):
             hmat += unpack_symmetric(self.Hph_sc, hmat.shape[0], fac=2.0)
 
-        # Photon cavity mode eigenvectors
-        e, c = scipy.linalg.eigh(hmat)
-        idx = numpy.argmax(abs(c.real), axis=0)
-        e = e[idx]
-        c[:,c[idx,numpy.arange(len(e))].real<0] *= -1
+        # Photon cavity mode eigenvectors: the modes do not interact,
+        # every mode has its own ground state (block of ``boson_coeff``)
+        c = numpy.zeros_like(hmat)
+        for imode in range(self.nmodes):
+            mdim = self.nboson_states[imode]
+            start = sum(self.nboson_states[:imode])
+            block = slice(start, start + mdim)
+            e, cmode = scipy.linalg.eigh(hmat[block, block])
+            idx = numpy.argmax(abs(cmode.real), axis=0)
+            cmode[:,cmode[idx,numpy.arange(len(e))].real<0] *= -1
+            c[block, block] = cmode
 
         # Photon ground state energy
         Etot = 0.0
@@ -1137,7 +1149,7 @@ class Boson(object):
             sinh2r = numpy.sinh(2.0 * Fa[imode])
             cosh2r = numpy.cosh(2.0 * Fa[imode])
 
-            p = c[idx:idx+mdim,0].conj() * c[idx:idx+mdim,0]
+            p = c[idx:idx+mdim,idx].conj() * c[idx:idx+mdim,idx]
             nw = (numpy.arange(mdim) + 0.5) * cosh2r - 0.5
             nw_grad = (numpy.arange(mdim) + 0.5) * sinh2r * 2.0
             Etot += self.omega[imode] * numpy.dot(p, nw)
@@ -1589,7 +1601,7 @@ class Photon(Boson):
             gtmp = (self.gmat[imode] - shift)
             gtmp *= numpy.sqrt(0.5*self.omega[imode])
 
-            ci = self.boson_coeff[idx : idx + self.nboson_states[imode], 0]
+            ci = self.boson_coeff[idx : idx + self.nboson_states[imode], idx]
             pdm = numpy.outer(numpy.conj(ci), ci)
             mdim = self.nboson_states[imode]
             h_od = numpy.diag(numpy.sqrt(numpy.arange(1, mdim)), k = 1) \
-- 
2.43.0


From e7195a545e61c25c81a8f1bac6a3d6fca3600bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:23 +0000
Subject: [PATCH 16/51] fix: odd displacement elements have no expectation
 value in a real photon state

The Fock matrix of SC/VT-QED-HF became non-symmetric as soon as the photon
state mixed even and odd Fock states.
---
 openms/lib/boson.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 57346c2..9990660 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -822,6 +822,9 @@ class Boson(object):
         # First compute lower triangle
         ind_m, ind_n = numpy.tril_indices(mdim)
         for i_m, i_n in zip(ind_m, ind_n):
+            # <m|D|n> + <n|D|m> = 0 for odd m - n
+            if (i_m - i_n) % 2 == 1:
+                continue
             idx = packed_index(i_m, i_n)
             if i_m == i_n:
                 val = genlaguerre(n=i_m, alpha=0)(factor**2)
@@ -871,6 +874,9 @@ class Boson(object):
         # First compute lower triangle
         ind_m, ind_n = numpy.tril_indices(mdim, k=-1)
         for i_m, i_n in zip(ind_m, ind_n):
+            # <m|D|n> + <n|D|m> = 0 for odd m - n
+            if (i_m - i_n) % 2 == 1:
+                continue
             # Factorial ratio
             ratio = factorial(i_n, exact=True) / factorial(i_m, exact=True)
 
@@ -921,6 +927,9 @@ class Boson(object):
         ind_m, ind_n = numpy.tril_indices(mdim, k=-1)
 
         for i_m, i_n in zip(ind_m, ind_n):
+            # <m|D|n> + <n|D|m> = 0 for odd m - n
+            if (i_m - i_n) % 2 == 1:
+                continue
             LA = genlaguerre(n=i_n, alpha=(i_m - i_n))(factor**2)
             Ga =  LA * (-factor)**(i_m - i_n)  # w.o. the sqrt{ratio} and g0
 
-- 
2.43.0


From b7d7d295c6302f0357dcb8e3eab177a4076b26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:24 +0000
Subject: [PATCH 17/51] fix: Cholesky factor and pivots of the overlap were
 swapped

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 9c03bde..055246e 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -490,7 +490,7 @@ class RHF(qedhf.RHF):
                                          cholesky_threshold=CHOLESKY_THRESHOLD,
                                          force_pivoted_cholesky=FORCE_PIVOTED_CHOLESKY)
         s1e = self.get_ovlp(self.mol)
-        self.P, self.L = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
+        self.L, self.P = mathlib.full_cholesky_orth(s1e, threshold=1.e-7)
         self.n_oao = self.P.shape[1]
 
         return self
-- 
2.43.0


From 8e1cb33fc994e5ab0ddeb0e08ae3b8998e497e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:25 +0000
Subject: [PATCH 18/51] fix: displacement gradient with more than one Fock
 state scales with tau/omega

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 055246e..53570b4 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -870,7 +870,7 @@ class RHF(qedhf.RHF):
             ci = self.qed.boson_coeff[idx : idx + mdim, idx]
             pdm = numpy.outer(numpy.conj(ci), ci)
 
-            derivative = self.qed.displacement_deriv(imode, tmp * diff_eta, pdm)
+            derivative = tmp * self.qed.displacement_deriv(imode, tmp * diff_eta, pdm)
 
         # Apply vacuum derivative formula
         else:
-- 
2.43.0


From 865c8e6339ac139062ef403068bb0d6c120c92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:25 +0000
Subject: [PATCH 19/51] fix: SC-QED-HF energy includes the photon energy

---
 openms/mqed/scqedhf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 53570b4..816d596 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -975,6 +975,10 @@ class RHF(qedhf.RHF):
             Uinv = linalg.inv(U)
             h1e = unitary_transform(Uinv, h1e)
 
+            # photon energy (VT-QED-HF adds it with its residual terms)
+            if dm is not None and type(self) is scqedhf.RHF:
+                h1e += self.qed.e_boson * self.get_ovlp(mol) / mol.nelectron
+
         return h1e
 
 
-- 
2.43.0


From f6c932faeb045485dced11b8995b0b3f125f4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:25 +0000
Subject: [PATCH 20/51] fix: sign of the pair shift in the combined variational
 gradient

---
 openms/mqed/vtqedhf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 90370b6..abc4a17 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -383,7 +383,7 @@ class RHF(scqedhf.RHF):
                 for p in range(self.nao):
                     Lp = self.ltensor[:, p, :]
                     for q in range(self.nao):
-                        shift = self.eta[a, q] - self.eta[a, p]
+                        shift = self.eta[a, p] - self.eta[a, q]
                         # Ieff is the bottleneck
                         Ieff = 2.0 * numpy.einsum('X, Xrs->rs', self.ltensor[:, p, q], self.ltensor) - \
                                numpy.einsum('Xs, Xr->rs', Lp, self.ltensor[:, :,q])
@@ -397,7 +397,7 @@ class RHF(scqedhf.RHF):
                         tmp = numpy.sum(ID * fc_derivative)
                         twobody_deta[p] += tmp * dm_do[a, p, q]
                         # Q
-                        derivative = self.gaussian_derivative_sq_vector(self.eta, a, shift=shift)
+                        derivative = self.gaussian_derivative_sq_vector(self.eta, a, shift=-shift)
                         tmp = numpy.sum(ID * derivative)
                         twobody_dvsq[a] += tmp * dm_do[a, p, q]/ 4.0
             else:
-- 
2.43.0


From 9abcd6c4b5dfa0a621f8a994ac1c5aee8620be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:25 +0000
Subject: [PATCH 21/51] fix: squeezing parameters follow the displacements when
 the coupling fraction is fixed

---
 openms/mqed/vtqedhf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index abc4a17..37104e7 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -577,8 +577,8 @@ class RHF(scqedhf.RHF):
                 self.vlf_grad.shape
             )
             self.qed.update_couplings()
+            fsize += varsize
 
-        fsize += varsize
         if params.size > fsize and self.qed.optimize_vsq:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
@@ -602,8 +602,8 @@ class RHF(scqedhf.RHF):
                 self.vlf_grad.shape
             )
             self.qed.update_couplings()
+            fsize += varsize
 
-        fsize += varsize
         if self.qed.optimize_vsq and params.size > fsize:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
-- 
2.43.0


From 61ec3c44f820fa60cf853cb3d642572943ebf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:25 +0000
Subject: [PATCH 22/51] fix: Fock amplitudes of the density matrices in the
 original frame

Coherent amplitudes are divided by sqrt(n!), QED-HF displacements are
z/sqrt(2 omega), eta already contains the coupling fraction, and the
transformation and the traces use the overlap.
---
 openms/mqed/qedhf.py   |  9 +++++----
 openms/mqed/scqedhf.py | 16 ++++++++--------
 openms/mqed/vtqedhf.py | 17 ++++++++---------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 42cb421..2f615dc 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -839,17 +839,18 @@ class RHF(hf.RHF):
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = self.qed.z_alpha[imode]
+                zalpha = self.qed.z_alpha[imode] / numpy.sqrt(2.0 * self.qed.omega[imode])
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
                 rho_tmp = rho * zm * zn
                 # back to AO
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho_e)
+        s1e = self.get_ovlp(self.mol)
+        rho_b = numpy.einsum("mpnq, qp->mn", rho_tot, s1e) / numpy.einsum("pq, qp->", rho_e, s1e)
 
         return rho_tot, rho_e, rho_b
 
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 816d596..2b647cb 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -1155,27 +1155,27 @@ class RHF(qedhf.RHF):
 
         # transform rho into dipole basis
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
-        rho_DO = unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = self.qed.couplings_var[imode] * self.eta[imode]
-                zalpha /= self.qed.omega[imode]
+                # (eta contains the variational coupling)
+                zalpha = self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * (-zalpha) ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = unitary_transform(Uinv, rho_tmp)
+                rho_tmp = unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho)
+        s1e = self.get_ovlp(self.mol)
+        rho_b = numpy.einsum("mpnq, qp->mn", rho_tot, s1e) / numpy.einsum("pq, qp->", rho_e, s1e)
 
         return rho_tot, rho_e, rho_b
 
diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 37104e7..49193a9 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -644,30 +644,29 @@ class RHF(scqedhf.RHF):
         imode = 0
 
         U = self.ao2dipole[imode]
-        Uinv = linalg.inv(U)
         # transform into Dipole
-        rho_DO = scqedhf.unitary_transform(U, rho)
+        rho_DO = self.get_dm_do(rho, U)
 
         tau = numpy.exp(self.qed.squeezed_var[imode])
         rho_tot = numpy.zeros((nfock, nao, nfock, nao))
         for m in range(nfock):
             for n in range(nfock):
                 # <m | D(z_alpha) |0>
-                zalpha = tau * self.qed.couplings_var[imode] * self.eta[imode]
-                zalpha /= self.qed.omega[imode]
+                # (eta contains the variational coupling)
+                zalpha = tau * self.eta[imode] / self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(math.factorial(m))
-                # zn = z0 * (-zalpha) ** n * numpy.sqrt(math.factorial(n))
-                zn = z0 * (zalpha) ** n * numpy.sqrt(math.factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(math.factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(math.factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-                rho_tmp = scqedhf.unitary_transform(Uinv, rho_tmp)
+                rho_tmp = scqedhf.unitary_transform(U.T, rho_tmp)
                 rho_tot[m, :, n, :] = rho_tmp
 
         rho_e = numpy.einsum("mpmq->pq", rho_tot)
-        rho_b = numpy.einsum("mpnp->mn", rho_tot) / numpy.trace(rho_e)
+        s1e = self.get_ovlp(self.mol)
+        rho_b = numpy.einsum("mpnq, qp->mn", rho_tot, s1e) / numpy.einsum("pq, qp->", rho_e, s1e)
 
         return rho_tot, rho_e, rho_b
 
-- 
2.43.0


From e0ee9ce8041a8d5348449243f33b8be97477e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:33 +0000
Subject: [PATCH 23/51] fix: resolve dipole degeneracies at the top of the
 spectrum

---
 openms/mqed/scqedhf.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 2b647cb..32969c5 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -528,16 +528,13 @@ class RHF(qedhf.RHF):
     def check_n_resolve_degeneracy(self, evals, mo2dipole, dm):
 
         degeneracy = 1
-        ediff = 0
 
-        for p in range(self.nao - 1):
+        for p in range(self.nao):
 
-            ediff = evals[p + 1] - evals[p]
-
-            if abs(ediff) < self.dipole_degen_thresh:
+            if p + 1 < self.nao and abs(evals[p + 1] - evals[p]) < self.dipole_degen_thresh:
                 degeneracy += 1
 
-            elif abs(ediff) > self.dipole_degen_thresh and degeneracy > 1:
+            elif degeneracy > 1:
                 r = p + 1 - degeneracy
                 s = p + 1
 
-- 
2.43.0


From 5fc09f37f1f3e6e7256a7d38e425babaa9155207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:34 +0000
Subject: [PATCH 24/51] fix: cavity set-up no longer normalises the caller's
 polarisation array in place

---
 openms/lib/boson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 9990660..7f11bd0 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -646,6 +646,7 @@ class Boson(object):
         # Normalize vectors first, use normalization constants
         # as the gfac values, if coupling strengths were not provided
         else:
+            vec = vec.copy() # keep the caller's array
             m_cnsts = numpy.zeros(self.nmodes)
             for a in range(self.nmodes):
                 cnst = m_cnsts[a] = numpy.sqrt(numpy.dot(vec[a], vec[a]))
-- 
2.43.0


From d6e937c879e34a0599562b6b94d2189c885164fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:00 +0000
Subject: [PATCH 25/51] fix: cavity CC doubles equations no longer require as
 many modes as virtual orbitals

---
 openms/mqed/myqedcc_equations.py     | 5 -----
 openms/mqed/myqedcc_equations_opt.py | 5 -----
 openms/mqed/qedcc_equations.py       | 3 ---
 3 files changed, 13 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index b829782..59fedbe 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -804,7 +804,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1065,7 +1064,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
@@ -1616,7 +1614,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2554,7 +2551,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -2846,7 +2842,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a9070b6..cb4eb8f 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -817,7 +817,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1078,7 +1077,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
@@ -1629,7 +1627,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2572,7 +2569,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -2864,7 +2860,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_2w)
 
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 1936a63..fb2229e 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -591,7 +591,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     if nm == 1: # if single mode, we use faster single mode code (reducing indexing overhead)
         return single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps)
@@ -838,7 +837,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_2w = eps_vir + 2.0 * w
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
@@ -1386,7 +1384,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
-- 
2.43.0


From a6813924c67b952bfbe6f8e79c1f7001b0bdc8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:16 +0000
Subject: [PATCH 26/51] fix: photon index of the dressed doubles coupling to
 second-order singles

---
 openms/mqed/myqedcc_equations.py     | 8 ++++----
 openms/mqed/myqedcc_equations_opt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index 59fedbe..b203922 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -1016,11 +1016,11 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
@@ -2793,11 +2793,11 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index cb4eb8f..0d9b89a 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -1029,11 +1029,11 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
@@ -2811,11 +2811,11 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
-- 
2.43.0


From dec27f3da0dfee9ed579cd603f39eebf7bb8ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 27/51] fix: missing quartic terms of the second-order dressed
 doubles

---
 openms/mqed/myqedcc_equations.py     | 10 ++++++++++
 openms/mqed/myqedcc_equations_opt.py | 10 ++++++++++
 openms/mqed/qedcc_equations.py       | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index b203922..9172be9 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -3233,6 +3233,16 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,cj,bk,al,di->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,al,bk->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
     U2n[1][0,0] = U22
 
     return U2n
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 0d9b89a..5aad5bd 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -3251,6 +3251,16 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
 
+    U22 += 1.0 * einsum('klcd,cj,bk,al,di->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,al,bk->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
     U2n[1][0,0] = U22
 
     return U2n
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index fb2229e..7928470 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -1982,6 +1982,16 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     U2n[1] = numpy.zeros((nm, nm, nvir, nvir, nocc, nocc))
 
+    U22 += 1.0 * einsum('klcd,cj,bk,al,di->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,al,bk->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0 * einsum('klcd,bk,al,di,cj->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,al,di,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,cj,bk,di,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,al,cj,bk->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,bk,cj,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
+    U22 += 2.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
     U2n[1][0,0] = U22
 
     return U2n
-- 
2.43.0


From 27f48a28ac3dbc9b675793fcccb8f0d61160474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 28/51] fix: second-order dressed singles: double-counted U2
 terms, missing Wovvo-type term, symmetric photon indices

---
 openms/mqed/myqedcc_equations.py     | 15 ++++++++++-----
 openms/mqed/myqedcc_equations_opt.py | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index 9172be9..8f88d20 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -2408,6 +2408,8 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     #----------------------------
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
+    Xov2 = einsum('jkbc,IJck->IJjb', I.oovv, U1nold[1])
+    U1n[1] += 0.5*einsum('IJjb,abij->IJai', Xov2, T2old)
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
 
@@ -2489,29 +2491,29 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
@@ -2538,6 +2540,9 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         #U1n[1] += -1.0*einsum('Kjb,bi,IK,Jaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
         #U1n[1] += -1.0*einsum('Kjb,bi,JK,Iaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
 
+    # the boson indices are permutation invariant
+    U1n[1] = 0.5*(U1n[1] + U1n[1].transpose((1,0,2,3)))
+
     return U1n
 
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 5aad5bd..271200d 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -2424,6 +2424,8 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     #----------------------------
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
+    Xov2 = einsum('jkbc,IJck->IJjb', I.oovv, U1nold[1])
+    U1n[1] += 0.5*einsum('IJjb,abij->IJai', Xov2, T2old)
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
 
@@ -2505,29 +2507,29 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
@@ -2554,6 +2556,9 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         #U1n[1] += -1.0*einsum('Kjb,bi,IK,Jaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
         #U1n[1] += -1.0*einsum('Kjb,bi,JK,Iaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
 
+    # the boson indices are permutation invariant
+    U1n[1] = 0.5*(U1n[1] + U1n[1].transpose((1,0,2,3)))
+
     return U1n
 
 
-- 
2.43.0


From cb29a48cf8d3ff6f3c103785a05308fe96083dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 29/51] fix: plain cavity CC equations: duplicated and missing
 exchange terms, second-order S coupling

---
 openms/mqed/qedcc_equations.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 7928470..1d742ca 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -513,16 +513,6 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
         U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.375*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 0.625*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
@@ -1611,6 +1601,10 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U21 += -1.0 * einsum('klcd,bk,adlj,ci->abij', I.oovv, T1old, T2old, U11old, optimize = True)
     U21 += 1.0 * einsum('klcd,ak,bdlj,ci->abij', I.oovv, T1old, T2old, U11old, optimize = True)
     U21 += -1.0 * einsum('klcd,dk,balj,ci->abij', I.oovv, T1old, T2old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,bk,al,cj->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,di,cj,ak,bl->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += 1.0 * einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
+    U21 += -1.0 * einsum('klcd,dj,bk,al,ci->abij', I.oovv, T1old, T1old, T1old, U11old, optimize = True)
     U21 += -1.0 * einsum('kc,ci,bj,ak->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += 1.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
     U21 += 1.0 * einsum('kc,cj,bi,ak->abij', g.ov[0], T1old, U11old, U11old, optimize = True)
@@ -1670,7 +1664,7 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -1.0 * einsum('bacd,dj,ci->abij', I.vvvv, T1old, U12old, optimize = True)
     U22 += 1.0 * S1old * einsum('ki,bakj->abij', g.oo[0], U22old, optimize = True)
     U22 += -1.0 * S1old * einsum('kj,baki->abij', g.oo[0], U22old, optimize = True)
-    if nfock1 > 2:
+    if nfock1 > 1:
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
         U22 += -1.0 * S2old * einsum('kj,baki->abij', g.oo[0], U21old, optimize = True)
         U22 += 1.0 * S2old * einsum('ki,bakj->abij', g.oo[0], U21old, optimize = True)
-- 
2.43.0


From 37965cfd6547dcc88ec298c78b0101014022a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 30/51] fix: undefined numpy alias in the one-electron
 contraction of the QED-FCI

---
 openms/mqed/qedfci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index cc1e913..09d3d1c 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -105,7 +105,7 @@ def contract_1e(h1e, fcivec, norb, nelec, nmode=0, boson_states=None):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
 
     ci0 = fcivec.reshape(cishape)
-    fcinew = np.zeros_like(ci0)
+    fcinew = numpy.zeros_like(ci0)
 
     # Alpha spin contraction
     for str0, tab in enumerate(link_indexa):
-- 
2.43.0


From 18c6d0adfe4dcea594815a551652900ac38283b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 31/51] fix: photon density matrix of the QED-FCI is indexed by
 the modes

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 09d3d1c..46528f4 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -791,7 +791,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
     ci0 = fcivec.reshape(cishape)
 
-    t1 = numpy.zeros((norb,) + cishape)
+    t1 = numpy.zeros((nmode,) + cishape)
     for imode in range(nmode):
         nboson = boson_states[imode]
         boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
@@ -800,7 +800,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
             slices0 = slices_for(imode, nmode, i)
             t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]
 
-    rdm1 = lib.dot(t1.reshape(nsite, -1), t1.reshape(nsite, -1).T)
+    rdm1 = lib.dot(t1.reshape(nmode, -1), t1.reshape(nmode, -1).T)
     return rdm1
 
 
-- 
2.43.0


From a7dbc259ef93c80ee58dec3ab51886595509d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 32/51] fix: boson-boson interaction of the QED-FCI with
 several modes

---
 openms/mqed/qedfci.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 46528f4..2740f03 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -347,24 +347,39 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
     ci0 = fcivec.reshape(cishape)
     fcinew = numpy.zeros(cishape)
 
+    # a 1D Hbb holds the mode frequencies
+    if Hbb.ndim == 1:
+        Hbb = numpy.diag(Hbb)
+
     #
     # w_x b^+_x b_x
     for imode in range(nmode):
         nboson = boson_states[imode]
-        boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
         for i in range(1, nboson+1):
             slices0 = slices_for(imode, nmode, i)
-            fcinew[slices0] += ci0[slices0] * (Hbb[imode] * i)
+            fcinew[slices0] += ci0[slices0] * (Hbb[imode, imode] * i)
+
+    # w_xy b^+_x b_y
+    for jmode in range(nmode):
+        if not numpy.any(numpy.delete(Hbb[:, jmode], jmode)):
+            continue
+        t1 = des_boson(ci0, norb, nelec, nmode, boson_states, jmode)
+        for imode in range(nmode):
+            if imode != jmode:
+                fcinew += Hbb[imode, jmode] * cre_boson(
+                    t1, norb, nelec, nmode, boson_states, imode
+                )
 
     # coherent state
     if zalpha is not None:
+        wz = numpy.dot(Hbb, zalpha)
         for imode in range(nmode):
             nboson = boson_states[imode]
             boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
             for i in range(nboson):
                 slices1 = slices_for_cre(imode, nmode, i)
                 slices0 = slices_for(imode, nmode, i)
-                tmp = zalpha[imode] * (boson_cre[i] * Hbb[imode])
+                tmp = wz[imode] * boson_cre[i]
                 fcinew[slices1] += tmp * ci0[slices0]
                 fcinew[slices0] += tmp * ci0[slices1]
     """
-- 
2.43.0


From a8e36269a452b4b58c593dce90713649f2c4a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:42 +0000
Subject: [PATCH 33/51] fix: coherent-state representation of the QED-FCI
 kernel

---
 openms/mqed/qedfci.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 2740f03..9e12672 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -251,7 +251,7 @@ def absorb_h1e(h1e, eri, norb, nelec, fac=1):
         h2e[:, :, k, k] += f1e
     return h2e * fac
 
-def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
+def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states, zalpha=None):
     r""" """
 
     # electronic part
@@ -279,7 +279,7 @@ def contract_all(H1, H2, Heb, Hbb, cin, norb, nelec, nmode, boson_states):
 
     # bosonic term
     # print("Debug-yz: contracting bosonic interaction part")
-    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states)
+    cout += contract_bb(Hbb, cin, norb, nelec, nmode, boson_states, zalpha)
     # print("Debug: c after contract_bb is ", cout)
     t4 = time.time()
 
@@ -685,19 +685,16 @@ def kernel(
         print ("FCI electronic : ", e0)
     if electron_only: return e0, 0.0, 0.0
 
+    zalpha = None
     if coherent_state:
         if nroots > 1:
             dm0 = direct_spin1.make_rdm1(c[0], norb, nelec)
         else:
             dm0 = direct_spin1.make_rdm1(c, norb, nelec)
         # TODO: modify the H1, H2, Heb, Hbb with coherent state representation
-        if Hbb.ndim == 1:
-            zalpha = - numpy.einsum('xpq, qp -> x', Heb, dm0, optimize=True) / Hpp
-            ecore = ecore + np.einsum("x, x ->", Hpp, zalpha**2)
-        else:
-            tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
-            zalpha = la.solve(Hbb, tmp)
-            ecore = ecore + np.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
+        tmp = -numpy.einsum('xpq, qp -> x', Heb, dm0)
+        zalpha = numpy.linalg.solve(Hbb, tmp)
+        ecore = ecore + numpy.einsum("xy, x, y ->", Hbb, zalpha, zalpha, optimize=True)
         H1 = H1 + numpy.einsum('xpq, x -> pq', Heb, zalpha * 2, optimize=True)
 
 
@@ -726,7 +723,7 @@ def kernel(
     H2mod =  absorb_h1e(H1, H2, norb, nelec, 0.5)
     print("Debug: norm of modified H2 =", numpy.linalg.norm(H2mod))
     def hop(c):
-        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states)
+        hc = contract_all(H1, H2mod, Heb, Hbb, c, norb, nelec, nmode, boson_states, zalpha)
         # hc = contract_all(H1, H2, Heb, Hbb, c, norb, nelec, nmode, boson_states)
         return hc.reshape(-1)
 
-- 
2.43.0


From 9b7f23b1809cef602ca7072762d3ede4cb9315d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 34/51] fix: spin-resolved interactions in the QED-FCI
 contractions

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 9e12672..ad1cfac 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -146,7 +146,7 @@ def contract_2e(eri, fcivec, norb, nelec, nmode, boson_states):
     if isinstance(eri, list):
         g2e_aa = ao2mo.restore(1, eri[0], norb)
         g2e_ab = ao2mo.restore(1, eri[1], norb)
-        g2e_bb = ao2mo.restore(1, eri[2], nsorb)
+        g2e_bb = ao2mo.restore(1, eri[2], norb)
 
         t2a = numpy.dot(g2e_aa.reshape(norb**2, -1), t1a.reshape(norb**2, -1))
         t2a += numpy.dot(g2e_ab.reshape(norb**2, -1), t1b.reshape(norb**2, -1))
@@ -228,7 +228,7 @@ def contract_2e_hubbard(u, fcivec, norb, nelec, nmode, boson_states):
     for i in range(norb):
         maska = (strsa & (1 << i)) > 0
         maskb = (strsb & (1 << i)) > 0
-        fcinew[maska[:, None] & maskb] += u * ci0[maska[:, None] & maskb]
+        fcinew[maska[:, None] & maskb] += u_ab * ci0[maska[:, None] & maskb]
     return fcinew.reshape(fcivec.shape)
 
 
-- 
2.43.0


From c300c6a7a20f7d6a96341ec82b17f498c4c9ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 35/51] fix: per-mode frequency factor of the electron-boson
 integrals for the QED-FCI

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 7f11bd0..9af70ca 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -372,7 +372,7 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
 
     qed.get_gmatao()
     gmat = qed.gmat
-    gmat_bilinear = gmat * numpy.sqrt(cavity_freq/2.0)
+    gmat_bilinear = numpy.einsum("X, Xpq -> Xpq", numpy.sqrt(numpy.asarray(cavity_freq) / 2.0), gmat)
     #gmat_bilinear = -gmat * numpy.sqrt(cavity_freq/2.0)
 
     enuc = mol.energy_nuc()
-- 
2.43.0


From ac7ea38dd37e863a3fad75472e4fa49a099e7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 36/51] fix: initial density matrix of the FCI integrals uses
 the AO overlap

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 9af70ca..569a85f 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -391,11 +391,11 @@ def get_integrals4fci(mol, cavity_freq, cavity_mode, lo_method='meta-lowdin', ch
     # transform into orthogonal basis
     #
 
+    SC = ovlp.dot(C)
     hcore = transform_ao2mo(hcore, C)
     ovlp = transform_ao2mo(ovlp, C)
     eri = ao2mo.kernel(eri, C)
     Hep = numpy.einsum("Xpq, pm, qn -> Xmn", gmat_bilinear, C, C, optimize=True)
-    SC = ovlp.dot(C)
     dm0 = transform_ao2mo(dm0, SC)
 
     # add DSE into eri
-- 
2.43.0


From ebb460226c51b6e6132c3f90471bf26219228511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 37/51] fix: building the cavity Fock matrix no longer modifies
 the core Hamiltonian of the mean field

---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 569a85f..314a77d 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2094,7 +2094,7 @@ class Photon(Boson):
 
         # add DSE-oei contribution
         if not self.shift:
-            h1 += self.add_oei_ao(self.pa+self.pb)
+            h1 = h1 + self.add_oei_ao(self.pa+self.pb)
 
 
         ptot = block_diag(self.pa, self.pb)
-- 
2.43.0


From a3397244f783b06ed8f1b24e529d530164561331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 38/51] fix: spin-orbital couplings of a photon object that has
 not been through an SCF

---
 openms/lib/boson.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 314a77d..615caba 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2250,12 +2250,9 @@ class Photon(Boson):
 
     def get_gmat_so(self):
         r"""e-photon coupling matrix in SO basis."""
-        if self.dipole_ao is None: self.get_dipole_ao()
-        if self.quadrupole_ao is None: self.get_quadrupole_ao()
         if self.pa is None: self.get_mos()
 
-
-        self.get_gmat_ao()
+        self.get_gmatao()
         # gmatso
         #gmatso = [
         #    block_diag(self.gmat[i], self.gmat[i]) for i in range(len(self.gmat))
-- 
2.43.0


From b3689ba2fa2d2c8efde3cc5229809a0d67d29c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 39/51] fix: open two-site Hubbard-Holstein model has a single
 bond

---
 openms/models/hh_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index cf5d487..8dabbf9 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -150,7 +150,7 @@ class HHModel(object):
             nn = self._nn(i)
             t[i, nn[0]] = -1.0
             t[i, nn[1]] = -1.0
-        if L == 2:
+        if L == 2 and self.bc == 'p':
             t[0, -1] += -1
             t[-1, 0] += -1
         return t
-- 
2.43.0


From 42347489d34c9e1b605b9cb7e9fb7d738ef5a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:54 +0000
Subject: [PATCH 40/51] fix: SC/VT-QED-HF energies use the current
 displacements, couplings and photon state

---
 openms/mqed/scqedhf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 32969c5..1cbe1ba 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -332,6 +332,9 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
         mo_occ = mf.get_occ(mo_energy, mo_coeff)
         dm = mf.make_rdm1(mo_coeff, mo_occ)
 
+        # dressed integrals of the current variational parameters
+        mf.get_h1e_DO(mol, dm=dm)
+
         # update energy
         time1 = time.time()
         vhf = mf.get_veff(mol, dm, dm_last, vhf)
@@ -387,12 +390,13 @@ def kernel(mf, conv_tol=1e-10, conv_tol_grad=None,
         mo_energy, mo_coeff = mf.eig(fock, s1e)
         mo_occ = mf.get_occ(mo_energy, mo_coeff)
         dm, dm_last = mf.make_rdm1(mo_coeff, mo_occ), dm
-        vhf = mf.get_veff(mol, dm, dm_last, vhf)
+        mf.get_h1e_DO(mol, dm=dm)
 
         # Final update of photonic component
         mf.qed.update_cs(dm)
         mf.qed.update_boson_coeff(dm)
 
+        vhf = mf.get_veff(mol, dm, dm_last, vhf)
         h1e = mf.get_hcore(mol, dm, dress=True)
         e_tot, last_hf_e = mf.energy_tot(dm, h1e, vhf), e_tot
 
-- 
2.43.0


From ae25a708c5e258735e9810000bdea3bd5264a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:28 +0000
Subject: [PATCH 41/51] fix: seed the generator the propagation draws from on
 every MPI rank

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 850cef7..42bd0b2 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -917,7 +917,7 @@ class QMCbase(object):
             # Create a rank-specific seed using SeedSequence
             ss = backend.random.SeedSequence(self.random_seed)
             child_seeds = ss.spawn(self._mpi.size)
-            backend.random.default_rng(child_seeds[self._mpi.rank])
+            backend.random.seed(child_seeds[self._mpi.rank].generate_state(4))
         else:
             backend.random.seed(self.random_seed)
 
-- 
2.43.0


From fe0572d2a76f547038f9fec9b01993fbd972c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:28 +0000
Subject: [PATCH 42/51] fix: walker options of one calculation no longer change
 the defaults of the next

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 42bd0b2..100ab62 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -355,7 +355,7 @@ class QMCbase(object):
             "quantizaiton": "second",
         }
 
-        self.walker_options = gwalker.default_walker_options
+        self.walker_options = gwalker.default_walker_options.copy()
         tmp_walker_options = kwargs.get("walker_options", None)
         # print("tmp_walker_options = ", tmp_walker_options)
         if tmp_walker_options is not None:
-- 
2.43.0


From 4e9a5126e4d13b395484fc58a259fbcd56a11b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:20 +0000
Subject: [PATCH 43/51] fix: temperature of several molecules uses each
 molecule's kinetic energy

---
 openms/qmd/bomd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmd/bomd.py b/openms/qmd/bomd.py
index 7acd59f..efa8a79 100644
--- a/openms/qmd/bomd.py
+++ b/openms/qmd/bomd.py
@@ -190,7 +190,7 @@ class BaseMD(object):
         ekin = 0
         ndof = 0
         for mol in self.mol:
-            self.mol.get_ekin()
+            mol.get_ekin()
             ekin += mol.ekin
             ndof += mol.ndof
         return ekin * 2.0 / ndof * au2K
-- 
2.43.0


From f5afa05afbee6d865c6fcf384d7b8b0bf06c6b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:10 +0000
Subject: [PATCH 44/51] fix: initial velocities given to a molecule are no
 longer ignored

---
 openms/lib/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/misc.py b/openms/lib/misc.py
index 0406034..6ac2e79 100644
--- a/openms/lib/misc.py
+++ b/openms/lib/misc.py
@@ -283,7 +283,7 @@ class Molecule(mole.Mole):
         if lmodel:
             print(f"this is model system in {self.ndim} dimension")
 
-        self.veloc = None  # velocity
+        self.veloc = kwargs.get("veloc")  # velocity
         self.mass = None
 
         self.build(**kwargs)
-- 
2.43.0


From e9baefe20cb1f880c1f46fe96fbe1fbc421a6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:10 +0000
Subject: [PATCH 45/51] fix: aggregate model can be imported: numerical backend
 and missing module

---
 openms/models/aggregates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openms/models/aggregates.py b/openms/models/aggregates.py
index 4acaf56..1120ad1 100644
--- a/openms/models/aggregates.py
+++ b/openms/models/aggregates.py
@@ -18,9 +18,10 @@ r"""
 Disordered molecular aggregates.
 """
 
-import openms.lib.backend as bd
+from openms.lib.backend import backend as bd
 import numpy as np  # replace np as bd (TODO)
 import random
+import sys
 
 
 def linear_spec(elist, state, evals, dip, gamma):
-- 
2.43.0


From c5d24f8dbedb2aea132f8e7e3a4f7d5add82b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:10 +0000
Subject: [PATCH 46/51] fix: each interband transition contributes to the
 conductivity above its own frequency

---
 openms/maxwell/hyperbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openms/maxwell/hyperbolic.py b/openms/maxwell/hyperbolic.py
index bb06be7..22f63d4 100644
--- a/openms/maxwell/hyperbolic.py
+++ b/openms/maxwell/hyperbolic.py
@@ -95,9 +95,9 @@ class hyperbolicBase(object):
             sigma = 1j * self.plasmon_freqs / (w + 1j * self.damping)
             tmp = abs((w - self.interband_freqs) / (w + self.interband_freqs))
             tmp = 1j / numpy.pi * numpy.log(tmp)
-            for i in range(self.plasmon_freqs.size):
-                if w > self.plasmon_freqs[i]:
-                    tmp += 1.0
+            for i in range(len(self.interband_freqs)):
+                if w > self.interband_freqs[i]:
+                    tmp[i] += 1.0
             sigma += tmp * self.interband_strengths
             outstring = format_array_line(sigma)
             print(f"w, sigma = {w:.3f} {outstring}")
-- 
2.43.0


From e8a815a8f042faf73793a6f4bf2b24e5b5e37def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:10 +0000
Subject: [PATCH 47/51] fix: a spin remembers its zero-field splitting
 parameters

---
 openms/spindy/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/spindy/spin.py b/openms/spindy/spin.py
index b7bedfe..a744951 100644
--- a/openms/spindy/spin.py
+++ b/openms/spindy/spin.py
@@ -137,8 +137,8 @@ class Spin(object):
 
         self.coord = coord
         self.spin = 0.5
-        self.D = 0.0
-        self.E = 0.0
+        self.D = D
+        self.E = E
         self.alpha = None
         self.beta = None
         self._zfs = None
-- 
2.43.0


From fb6a5d462e9536ab6b517a7a15d7ffd13067c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 48/51] fix: default energy scheme of a QMC calculation is the
 hybrid one instead of none (first step raised ValueError)

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 100ab62..a7be6b7 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -223,7 +223,7 @@ class QMCbase(object):
         renorm_freq=5,
         random_seed=1,
         taylor_order=6,
-        energy_scheme=None,
+        energy_scheme="hybrid",
         propagator_options=None,
         *args,
         **kwargs,
-- 
2.43.0


From 45fda9ed7fb955ad02524f4265f0dd39d9dbcd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 49/51] fix: read_fcidump fills (rs|pq) as well as (pq|rs), of
 which the file holds one

---
 openms/qmc/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 12cd635..96ef26e 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -312,10 +312,12 @@ def read_fcidump(fname, norb):
             p, q, r, s = [int(i_index) for i_index in line_content[1:5]]
             if r != 0:
                 # eri[p,q,r,s] is with chemist notation (pq|rs)=(qp|rs)=(pq|sr)=(qp|sr)
-                eri[p - 1, q - 1, r - 1, s - 1] = integral
-                eri[q - 1, p - 1, r - 1, s - 1] = integral
-                eri[p - 1, q - 1, s - 1, r - 1] = integral
-                eri[q - 1, p - 1, s - 1, r - 1] = integral
+                # and (pq|rs)=(rs|pq): only one of the two is in the file
+                for i, j, k, l in ((p, q, r, s), (r, s, p, q)):
+                    eri[i - 1, j - 1, k - 1, l - 1] = integral
+                    eri[j - 1, i - 1, k - 1, l - 1] = integral
+                    eri[i - 1, j - 1, l - 1, k - 1] = integral
+                    eri[j - 1, i - 1, l - 1, k - 1] = integral
             elif p != 0:
                 h1e[p - 1, q - 1] = integral
                 h1e[q - 1, p - 1] = integral
-- 
2.43.0


From 96c30bc2dfb45d19fa306b3fbbedd27593862d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 50/51] fix: frozen bosons can be used with a molecule: the
 vacuum trial is created, not only reset

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index a7be6b7..dd5b7d2 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -459,7 +459,7 @@ class QMCbase(object):
             logger.debug(self, f"Debug: initial coherent state is  : {zalpha}")
             logger.debug(self, f"Debug: initial bosonic trial WF is: {self.trial.boson_psi}")
         elif self.geb is not None and self.propagator_options["turnoff_bosons"]:
-            self.trial.boson_psi *= 0.0
+            self.trial.boson_psi = backend.zeros(sum(self.mol.nboson_states))
             self.trial.boson_psi[0] = 1.0
 
         # 3) set up walkers
-- 
2.43.0


From 36fb5062752d307013c5d765390adb3941735aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 51/51] fix: chols_full does not add the self-energy to the
 integrals array of its caller

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 96ef26e..e95f1be 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -410,7 +410,7 @@ def chols_full(mol, eri=None, thresh=1.e-12, aosym="s1", g=None):
         eri = mol.intor('int2e_sph', aosym='s1')
     nao = eri.shape[0]
     if g is not None:
-        eri += numpy.einsum("npq, nrs->pqrs", g, g)
+        eri = eri + numpy.einsum("npq, nrs->pqrs", g, g)
 
     eri = eri.reshape((nao**2, -1))
     u, s, v = scipy.linalg.svd(eri)
-- 
2.43.0

