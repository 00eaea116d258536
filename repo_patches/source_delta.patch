From b4180dce1d9c523997c2485ad73a557d78e84768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 01/58] fix: add_bosonic aligns the frequencies along the
 requested axis

---
 src/dga/matsubara_frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c541b65..f3589cb 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -239,12 +239,12 @@ def add_bosonic(mat1, mat2, axis=0):
     if niw_2 <= niw_1:
         result = np.copy(mat1)
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
-        result[nl:nu] += mat2
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat2, axis, 0)
         return result
     else:
         result = np.copy(mat2)
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
-        result[nl:nu] += mat1
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat1, axis, 0)
         return result
 
 
-- 
2.43.0


From 7666695b4bc596cb987b92f5da9bab927eb208fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 02/58] fix: symmetrize_irrk averages over the k-points of each
 irreducible point

---
 src/dga/brillouin_zone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index d6024a1..6a19400 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -300,8 +300,8 @@ class KGrid():
         shp = np.shape(mat_reshape)
         reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
         for i in range(self.nk_irr):
-            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk == self.irrk_ind[i], ...], axis=0)
-        return self.map_irrk2fbz(mat=reduced)
+            reduced[i, ...] = np.mean(mat_reshape[np.ravel(self.irrk_inv) == i, ...], axis=0)
+        return self.map_irrk2fbz(mat=reduced).reshape(np.shape(mat))
 
     def shift_mat_by_pi(self, mat, axes=(0, 1, 2)):
         mat_shift = mat
-- 
2.43.0


From d01b37f4395d05e67cb56d679db86ba2b370084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 03/58] fix: KPath takes the y and z momenta from their own
 grids

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 6a19400..9ee1ef0 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -378,7 +378,7 @@ class KPath():
         self.k_points = self.get_kpoints()
 
     def get_kpath_val(self):
-        k = [self.kx[self.kpts[:, 0]], self.kx[self.kpts[:, 1]], self.kx[self.kpts[:, 2]]]
+        k = [self.kx[self.kpts[:, 0]], self.ky[self.kpts[:, 1]], self.kz[self.kpts[:, 2]]]
         return k
 
     def set_kgrid(self, k_in, nk):
-- 
2.43.0


From e14e0cf6242ffaf877b12f607b5c40e5cf0032d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/58] fix: create_orbs labels the orbitals of every lattice
 vector

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 49b7a48..7fb4038 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -70,7 +70,7 @@ def create_orbs(n_rp, n_orbs):
     orbs = np.zeros((n_rp, n_orbs, n_orbs, 2))
     for io1 in range(n_orbs):
         for io2 in range(n_orbs):
-            orbs[io1, io2, :] = np.array([io1 + 1, io2 + 1])
+            orbs[:, io1, io2, :] = np.array([io1 + 1, io2 + 1])
     return orbs
 
 
-- 
2.43.0


From 3b7da4ef4c48ca50c7a1fb989c87af158c90f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 05/58] fix: read_hk_w2k reads version-2 headers with current
 numpy (np.int is gone)

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 7fb4038..dbceb68 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -398,7 +398,7 @@ def read_hk_w2k(fname, spin_sym=True):
     if header[0] == 'VERSION':
         warn('Version 2 headers are obsolete (specify in input file!)')
         nkpoints, natoms = map(int, nextline())
-        lines = np.array([nextline() for _ in range(natoms)], np.int)
+        lines = np.array([nextline() for _ in range(natoms)], int)
         nbands = np.sum(lines[:, :2])
         del lines, natoms
     elif len(header) != 3:
-- 
2.43.0


From 9333117daad608bcfc063dd395b22fb546c5d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 06/58] fix: estimate_niv_core keeps the data when the
 asymptotic region is not reached

---
 src/dga/two_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 38ce0b9..b8f58dc 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -139,9 +139,11 @@ class SelfEnergy():
     def estimate_niv_core(self):
         '''check when the real and the imaginary part are within error margin of the asymptotic'''
         asympt = self.get_asympt(niv_asympt=self.niv, n_min=0)
-        ind_real = np.argmax(np.abs(self.k_mean().real - asympt.real) < self.err)
-        ind_imag = np.argmax(np.abs(self.k_mean().imag - asympt.imag) < self.err)
-        niv_core = max(ind_real, ind_imag)
+        is_real = np.abs(self.k_mean().real - asympt.real) < self.err
+        is_imag = np.abs(self.k_mean().imag - asympt.imag) < self.err
+        if not (np.any(is_real) and np.any(is_imag)):  # the asymptotic region is not reached: keep all the data
+            return self.niv
+        niv_core = max(np.argmax(is_real), np.argmax(is_imag))
         if niv_core < self.niv_core_min:
             return self.niv_core_min
         else:
-- 
2.43.0


From a19ec41642360f8d247142a55ddb4a658de54ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 07/58] fix: estimate_niv_core does not exceed the available
 frequencies

---
 src/dga/two_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index b8f58dc..c7196b8 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -145,7 +145,7 @@ class SelfEnergy():
             return self.niv
         niv_core = max(np.argmax(is_real), np.argmax(is_imag))
         if niv_core < self.niv_core_min:
-            return self.niv_core_min
+            return min(self.niv_core_min, self.niv)
         else:
             return niv_core
 
-- 
2.43.0


From aab0c419747f4302c8592aa9be851bde285d0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 08/58] fix: root_fun_primitive uses the scalar filling

---
 src/dga/two_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index c7196b8..6c9d5c0 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -230,7 +230,7 @@ def get_fill_primitive(g_loc, beta, verbose=False):
 def root_fun_primitive(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, verbose=False):
     """Auxiliary function for the root finding"""
     g_loc = get_gloc(iv=iv, hk=hk, siwk=siwk, mu_trial=mu)
-    return get_fill_primitive(g_loc, beta, verbose)[0] - target_filling
+    return get_fill_primitive(g_loc, beta, verbose) - target_filling
 
 
 def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=None, beta=None, smom0=None, tol=1e-6,
-- 
2.43.0


From c34607abed57c77dbda8328e022d3568f863677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 09/58] fix: update_mu brackets the chemical potential when
 Newton fails instead of silently keeping the old one

---
 src/dga/two_point.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 6c9d5c0..4165454 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -286,6 +286,16 @@ def root_fun(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0,
 # ==================================================================================================================
 
 # ==================================================================================================================
+def bracket_mu(args, tol=1e-6):
+    '''Find mu by bracketing: the filling goes from 0 to 2 as mu goes from -infinity to infinity'''
+    smom0, hloc = args[5], args[6].real
+    center, width = smom0 + hloc, 1.0
+    while not (root_fun(center - width, *args) < 0 < root_fun(center + width, *args)):
+        width *= 2
+        if width > 1e6: raise ValueError('Chemical potential could not be bracketed.')
+    return opt.brentq(root_fun, center - width, center + width, args=args, xtol=tol)
+
+
 def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, smom0=0.0, tol=1e-6, verbose=False):
     """
     Update internal chemical potential (mu) to fix the filling to the target filling with given precision.
@@ -301,8 +311,8 @@ def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0
         mu = opt.newton(root_fun, mu, tol=tol,
                         args=(target_filling, iv, hk, siwk, beta, smom0, hloc))
     except RuntimeError:
-        if verbose: print('Root finding for chemical potential failed.')
-        if verbose: print('Using old chemical potential again.')
+        if verbose: print('Newton failed for the chemical potential. Using a bracketing root finder.')
+        mu = bracket_mu(args=(target_filling, iv, hk, siwk, beta, smom0, hloc), tol=tol)
     if np.abs(mu.imag) < 1e-8:
         mu = mu.real
     else:
-- 
2.43.0


From a69eb7d4858ae29f2a1b7fe601f943bd4703c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 10/58] fix: get_asympt_sum_q provides the frequencies of any
 list of bosonic indices

---
 src/dga/bubble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 97482d6..05a78d6 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -266,7 +266,7 @@ class BubbleGenerator():
         if freq_notation is None:
             freq_notation = self.freq_notation
         chi0_asympt_sum = np.zeros((len(q_list), self.niw), dtype=complex)
-        v = 1 / (1j * mf.vn(self.beta, niv_sum + self.niw))
+        v = 1 / (1j * mf.vn(self.beta, niv_sum + np.max(np.abs(self.wn))))
         niv = v.size // 2
         fac1, fac2, fac3 = self.get_asympt_prefactors_q(q_list)
         for i, iwn in enumerate(self.wn):
-- 
2.43.0


From e6b921b2f4b27f25efb78b978646441994355852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 11/58] fix: the bubble in centered notation is not mirrored
 from positive frequencies

---
 src/dga/bubble.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 05a78d6..80964ac 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -14,6 +14,11 @@ from dga import two_point as twop
 KNOWN_CHI0_METHODS = ['sum']
 
 
+def use_wn_symmetry(is_full_wn, freq_notation):
+    ''' chi_0[-w,-v] = conj(chi_0[w,v]) does not hold in the centered notation, where odd w shift both legs differently. '''
+    return is_full_wn and freq_notation != 'center'
+
+
 def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
     '''
         gchi_0[w,v]:1/eV^3 = - beta:1/eV G(v):1/eV * G(v-w):1/eV for minus
@@ -24,7 +29,7 @@ def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
 
 
 def vec_get_gchi0(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
-    if is_full_wn:
+    if use_wn_symmetry(is_full_wn, freq_notation):
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         gchi0 = np.array([get_gchi0(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
         return mf.bosonic_full_nu_range(gchi0, axis=0, freq_axes=(0, 1))
@@ -45,6 +50,7 @@ def get_gchi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_gchi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(is_full_wn, freq_notation)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     gchi0_q = np.zeros((len(q_list), len(wn_bub), niv * 2), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -65,6 +71,7 @@ def get_chi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_chi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(is_full_wn, freq_notation)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     chi0_q = np.zeros((len(q_list), len(wn_bub)), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -80,7 +87,7 @@ def get_chi0_sum(giw, beta, niv, iwn=0, freq_notation='minus'):
 
 
 def vec_get_chi0_sum(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
-    if is_full_wn:
+    if use_wn_symmetry(is_full_wn, freq_notation):
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         chi0 = np.array([get_chi0_sum(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
         return mf.bosonic_full_nu_range(chi0)
-- 
2.43.0


From bdc4564510210d320a34a16212a48bee46db0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 12/58] fix: get_vrg_and_chir_tilde_from_chir_uasympt sums over
 the fermionic axis

---
 src/dga/local_four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index 8e47124..c7077ea 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -451,7 +451,7 @@ def get_vrg_and_chir_tilde_from_chir_uasympt(chir: LocalFourPoint, gchi0_gen: bu
     chi_asympt = chi_phys_asympt(chi_urange, chi0_urange, chi0_asympt)
 
     # Compute the fermion-boson vertex:
-    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt, u)
+    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt)
 
     return vrg, chi_asympt
 
-- 
2.43.0


From 5a71f455c3fa1a4c05499b77efdcb6813e1ffe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 13/58] fix: get_vrg_and_chir_lad_from_gammar_uasympt_q hands
 the vertex object to get_kernel_dc

---
 src/dga/four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 5704a1a..34d56fa 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -251,7 +251,7 @@ def get_vrg_and_chir_lad_from_gammar_uasympt_q(gamma_dens: lfp.LocalFourPoint, g
         if logger.is_root:
             f_dc.plot(pdir=logger.out_dir + '/', name='F_dc')
 
-    kernel_dc = mf.cut_v(get_kernel_dc(f_dc.mat, gchi0_q_urange), niv_core, axes=(-1,))
+    kernel_dc = mf.cut_v(get_kernel_dc(f_dc, gchi0_q_urange), niv_core, axes=(-1,))
     if logger is not None: logger.log_cpu_time(task=' DC kernel constructed. ')
 
     # Density channel:
-- 
2.43.0


From bebdde5a052fbe9be762066d37aaca321a8be974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 14/58] fix: load_vertex_from_rank_files reads negative bosonic
 frequencies

---
 src/dga/four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 34d56fa..35c1527 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -327,7 +327,7 @@ def load_vertex_from_rank_files(output_path, name, mpi_size, nq, niw, niv):
             for key1 in keys:
                 # extract the q indizes from the group name!
                 irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From d3caa2dbdd1b8b11799123bbef42d428711e4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 15/58] fix: load_optics_vertex_from_rank_files reads negative
 bosonic frequencies

---
 src/dga/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index 425876f..33717b8 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -254,7 +254,7 @@ def load_optics_vertex_from_rank_files(output_path, name, mpi_size, nq, optics_c
             for key1 in keys:
                 # extract the q indizes from the group name!
                 irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw_vert
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw_vert
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From 43a2623430979e322a0c238817d864cdd53c2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 16/58] fix: further gap functions are orthogonalised in the
 metric of the Eliashberg equation, hence eigenfunctions

---
 src/dga/eliashberg_equation.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index 5375fc4..dfd9ba4 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -70,6 +70,7 @@ class EliashberPowerIteration():
             # gep_new = remove_prev_eigenvals(v=gap_new, basis=self.gap, lams=self.lam)
             if self.lam_s is not None:
                 gap_new = gap_new - gap_old * self.lam_s
+            gap_new = gram_schmidt_eliash(v=gap_new, basis=self.gap, gk=self.gk)
             lambda_new = np.sum(np.conj(gap_old) * gap_new) / np.sum(np.conj(gap_old) * gap_old)
             gap_old = gap_new / lambda_new
 
@@ -109,14 +110,10 @@ def proj(v=None, u=None):
     return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
 
 
-# pylint: disable=unused-argument
 def proj_eliash(v=None, u=None, gk=None):
-    '''Projection of v onto u.'''
-    # return np.sum(u*np.abs(gk)**2*v)/np.sum(u*np.abs(gk)**2*u) * u
-    return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
-
+    '''Projection of v onto u. Gap functions are orthogonal with respect to the weight |gk|^2.'''
+    return np.sum(np.conj(u) * np.abs(gk) ** 2 * v) / np.sum(np.conj(u) * np.abs(gk) ** 2 * u) * u
 
-# pylint: enable=unused-argument
 
 def get_gap_start(shape=None, k_type=None, v_type=None, k_grid=None):
     gap0 = np.zeros(shape, dtype=complex)
-- 
2.43.0


From 91d53420bf40f2116c2570c25ce1d072bb302192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 17/58] fix: adjust_mu_real_f brackets the chemical potential
 when the minimisation gets stuck

---
 src/dga/two_point.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 4165454..fd91a61 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -552,7 +552,20 @@ def opt_func(mu, n, swk, w, ek, verbose=False):
 
 def adjust_mu_real_f(mu0, n_target, swk, w, ek, verbose=False):
     fit = opt.minimize(opt_func, x0=mu0, args=(n_target, swk, w, ek, verbose))
-    return fit.x
+    if fit.fun < 1e-8:
+        return fit.x
+
+    # The minimization got stuck (e.g. in a gap): bracket the chemical potential that is closest to mu0 and reaches n_target
+    def root_fun(mu):
+        return get_filling_real_f(w, get_gwk(w, swk, ek, mu)) - n_target
+
+    mus = mu0 + np.linspace(np.min(w), np.max(w), 201)
+    sign = np.sign([root_fun(mu) for mu in mus])
+    ind = np.nonzero(sign[1:] != sign[:-1])[0]
+    if np.size(ind) == 0:
+        return fit.x
+    ind = ind[np.argmin(np.abs(mus[ind] - mu0))]
+    return np.array([opt.brentq(root_fun, mus[ind], mus[ind + 1])])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From fc0d4d7d01697b262d2ead9505889f30b9e7ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 18/58] fix: bosonic MaxEnt default model is normalised to the
 w=0 value of the data

---
 src/dga/analytic_continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 676f088..8d4602a 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -309,7 +309,7 @@ class MaxEnt():
             model /= np.trapz(model, self.w)
         elif self.kernel_mode == 'freq_bosonic':
             model = np.ones_like(self.w)
-            model *= mat[0].real / np.trapz(model, self.w)
+            model *= mat[np.size(mat) // 2].real / np.trapz(model, self.w)
         else:
             raise ValueError(f'Unknown kernel mode: {self.kernel_mode}.')
 
-- 
2.43.0


From 9028011251f7764ab4357fc7b3e5081c8c0b86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 19/58] fix: MaxEnt does not lower its number of fit
 frequencies for later data

---
 src/dga/analytic_continuation.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 8d4602a..bd9077a 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -282,24 +282,23 @@ class MaxEnt():
         ''' Set the real-frequency mesh. '''
         self.w = get_w_mesh(self.mesh_type, self.wmin, self.wmax, self.nwr, self.cut)
 
-    def get_im_freq(self):
+    def get_im_freq(self, n_fit=None):
+        if n_fit is None: n_fit = self.n_fit
         if self.kernel_mode == 'freq_fermionic':
-            return mf.vn(self.beta, self.n_fit, pos=True)
+            return mf.vn(self.beta, n_fit, pos=True)
         elif self.kernel_mode == 'freq_bosonic':
-            return mf.wn(self.beta, self.n_fit, pos=True)
+            return mf.wn(self.beta, n_fit, pos=True)
         else:
             raise ValueError(f'Unknown kernel mode: {self.kernel_mode}.')
 
     def cut_matrix(self, mat):
         niv_mat = np.size(mat) // 2
-
-        if self.n_fit > niv_mat:
-            self.n_fit = niv_mat
+        n_fit = min(self.n_fit, niv_mat)  # keep self.n_fit: the object may be used for other data as well
 
         if self.kernel_mode == 'freq_fermionic':
-            return mat[niv_mat:niv_mat + self.n_fit]
+            return mat[niv_mat:niv_mat + n_fit]
         elif self.kernel_mode == 'freq_bosonic':
-            return mat[niv_mat:niv_mat + self.n_fit + 1]
+            return mat[niv_mat:niv_mat + n_fit + 1]
         else:
             raise ValueError(f'Unknown kernel mode: {self.kernel_mode}.')
 
@@ -317,7 +316,7 @@ class MaxEnt():
 
     def cont_single_ind(self, mat):
         mat_plus = self.cut_matrix(mat)
-        im_axis = self.get_im_freq()
+        im_axis = self.get_im_freq(min(self.n_fit, np.size(mat) // 2))
         model = self.get_model(mat)
         error_s = np.ones_like(im_axis,dtype=float) * self.err
 
-- 
2.43.0


From 371510e50067b88102112c5d7ab57a33716b2308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 20/58] fix: MaxEntConfig builds its mesh from the configured
 range, size and type

---
 src/dga/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 5179e25..86a7471 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -332,6 +332,7 @@ class MaxEntConfig(OutputConfig):
         self.t = t  # Unit of energy. Everything is scaled by this. We use t for this here.
         self.nwr = 501  # Number of frequencies on the real axis
         self.wmax = 15  # frequency range on the real axis
+        self.wmin = None  # lower end of the frequency range; None means -wmax
         self.use_preblur = True  # whether o not to use the pre-blur feature
         self.err = 1e-3  # Error for the analytical continuation
         self.beta = beta  # Inverse Temperature
@@ -345,6 +346,7 @@ class MaxEntConfig(OutputConfig):
         # Flags what continuation to perform:
         self.bw_range_loc = np.array([0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1])
         self.update_dict(**config_dict)
+        self.mesh_type = config_dict.get('mesh_type', self.mesh_type)  # rebuild the mesh with the updated settings
 
     @property
     def mesh_type(self):
@@ -357,7 +359,8 @@ class MaxEntConfig(OutputConfig):
 
     def get_omega_mesh(self):
         import dga.analytic_continuation as a_cont
-        return a_cont.get_w_mesh(self.mesh_type, -self.wmax, self.wmax, self.nwr, self.cut)
+        wmin = -self.wmax if self.wmin is None else self.wmin
+        return a_cont.get_w_mesh(self.mesh_type, wmin, self.wmax, self.nwr, self.cut)
 
     def get_n_fit_opt(self, n_fit_min=None, n_fit_max=None):
         ''' Returns an estimate for the optimal value for n_fit  '''
-- 
2.43.0


From 692e0bdc6e72a5bd7c3ed87829ddc9b2e11f1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 21/58] fix: pade_aux does not use the removed numpy aliases
 np.complex and np.bool

---
 src/dga/pade_aux.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 94e419c..79a038c 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -161,7 +161,7 @@ class PadeSolver():
 
 def compute_coefficients(zi,ui):
   n=len(zi)
-  g=np.zeros((n,n),dtype=np.complex)
+  g=np.zeros((n,n),dtype=complex)
   g[:,0]=ui
   for i in range(n):
     for j in range(1,i+1):
@@ -265,7 +265,7 @@ def padeMatrix(z, f, N, verbose=False):
     M = len(z)
     r = N // 2
     y = f * z ** r
-    A = np.ones((M, N), dtype=np.complex)
+    A = np.ones((M, N), dtype=complex)
     for i in range(M):
         A[i, :r] = z[i] ** (np.arange(r))
         A[i, r:] = -f[i] * z[i] ** (np.arange(r))
@@ -554,7 +554,7 @@ def pade(zin, fin, zout):
                 d[i] = np.sum(delta[:i, i]) + np.sum(delta[i, i + 1:])
             # calculate if to include or reject continuations based on two criteria:
             c1 = d <= c1v * np.mean(d)
-            c2 = np.zeros(len(d), dtype=np.bool)
+            c2 = np.zeros(len(d), dtype=bool)
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
-- 
2.43.0


From b8ebd01e27d09c53ca67e55f31ac734799c89974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 22/58] fix: BoxSizes infers niv_asympt only once the core
 ranges are known

---
 src/dga/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 86a7471..e195b87 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -168,7 +168,8 @@ class BoxSizes(ConfigBase):
         if (config_dict is not None):
             self.update_dict(**config_dict)  # forwards parameters from config
 
-        if (self.niv_asympt == -1):
+        # infer the asymptotic range; wait for set_from_lfp if the core ranges are not set
+        if (self.niv_asympt == -1 and self.niv_core != -1 and self.niw_core != -1):
             self.niv_asympt = self.niv_full + self.niw_core * 2
 
     @property
-- 
2.43.0


From 6d0a99be8bfcfc9b0895170d84b3d843402375d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 23/58] fix: load_data keeps the shape of arrays with a single
 entry

---
 src/dga/config.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index e195b87..74e8925 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -137,10 +137,8 @@ class OutputConfig(ConfigBase):
         np.save(self.output_path + '/' + name + '.npy', mat, allow_pickle=True)
 
     def load_data(self, name):
-        try:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True).item()
-        except:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
+        data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
+        if data.ndim == 0: data = data.item()  # scalars and pickled objects, e.g. dictionaries
         return data
 
     def clean_data(self, name):
-- 
2.43.0


From deef00189df157cce7c11f6cb5ac6ce75813bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 24/58] fix: a list of symmetries is accepted in the lattice
 config, unknown ones are rejected

---
 src/dga/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 74e8925..6d34f26 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -252,10 +252,10 @@ class LatticeConfig(ConfigBase):
             pass
         elif (self.symmetries == 'none'):
             self.symmetries = ()
-        elif (isinstance(self.symmetries, tuple)):
+        elif (isinstance(self.symmetries, (tuple, list))):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
-                    NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
+                    raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
-- 
2.43.0


From 0b2c19451f7718aee52c00762ec7adbdb54bafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 25/58] fix: the default config dict names the box section as
 it is read

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 6d34f26..d1bee31 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -686,7 +686,7 @@ class DgaConfig(OutputConfig):
 
 def get_default_config_dict():
     conf_dict = {
-        'box': {
+        'box_sizes': {
             'niv_core': -1,
             'niw_core': -1,
             'niv_shell': 0,
-- 
2.43.0


From f96dcbc7b881283aa956581488cbaa8a4a972543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 26/58] fix: BoxSizes.vn_full passes the range by position, as
 the dispatched vn requires

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index d1bee31..ab8e22a 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -176,7 +176,7 @@ class BoxSizes(ConfigBase):
 
     @property
     def vn_full(self):
-        return mf.vn(n=self.niv_full)
+        return mf.vn(self.niv_full)
 
     @property
     def niv_pp(self):
-- 
2.43.0


From e243d6a0b7db43f32c22850d90fec21bc84f1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 27/58] fix: default plots use bosonic frequencies that are in
 the box

---
 src/dga/plotting.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 676257d..ca9f108 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -59,8 +59,9 @@ def default_g2_plots(g2_dens, g2_magn, output_dir):
     ''' Default plots for the two-particle Green's function'''
     g2_dens.plot(0, pdir=output_dir, name='G2_dens')
     g2_magn.plot(0, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(10, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(-10, pdir=output_dir, name='G2_magn')
+    iwn = min(10, np.max(g2_magn.wn))
+    g2_magn.plot(iwn, pdir=output_dir, name='G2_magn')
+    g2_magn.plot(-iwn, pdir=output_dir, name='G2_magn')
 
 
 def default_gchi_plots(gchi_dens, gchi_magn, output_dir):
@@ -74,9 +75,10 @@ def default_gamma_plots(gamma_dens, gamma_magn, output_dir, box_sizes, beta):
     niv_core = box_sizes.niv_core
     gamma_dens.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
     gamma_magn.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(-10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
+    iwn = min(10, box_sizes.niw_core)
+    gamma_magn.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    gamma_magn.plot(-iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    gamma_dens.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
 
 
 def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow', verbose=False, pdir='./', do_save=True
-- 
2.43.0


From 95a65eec3df1739d51afe479b59f8c72952bb43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 28/58] fix: zero contours and colour maps do not use removed
 matplotlib attributes

---
 src/dga/brillouin_zone.py |  5 ++---
 src/dga/plotting.py       | 16 ++++++++--------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 9ee1ef0..ceedc6b 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -56,12 +56,11 @@ def find_zeros(mat):
     ind_y = np.arange(mat.shape[1])
 
     cs1 = plt.contour(ind_x, ind_y, mat.T.real, cmap='RdBu', levels=[0, ])
-    paths = cs1.collections[0].get_paths()
+    paths = cs1.allsegs[0]
     plt.close()
-    paths = np.atleast_1d(paths)
     vertices = []
     for path in paths:
-        vertices.extend(path.vertices)
+        vertices.extend(path)
     vertices = np.array(vertices, dtype=int)
     return vertices
 
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index ca9f108..ca82ec2 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -43,15 +43,15 @@ def get_zero_contour(data):
     indy = np.arange(0, np.shape(data)[0])
     fig1 = plt.figure()
     cs1 = plt.contour(indx, indy, data, cmap='RdBu', levels=[0, ])
-    path = cs1.collections[0].get_paths()
+    path = cs1.allsegs[0]
     plt.close(fig1)
     for i in range(len(path)):
         if (i == 0):
-            indices_x = np.array(np.round(path[i].vertices[:, 0], 0).astype(int))
-            indices_y = np.array(np.round(path[i].vertices[:, 1], 0).astype(int))
+            indices_x = np.array(np.round(path[i][:, 0], 0).astype(int))
+            indices_y = np.array(np.round(path[i][:, 1], 0).astype(int))
         else:
-            indices_x = np.concatenate((indices_x, np.array(np.round(path[i].vertices[:, 0], 0).astype(int))), axis=0)
-            indices_y = np.concatenate((indices_y, np.array(np.round(path[i].vertices[:, 1], 0).astype(int))), axis=0)
+            indices_x = np.concatenate((indices_x, np.array(np.round(path[i][:, 0], 0).astype(int))), axis=0)
+            indices_y = np.concatenate((indices_y, np.array(np.round(path[i][:, 1], 0).astype(int))), axis=0)
     return indices_x, indices_y
 
 
@@ -93,7 +93,7 @@ def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow'
     ind_v = np.logical_and(vn >= niv_plot_min, vn <= niv_plot)
 
     n_plots = len(indizes[::step_size])
-    line_colors = plt.cm.get_cmap(cmap)(np.linspace(0, 1, n_plots))
+    line_colors = plt.get_cmap(cmap)(np.linspace(0, 1, n_plots))
     lines = []
 
     fig, axes = plt.subplots(nrows=1, ncols=2, figsize=figsize)
@@ -141,7 +141,7 @@ def plot_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap='RdBu', figsi
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/' + name + '.png')
@@ -577,7 +577,7 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/GapFunction_' + name + '.png')
-- 
2.43.0


From 7ac20c093b6d31674152dab449cd686940e2482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 29/58] fix: find_zeros of a matrix without extent finds
 nothing

---
 src/dga/brillouin_zone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index ceedc6b..a872dd5 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -52,6 +52,8 @@ def find_zeros(mat):
     ''' Finds the zero crossings of a 2D matrix.
         Not sure if this should be transfered to the Plotting module.
     '''
+    if min(mat.shape) < 2: return np.zeros((0, 2), dtype=int)  # there are no contours
+
     ind_x = np.arange(mat.shape[0])
     ind_y = np.arange(mat.shape[1])
 
-- 
2.43.0


From a98ddff1ec3675e0e14767bdc8d6597c5a70ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 30/58] fix: the potential energy of DMFT is computed with the
 DMFT Green's function

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 81b5971..b373e96 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -274,7 +274,7 @@ def main():
         e_kin_dga = giwk_dga.e_kin
         e_kin_dmft = giwk_dmft.e_kin
         e_pot_dga = giwk_dga.e_pot
-        e_pot_dmft = giwk_dga.e_pot
+        e_pot_dmft = giwk_dmft.e_pot
         np.savetxt(d_cfg.output_path + '/energies.txt', [[e_kin_dga, e_kin_dmft, e_pot_dga, e_pot_dmft]],
                    header='kin-dga kin-dmft pot-dga pot-dmft', fmt='%.6f')
 
-- 
2.43.0


From 6666da17670f3d5d0d31881af5140d499d4ee526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 31/58] fix: save_vrg saves the vertices of all processes

---
 src/dga/dga_main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index b373e96..4150789 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -136,10 +136,6 @@ def main():
     d_cfg.logger.log_memory_usage('chi_lad', chi_lad_dens, n_exists=2)
     d_cfg.logger.log_memory_usage('vrg_q', vrg_q_dens, n_exists=2)
 
-    if (d_cfg.save_vrg and comm.rank == 0):
-        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
-        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
-
     del gamma_magn, gamma_dens, vrg_magn, vrg_dens
     gc.collect()
     d_cfg.logger.log_cpu_time(task=' Vrg and Chi-ladder completed. ')
@@ -204,6 +200,10 @@ def main():
     vrg_q_dens = mpi_distributor.gather(rank_result=vrg_q_dens)
     vrg_q_magn = mpi_distributor.gather(rank_result=vrg_q_magn)
 
+    if (d_cfg.save_vrg and comm.rank == 0):
+        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
+        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
+
     d_cfg.logger.log_memory_usage('vrg-q', vrg_q_dens, n_exists=2)
 
     if (comm.rank == 0):
-- 
2.43.0


From ec0bd167a1bcffeb2cbf4110af6f01a11ab1dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 32/58] fix: symmetrising one-particle data uses the group giw
 of w2dynamics

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 00ea7ed..e33226d 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -273,15 +273,15 @@ def main(conf):
     copyfile(conf['infile'],conf['outfile'])
     f2=h5py.File(conf['outfile'],'r+')
     for ineq in range(conf['nineq']):
-      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      del f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
+      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      del f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       f2['dmft-last/ineq-{:03}/siw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       del f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       for band in range(conf['Nbands'][ineq]):
         for symband in conf['sym'][ineq][band]:
-          f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)][band,:,:] += \
+          f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
           f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
-- 
2.43.0


From e91ef15d7217dabe030d68b6eb5aa812dcc2a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 33/58] fix: the frequency box of worm data is read from the
 requested worm group

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index e33226d..62cabff 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -120,20 +120,20 @@ def check_sym(**kwargs):
           print('orbital symmetry not consistent!')
           sys.exit()
 
-def get_fbox(infile=None,target=None,**kwargs):
+def get_fbox(infile=None,target=None,worm_group='worm-last',**kwargs):
   conf = kwargs['conf']
   f=h5py.File(infile,'r')
   if target=='1freq_b':
-    n2iwb=f['worm-last/ineq-001/p2iw-worm/00001/value'].shape[0]
+    n2iwb=f['{}/ineq-001/p2iw-worm/00001/value'.format(worm_group)].shape[0]
     print(n2iwb)
     conf['n2iwb']=n2iwb//2
   elif target=='2freq':
-    n3iwf,n3iwb = f['worm-last/ineq-001/p3iw-worm/00001/value'].shape
+    n3iwf,n3iwb = f['{}/ineq-001/p3iw-worm/00001/value'.format(worm_group)].shape
     conf['n3iwf'],conf['n3iwb'] = n3iwf//2,n3iwb//2
     n3iwf,n3iwb=conf['n3iwf'],conf['n3iwb']
   elif target=='3freq':
     # new worm format -- f f b
-    _,n4iwf,n4iwb = f['worm-last/ineq-001/g4iw-worm/00001/value'].shape # always here
+    _,n4iwf,n4iwb = f['{}/ineq-001/g4iw-worm/00001/value'.format(worm_group)].shape # always here
     conf['n4iwf']=n4iwf//2
     conf['n4iwb']=n4iwb//2
     n4iwf,n4iwb=conf['n4iwf'],conf['n4iwb']
-- 
2.43.0


From 8d27c710e6feb5316c7571b5794e4048149e5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 34/58] fix: optics runs without the bubble contribution do not
 fail

---
 src/dga/dga_main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 4150789..2c90527 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -353,9 +353,10 @@ def main():
             d_cfg.optics.save_data(chijj_vert, 'chijj_vert')
         d_cfg.logger.log_event('Optics vertex completed!')
 
-    if comm.rank == 0 and 'optics' in conf_file:
+    if comm.rank == 0 and (d_cfg.optics.do_bubble or d_cfg.optics.do_vertex):
         # Plot the optical conductivity on matsubara frequencies:
         if chijj_vert is None: chijj_vert = np.zeros_like(chijj_bubble)
+        if chijj_bubble is None: chijj_bubble = np.zeros_like(chijj_vert)
 
         optics.plot_opt_cond_matsubara(chijj_bubble, chijj_vert, do_save=True, pdir=d_cfg.optics.output_path)
 
@@ -368,7 +369,7 @@ def main():
                     conf_dict['n_fit'] = d_cfg.optics.niw_cond
             max_ent = a_cont.MaxEnt(d_cfg.sys.beta, 'freq_bosonic', me_config=conf_dict)
 
-            sigma_bubble_cont = max_ent.cont_single_ind(chijj_bubble)
+            sigma_bubble_cont = max_ent.cont_single_ind(chijj_bubble) if d_cfg.optics.do_bubble else np.zeros_like(max_ent.w)
             chijj_full = mf.add_bosonic(chijj_bubble, chijj_vert)
             sigma_full_cont = max_ent.cont_single_ind(chijj_full)
             # Plot the optical conductivity on real frequencies:
-- 
2.43.0


From a1511f4633a84ce1787f7083baaa2419a39465c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 35/58] fix: the optics vertex is cleaned also without analytic
 continuation

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 2c90527..d9d4f39 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -380,7 +380,7 @@ def main():
             d_cfg.optics.save_data(max_ent.w, 'w')
             d_cfg.logger.log_event('MaxEnt for optical conductivity finished.')
 
-            if not d_cfg.keep_fq_optics: d_cfg.optics.clean_data('F_cond')
+        if not d_cfg.keep_fq_optics: d_cfg.optics.clean_data('F_cond')
 
     # ------------------------------------------------- MAXENT ------------------------------------------------------------
     if ('max_ent' in conf_file):
-- 
2.43.0


From be5298bae197013f523ce6a641264c71399a0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 36/58] fix: momenta of a coarser q-grid are located on the
 k-grid

---
 src/dga/config.py   | 6 ++++++
 src/dga/dga_main.py | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index ab8e22a..91ba865 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -267,6 +267,12 @@ class LatticeConfig(ConfigBase):
     def nq_tot(self):
         return np.prod(self.nq)
 
+    def get_q_list_on_k_grid(self, q_list):
+        ''' Return the indizes of the q-points (given as indizes of the q_grid) on the k_grid '''
+        if (np.any(np.mod(self.nk, self.nq))):
+            raise ValueError(f'nk {self.nk} must be a multiple of nq {self.nq}.')
+        return q_list * (np.array(self.nk) // np.array(self.nq))
+
     def set_hr(self):
         ''' Set the tight-binding hamiltonian.'''
         self.hr: wannier.WannierHr  # type declaration for nice autocompletes
diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index d9d4f39..e259c82 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -112,7 +112,8 @@ def main():
                                              output_path=d_cfg.output_path,
                                              name='Q')
     comm.Barrier()
-    my_q_list = d_cfg.lattice.q_grid.get_irrq_list()[mpi_distributor.my_slice]
+    irrq_list = d_cfg.lattice.get_q_list_on_k_grid(d_cfg.lattice.q_grid.get_irrq_list())
+    my_q_list = irrq_list[mpi_distributor.my_slice]
 
     # Build the different non-local Bubbles:
     gchi0_q_urange = bubble_gen.get_gchi0_q_list(d_cfg.box.niv_full, my_q_list)
@@ -163,7 +164,7 @@ def main():
         d_cfg.save_data(chi_lad_dens, 'chi_dens_lam')
         d_cfg.save_data(chi_lad_magn, 'chi_magn_lam')
         np.savetxt(d_cfg.output_path + '/lambda.txt', [[lambda_dens, lambda_magn]], header='dens magn', fmt='%.6f')
-        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, d_cfg.lattice.q_grid.get_irrq_list())
+        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, irrq_list)
         chi0q_asympt_correction = d_cfg.lattice.q_grid.map_irrk2fbz(chi0q_asympt_correction)
         chi_dens_uniform_static = chi_lad_dens[0, 0, 0, d_cfg.box.niw_core].real
         chi_dens_uniform_static += chi0q_asympt_correction[0, 0, 0, d_cfg.box.niw_core].real
@@ -211,7 +212,7 @@ def main():
         vrg_q_magn = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_magn, shape='list')
 
     # Distribute the full fbz q-points to the different cores:
-    full_q_list = d_cfg.lattice.q_grid.get_q_list()
+    full_q_list = d_cfg.lattice.get_q_list_on_k_grid(d_cfg.lattice.q_grid.get_q_list())
 
     # Create new mpi-distributor for the full fbz:
     mpi_dist_fbz = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_tot, comm=comm,
-- 
2.43.0


From e0d04acb10d7e94e4d62a9e9e4109310d4c5c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 37/58] fix: the optics vertex is normalised and plotted on the
 q-grid

---
 src/dga/dga_main.py   |  3 ++-
 src/dga/four_point.py |  8 ++++----
 src/dga/optics.py     | 22 ++++++++++++----------
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index e259c82..1970388 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -347,7 +347,8 @@ def main():
         d_cfg.logger.log_cpu_time(task=' Vertex distributed among ranks.')
         chijj_vert = optics.vec_get_chijj_vert(f_cond, giwk_dga, d_cfg.lattice.hr, d_cfg.lattice.k_grid,
                                                wn_vert=d_cfg.optics.wn_vert(), wn_cond=d_cfg.optics.wn_cond(pos=True),
-                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b)
+                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b,
+                                               nq_tot=d_cfg.lattice.q_grid.nk_tot)
         chijj_vert = mpi_dist_fbz.allreduce(chijj_vert)  # collect results from ranks
         chijj_vert = mf.bosonic_full_nu_range(chijj_vert)
         if comm.rank == 0:
diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 35c1527..a171766 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -358,12 +358,12 @@ def build_vertex_fq(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens):
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
     d_cfg.save_data(f_dens, 'F_dens')
     d_cfg.save_data(f_magn, 'F_magn')
     del f_dens, f_magn
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 33717b8..7ff1965 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -112,7 +112,7 @@ def vec_get_chijj_bubble(giwk_gen: twop.GreensFunction, hr: wannier.WannierHr, k
     return np.array([get_chijj_bubble(giwk, lv_a, lv_b, beta, iwn, niv_sum, freq_notation=freq_notation) for iwn in wn])
 
 
-def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
+def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nq_tot):
     '''
         Equation from Matthias Pickem's notes:
         sigma_vert(w)  = -2/beta^2 * sum_{q,k,wp,v} lv_a(k-q) lv_b(k) G(v-w,k) G(v,k) G(v-wp,k-q) G(v-wp-w,k-q)
@@ -137,13 +137,14 @@ def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
         sigma_vert += np.sum(np.mean(lv2_gg * gg_fcond, axis=(0, 1, 2)), axis=-1)
 
     # replace q_list with nq; The additional minus sign stems from the different sign conventions in the vertex
-    return -2 / (beta ** 2 * nk_tot) * sigma_vert  # one n_k is contained in the mean
+    return -2 / (beta ** 2 * nq_tot) * sigma_vert  # one n_k is contained in the mean
 
 
 def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.WannierHr, k_grid: bz.KGrid, wn_vert, wn_cond, q_list,
-                       der_a=0, der_b=0):
+                       der_a=0, der_b=0, nq_tot=None):
     '''
         f_cond -> [q,wp,w,v]
+        nq_tot: total number of q-points (of all processes); default is the number of k-points
     '''
     assert np.shape(wn_vert)[0] == np.shape(f_cond)[1], 'Number of internal bosonic frequencies in ' \
                                                         'f_cond must be equal to wn_vert'
@@ -154,7 +155,8 @@ def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.Wannie
     lv_a = hr.get_light_vertex(k_grid, der=der_a)
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     beta = giwk_gen.beta
-    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, k_grid.nk_tot)
+    if nq_tot is None: nq_tot = k_grid.nk_tot
+    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, nq_tot)
                            for i, iwn in enumerate(wn_cond)])
     return sigma_vert
 
@@ -182,20 +184,20 @@ def build_vertex_for_optical_conductivity(d_cfg: conf.DgaConfig, comm, chi_lad_m
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
 
     f_cond = -1 / 2 * f_dens - 3 / 2 * f_magn
     del f_dens, f_magn
     gc.collect()
 
     plotting.plot_kx_ky(f_cond[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
 
     d_cfg.optics.save_data(f_cond, 'F_cond')
     del f_cond
-- 
2.43.0


From cb585c2d7b90e9de910157798898ea12e9a33ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 38/58] fix: MaxEnt of a run uses the box sizes of the run if
 they are not set in the config

---
 src/dga/dga_max_ent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 1cf8262..2bdcd70 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -14,6 +14,7 @@ import matplotlib
 
 from dga import config
 from dga import loggers
+from dga import local_four_point as lfp
 from dga import dga_io
 from dga import two_point as twop
 from dga import analytic_continuation as a_cont
@@ -50,6 +51,8 @@ def main(path='./', comm=None):
     ek = d_cfg.lattice.hr.get_ek(d_cfg.lattice.k_grid)
     d_cfg.output_path = path
     d_cfg.set_system_parameter(dmft_input)
+    # Box sizes that are not set in the config are the ones of the two-particle Green's function:
+    d_cfg.box.set_from_lfp(lfp.get_g2_from_dmft_input(dmft_input, channel='dens'))
 
     # define k-path objects that might be used later:
     bz_kpath_string_list = ['Gamma-X-M2-Gamma','Gamma-Y-M2-Gamma','Gamma-X-M-Gamma','Gamma-Y-M-Gamma','Gamma-X-M-Y-Gamma']
-- 
2.43.0


From 65c04f769b412e6dc9cbf16e379b0e9001d2305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 39/58] fix: MaxEnt distributes k-dependent quantities over the
 points of the k-grid

---
 src/dga/dga_max_ent.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 2bdcd70..d330cd2 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -83,9 +83,11 @@ def main(path='./', comm=None):
 
         logger.log_cpu_time(task=' MaxEnt local ')
 
-    # Create a mpi distributor:
-    mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
+    # Create a mpi distributor for fermionic and for bosonic quantities:
+    mpi_dist_k = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.k_grid.nk_irr, comm=comm,
                                           name='MaxEntIrrk')
+    mpi_dist_q = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
+                                          name='MaxEntIrrq')
 
     # Continuation of the k-dependent self-energy:
     if 's_dga' in max_ent_config:
@@ -101,7 +103,7 @@ def main(path='./', comm=None):
             else:
                 sigma_mat = None
 
-            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist, 'siwk_dga', logger = logger)
+            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist_k, 'siwk_dga', logger = logger)
             if comm.rank == 0:
                 siw_cont = d_cfg.lattice.k_grid.map_irrk2fbz(siw_cont) + sigma_dga.smom0  # add Hartree
                 a_cont.save_and_plot_cont_fermionic(siw_cont, me_controller.w, d_cfg.lattice.k_grid, 'swk_dga', siw_cont_path)
@@ -141,7 +143,7 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'giwk_dga', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_k, 'giwk_dga', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.k_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_fermionic(cont, me_controller.w, d_cfg.lattice.k_grid, f'gwk_dga', cont_path)
@@ -162,7 +164,7 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'chi_dens', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_q, 'chi_dens', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_dens', cont_path)
@@ -185,7 +187,7 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'chi_magn', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_q, 'chi_magn', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_magn', cont_path)
@@ -194,7 +196,8 @@ def main(path='./', comm=None):
                                              pdir=cont_path, name=f'chi_dens_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-magn ')
 
-    mpi_dist.delete_file()
+    mpi_dist_k.delete_file()
+    mpi_dist_q.delete_file()
 
 
 
-- 
2.43.0


From 0668ab00a59d59060da81a4ce9db398d56e7fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 40/58] fix: MaxEnt plots susceptibilities along paths of the
 q-grid

---
 src/dga/dga_max_ent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index d330cd2..8cdc1e9 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -57,6 +57,7 @@ def main(path='./', comm=None):
     # define k-path objects that might be used later:
     bz_kpath_string_list = ['Gamma-X-M2-Gamma','Gamma-Y-M2-Gamma','Gamma-X-M-Gamma','Gamma-Y-M-Gamma','Gamma-X-M-Y-Gamma']
     k_path_list = [bz.KPath(d_cfg.lattice.k_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
+    q_path_list = [bz.KPath(d_cfg.lattice.q_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
 
     max_ent_config = conf_file['max_ent']
     me_conf = config.MaxEntConfig(1,dmft_input['beta'],max_ent_config)
@@ -168,7 +169,7 @@ def main(path='./', comm=None):
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_dens', cont_path)
-                for k_path in k_path_list:
+                for k_path in q_path_list:
                     hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
                                                        pdir=cont_path, name=f'chi_dens_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-dens ')
@@ -191,7 +192,7 @@ def main(path='./', comm=None):
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_magn', cont_path)
-                for k_path in k_path_list:
+                for k_path in q_path_list:
                     hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
                                              pdir=cont_path, name=f'chi_dens_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-magn ')
-- 
2.43.0


From 7f2f2075ea1358a70d154bbb5b1b194d6bc0d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 41/58] fix: polynomial fits on odd grids use the irreducible
 points of the unshifted data

---
 src/dga/dga_io.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..32f30cd 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -160,7 +160,8 @@ def dmft_poly_fit(giwk_obj: twop.GreensFunction, d_cfg: config.DgaConfig):
                    header='bandshift gamma Z', fmt='%.6f')
 
 
-def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', output_path='./'):
+def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', output_path='./', pi_shift=False):
+    ''' mat_data is expected on the unshifted grid; pi_shift: shift the results by (pi,pi) '''
     v = mf.vn(beta, mat_data.shape[-1] // 2, pos=True)
 
     re_fs, im_fs, z = a_cont.extract_coeff_on_ind(
@@ -169,6 +170,7 @@ def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', o
     re_fs = k_grid.map_irrk2fbz(mat=re_fs)
     im_fs = k_grid.map_irrk2fbz(mat=im_fs)
     z = k_grid.map_irrk2fbz(mat=z)
+    if pi_shift: re_fs, im_fs, z = [bz.shift_mat_by_pi(mat) for mat in (re_fs, im_fs, z)]
 
     extrap = {
         're_fs': re_fs,
@@ -252,14 +254,14 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
 def dga_poly_fit(d_cfg: config.DgaConfig, sigma_dga, giwk_dga):
     if d_cfg.do_poly_fitting and d_cfg.comm.rank == 0:
         # Extrapolate the self-energy to the Fermi-level via polynomial fit:
-        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True), d_cfg.sys.beta,
+        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full), d_cfg.sys.beta,
                  d_cfg.lattice.k_grid, d_cfg.n_fit,
-                 d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir)
+                 d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir, pi_shift=True)
 
-        poly_fit(giwk_dga.g_full(pi_shift=True), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
+        poly_fit(giwk_dga.g_full(), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit,
                  name='Giwk_dga_poly_cont_',
-                 output_path=d_cfg.poly_fit_dir)
+                 output_path=d_cfg.poly_fit_dir, pi_shift=True)
 
         d_cfg.logger.log_cpu_time(task=' Poly-fits ')
 
-- 
2.43.0


From 08e72416516c789333cc90fea82975de1990ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 42/58] fix: more processes than irreducible q-points are
 rejected

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 91ba865..465f200 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -569,7 +569,7 @@ class DgaConfig(OutputConfig):
             matplotlib.use('agg')  # non-gui backend. Particularly usefull for use on cluster.
 
         # Check that number of processes is not larger than number of points in the irreducible BZ:
-        if (comm is not None and comm.size > self.lattice.k_grid.nk_irr):
+        if (comm is not None and comm.size > min(self.lattice.k_grid.nk_irr, self.lattice.q_grid.nk_irr)):
             raise ValueError('Number of processes may not be larger than points in the irreducible BZ for distribution.')
 
     def build_box_sizes(self, conf_file):
-- 
2.43.0


From f8896d1db4a4a20a731e3d739108246e2d41cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 43/58] fix: zero crossings are assigned to the closest grid
 point

---
 src/dga/brillouin_zone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index a872dd5..e1f7f8a 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -49,7 +49,7 @@ def shift_mat_by_pi(mat, nk=None):
 
 
 def find_zeros(mat):
-    ''' Finds the zero crossings of a 2D matrix.
+    ''' Finds the grid points closest to the zero crossings of a 2D matrix.
         Not sure if this should be transfered to the Plotting module.
     '''
     if min(mat.shape) < 2: return np.zeros((0, 2), dtype=int)  # there are no contours
@@ -63,7 +63,7 @@ def find_zeros(mat):
     vertices = []
     for path in paths:
         vertices.extend(path)
-    vertices = np.array(vertices, dtype=int)
+    vertices = np.round(np.array(vertices).reshape(-1, 2)).astype(int)
     return vertices
 
 
-- 
2.43.0


From 3655a79c7411a481d7672018512e72c80e1d6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 44/58] fix: the real-frequency bubble is evaluated at shifted
 frequencies on every mesh

---
 src/dga/optics.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index 7ff1965..eb5a5c4 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -59,21 +59,19 @@ def vec_get_chijj_bubble_realf(gwk_obj: twop.RealFrequencyGF, hr: wannier.Wannie
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     w_0_ind = np.argmin(np.abs(gwk_obj.w))
     w_mbub_ind = np.argmin(np.abs(gwk_obj.w - w_max_bub))
-    w_int_ind = len(gwk_obj.w) - w_mbub_ind
-    nu = w_0_ind + w_int_ind
-    nl = w_0_ind - w_int_ind + len(gwk_obj.w) % 2
+    w_int_max = min(-gwk_obj.w[0], gwk_obj.w[-1]) - gwk_obj.w[w_mbub_ind]  # v+-w has to stay within the mesh
+    ind_int = np.abs(gwk_obj.w) <= w_int_max + 1e-10
     lv2 = lv_a * lv_b
-    awk = gwk_obj.awk()[..., nl:nu]
-    w_int = gwk_obj.w[nl:nu]
+    awk = gwk_obj.awk()[..., ind_int]
+    w_int = gwk_obj.w[ind_int]
     nf = fermi_function(w_int, beta)[None, None, None, :]
     w_bub = gwk_obj.w[w_0_ind + 1:w_mbub_ind]
+    gwk = interp1d(gwk_obj.w, gwk_obj.gwk(), axis=-1)  # the mesh is not equidistant in general
 
-    def get_chijj_bubble_realf_iw(i):
-        return -2 * np.mean(
-            lv2 * np.trapz(nf * awk * (gwk_obj.gwk()[..., nl + i:nu + i] + np.conj(gwk_obj.gwk())[..., nl - i:nu - i])
-                           , w_int, axis=-1))
+    def get_chijj_bubble_realf_iw(w):
+        return -2 * np.mean(lv2 * np.trapz(nf * awk * (gwk(w_int + w) + np.conj(gwk(w_int - w))), w_int, axis=-1))
 
-    chi_jj = np.array([get_chijj_bubble_realf_iw(i + 1) for i, _ in enumerate(w_bub)])
+    chi_jj = np.array([get_chijj_bubble_realf_iw(w) for w in w_bub])
     return chi_jj, w_bub
 
 
-- 
2.43.0


From 853e1f5f10ee5b6f56754c40622c3c622d96dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 45/58] fix: the local continuation fits at most the available
 frequencies

---
 src/dga/analytic_continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index bd9077a..18f02f0 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -405,6 +405,7 @@ def max_ent_loc(mat, me_conf: config.MaxEntConfig, bw):
 def max_ent(mat=None, v_real=None, beta=None, n_fit=60, alpha_det_method='historic', err=2e-6, use_preblur=False, bw=None,
             optimizer='newton', return_chi2=False):
     niv_mat = np.size(mat) // 2
+    n_fit = min(n_fit, niv_mat)
     mat_plus = mat[niv_mat:niv_mat + n_fit]
     iv_plus = 1j * mf.vn(beta, n_fit, pos=True)
     problem = cont.AnalyticContinuationProblem(im_axis=iv_plus.imag, re_axis=v_real, im_data=mat_plus,
-- 
2.43.0


From a4882e7e421be5825b02dcd98a864b50239e009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 46/58] fix: failed continuations do not change the data type
 of a process

---
 src/dga/analytic_continuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 18f02f0..c61e76f 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -344,8 +344,8 @@ class MaxEnt():
                 cont_list.append(self.cont_single_ind(mat))
             except:
                 print('Error in analytic continuation. Setting result to 0.')
-                cont_list.append(np.zeros_like(self.w))  # make sure the code does not hang up when ana_cont fails for one index
-        return np.array(cont_list)
+                cont_list.append(np.zeros_like(self.w, dtype=complex))  # make sure the code does not hang up when ana_cont fails for one index
+        return np.array(cont_list, dtype=complex)  # the same type on all processes, also if all their continuations failed
 
 
 def mpi_ana_cont(mat, me_controller: MaxEnt, mpi_dist: mpi_aux.MpiDistributor, name, logger=None):
-- 
2.43.0


From b6201cd798e79806f8924a2d55ec6f0008391aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 47/58] fix: gap-function figures name the frequency that each
 panel shows

---
 src/dga/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index ca82ec2..83458ce 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -563,8 +563,8 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
     axes = axes.flatten()
     im1 = axes[0].pcolormesh(kx, ky, mat[...,0].T.real, cmap=cmap)
     im2 = axes[1].pcolormesh(kx, ky, mat[...,1].T.real, cmap=cmap)
-    axes[0].set_title(r'$\nu_{n=0}$')
-    axes[1].set_title(r'$\nu_{n=-1}$')
+    axes[0].set_title(r'$\nu_{n=-1}$')
+    axes[1].set_title(r'$\nu_{n=0}$')
     for ax in axes:
         ax.set_xlabel(r'$k_x$')
         ax.set_ylabel(r'$k_y$')
-- 
2.43.0


From dcb09a3a3a12783a6392ea2d9243ae34bdb747e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 48/58] fix: shifted axes of odd grids are the momenta of the
 shifted data

---
 src/dga/brillouin_zone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index e1f7f8a..60b0ca9 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -36,7 +36,7 @@ def get_extent(kgrid=None):
 
 
 def get_extent_pi_shift(kgrid=None):
-    return [kgrid.kx[0] - np.pi, kgrid.kx[-1] - np.pi, kgrid.ky[0] - np.pi, kgrid.ky[-1] - np.pi]
+    return [kgrid.kx_shift[0], kgrid.kx_shift[-1], kgrid.ky_shift[0], kgrid.ky_shift[-1]]
 
 
 def shift_mat_by_pi(mat, nk=None):
@@ -174,15 +174,15 @@ class KGrid():
 
     @property
     def kx_shift(self):
-        return self.kx - np.pi
+        return self.kx - 2 * np.pi * (self.nk[0] // 2) / self.nk[0]
 
     @property
     def ky_shift(self):
-        return self.ky - np.pi
+        return self.ky - 2 * np.pi * (self.nk[1] // 2) / self.nk[1]
 
     @property
     def kz_shift(self):
-        return self.kz - np.pi
+        return self.kz - 2 * np.pi * (self.nk[2] // 2) / self.nk[2]
 
     @property
     def grid(self):
-- 
2.43.0


From 9a9d43e17014b56e6003d6ec03e6693c20568ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 49/58] fix: figures of the DGA polynomial fits are not shifted
 twice

---
 src/dga/dga_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 32f30cd..87d7824 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -170,6 +170,8 @@ def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', o
     re_fs = k_grid.map_irrk2fbz(mat=re_fs)
     im_fs = k_grid.map_irrk2fbz(mat=im_fs)
     z = k_grid.map_irrk2fbz(mat=z)
+    # the figure shifts the data itself:
+    plotting.plot_siwk_extrap(siwk_re_fs=re_fs, siwk_im_fs=im_fs, siwk_z=z, output_path=output_path, name=name, k_grid=k_grid)
     if pi_shift: re_fs, im_fs, z = [bz.shift_mat_by_pi(mat) for mat in (re_fs, im_fs, z)]
 
     extrap = {
@@ -178,7 +180,6 @@ def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', o
         'Z': z
     }
     np.save(output_path + f'{name}.npy', extrap, allow_pickle=True)
-    plotting.plot_siwk_extrap(siwk_re_fs=re_fs, siwk_im_fs=im_fs, siwk_z=z, output_path=output_path, name=name, k_grid=k_grid)
 
 
 def chiq_checks(d_cfg: config.DgaConfig, chi_dens, chi_magn, chi_lad_dens, chi_lad_magn, giwk_dmft, name='ladder'):
-- 
2.43.0


From 9e1fe2b6c44c863f6713ca1b38bb5118d3fe2c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 50/58] fix: quasi-particle panel shows the frequency of its
 title

---
 src/dga/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 83458ce..e23d2ca 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -442,7 +442,7 @@ def plot_cont_fs(output_path=None, name='', mat=None, v_real=None, k_grid=None,
 
     awk_fs = np.squeeze(bz.shift_mat_by_pi(mat=-1. / np.pi * mat_fs.imag, nk=k_grid.nk))
     gk_real = np.squeeze(bz.shift_mat_by_pi(mat=mat_fs.real, nk=k_grid.nk))
-    v0 = np.argmin(np.abs(v_real))
+    v0 = np.argmin(np.abs(v_real - w_plot))
     qdp = np.squeeze(bz.shift_mat_by_pi(mat=(1. / mat)[:, :, 0, v0].real, nk=k_grid.nk))
     im = ax[0].pcolormesh(k_grid.kx_shift,k_grid.ky_shift,awk_fs.T, cmap='RdBu_r')
     insert_colorbar(ax=ax[0], im=im)
@@ -478,7 +478,7 @@ def plot_cont_fs_no_shift(output_path=None, name='', mat=None, v_real=None, k_gr
 
     awk_fs = np.squeeze(-1. / np.pi * mat_fs.imag)
     gk_real = np.squeeze(mat_fs.real)
-    v0 = np.argmin(np.abs(v_real))
+    v0 = np.argmin(np.abs(v_real - w_plot))
     qdp = np.squeeze((1. / mat)[:, :, 0, v0].real)
     im = ax[0].imshow(awk_fs, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
     insert_colorbar(ax=ax[0], im=im)
-- 
2.43.0


From bcc27d22c1ca783182aaae19108dc8bd3c044ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 51/58] fix: maps over the unshifted zone have kx on the
 horizontal axis

---
 src/dga/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index e23d2ca..c58cad7 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -480,21 +480,21 @@ def plot_cont_fs_no_shift(output_path=None, name='', mat=None, v_real=None, k_gr
     gk_real = np.squeeze(mat_fs.real)
     v0 = np.argmin(np.abs(v_real - w_plot))
     qdp = np.squeeze((1. / mat)[:, :, 0, v0].real)
-    im = ax[0].imshow(awk_fs, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
+    im = ax[0].imshow(awk_fs.T, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
     insert_colorbar(ax=ax[0], im=im)
     ax[0].set_title('$-1/pi \Im (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=gk_real.min(), vmax=gk_real.max())
-    im = ax[1].imshow(gk_real, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[1].imshow(gk_real.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[1], im=im)
     ax[1].set_title('$\Re (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=qdp.min(), vmax=qdp.max())
-    im = ax[2].imshow(qdp, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[2].imshow(qdp.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[2], im=im)
     ax[2].set_title('QPD $(1/(\Re (k, \omega = {})$'.format(w_plot))
 
-    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
+    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
 
     plt.tight_layout()
     fig.suptitle(name)
-- 
2.43.0


From febfbfeb126cdcd14e27c0cbdcae35f0caabbc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 52/58] fix: diagonal cut of the Ornstein-Zernike figure is
 drawn at its momenta

---
 src/dga/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index c58cad7..e8a5274 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -523,11 +523,11 @@ def plot_oz_fit(chi_w0=None, oz_coeff=None, qgrid=None, pdir=None, name=''):
     ax[1].set_xlabel('$q_y$')
     ax[1].set_ylabel('$\chi$')
 
-    mask = qgrid.kmesh[0] == qgrid.kmesh[1]
-    x_axis = np.linspace(0,2*np.pi,len(chi_w0[mask]))
-    x_axis2 = np.linspace(0,2*np.pi,len(oz[mask]))
+    mask = np.isclose(qgrid.kmesh[0], qgrid.kmesh[1])
+    mask[:, :, 1:] = False
+    x_axis = qgrid.kmesh[0][mask]
     ax[2].plot(x_axis, chi_w0[mask].real, 'o', label='$\chi$')
-    ax[2].plot(x_axis2, oz[mask].real, '-', label='oz-fit')
+    ax[2].plot(x_axis, oz[mask].real, '-', label='oz-fit')
     ax[2].legend()
     ax[2].set_title('$q_y = q_x$')
     ax[2].set_xlabel('$q$')
-- 
2.43.0


From 4e3aaff4165d1e27351207021b9284a3ad93acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 53/58] fix: labels of a k-path stand at the corner points

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 60b0ca9..413ef51 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -415,7 +415,7 @@ class KPath():
 
     @property
     def cind(self):
-        return np.concatenate(([0], np.cumsum(self.nkp) - 1))
+        return np.minimum(np.concatenate(([0], np.cumsum(self.nkp))), self.nk_tot - 1)
 
     @property
     def ikx(self):
-- 
2.43.0


From 3d7021ec62b62b4273ac4833e3074b7881b22b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 54/58] fix: figures of three-leg vertices can be drawn

---
 src/dga/local_four_point.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index c7077ea..d386f65 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -63,13 +63,13 @@ def plot_fourpoint_nu_nup(mat, do_save=True, pdir='./', name='NoName', cmap='RdB
         plt.close()
 
 
-def plot_three_point_w_v(mat, do_save=True, pdir='./', name='NoName', cmap='RdBu', figsize=FIGSIZE, show=False):
+def plot_three_point_w_v(mat, wn=None, do_save=True, pdir='./', name='NoName', cmap='RdBu', figsize=FIGSIZE, show=False):
     fig, axes = plt.subplots(ncols=2, figsize=figsize, dpi=500)
     axes = axes.flatten()
     vn = mf.vn(mat, axis=-1)  # pylint: disable=unexpected-keyword-arg
-    wn = mf.wn(mat, axis=0)  # pylint: disable=unexpected-keyword-arg
-    im1 = axes[0].pcolormesh(wn, vn, mat.real, cmap=cmap)
-    im2 = axes[1].pcolormesh(wn, vn, mat.imag, cmap=cmap)
+    if wn is None: wn = mf.wn(mat, axis=0)  # pylint: disable=unexpected-keyword-arg
+    im1 = axes[0].pcolormesh(wn, vn, mat.T.real, cmap=cmap)
+    im2 = axes[1].pcolormesh(wn, vn, mat.T.imag, cmap=cmap)
     axes[0].set_title(r'$\Re$')
     axes[1].set_title(r'$\Im$')
     for ax in axes:
@@ -196,9 +196,8 @@ class LocalThreePoint(LocalNPoint):
 
     def plot(self, iwn=0, pdir='./', name='', do_save=True, niv=-1, verbose=False):
         assert iwn in self.wn, 'omega index not in dataset.'
-        iwn_lin = self.wn_lin[self.wn == iwn][0]
-        data = mf.cut_v(self.mat[iwn_lin], niv_cut=niv, axes=(-1,))
-        plot_three_point_w_v(data, do_save=do_save, pdir=pdir, name=name + f'_niv{niv}', show=verbose)
+        data = mf.cut_v(self.mat, niv_cut=niv, axes=(-1,))
+        plot_three_point_w_v(data, wn=self.wn, do_save=do_save, pdir=pdir, name=name + f'_niv{niv}', show=verbose)
 
 
 def get_g2_from_dmft_input(ddict, channel='dens'):
-- 
2.43.0


From eff388a42c9d9ffe224a7288a20919960776d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 55/58] fix: double-counting tail of the asymptotic ladder is
 u_r**2, not u_r/beta

---
 src/dga/four_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index a171766..eae0ae0 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -269,8 +269,8 @@ def get_vrg_and_chir_lad_from_gammar_uasympt_q(gamma_dens: lfp.LocalFourPoint, g
     chi_lad_magn = chi_phys_asympt_q(chi_lad_urange, chi0_q_urange, chi0_q_urange + chi0q_shell)
 
     u_r = lfp.get_ur(u, gamma_magn.channel)
-    # 1/beta**2 since we want F/beta**2
-    kernel_dc += u_r / gamma_magn.beta * (1 - u_r * chi_magn_loc[None, :, None]) * vrg_magn_loc.mat[None, :, :] * chi0q_shell_dc[
+    # tail of u_r * F * chi0_q: F = u_r * (1 - u_r * chi) * vrg beyond niv_full, chi0q_shell contains the 1/beta**2
+    kernel_dc += u_r ** 2 * (1 - u_r * chi_magn_loc[None, :, None]) * vrg_magn_loc.mat[None, :, :] * chi0q_shell_dc[
                                                                                                                   :, :, None]
     vrg_q_magn = vrg_from_gchi_aux_asympt(gchiq_aux, gchi0_q_core, chi_lad_urange, chi_lad_magn, u, gamma_magn.channel)
 
-- 
2.43.0


From 62a4697793cc996c75019ffabf6f014d24d7f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 56/58] fix: maps of continued functions for grids with a
 single point along an axis

---
 src/dga/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index e8a5274..597b1c0 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -440,10 +440,10 @@ def plot_cont_fs(output_path=None, name='', mat=None, v_real=None, k_grid=None,
         ind_int = np.logical_and(v_real < 0, w_int < v_real)
         mat_fs = np.trapz(mat[:, :, 0, ind_int], v_real[ind_int]) / np.abs(w_int)
 
-    awk_fs = np.squeeze(bz.shift_mat_by_pi(mat=-1. / np.pi * mat_fs.imag, nk=k_grid.nk))
-    gk_real = np.squeeze(bz.shift_mat_by_pi(mat=mat_fs.real, nk=k_grid.nk))
+    awk_fs = bz.shift_mat_by_pi(mat=-1. / np.pi * mat_fs.imag, nk=k_grid.nk)
+    gk_real = bz.shift_mat_by_pi(mat=mat_fs.real, nk=k_grid.nk)
     v0 = np.argmin(np.abs(v_real - w_plot))
-    qdp = np.squeeze(bz.shift_mat_by_pi(mat=(1. / mat)[:, :, 0, v0].real, nk=k_grid.nk))
+    qdp = bz.shift_mat_by_pi(mat=(1. / mat)[:, :, 0, v0].real, nk=k_grid.nk)
     im = ax[0].pcolormesh(k_grid.kx_shift,k_grid.ky_shift,awk_fs.T, cmap='RdBu_r')
     insert_colorbar(ax=ax[0], im=im)
     ax[0].set_title('$-1/pi \Im (k,\omega={})$'.format(w_plot))
@@ -476,10 +476,10 @@ def plot_cont_fs_no_shift(output_path=None, name='', mat=None, v_real=None, k_gr
         ind_int = np.logical_and(v_real < 0, w_int < v_real)
         mat_fs = np.trapz(mat[:, :, 0, ind_int], v_real[ind_int]) / np.abs(w_int)
 
-    awk_fs = np.squeeze(-1. / np.pi * mat_fs.imag)
-    gk_real = np.squeeze(mat_fs.real)
+    awk_fs = -1. / np.pi * mat_fs.imag
+    gk_real = mat_fs.real
     v0 = np.argmin(np.abs(v_real - w_plot))
-    qdp = np.squeeze((1. / mat)[:, :, 0, v0].real)
+    qdp = (1. / mat)[:, :, 0, v0].real
     im = ax[0].imshow(awk_fs.T, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
     insert_colorbar(ax=ax[0], im=im)
     ax[0].set_title('$-1/pi \Im (k,\omega={})$'.format(w_plot))
-- 
2.43.0


From 06eb6233607612cd93a22d849a2962d288d11fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 57/58] fix: figures of polynomial fits on three-dimensional
 and one-dimensional grids

---
 src/dga/dga_io.py   | 2 +-
 src/dga/plotting.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 87d7824..da70ed5 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -165,7 +165,7 @@ def poly_fit(mat_data, beta, k_grid: bz.KGrid, n_fit, order, name='poly_cont', o
     v = mf.vn(beta, mat_data.shape[-1] // 2, pos=True)
 
     re_fs, im_fs, z = a_cont.extract_coeff_on_ind(
-        siwk=np.squeeze(mat_data.reshape(-1, mat_data.shape[-1])[:, mat_data.shape[-1] // 2:]), indizes=k_grid.irrk_ind, v=v,
+        siwk=mat_data.reshape(-1, mat_data.shape[-1])[:, mat_data.shape[-1] // 2:], indizes=k_grid.irrk_ind, v=v,
         n_fit=n_fit, order=order)
     re_fs = k_grid.map_irrk2fbz(mat=re_fs)
     im_fs = k_grid.map_irrk2fbz(mat=im_fs)
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 597b1c0..40971dd 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -399,9 +399,8 @@ def plot_cont_edc_maps(v_real=None, gk_cont=None, k_grid=None, output_path=None,
 def plot_siwk_extrap(siwk_re_fs=None, siwk_im_fs=None, siwk_z=None, output_path='./', name='PolyFit', k_grid: bz.KGrid = None,
                      lw=1, verbose=False, do_save=True):
     fig, ax = plt.subplots(nrows=1, ncols=3, figsize=(16, 5))
-    siwk_re_fs = np.squeeze(siwk_re_fs)
-    siwk_im_fs = np.squeeze(siwk_im_fs)
-    siwk_z = np.squeeze(siwk_z)
+    # kz = 0 plane of the (kx,ky,kz) data:
+    siwk_re_fs, siwk_im_fs, siwk_z = [mat[:, :, 0] if np.ndim(mat) == 3 else mat for mat in (siwk_re_fs, siwk_im_fs, siwk_z)]
 
     norm = MidpointNormalize(midpoint=0, vmin=siwk_re_fs.min(), vmax=siwk_re_fs.max())
     im = ax[0].pcolormesh(k_grid.kx_shift, k_grid.ky_shift, k_grid.shift_mat_by_pi(siwk_re_fs, axes=(0, 1)).T, cmap='RdBu_r',
-- 
2.43.0


From 288ee5cc85ce4dec6bbe17856b066e5fa9582aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 58/58] fix: the tail of the bubble does not assume a band
 without on-site energy

---
 src/dga/bubble.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 80964ac..6cb71fc 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -212,15 +212,15 @@ class BubbleGenerator():
             [fac2] = eV^2
             [fac3] = eV^2
         '''
-        fac1 = self.mu - self.smom0
-        fac2 = (self.mu - self.smom0) ** 2 + self.ek_mom2 - self.smom1
-        fac3 = (self.mu - self.smom0) ** 2 + self.ek_mom1 ** 2  # ek_mom1 is zero
+        fac1 = self.mu - self.smom0 - self.ek_mom1
+        fac2 = fac1 ** 2 + self.ek_mom2 - self.ek_mom1 ** 2 - self.smom1
+        fac3 = fac1 ** 2
         return fac1, fac2, fac3
 
     def get_asympt_prefactors_q(self, q_list):
-        fac1 = self.mu - self.smom0
-        fac2 = (self.mu - self.smom0) ** 2 + self.ek_mom2 - self.smom1
-        fac3 = (self.mu - self.smom0) ** 2 + self.get_ek_ekpq(q_list)
+        fac1 = self.mu - self.smom0 - self.ek_mom1
+        fac2 = fac1 ** 2 + self.ek_mom2 - self.ek_mom1 ** 2 - self.smom1
+        fac3 = fac1 ** 2 + self.get_ek_ekpq(q_list) - self.ek_mom1 ** 2
         return fac1, fac2, fac3
 
     def get_ek_ekpq(self, q_list):
-- 
2.43.0

