From e2c8f84cfcf4a8fd7e483a7eafd2da19d6a357a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:16 +0000
Subject: [PATCH 01/30] fix: numpy/jax conical and 2D solvers launch the p
 component with the sign of the stated incidence

The incident vector is cos(psi)*p + sin(psi)*s, but the p rows of the boundary system carried the
opposite sign to the s rows, so every mixed polarization was solved for -psi: efficiencies disagreed
with the torch backend and with Maxwell's equations whenever s and p couple. Pure TE/TM efficiencies
are unaffected.
---
 meent/on_jax/emsolver/transfer_method.py   | 24 +++++++++++-----------
 meent/on_numpy/emsolver/transfer_method.py | 24 +++++++++++-----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 1399c25..b8308dc 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -389,9 +389,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B = jnp.block(
         [
             [-jnp.sin(psi) * delta_i0],
-            [jnp.cos(psi) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi) * delta_i0]
+            [1j * n_top * jnp.cos(psi) * delta_i0]
         ]
     )
 
@@ -426,9 +426,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_tm = jnp.block(
         [
             [-jnp.sin(psi_tm) * delta_i0],
-            [jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_tm) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_tm) * delta_i0]
+            [1j * n_top * jnp.cos(psi_tm) * delta_i0]
         ]
     )
 
@@ -436,9 +436,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_te = jnp.block(
         [
             [-jnp.sin(psi_te) * delta_i0],
-            [jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_te) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_te) * delta_i0]
+            [1j * n_top * jnp.cos(psi_te) * delta_i0]
         ]
     )
 
@@ -635,9 +635,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B = jnp.block(
         [
             [-jnp.sin(psi) * delta_i0],
-            [jnp.cos(psi) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi) * delta_i0]
+            [1j * n_top * jnp.cos(psi) * delta_i0]
         ]
     )
 
@@ -672,18 +672,18 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B_tm = jnp.block(
         [
             [-jnp.sin(psi_tm) * delta_i0],
-            [jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_tm) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_tm) * delta_i0]
+            [1j * n_top * jnp.cos(psi_tm) * delta_i0]
         ]
     )
     psi_te = jnp.array(jnp.pi/2, dtype=type_complex)
     final_B_te = jnp.block(
         [
             [-jnp.sin(psi_te) * delta_i0],
-            [jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_te) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_te) * delta_i0]
+            [1j * n_top * jnp.cos(psi_te) * delta_i0]
         ]
     )
 
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 3b7027e..4f0a9e9 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -292,9 +292,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B = np.block(
         [
             [-np.sin(psi) * delta_i0],
-            [np.cos(psi) * np.cos(theta) * delta_i0],
+            [-np.cos(psi) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi) * delta_i0]
+            [1j * n_top * np.cos(psi) * delta_i0]
         ]
     )
 
@@ -329,9 +329,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_tm = np.block(
         [
             [-np.sin(psi_tm) * delta_i0],
-            [np.cos(psi_tm) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_tm) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_tm) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_tm) * delta_i0]
+            [1j * n_top * np.cos(psi_tm) * delta_i0]
         ]
     )
 
@@ -339,9 +339,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_te = np.block(
         [
             [-np.sin(psi_te) * delta_i0],
-            [np.cos(psi_te) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_te) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_te) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_te) * delta_i0]
+            [1j * n_top * np.cos(psi_te) * delta_i0]
         ]
     )
 
@@ -537,9 +537,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B = np.block(
         [
             [-np.sin(psi) * delta_i0],
-            [np.cos(psi) * np.cos(theta) * delta_i0],
+            [-np.cos(psi) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi) * delta_i0]
+            [1j * n_top * np.cos(psi) * delta_i0]
         ]
     )
 
@@ -574,9 +574,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B_tm = np.block(
         [
             [-np.sin(psi_tm) * delta_i0],
-            [np.cos(psi_tm) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_tm) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_tm) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_tm) * delta_i0]
+            [1j * n_top * np.cos(psi_tm) * delta_i0]
         ]
     )
 
@@ -584,9 +584,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B_te = np.block(
         [
             [-np.sin(psi_te) * delta_i0],
-            [np.cos(psi_te) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_te) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_te) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_te) * delta_i0]
+            [1j * n_top * np.cos(psi_te) * delta_i0]
         ]
     )
 
-- 
2.43.0


From c923a26872775db2547b571b483d45b869e4157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:33 +0000
Subject: [PATCH 02/30] fix: keep orders with kx exactly 0 finite in the
 conical and 2D solvers

When n_top*sin(theta)*cos(phi) lands exactly on -m*wavelength/period, arctan(ky / kx) divides by zero
and the whole solution turned into nan (or raised LinAlgError). Apply the same perturbation theta = 0
already gets.
---
 meent/on_jax/emsolver/_base.py   | 2 ++
 meent/on_numpy/emsolver/_base.py | 2 ++
 meent/on_torch/emsolver/_base.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index ac7c77f..c2f07aa 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -272,6 +272,8 @@ class _BaseRCWA:
         ky = (self.n_top * sin_theta * jnp.sin(phi) + fto_y_range * (
                 wavelength / self.period[1])).astype(self.type_complex).conj()
 
+        kx = kx + (kx == 0) * self.perturbation  # order leaving along z: keeps arctan(ky / kx) defined
+
         return kx, ky
 
     @jax_device_set
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index 230a482..1bf3385 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -219,6 +219,8 @@ class _BaseRCWA:
         ky = (self.n_top * sin_theta * np.sin(phi) + fto_y_range * (
                 wavelength / self.period[1])).astype(self.type_complex).conj()
 
+        kx[kx == 0] = self.perturbation  # order leaving along z: keeps arctan(ky / kx) defined
+
         return kx, ky
 
     def solve_1d(self, wavelength, epx_conv_all, epy_conv_all, epz_conv_i_all):
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 919f4a2..bb47ff4 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -266,6 +266,8 @@ class _BaseRCWA:
         ky = (self.n_top * sin_theta * torch.sin(phi) + fto_y_range * (
                 wavelength / self.period[1])).type(self.type_complex).conj()
 
+        kx = kx + (kx == 0) * self.perturbation  # order leaving along z: keeps arctan(ky / kx) defined
+
         return kx, ky
 
     def solve_1d(self, wavelength, epx_conv_all, epy_conv_all, epz_conv_i_all):
-- 
2.43.0


From e25ef750aeb8e80d3ecd6a47887ceecfd489e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:33 +0000
Subject: [PATCH 03/30] fix: take the decaying branch of kz in absorbing
 substrates (numpy/jax)

kx is conjugated before and kz after the square root, but the index was not, so an n - ik substrate got
the growing wave: TM reflectance above 1 and negative transmittance for metals. A real index stored as
complex with a negative-zero imaginary part hit the same wrong branch. Real indices are unaffected.
---
 meent/on_jax/emsolver/transfer_method.py   | 12 ++++++------
 meent/on_numpy/emsolver/transfer_method.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index b8308dc..829bf9c 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -7,8 +7,8 @@ from .primitives import eig, conj, meeinv
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
     ff_x = len(kx)
 
-    kz_top = (n_top ** 2 - kx ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
+    kz_top = (n_top.conjugate() ** 2 - kx ** 2) ** 0.5
+    kz_bot = (n_bot.conjugate() ** 2 - kx ** 2) ** 0.5
 
     kz_top = kz_top.conjugate()
     kz_bot = kz_bot.conjugate()
@@ -205,8 +205,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     I = jnp.eye(ff_xy).astype(type_complex)
     O = jnp.zeros((ff_xy, ff_xy)).astype(type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_top = (n_top.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_bot = (n_bot.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
     kz_top = kz_top.flatten().conj()
     kz_bot = kz_bot.flatten().conj()
@@ -486,8 +486,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     I = jnp.eye(ff_xy, dtype=type_complex)
     O = jnp.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_top = (n_top.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_bot = (n_bot.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
     kz_top = kz_top.flatten().conj()
     kz_bot = kz_bot.flatten().conj()
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 4f0a9e9..160ede0 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -6,8 +6,8 @@ from .primitives import meeinv
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
     ff_x = len(kx)
 
-    kz_top = (n_top ** 2 - kx ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
+    kz_top = (n_top.conjugate() ** 2 - kx ** 2) ** 0.5
+    kz_bot = (n_bot.conjugate() ** 2 - kx ** 2) ** 0.5
 
     kz_top = kz_top.conj()
     kz_bot = kz_bot.conj()
@@ -143,8 +143,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     I = np.eye(ff_xy, dtype=type_complex)
     O = np.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_top = (n_top.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_bot = (n_bot.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
     kz_top = kz_top.flatten().conj()
     kz_bot = kz_bot.flatten().conj()
@@ -388,8 +388,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     I = np.eye(ff_xy, dtype=type_complex)
     O = np.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_top = (n_top.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
+    kz_bot = (n_bot.conjugate() ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
 
     kz_top = kz_top.flatten().conj()
     kz_bot = kz_bot.flatten().conj()
-- 
2.43.0


From 30e53dec2e63ffd3470decc19c67505a1129d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:58 +0000
Subject: [PATCH 04/30] fix: weight the transmitted p power by kz / n^2 in
 torch conical and 2D solvers

T_p is normalised by n_bot, so |T_p|^2 carries |n_bot|^-2 while the power flow needs Re(kz / n_bot^2).
The two differ for an absorbing substrate: R + T of a bare interface fell short of 1 and the conical/2D
transmittance disagreed with the 1D solver. Real substrates are unaffected.
---
 meent/on_torch/emsolver/transfer_method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 631e3ce..8923830 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -442,7 +442,7 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p = (T_p * T_p.conj() * (kz_bot * (abs(n_bot) / n_bot) ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -488,7 +488,7 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot * (abs(n_bot) / n_bot) ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
@@ -723,7 +723,7 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p = (T_p * T_p.conj() * (kz_bot * (abs(n_bot) / n_bot) ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -769,7 +769,7 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot * (abs(n_bot) / n_bot) ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
-- 
2.43.0


From 097d97429f172654425ebc9e55aaabc85a6918ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:58 +0000
Subject: [PATCH 05/30] fix: give torch res_te_inc/res_tm_inc amplitudes the
 phase convention of res

The TE/TM-incidence block kept the conjugated/negated p and unconjugated T amplitudes, so its R_p, T_s
and T_p disagreed with res for the very same incidence and could not be superposed.
---
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 8923830..dc9a868 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -476,13 +476,13 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
@@ -757,13 +757,13 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
-- 
2.43.0


From f01fbb1f2644761c5cf6b817fc81e06a84e00f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:16 +0000
Subject: [PATCH 06/30] fix: read raster rows top-down in the discrete Fourier
 series too

CFS (and the field maps) take the first row of a layer as y = period, DFS took it as y = 0, so the same
cell was mirrored in y depending on fourier_type and the DFS field maps were upside down against the cell.
---
 meent/on_jax/emsolver/convolution_matrix.py   | 2 ++
 meent/on_numpy/emsolver/convolution_matrix.py | 2 ++
 meent/on_torch/emsolver/convolution_matrix.py | 1 +
 3 files changed, 5 insertions(+)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index e83bfb8..beb1f42 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -113,6 +113,8 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=None, type_complex=j
         # e.g., 8 bytes * (40*500) * (40*500) / 1E6 = 3200 MB = 3.2 GB
 
     for i, layer in enumerate(ucell):
+        layer = jnp.flipud(layer)  # same XY orientation as cell_compression
+
         if layer.shape[0] < minimum_pattern_size_y:
             n = minimum_pattern_size_y // layer.shape[0]
             layer = jnp.repeat(layer, n + 1, axis=0, total_repeat_length=layer.shape[0] * (n + 1))
diff --git a/meent/on_numpy/emsolver/convolution_matrix.py b/meent/on_numpy/emsolver/convolution_matrix.py
index 9d8426c..96e5d4f 100644
--- a/meent/on_numpy/emsolver/convolution_matrix.py
+++ b/meent/on_numpy/emsolver/convolution_matrix.py
@@ -108,6 +108,8 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=None, type_complex=n
         # e.g., 8 bytes * (40*500) * (40*500) / 1E6 = 3200 MB = 3.2 GB
 
     for i, layer in enumerate(ucell):
+        layer = np.flipud(layer)  # same XY orientation as cell_compression
+
         if layer.shape[0] < minimum_pattern_size_y:
             n = minimum_pattern_size_y // layer.shape[0]
             layer = np.repeat(layer, n + 1, axis=0)
diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index cd3b391..ef24065 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -198,6 +198,7 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=torch.device('cpu'),
         return a
 
     for i, layer in enumerate(ucell):
+        layer = torch.flipud(layer)  # same XY orientation as cell_compression
 
         if layer.ndim == 2:  # Isotropic: nx=ny=nz, so repeat and square ONCE and share the
             # same eps across epx/epy/epz (they still need 3 separate DFTs with different
-- 
2.43.0


From ce08395772579383af5bce9628574ef2b8a51e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:26 +0000
Subject: [PATCH 07/30] fix: make jax conv_solve_field work and return (result,
 field) like the other backends

It called a method that no longer exists, so every call raised AttributeError.
---
 meent/on_jax/emsolver/rcwa.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 2839f68..8fc801b 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -3,8 +3,6 @@ import jax
 import numpy as np
 import jax.numpy as jnp
 
-from functools import partial
-
 from ._base import _BaseRCWA, jax_device_set
 from .convolution_matrix import to_conv_mat_raster_discrete, to_conv_mat_raster_continuous, to_conv_mat_vector
 from .field_distribution import field_dist_1d, field_dist_1d_conical, field_dist_2d,  field_plot
@@ -281,24 +279,15 @@ class RCWAJax(_BaseRCWA):
     def field_plot(self, field_cell):
         field_plot(field_cell, self.pol)
 
-    @partial(jax.jit, static_argnums=(1, 2, 3))
     @jax_device_set
     def conv_solve_field(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False), **kwargs):
-        [setattr(self, k, v) for k, v in kwargs.items()]  # needed for optimization
-
-        if self.fourier_type == 1:
-            print('CFT (fourier_type=1) is not supported with JAX jit-compilation. Use conv_solve_field_no_jit.')
-            return None, None, None
-
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve(**kwargs)
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res, field_cell
 
     @jax_device_set
     def conv_solve_field_no_jit(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
-        de_ri, de_ti, _, _ = self._conv_solve()
-        field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return self.conv_solve_field(res_x, res_y, res_z, set_field_input)
 
     def run_ucell_vmap(self, ucell_list):
         """
-- 
2.43.0


From 4a0f78eb1eab0e921862a4cbe93aa2eb52187a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:23 +0000
Subject: [PATCH 08/30] fix: split rotated rectangles consistently when the
 triangle and parallelogram counts differ

---
 meent/on_jax/modeler/modeling.py   | 12 ++++++------
 meent/on_numpy/modeler/modeling.py | 12 ++++++------
 meent/on_torch/modeler/modeling.py | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 1747ca4..9527f2d 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -191,13 +191,13 @@ class ModelingJax:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_parallelogram + 1).reshape(
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * jnp.arange(n_split_parallelogram + 1).reshape(
                 (-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -207,7 +207,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
@@ -270,7 +270,7 @@ class ModelingJax:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -285,7 +285,7 @@ class ModelingJax:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * jnp.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -305,7 +305,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index acd0f50..90c119b 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -166,12 +166,12 @@ class ModelingNumpy:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * np.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * np.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * np.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -179,7 +179,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * np.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -240,7 +240,7 @@ class ModelingNumpy:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * np.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -255,7 +255,7 @@ class ModelingNumpy:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * np.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -275,7 +275,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index c492e5c..2359dc5 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -208,12 +208,12 @@ class ModelingTorch:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -221,7 +221,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * torch.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -246,13 +246,13 @@ class ModelingTorch:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * torch.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * torch.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -262,7 +262,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
-- 
2.43.0


From f8b055211dbbc0d5429d0aef1bf85f206d473c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:19 +0000
Subject: [PATCH 09/30] fix: keep the ellipse when its two points beside the
 top are level

---
 meent/on_jax/modeler/modeling.py   | 4 ++--
 meent/on_numpy/modeler/modeling.py | 4 ++--
 meent/on_torch/modeler/modeling.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 9527f2d..dce0e4c 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -434,7 +434,7 @@ class ModelingJax:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1] // 2):
@@ -450,7 +450,7 @@ class ModelingJax:
             arr = arr.at[:, ::2].set(jnp.stack(right_array, axis=1))
             arr = arr.at[:, 1::2].set(jnp.stack(left_array, axis=1))
 
-        elif left_y < right_y:
+        else:
             # arr[:, ::2] = jnp.stack(left_array, axis=1)
             # arr[:, 1::2] = jnp.stack(right_array, axis=1)
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 90c119b..74c7bc0 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -455,7 +455,7 @@ class ModelingNumpy:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -467,7 +467,7 @@ class ModelingNumpy:
         if left_y > right_y:
             arr[:, ::2] = np.stack(right_array, axis=1)
             arr[:, 1::2] = np.stack(left_array, axis=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = np.stack(left_array, axis=1)
             arr[:, 1::2] = np.stack(right_array, axis=1)
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 2359dc5..0285303 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -358,7 +358,7 @@ class ModelingTorch:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -370,7 +370,7 @@ class ModelingTorch:
         if left_y > right_y:
             arr[:, ::2] = torch.stack(right_array, dim=1)
             arr[:, 1::2] = torch.stack(left_array, dim=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = torch.stack(left_array, dim=1)
             arr[:, 1::2] = torch.stack(right_array, dim=1)
 
-- 
2.43.0


From 9de2b819a0ae237ff401cba9c9aa3b72c2d4a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:32 +0000
Subject: [PATCH 10/30] fix: keep torch shape outlines in working precision and
 the gradient of a rotated rectangle's centre

---
 meent/on_torch/modeler/modeling.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 0285303..ec43240 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -134,10 +134,12 @@ class ModelingTorch:
         DL = rotate @ torch.vstack([-lx / 2, -ly / 2])
         LU = rotate @ torch.vstack([-lx / 2, ly / 2])
 
-        UR += torch.tensor([[cx], [cy]])
-        RD += torch.tensor([[cx], [cy]])
-        DL += torch.tensor([[cx], [cy]])
-        LU += torch.tensor([[cx], [cy]])
+        # as_tensor keeps the working precision and, if the centre is differentiable, its graph
+        center = torch.stack([torch.as_tensor(c, dtype=self.type_float).reshape(1) for c in (cx, cy)])
+        UR = UR + center
+        RD = RD + center
+        DL = DL + center
+        LU = LU + center
 
         if 0 <= angle < torch.pi / 2:
             angle_inside = (torch.pi / 2) - angle
@@ -308,11 +310,11 @@ class ModelingTorch:
 
         angle = angle % (2 * torch.pi)
 
-        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w))
-        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h))
+        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w, dtype=self.type_float))
+        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h, dtype=self.type_float))
 
-        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w))[:-1]
-        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h))[:-1]
+        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w, dtype=self.type_float))[:-1]
+        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h, dtype=self.type_float))[:-1]
         points_origin_contour = torch.vstack([points_x_origin_contour, points_y_origin_contour])
 
         axis_x_origin = torch.vstack([points_x_origin, torch.ones(len(points_x_origin))])
-- 
2.43.0


From c656a3e66041460cc03a26b50e654998aee38f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:50 +0000
Subject: [PATCH 11/30] fix: let a real tensor index of a torch vector shape be
 differentiated

---
 meent/on_torch/modeler/modeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index ec43240..b81f2fd 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -537,7 +537,8 @@ class ModelingTorch:
             if is_aniso:
                 ucell_layer[row_begin:row_end, col_begin:col_end, :] = _to_index_vector(pmty, datatype)
             else:
-                ucell_layer[row_begin:row_end, col_begin:col_end] = pmty
+                ucell_layer[row_begin:row_end, col_begin:col_end] = \
+                    pmty.type(datatype) if torch.is_tensor(pmty) else pmty
 
         x_list = torch.cat(col_list).reshape((-1, 1))
         y_list = torch.cat(row_list).reshape((-1, 1))
-- 
2.43.0


From b4d1e667664422de02ddb10e78b2a59f6fc3e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:26 +0000
Subject: [PATCH 12/30] fix: solve one-row cells that ask for y orders with the
 2D formulation instead of failing

---
 meent/on_jax/emsolver/rcwa.py   | 2 ++
 meent/on_numpy/emsolver/rcwa.py | 2 ++
 meent/on_torch/emsolver/rcwa.py | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 8fc801b..936fe1e 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -146,6 +146,8 @@ class RCWAJax(_BaseRCWA):
             if self.ucell.shape[1] == 1:
                 if (self.pol in (0, 1)) and (self.phi is None) and (self.fto[1] == 0):
                     self._grating_type_assigned = 0
+                elif self.fto[1] != 0:
+                    self._grating_type_assigned = 2  # orders along y as well
                 else:
                     self._grating_type_assigned = 1
 
diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index 429e9b2..acf91ce 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -136,6 +136,8 @@ class RCWANumpy(_BaseRCWA):
             if self.ucell.shape[1] == 1:
                 if (self.pol in (0, 1)) and (self.phi is None) and (self.fto[1] == 0):
                     self._grating_type_assigned = 0  # 1D TE and TM only
+                elif self.fto[1] != 0:
+                    self._grating_type_assigned = 2  # orders along y as well
                 else:
                     self._grating_type_assigned = 1  # 1D conical
             else:
diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 530e578..7969bb9 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -148,7 +148,7 @@ class RCWATorch(_BaseRCWA):
                 phi_is_zero_or_none = self.phi is None or self.phi == 0
                 if (self.pol in (0, 1)) and phi_is_zero_or_none and (self.fto[1] == 0):
                     self._grating_type_assigned = 0
-                elif self.is_aniso:
+                elif self.is_aniso or self.fto[1] != 0:
                     self._grating_type_assigned = 2
                 else:
                     self._grating_type_assigned = 1
-- 
2.43.0


From 7b9296e177ffce67607b708eaa2bf03bab096589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:26 +0000
Subject: [PATCH 13/30] fix: jax rejects a cell of unsupported dtype instead of
 silently keeping the previous one

---
 meent/on_jax/emsolver/rcwa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 936fe1e..77475b3 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -100,6 +100,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (jnp.complex128, jnp.complex64):
                 dtype = self.type_complex
                 self._ucell = ucell.astype(dtype)
+            else:
+                raise ValueError
 
         elif isinstance(ucell, np.ndarray):  # Raster
             self._modeling_type_assigned = 0
@@ -109,6 +111,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (np.complex128, np.complex64):
                 dtype = self.type_complex
                 self._ucell = jnp.array(ucell, dtype=dtype)
+            else:
+                raise ValueError
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
-- 
2.43.0


From 700621b067b41889bb6edbf59019080784f1710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:49 +0000
Subject: [PATCH 14/30] fix: give undamped modes the forward root so that pinv
 solves index-matched layers

---
 meent/on_jax/emsolver/primitives.py        | 14 ++++++++++++++
 meent/on_jax/emsolver/transfer_method.py   | 12 ++++++------
 meent/on_numpy/emsolver/primitives.py      | 14 ++++++++++++++
 meent/on_numpy/emsolver/transfer_method.py | 12 ++++++------
 meent/on_torch/emsolver/primitives.py      | 14 ++++++++++++++
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 6 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/emsolver/primitives.py b/meent/on_jax/emsolver/primitives.py
index 22b3fe4..712c949 100644
--- a/meent/on_jax/emsolver/primitives.py
+++ b/meent/on_jax/emsolver/primitives.py
@@ -77,3 +77,17 @@ def meeinv(x, use_pinv=False):
         res = jnp.linalg.inv(x)
 
     return res
+
+
+def forward_root(eigenvalues):
+    """
+    Square root of the mode eigenvalues: decaying modes get Re > 0, undamped ones travel forward (Im > 0).
+
+    An undamped mode has a negative real eigenvalue, so rounding noise in its imaginary part would pick the sign of the
+    root; the backward choice makes the interface matrix of an index-matched layer singular.
+    """
+    q = eigenvalues ** 0.5
+    noise = 1E3 * jnp.finfo(eigenvalues.dtype).eps * jnp.max(jnp.abs(eigenvalues))
+    backward = (q.imag < 0) & (eigenvalues.real < 0) & (jnp.abs(eigenvalues.imag) < noise)
+
+    return jnp.where(backward, -q, q)
diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 829bf9c..c8b9a14 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from .primitives import eig, conj, meeinv
+from .primitives import eig, conj, forward_root, meeinv
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
@@ -57,7 +57,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.comp
         A = Kx ** 2 - epy_conv
         eigenvalues, W = eig(A, type_complex, perturbation)
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
         Q = jnp.diag(q)
         V = W @ Q
         return W, V, q
@@ -68,7 +68,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.comp
         eigenvalues, W = eig(epx_conv @ B, type_complex, perturbation)
 
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
 
         Q = jnp.diag(q)
         # V = jnp.linalg.inv(epx_conv) @ W @ Q
@@ -276,8 +276,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=j
     eigenvalues_1 += 0j  # to get positive square root
     eigenvalues_2 += 0j  # to get positive square root
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_root(eigenvalues_1)
+    q_2 = forward_root(eigenvalues_2)
 
     Q_1 = jnp.diag(q_1)
     Q_2 = jnp.diag(q_2)
@@ -524,7 +524,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.compl
     # eigenvalues, W = jnp.linalg.eig(Omega2_LR)
     eigenvalues, W = eig(Omega2_LR, type_complex, perturbation)
     eigenvalues += 0j  # to get positive square root
-    q = eigenvalues ** 0.5
+    q = forward_root(eigenvalues)
 
     Q = jnp.diag(q)
     Q_i = meeinv(Q, use_pinv)
diff --git a/meent/on_numpy/emsolver/primitives.py b/meent/on_numpy/emsolver/primitives.py
index 14976a3..0920de7 100644
--- a/meent/on_numpy/emsolver/primitives.py
+++ b/meent/on_numpy/emsolver/primitives.py
@@ -8,3 +8,17 @@ def meeinv(x, use_pinv=False):
         res = np.linalg.inv(x)
 
     return res
+
+
+def forward_root(eigenvalues):
+    """
+    Square root of the mode eigenvalues: decaying modes get Re > 0, undamped ones travel forward (Im > 0).
+
+    An undamped mode has a negative real eigenvalue, so rounding noise in its imaginary part would pick the sign of the
+    root; the backward choice makes the interface matrix of an index-matched layer singular.
+    """
+    q = eigenvalues ** 0.5
+    noise = 1E3 * np.finfo(eigenvalues.dtype).eps * np.max(np.abs(eigenvalues))
+    backward = (q.imag < 0) & (eigenvalues.real < 0) & (np.abs(eigenvalues.imag) < noise)
+
+    return np.where(backward, -q, q)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 160ede0..b4431d8 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .primitives import meeinv
+from .primitives import forward_root, meeinv
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
@@ -35,7 +35,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
         A = Kx ** 2 - epy_conv
         eigenvalues, W = np.linalg.eig(A)
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
         Q = np.diag(q)
         V = W @ Q
 
@@ -45,7 +45,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
         eigenvalues, W = np.linalg.eig(epx_conv @ B)
 
         eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
 
         Q = np.diag(q)
         V = meeinv(epx_conv, use_pinv) @ W @ Q
@@ -181,8 +181,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=n
     eigenvalues_1 += 0j  # to get positive square root
     eigenvalues_2 += 0j  # to get positive square root
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_root(eigenvalues_1)
+    q_2 = forward_root(eigenvalues_2)
 
     Q_1 = np.diag(q_1)
     Q_2 = np.diag(q_2)
@@ -426,7 +426,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=np.comple
     eigenvalues, W = np.linalg.eig(Omega2_LR)
 
     eigenvalues += 0j  # to get positive square root
-    q = eigenvalues ** 0.5
+    q = forward_root(eigenvalues)
 
     Q = np.diag(q)
     Q_i = meeinv(Q, use_pinv)
diff --git a/meent/on_torch/emsolver/primitives.py b/meent/on_torch/emsolver/primitives.py
index 196920d..54fd400 100644
--- a/meent/on_torch/emsolver/primitives.py
+++ b/meent/on_torch/emsolver/primitives.py
@@ -103,3 +103,17 @@ def meeinv(x, use_pinv=False):
             res = RobustPinv.apply(x)
 
     return res
+
+
+def forward_root(eigenvalues):
+    """
+    Square root of the mode eigenvalues: decaying modes get Re > 0, undamped ones travel forward (Im > 0).
+
+    An undamped mode has a negative real eigenvalue, so rounding noise in its imaginary part would pick the sign of the
+    root; the backward choice makes the interface matrix of an index-matched layer singular.
+    """
+    q = eigenvalues ** 0.5
+    noise = 1E3 * torch.finfo(eigenvalues.dtype).eps * eigenvalues.abs().max()
+    backward = (q.imag < 0) & (eigenvalues.real < 0) & (eigenvalues.imag.abs() < noise)
+
+    return torch.where(backward, -q, q)
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index dc9a868..8d3fd2f 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -1,6 +1,6 @@
 import torch
 
-from .primitives import Eig, meeinv
+from .primitives import Eig, forward_root, meeinv
 
 
 def branch_sign(value):
@@ -64,7 +64,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
         eigenvalues, W = Eig.apply(A)
 
         # eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
         Q = torch.diag(q)
         V = W @ Q
 
@@ -75,7 +75,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
         eigenvalues, W = Eig.apply(epx_conv @ B)
 
         # eigenvalues += 0j  # to get positive square root
-        q = eigenvalues ** 0.5
+        q = forward_root(eigenvalues)
 
         Q = torch.diag(q)
         V = meeinv(epx_conv, use_pinv) @ W @ Q
@@ -277,8 +277,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device='cpu',
     eigenvalues_1, W_1 = Eig.apply(Omega2_RL)
     eigenvalues_2, W_2 = Eig.apply(Omega2_LR)
 
-    q_1 = eigenvalues_1 ** 0.5
-    q_2 = eigenvalues_2 ** 0.5
+    q_1 = forward_root(eigenvalues_1)
+    q_2 = forward_root(eigenvalues_2)
 
     Q_1 = torch.diag(q_1)
     Q_2 = torch.diag(q_2)
@@ -573,7 +573,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device=torch.device('c
 
     Eig.perturbation = perturbation
     eigenvalues, W = Eig.apply(Omega2_LR)
-    q = eigenvalues ** 0.5
+    q = forward_root(eigenvalues)
 
     q = torch.where(q.abs() < 1E-10, torch.full_like(q, 1E-10), q)
 
-- 
2.43.0


From 3af118aa529c6c24c354bba95814acc0e1b67f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:43 +0000
Subject: [PATCH 15/30] fix: scale the offset of coinciding shape edges at 0
 with the period

---
 meent/on_jax/modeler/modeling.py   | 4 ++--
 meent/on_numpy/modeler/modeling.py | 4 ++--
 meent/on_torch/modeler/modeling.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index dce0e4c..fcbff75 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -501,7 +501,7 @@ class ModelingJax:
                 if len(row_list) > index and top_left[0] == row_list[index]:
                     perturbation += perturbation_unit
                     if top_left[0] == 0:
-                        top_left[0] = top_left[0] + perturbation
+                        top_left[0] = top_left[0] + perturbation * self.period[1]
 
                     else:
                         top_left[0] = top_left[0] + (top_left[0] * perturbation)
@@ -548,7 +548,7 @@ class ModelingJax:
 
                     if top_left[1] == 0:
                         # top_left = top_left.at[1].add(perturbation)
-                        top_left[1] = top_left[1] + perturbation  # TODO: no jit at all?
+                        top_left[1] = top_left[1] + perturbation * self.period[0]  # TODO: no jit at all?
                     else:
                         top_left[1] = top_left[1] + (top_left[1] * perturbation)
                         # top_left = top_left.at[1].add(top_left[1] * perturbation)
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 74c7bc0..1d8ac70 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -520,7 +520,7 @@ class ModelingNumpy:
                 if len(row_list) > index and top_left[0] == row_list[index]:
                     perturbation += perturbation_unit
                     if top_left[0] == 0:
-                        top_left[0] = top_left[0] + perturbation
+                        top_left[0] = top_left[0] + perturbation * self.period[1]
 
                     else:
                         top_left[0] = top_left[0] + (top_left[0] * perturbation)  # TODO: change; save how many perturbations were applied in a variable
@@ -562,7 +562,7 @@ class ModelingNumpy:
                     perturbation += perturbation_unit
 
                     if top_left[1] == 0:
-                        top_left[1] = top_left[1] + perturbation
+                        top_left[1] = top_left[1] + perturbation * self.period[0]
                     else:
                         # top_left[1] = top_left[1] - (top_left[1] * perturbation)
                         top_left[1] = top_left[1] + (top_left[1] * perturbation)
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index b81f2fd..0d1c0fc 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -423,7 +423,7 @@ class ModelingTorch:
                 if len(row_list) > index and top_left[0] == row_list[index]:
                     perturbation += perturbation_unit
                     if top_left[0] == 0:
-                        top_left[0] = top_left[0] + perturbation
+                        top_left[0] = top_left[0] + perturbation * self.period[1]
 
                     else:
                         top_left[0] = top_left[0] + (top_left[0] * perturbation)
@@ -465,7 +465,7 @@ class ModelingTorch:
                     perturbation += perturbation_unit
 
                     if top_left[1] == 0:
-                        top_left[1] = top_left[1] + perturbation
+                        top_left[1] = top_left[1] + perturbation * self.period[0]
                     else:
                         top_left[1] = top_left[1] + (top_left[1] * perturbation)
                     col_list.insert(index, top_left[1])
-- 
2.43.0


From 16e0293a9448f9fad9c04ed05c5aabc2dddf6364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:49 +0000
Subject: [PATCH 16/30] fix: give each pixel of a continuous-Fourier cell its
 own gradient when neighbours are equal

---
 meent/on_jax/emsolver/convolution_matrix.py   | 7 +++++--
 meent/on_torch/emsolver/convolution_matrix.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index beb1f42..418cad3 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -26,10 +26,13 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_x = []
     cell_xy = []
 
+    # Merging equal pixels would hand the gradient of all of them to a single one.
+    keep_all = isinstance(cell, jax.core.Tracer)
+
     cell_next = jnp.roll(cell, -1, axis=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col])
 
@@ -37,7 +40,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_x_next = jnp.roll(cell_x, -1, axis=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :])
 
diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index ef24065..cbfbe64 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -22,10 +22,13 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_x = []
     cell_xy = []
 
+    # Merging equal pixels would hand the gradient of all of them to a single one.
+    keep_all = cell.requires_grad
+
     cell_next = torch.roll(cell, -1, dims=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col].reshape((1, -1)))
 
@@ -33,7 +36,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_x_next = torch.roll(cell_x, -1, dims=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :].reshape((1, -1)))
 
-- 
2.43.0


From ac2f52ad3c08e8ae440a89398572617bf6e07bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:46 +0000
Subject: [PATCH 17/30] fix: keep the derivative at normal incidence and of a
 differentiable polarization portion

---
 meent/on_jax/emsolver/_base.py   | 3 ++-
 meent/on_torch/emsolver/_base.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index c2f07aa..5b891bb 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -119,7 +119,8 @@ class _BaseRCWA:
             self._theta = None
         else:
             self._theta = jnp.array(theta, dtype=self.type_complex)
-            self._theta = jnp.where(self._theta == 0, self.perturbation, self._theta)  # perturbation
+            # perturbation; not below 1E-10, where the derivative of the azimuth of the 0th order drowns in rounding
+            self._theta = jnp.where(self._theta == 0, self._theta + max(self.perturbation, 1E-10), self._theta)
 
     @property
     def phi(self):
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index bb47ff4..1527c61 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -134,7 +134,7 @@ class _BaseRCWA:
             self._theta = None
         else:
             self._theta = _to_tensor(theta, self.device, self.type_complex)
-            self._theta = torch.where(self._theta == 0, self.perturbation, self._theta)  # perturbation
+            self._theta = torch.where(self._theta == 0, self._theta + self.perturbation, self._theta)  # perturbation
 
     @property
     def phi(self):
@@ -175,7 +175,7 @@ class _BaseRCWA:
             raise ValueError
 
         self._pol = pol
-        psi = torch.tensor(torch.pi / 2 * (1 - self.pol), device=self.device, dtype=self.type_complex)
+        psi = _to_tensor(torch.pi / 2 * (1 - self.pol), self.device, self.type_complex)
         self._psi = psi
 
     @property
-- 
2.43.0


From 0f766edc23fa1f4b4cacc2991b99e6b63950cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:02 +0000
Subject: [PATCH 18/30] fix: let the torch backend start from its default
 period

---
 meent/on_torch/modeler/modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 0d1c0fc..97fb6f7 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -58,7 +58,7 @@ class Compress(torch.autograd.Function):
 
 
 class ModelingTorch:
-    def __init__(self, period=None, *args, **kwargs):
+    def __init__(self, period=(1., 1.), *args, **kwargs):
 
         self.ucell = None
         self.ucell_vector = None
-- 
2.43.0


From 337c26cd2f6a2f937ef8197fb2446850c823279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:22 +0000
Subject: [PATCH 19/30] fix: decompose single precision matrices in single
 precision on numpy so that uniform layers stay solvable

---
 meent/on_numpy/emsolver/primitives.py      | 12 ++++++++++++
 meent/on_numpy/emsolver/transfer_method.py | 12 ++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/meent/on_numpy/emsolver/primitives.py b/meent/on_numpy/emsolver/primitives.py
index 0920de7..6962837 100644
--- a/meent/on_numpy/emsolver/primitives.py
+++ b/meent/on_numpy/emsolver/primitives.py
@@ -1,4 +1,16 @@
 import numpy as np
+import scipy.linalg
+
+
+def eig(x):
+    """
+    np.linalg.eig promotes single precision matrices to double, where their rounding noise is no longer negligible: the
+    eigenvectors of coinciding modes (uniform layers) then come out parallel. SciPy decomposes in the given precision.
+    """
+    if x.dtype in (np.complex64, np.float32):
+        return scipy.linalg.eig(x)
+
+    return np.linalg.eig(x)
 
 
 def meeinv(x, use_pinv=False):
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index b4431d8..8f1adaa 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .primitives import forward_root, meeinv
+from .primitives import eig, forward_root, meeinv
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
@@ -33,7 +33,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
 
     if pol == 0:
         A = Kx ** 2 - epy_conv
-        eigenvalues, W = np.linalg.eig(A)
+        eigenvalues, W = eig(A)
         eigenvalues += 0j  # to get positive square root
         q = forward_root(eigenvalues)
         Q = np.diag(q)
@@ -42,7 +42,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.compl
     elif pol == 1:
         B = Kx @ epz_conv_i @ Kx - np.eye(epy_conv.shape[0], dtype=type_complex)
 
-        eigenvalues, W = np.linalg.eig(epx_conv @ B)
+        eigenvalues, W = eig(epx_conv @ B)
 
         eigenvalues += 0j  # to get positive square root
         q = forward_root(eigenvalues)
@@ -175,8 +175,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=n
     Omega2_RL = Ky ** 2 + A
     Omega2_LR = Ky ** 2 + B @ epx_conv
 
-    eigenvalues_1, W_1 = np.linalg.eig(Omega2_RL)
-    eigenvalues_2, W_2 = np.linalg.eig(Omega2_LR)
+    eigenvalues_1, W_1 = eig(Omega2_RL)
+    eigenvalues_2, W_2 = eig(Omega2_LR)
 
     eigenvalues_1 += 0j  # to get positive square root
     eigenvalues_2 += 0j  # to get positive square root
@@ -423,7 +423,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=np.comple
             [Ky @ (epz_conv_i @ Kx @ epx_conv - Kx), Kx ** 2 + D @ epy_conv]
         ])
 
-    eigenvalues, W = np.linalg.eig(Omega2_LR)
+    eigenvalues, W = eig(Omega2_LR)
 
     eigenvalues += 0j  # to get positive square root
     q = forward_root(eigenvalues)
-- 
2.43.0


From 67fb315096148cbde69f8eefeef3a2bcd74af68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:13 +0000
Subject: [PATCH 20/30] fix: give the empty channel of numpy 1D results the
 type of the solved one

---
 meent/on_numpy/emsolver/transfer_method.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 8f1adaa..516c13a 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -104,23 +104,23 @@ def transfer_1d_4(pol, ff_x, F, G, T, kz_top, kz_bot, theta, n_top, n_bot, type_
     if pol == 0:
         de_ti = (T * T.conj() * (kz_bot / (n_top * np.cos(theta))).real).real
         R_s = R
-        R_p = np.zeros(R.shape)
+        R_p = np.zeros_like(R)
         T_s = T
-        T_p = np.zeros(T.shape)
+        T_p = np.zeros_like(T)
         de_ri_s = de_ri
-        de_ri_p = np.zeros(de_ri.shape)
+        de_ri_p = np.zeros_like(de_ri)
         de_ti_s = de_ti
-        de_ti_p = np.zeros(de_ri.shape)
+        de_ti_p = np.zeros_like(de_ri)
 
     elif pol == 1:
         de_ti = (T * T.conj() * (kz_bot / n_bot ** 2 / (np.cos(theta) / n_top)).real).real
-        R_s = np.zeros(R.shape)
+        R_s = np.zeros_like(R)
         R_p = R
-        T_s = np.zeros(T.shape)
+        T_s = np.zeros_like(T)
         T_p = T
-        de_ri_s = np.zeros(de_ri.shape)
+        de_ri_s = np.zeros_like(de_ri)
         de_ri_p = de_ri
-        de_ti_s = np.zeros(de_ri.shape)
+        de_ti_s = np.zeros_like(de_ri)
         de_ti_p = de_ti
     else:
         raise ValueError
-- 
2.43.0


From 59d1e17ba852a250b8e012976970e3d6efb154df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:50 +0000
Subject: [PATCH 21/30] fix: jax refuses cells that are not (layers, rows,
 columns) instead of returning wrong numbers

---
 meent/on_jax/emsolver/rcwa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 77475b3..b25e954 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -223,6 +223,9 @@ class RCWAJax(_BaseRCWA):
 
         if self._modeling_type_assigned == 0:  # Raster
 
+            if self.ucell.ndim != 3:
+                raise ValueError('ucell must be 3D (Layers, H, W)')
+
             if self.fourier_type == 0:
                 epx_conv_all, epy_conv_all, epz_conv_i_all = to_conv_mat_raster_discrete(
                     self.ucell, self.fto[0], self.fto[1], type_complex=self.type_complex,
-- 
2.43.0


From 65c5718b02844976f92ec44de598a5136191e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:04 +0000
Subject: [PATCH 22/30] fix: keep orders off the exact cutoff of a uniform
 layer, where the mode matrices have no inverse

---
 meent/on_jax/emsolver/primitives.py        | 15 +++++++++++++++
 meent/on_jax/emsolver/transfer_method.py   | 19 +++++++++++++------
 meent/on_numpy/emsolver/primitives.py      | 15 +++++++++++++++
 meent/on_numpy/emsolver/transfer_method.py | 19 +++++++++++++------
 meent/on_torch/emsolver/primitives.py      | 15 +++++++++++++++
 meent/on_torch/emsolver/transfer_method.py | 19 +++++++++++++------
 6 files changed, 84 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/emsolver/primitives.py b/meent/on_jax/emsolver/primitives.py
index 712c949..dc08fe8 100644
--- a/meent/on_jax/emsolver/primitives.py
+++ b/meent/on_jax/emsolver/primitives.py
@@ -91,3 +91,18 @@ def forward_root(eigenvalues):
     backward = (q.imag < 0) & (eigenvalues.real < 0) & (jnp.abs(eigenvalues.imag) < noise)
 
     return jnp.where(backward, -q, q)
+
+
+def off_cutoff(k, k_square, epx_conv, epy_conv, epz_conv_i):
+    """
+    Keep the orders off the cutoff of a uniform layer (k ** 2 equal to its permittivity, convolution matrices with
+    nothing beside the diagonal). There the up- and downward waves coincide and the mode matrices have no inverse,
+    although the fields have a limit: approach it to half of the working digits.
+    """
+    tol = float(jnp.finfo(k.dtype).eps) ** 0.5
+    epx, epy, epz_i = epx_conv[0, 0], epy_conv[0, 0], epz_conv_i[0, 0]
+    cutoff = ((jnp.abs(k_square / epx - 1) < tol) | (jnp.abs(k_square / epy - 1) < tol)
+              | (jnp.abs(k_square * epz_i - 1) < tol))
+    uniform = jnp.abs(epx_conv[0, 1:]).sum() + jnp.abs(epy_conv[0, 1:]).sum() < tol
+
+    return jnp.where(cutoff & uniform, k * (1 + tol), k)
diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index c8b9a14..5a6153d 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from .primitives import eig, conj, forward_root, meeinv
+from .primitives import eig, conj, forward_root, meeinv, off_cutoff
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
@@ -51,7 +51,7 @@ def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
 
 def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.complex128,
                   perturbation=1E-20, use_pinv=False):
-    Kx = jnp.diag(kx)
+    Kx = jnp.diag(off_cutoff(kx, kx ** 2, epx_conv, epy_conv, epz_conv_i))
 
     def false_fun(Kx, epy_conv):  # TE
         A = Kx ** 2 - epy_conv
@@ -261,8 +261,12 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=j
 
     I = jnp.eye(ff_xy).astype(type_complex)
 
-    Kx = jnp.diag(jnp.tile(kx, ff_y).flatten())
-    Ky = jnp.diag(jnp.tile(ky.reshape((-1, 1)), ff_x).flatten())
+    kx = jnp.tile(kx, ff_y).flatten()
+    ky = jnp.tile(ky.reshape((-1, 1)), ff_x).flatten()
+    kx = off_cutoff(kx, kx ** 2, epx_conv, epy_conv, epz_conv_i)
+    k_square = kx ** 2 + ky ** 2
+    Kx = jnp.diag(off_cutoff(kx, k_square, epx_conv, epy_conv, epz_conv_i))
+    Ky = jnp.diag(off_cutoff(ky, k_square, epx_conv, epy_conv, epz_conv_i))
 
     A = Kx ** 2 - epy_conv
     B = Kx @ epz_conv_i @ Kx - I
@@ -509,8 +513,11 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=jnp.compl
 
     I = jnp.eye(ff_y * ff_x, dtype=type_complex)
 
-    Kx = jnp.diag(jnp.tile(kx, ff_y).flatten())
-    Ky = jnp.diag(jnp.tile(ky.reshape((-1, 1)), ff_x).flatten())
+    kx = jnp.tile(kx, ff_y).flatten()
+    ky = jnp.tile(ky.reshape((-1, 1)), ff_x).flatten()
+    k_square = kx ** 2 + ky ** 2
+    Kx = jnp.diag(off_cutoff(kx, k_square, epx_conv, epy_conv, epz_conv_i))
+    Ky = jnp.diag(off_cutoff(ky, k_square, epx_conv, epy_conv, epz_conv_i))
 
     B = Kx @ epz_conv_i @ Kx - I
     D = Ky @ epz_conv_i @ Ky - I
diff --git a/meent/on_numpy/emsolver/primitives.py b/meent/on_numpy/emsolver/primitives.py
index 6962837..6d0bfdb 100644
--- a/meent/on_numpy/emsolver/primitives.py
+++ b/meent/on_numpy/emsolver/primitives.py
@@ -34,3 +34,18 @@ def forward_root(eigenvalues):
     backward = (q.imag < 0) & (eigenvalues.real < 0) & (np.abs(eigenvalues.imag) < noise)
 
     return np.where(backward, -q, q)
+
+
+def off_cutoff(k, k_square, epx_conv, epy_conv, epz_conv_i):
+    """
+    Keep the orders off the cutoff of a uniform layer (k ** 2 equal to its permittivity, convolution matrices with
+    nothing beside the diagonal). There the up- and downward waves coincide and the mode matrices have no inverse,
+    although the fields have a limit: approach it to half of the working digits.
+    """
+    tol = float(np.finfo(k.dtype).eps) ** 0.5
+    epx, epy, epz_i = epx_conv[0, 0], epy_conv[0, 0], epz_conv_i[0, 0]
+    cutoff = ((np.abs(k_square / epx - 1) < tol) | (np.abs(k_square / epy - 1) < tol)
+              | (np.abs(k_square * epz_i - 1) < tol))
+    uniform = np.abs(epx_conv[0, 1:]).sum() + np.abs(epy_conv[0, 1:]).sum() < tol
+
+    return np.where(cutoff & uniform, k * (1 + tol), k)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 516c13a..de83534 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .primitives import eig, forward_root, meeinv
+from .primitives import eig, forward_root, meeinv, off_cutoff
 
 
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
@@ -29,7 +29,7 @@ def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
 
 
 def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, type_complex=np.complex128, use_pinv=False):
-    Kx = np.diag(kx)
+    Kx = np.diag(off_cutoff(kx, kx ** 2, epx_conv, epy_conv, epz_conv_i))
 
     if pol == 0:
         A = Kx ** 2 - epy_conv
@@ -166,8 +166,12 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=n
 
     I = np.eye(ff_xy, dtype=type_complex)
 
-    Kx = np.diag(np.tile(kx, ff_y).flatten())
-    Ky = np.diag(np.tile(ky.reshape((-1, 1)), ff_x).flatten())
+    kx = np.tile(kx, ff_y).flatten()
+    ky = np.tile(ky.reshape((-1, 1)), ff_x).flatten()
+    kx = off_cutoff(kx, kx ** 2, epx_conv, epy_conv, epz_conv_i)
+    k_square = kx ** 2 + ky ** 2
+    Kx = np.diag(off_cutoff(kx, k_square, epx_conv, epy_conv, epz_conv_i))
+    Ky = np.diag(off_cutoff(ky, k_square, epx_conv, epy_conv, epz_conv_i))
 
     A = Kx ** 2 - epy_conv
     B = Kx @ epz_conv_i @ Kx - I
@@ -411,8 +415,11 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, type_complex=np.comple
 
     I = np.eye(ff_xy, dtype=type_complex)
 
-    Kx = np.diag(np.tile(kx, ff_y).flatten())
-    Ky = np.diag(np.tile(ky.reshape((-1, 1)), ff_x).flatten())
+    kx = np.tile(kx, ff_y).flatten()
+    ky = np.tile(ky.reshape((-1, 1)), ff_x).flatten()
+    k_square = kx ** 2 + ky ** 2
+    Kx = np.diag(off_cutoff(kx, k_square, epx_conv, epy_conv, epz_conv_i))
+    Ky = np.diag(off_cutoff(ky, k_square, epx_conv, epy_conv, epz_conv_i))
 
     B = Kx @ epz_conv_i @ Kx - I
     D = Ky @ epz_conv_i @ Ky - I
diff --git a/meent/on_torch/emsolver/primitives.py b/meent/on_torch/emsolver/primitives.py
index 54fd400..12c308c 100644
--- a/meent/on_torch/emsolver/primitives.py
+++ b/meent/on_torch/emsolver/primitives.py
@@ -117,3 +117,18 @@ def forward_root(eigenvalues):
     backward = (q.imag < 0) & (eigenvalues.real < 0) & (eigenvalues.imag.abs() < noise)
 
     return torch.where(backward, -q, q)
+
+
+def off_cutoff(k, k_square, epx_conv, epy_conv, epz_conv_i):
+    """
+    Keep the orders off the cutoff of a uniform layer (k ** 2 equal to its permittivity, convolution matrices with
+    nothing beside the diagonal). There the up- and downward waves coincide and the mode matrices have no inverse,
+    although the fields have a limit: approach it to half of the working digits.
+    """
+    tol = float(torch.finfo(k.dtype).eps) ** 0.5
+    epx, epy, epz_i = epx_conv[0, 0], epy_conv[0, 0], epz_conv_i[0, 0]
+    cutoff = ((torch.abs(k_square / epx - 1) < tol) | (torch.abs(k_square / epy - 1) < tol)
+              | (torch.abs(k_square * epz_i - 1) < tol))
+    uniform = torch.abs(epx_conv[0, 1:]).sum() + torch.abs(epy_conv[0, 1:]).sum() < tol
+
+    return torch.where(cutoff & uniform, k * (1 + tol), k)
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 8d3fd2f..0e55a73 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -1,6 +1,6 @@
 import torch
 
-from .primitives import Eig, forward_root, meeinv
+from .primitives import Eig, forward_root, meeinv, off_cutoff
 
 
 def branch_sign(value):
@@ -55,7 +55,7 @@ def transfer_1d_1(pol, kx, n_top, n_bot, device=torch.device('cpu'), type_comple
 def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('cpu'), type_complex=torch.complex128,
                   perturbation=1E-10, use_pinv=False):
 
-    Kx = torch.diag(kx)
+    Kx = torch.diag(off_cutoff(kx, kx ** 2, epx_conv, epy_conv, epz_conv_i))
 
     if pol == 0:
         A = Kx ** 2 - epy_conv
@@ -264,8 +264,12 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device='cpu',
 
     I = torch.eye(ff_xy, device=device, dtype=type_complex)
 
-    Kx = torch.diag(kx.tile(ff_y).flatten())
-    Ky = torch.diag(ky.reshape((-1, 1)).tile(ff_x).flatten())
+    kx = kx.tile(ff_y).flatten()
+    ky = ky.reshape((-1, 1)).tile(ff_x).flatten()
+    kx = off_cutoff(kx, kx ** 2, epx_conv, epy_conv, epz_conv_i)
+    k_square = kx ** 2 + ky ** 2
+    Kx = torch.diag(off_cutoff(kx, k_square, epx_conv, epy_conv, epz_conv_i))
+    Ky = torch.diag(off_cutoff(ky, k_square, epx_conv, epy_conv, epz_conv_i))
 
     A = Kx ** 2 - epy_conv
     B = Kx @ epz_conv_i @ Kx - I
@@ -559,8 +563,11 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device=torch.device('c
 
     I = torch.eye(ff_xy, device=device, dtype=type_complex)
 
-    Kx = torch.diag(kx.tile(ff_y).flatten())
-    Ky = torch.diag(ky.reshape((-1, 1)).tile(ff_x).flatten())
+    kx = kx.tile(ff_y).flatten()
+    ky = ky.reshape((-1, 1)).tile(ff_x).flatten()
+    k_square = kx ** 2 + ky ** 2
+    Kx = torch.diag(off_cutoff(kx, k_square, epx_conv, epy_conv, epz_conv_i))
+    Ky = torch.diag(off_cutoff(ky, k_square, epx_conv, epy_conv, epz_conv_i))
 
     B = Kx @ epz_conv_i @ Kx - I
     D = Ky @ epz_conv_i @ Ky - I
-- 
2.43.0


From 9444a6c1121f6c4ff57fc518ef54a3b190dfa531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:49 +0000
Subject: [PATCH 23/30] fix: sort material tables by wavelength, which the
 interpolation relies on

---
 meent/on_jax/modeler/modeling.py   | 4 +++-
 meent/on_numpy/modeler/modeling.py | 4 +++-
 meent/on_torch/modeler/modeling.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index fcbff75..1e8f898 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -757,12 +757,14 @@ def read_material_table(nk_path=None, type_complex=jnp.complex128):
             if spec is not None:
                 mat_table[name[:-4].upper()] = spec
                 continue
-            data = np.loadtxt(path, skiprows=1)
+            data = np.loadtxt(path, skiprows=1, ndmin=2)
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp takes ascending wavelengths only
             mat_table[name[:-4].upper()] = type_complex(data)
 
         elif name[-3:] == 'mat':
             from scipy.io import loadmat
             data = loadmat(path)
             data = jnp.array([type_complex(data['WL']), type_complex(data['n']), type_complex(data['k'])])[:, :, 0].T
+            data = data[jnp.argsort(data[:, 0])]
             mat_table[name[:-4].upper()] = data
     return mat_table
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 1d8ac70..d2355cb 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -771,13 +771,15 @@ def read_material_table(nk_path=None, type_complex=np.complex128):
             if spec is not None:
                 mat_table[name[:-4].upper()] = spec
                 continue
-            data = np.loadtxt(path, skiprows=1)
+            data = np.loadtxt(path, skiprows=1, ndmin=2)
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp takes ascending wavelengths only
             mat_table[name[:-4].upper()] = data.astype(type_complex)
 
         elif name[-3:] == 'mat':
             from scipy.io import loadmat
             data = loadmat(path)
             data = np.array([data['WL'], data['n'], data['k']], dtype=type_complex)[:, :, 0].T
+            data = data[np.argsort(data[:, 0])]
             mat_table[name[:-4].upper()] = data
     return mat_table
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 97fb6f7..e4caf08 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -700,12 +700,14 @@ def read_material_table(nk_path=None, type_complex=torch.complex128):
             if spec is not None:
                 mat_table[name[:-4].upper()] = spec
                 continue
-            data = np.loadtxt(path, skiprows=1)
+            data = np.loadtxt(path, skiprows=1, ndmin=2)
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp takes ascending wavelengths only
             mat_table[name[:-4].upper()] = data.astype(type_complex)
 
         elif name[-3:] == 'mat':
             from scipy.io import loadmat
             data = loadmat(path)
             data = np.array([data['WL'], data['n'], data['k']], dtype=type_complex)[:, :, 0].T
+            data = data[np.argsort(data[:, 0])]
             mat_table[name[:-4].upper()] = data
     return mat_table
-- 
2.43.0


From 017efd964beae5c82661ba50a27bb95ebb127329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:58 +0000
Subject: [PATCH 24/30] fix: resolve the occupation step of the graphene model
 at low temperature and photon energy

---
 meent/dispersion.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meent/dispersion.py b/meent/dispersion.py
index fe2c2fd..5de2a9c 100644
--- a/meent/dispersion.py
+++ b/meent/dispersion.py
@@ -193,7 +193,12 @@ def model_graphene_falkovsky(coefficients, wl, xp):
     for index, energy in enumerate(photon_ev):
         half = occupation(energy / 2)
         integrand = lambda z: (occupation(z) - half) / (energy ** 2 - 4 * z * z)
-        interband, _ = quad(integrand, 0, 1000, points=[energy / 2], limit=400)
+        # The occupation steps at the Fermi level within a few kT and the rest decays from there on: name those
+        # scales, or the quadrature samples straight past them at low temperature and photon energy.
+        knee = max(energy / 2, fermi_level)
+        points = [energy / 2, fermi_level, fermi_level - 20 * temperature_ev, fermi_level + 20 * temperature_ev,
+                  2 * knee, 20 * knee]
+        interband, _ = quad(integrand, 0, 1000, points=[z for z in points if 0 < z < 1000], limit=400)
 
         intraband = ((2j * ELEMENTARY_CHARGE ** 2 * temperature_ev)
                      / (np.pi * HBAR * (energy + 1j * scattering))
-- 
2.43.0


From daeb3bf46adc3dab456f0c1311104a0c18c88475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:18 +0000
Subject: [PATCH 25/30] fix: torch keeps its own copy of a numpy cell, which an
 optimizer step would otherwise overwrite

---
 meent/on_torch/emsolver/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 7969bb9..6a3a4e1 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -97,7 +97,7 @@ class RCWATorch(_BaseRCWA):
             self._modeling_type_assigned = 0
             
             if isinstance(ucell, np.ndarray):
-                ucell = torch.from_numpy(ucell)
+                ucell = torch.from_numpy(ucell.copy())  # an optimizer step on the cell must not reach the caller's array
 
             if ucell.dim() == 3:
                 # Isotropic (Layers, H, W): kept as-is. Do NOT expand to (..., 3) with
-- 
2.43.0


From b081ef43c7f62c4bbcf1a2c334434a0476d28e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:18 +0000
Subject: [PATCH 26/30] fix: torch gradient requests no longer add to the ones
 made before

---
 meent/on_torch/optimizer/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index 30084ce..f85cb6d 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -1,3 +1,5 @@
+import torch
+
 from tqdm import tqdm
 
 from ..emsolver.rcwa import RCWATorch
@@ -19,8 +21,9 @@ class OptimizerTorch(Grad):
         [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
         result = forward()  # Forward Prop.
         loss = loss_fn(result)  # Loss
-        loss.backward()  # Back Prop.
-        grad = {poi: getattr(self, poi).grad for poi in pois}  # gradient
+        # Back Prop. Not backward(), which adds to the gradients of earlier calls, the ones already handed out included.
+        grads = torch.autograd.grad(loss, [getattr(self, poi) for poi in pois], allow_unused=True)
+        grad = dict(zip(pois, grads))  # gradient
 
         return grad
 
-- 
2.43.0


From a43ab9096b0ecf841ed2100dadf71b507fa63012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:28 +0000
Subject: [PATCH 27/30] fix: a JAX solver keeps use_pinv when it passes through
 a transformation

---
 meent/on_jax/mee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meent/on_jax/mee.py b/meent/on_jax/mee.py
index ec7edaa..18fbd8d 100644
--- a/meent/on_jax/mee.py
+++ b/meent/on_jax/mee.py
@@ -24,6 +24,7 @@ class MeeJax(ModelingJax, RCWAJax, OptimizerJax):
             'type_complex': self.type_complex,
             'fourier_type': self.fourier_type,
             'enhanced_dfs': self.enhanced_dfs,
+            'use_pinv': self.use_pinv,
         }
 
         return children, aux_data
-- 
2.43.0


From d3e2f37f4ea449ea2b43b2221f43b7c612892c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:45 +0000
Subject: [PATCH 28/30] fix: no host callback for the eigenproblem of the jax
 conical solve on the CPU, where it could deadlock

---
 meent/on_jax/emsolver/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_jax/emsolver/primitives.py b/meent/on_jax/emsolver/primitives.py
index dc08fe8..7c866b3 100644
--- a/meent/on_jax/emsolver/primitives.py
+++ b/meent/on_jax/emsolver/primitives.py
@@ -18,7 +18,8 @@ def eig(x, type_complex=jnp.complex128, perturbation=1E-20, device='cpu'):
     eigenvectors_shape = jax.ShapeDtypeStruct(x.shape, type_complex)
 
     result_shape_dtype = (eigenvalues_shape, eigenvectors_shape)
-    if device == 'cpu':
+    # A callback that itself runs JAX hangs once enough later operations are queued, so keep it for devices without eig.
+    if device == 'cpu' or device[0].platform == 'cpu':
         res = _eig(x)
     else:
         res = jax.pure_callback(_eig, result_shape_dtype, x)
-- 
2.43.0


From 71c8d22121dc6a973325b1251182368ed00232a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:43 +0000
Subject: [PATCH 29/30] fix: field_plot shows the maps returned for conical and
 crossed gratings (one per polarization)

---
 meent/on_jax/emsolver/field_distribution.py   | 5 +++++
 meent/on_numpy/emsolver/field_distribution.py | 5 +++++
 meent/on_torch/emsolver/field_distribution.py | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/meent/on_jax/emsolver/field_distribution.py b/meent/on_jax/emsolver/field_distribution.py
index 2fdb016..8b4bdaa 100644
--- a/meent/on_jax/emsolver/field_distribution.py
+++ b/meent/on_jax/emsolver/field_distribution.py
@@ -277,6 +277,11 @@ def field_plot(field_cell, pol=0, plot_indices=(1, 1, 1, 1, 1, 1), y_slice=0, z_
         print('To use cal_field(), please install matplotlib')
         raise e
 
+    if field_cell.ndim == 5:  # one map per requested polarization
+        for field in field_cell:
+            field_plot(field, pol, plot_indices, y_slice, z_slice, zx, yx)
+        return
+
     if field_cell.shape[-1] == 6:  # 2D grating
         title = ['2D Ex', '2D Ey', '2D Ez', '2D Hx', '2D Hy', '2D Hz', ]
     else:  # 1D grating
diff --git a/meent/on_numpy/emsolver/field_distribution.py b/meent/on_numpy/emsolver/field_distribution.py
index dc56779..1dea131 100644
--- a/meent/on_numpy/emsolver/field_distribution.py
+++ b/meent/on_numpy/emsolver/field_distribution.py
@@ -273,6 +273,11 @@ def field_plot(field_cell, pol=0, plot_indices=(1, 1, 1, 1, 1, 1), y_slice=0, z_
         print('To use cal_field(), please install matplotlib')
         raise e
 
+    if field_cell.ndim == 5:  # one map per requested polarization
+        for field in field_cell:
+            field_plot(field, pol, plot_indices, y_slice, z_slice, zx, yx)
+        return
+
     if field_cell.shape[-1] == 6:  # 2D grating
         title = ['2D Ex', '2D Ey', '2D Ez', '2D Hx', '2D Hy', '2D Hz', ]
     else:  # 1D grating
diff --git a/meent/on_torch/emsolver/field_distribution.py b/meent/on_torch/emsolver/field_distribution.py
index ee8ebb7..682f41a 100644
--- a/meent/on_torch/emsolver/field_distribution.py
+++ b/meent/on_torch/emsolver/field_distribution.py
@@ -373,6 +373,11 @@ def field_plot(field_cell, pol=0, plot_indices=(1, 1, 1, 1, 1, 1), y_slice=0, z_
         print('To use cal_field(), please install matplotlib')
         raise e
 
+    if field_cell.ndim == 5:  # one map per requested polarization
+        for field in field_cell:
+            field_plot(field, pol, plot_indices, y_slice, z_slice, zx, yx)
+        return
+
     if field_cell.shape[-1] == 6:  # standardized Cartesian public field
         title = ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz', ]
     else:  # 1D grating
-- 
2.43.0


From bc856af305553838890b58be759cddbdd825197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:43 +0000
Subject: [PATCH 30/30] fix: torch device names the constructor accepts are
 accepted by the setter it calls

---
 meent/on_torch/emsolver/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 1527c61..ef443db 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -85,9 +85,9 @@ class _BaseRCWA:
 
     @device.setter
     def device(self, device):
-        if device == 0:
+        if device in (0, 'cpu'):
             self._device = torch.device('cpu')
-        elif device == 1:
+        elif device in (1, 'gpu', 'cuda'):
             self._device = torch.device('cuda')
         elif type(device) is torch.device:
             self._device = device
-- 
2.43.0

