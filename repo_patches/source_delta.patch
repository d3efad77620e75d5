From 8416a11844597d85678cbdf6d16d9b811937fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 01/19] fix: do not overwrite the argument tensor in
 bessel2ndDer

The NumPy array passed in shares memory with the saved torch tensor, so
zeros of the caller's tensor were replaced by 1e-10 during backward.
---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d09ec3..e943dc4 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -67,7 +67,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z[z == 0] = 1e-10
+    z = np.where(z == 0, 1e-10, z)  # copy: `z` may share memory with a torch tensor
     z = np.nan_to_num(z, nan=1e-10)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
-- 
2.43.0


From 53d3f957e787b8d40a9d2b268b6db36ba15b6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 02/19] fix: accept integer n_add in sph_jn_torch_via_rec and
 D1n_torch

The documented integer value failed with AttributeError ('int' object has
no attribute 'lower').
---
 src/pymiediff/special.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index e943dc4..200169b 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -753,7 +753,7 @@ def sph_jn_torch_via_rec(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if isinstance(n_add, str) and n_add.lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
@@ -1250,7 +1250,7 @@ def D1n_torch(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if isinstance(n_add, str) and n_add.lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
-- 
2.43.0


From 760493dcf5ee39ac257264cd7efbbb387d09cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 03/19] fix: small-argument branch of sph_jn_torch for
 multi-dimensional z

The order axis kept the dimensionality of z, so any multi-dimensional z
with small entries failed with a shape mismatch; log(2) was evaluated in
single precision.
---
 src/pymiediff/special.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 200169b..e8bdf73 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -844,17 +844,17 @@ def sph_jn_torch(
         z_small = z_flat[idx_small]  # shape (S_small,)
 
         # double-factorial: log((2n+1)!!) = lgamma(2n+2) - n*log(2) - lgamma(n+1)
-        n_arr = _n.to(dtype_f)
+        n_arr = _n.reshape(-1, 1).to(dtype_f)  # shape (n_max+1, 1)
         log_dd = (
             torch.lgamma(2.0 * n_arr + 2.0)
-            - n_arr * torch.log(torch.tensor(2.0))
+            - n_arr * float(np.log(2.0))
             - torch.lgamma(n_arr + 1.0)
         )
         dd = torch.exp(log_dd).to(dtype_f)
 
         # leading-term series (very small z)
-        zpow = z_small.unsqueeze(0) ** _n.to(dtype_c)  # shape (n_max+1, S_small)
-        jn_small = zpow / dd.to(dtype_c).unsqueeze(0)
+        zpow = z_small.unsqueeze(0) ** n_arr.to(dtype_c)  # shape (n_max+1, S_small)
+        jn_small = zpow / dd.to(dtype_c)
 
         # for n==0, j0 = 1 (z^0 / 1 ), correct; for exact z==0, higher orders are zero
         jns_flat[:, idx_small] = jn_small
-- 
2.43.0


From 355e40f292bd69494cf57a7dfb8179eb21109f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 04/19] fix: do not serve cached permittivities for
 differentiable wavelengths

The evaluation cache dropped the wavelength gradient when the wavelength
had been evaluated before, and kept (already freed) graphs of earlier
evaluations alive.
---
 src/pymiediff/materials/mat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index eaece00..9e63d69 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -384,6 +384,11 @@ class MatDatabase(MaterialBase):
         return eps
 
     def _get_eps_single_wl(self, wavelength):
+        # never cache evaluations that are part of a gradient graph
+        if torch.is_tensor(wavelength) and wavelength.requires_grad:
+            _eps = self._eval(wavelength)
+            return torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
+
         # memoize evaluations
         wl_key = float(wavelength)
 
-- 
2.43.0


From 9ab86bdf9b77e1e07c0fa29632573a1f3cfaa82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 05/19] fix: list_available_materials(verbose=True) raised
 TypeError

The database entries are [path, name] lists, not paths.
---
 src/pymiediff/materials/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 9e63d69..582c4e7 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -33,7 +33,7 @@ def list_available_materials(verbose=False):
     """Return all keys for the database materials"""
     if verbose:
         for f in REFINDEX_DATA:
-            print("{}: ".format(f, pathlib.Path(REFINDEX_DATA[f]).name))
+            print("{}: {}".format(f, pathlib.Path(REFINDEX_DATA[f][0]).name))
     return [f for f in REFINDEX_DATA]
 
 
-- 
2.43.0


From 4b172ef1f79bcab9c65edc07263a67bb043ab437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 06/19] fix: material plot methods imported a module that does
 not exist

plot_epsilon and plot_refractive_index failed with ModuleNotFoundError
(pymiediff.helper.plotting).
---
 src/pymiediff/materials/mat.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 582c4e7..0c1b06e 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -67,6 +67,15 @@ def _load_formula(dat_str):
     return model_type, wl_range, coeff
 
 
+def _get_axis_existing_or_new_axes():
+    """Return ``(axes, is_new)``: current matplotlib axes or newly created ones."""
+    import matplotlib.pyplot as plt
+
+    if len(plt.get_fignums()) == 0:
+        return plt.subplots()[1], True
+    return plt.gca(), False
+
+
 # --- material defining base class
 class MaterialBase:
     """base class for material permittivity"""
@@ -97,7 +106,6 @@ class MaterialBase:
             tensor_comp (list, optional): permittivity tensor component indices. Defaults to [0, 0].
         """
         import matplotlib.pyplot as plt
-        from pymiediff.helper.plotting import _get_axis_existing_or_new_axes
         from pymiediff.helper import detach_tensor
 
         eps = self.get_epsilon(wavelengths)
@@ -131,7 +139,6 @@ class MaterialBase:
             tensor_comp (list, optional): refractive index tensor component indices. Defaults to [0, 0].
         """
         import matplotlib.pyplot as plt
-        from pymiediff.helper.plotting import _get_axis_existing_or_new_axes
         from pymiediff.helper import detach_tensor
         
 
-- 
2.43.0


From c6465cca4a949318dbad1d2617aa61e8069c41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 07/19] fix: MatDatabase.set_device left the wavelength range
 on the old device

---
 src/pymiediff/materials/mat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 0c1b06e..e517970 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -358,6 +358,7 @@ class MatDatabase(MaterialBase):
         super().set_device(device)
         self.wl_dat = self.wl_dat.to(device)
         self.eps_dat = self.eps_dat.to(device)
+        self.wl_range = [torch.as_tensor(w).to(device) for w in self.wl_range]
 
         # transfer the lookup table
         for _w in self.lookup_eps:
-- 
2.43.0


From 24780f00002044ea5a12dc53062f8b12fd2f4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 08/19] fix: keep Mie order prefactors in double precision
 (angular scattering, near fields)

---
 src/pymiediff/multishell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7c432ec..b6f2c41 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -963,6 +963,7 @@ def angular_scattering(
     pi_n = pi_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
     tau_n = tau_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
     n = n.unsqueeze(-1).unsqueeze(-1).unsqueeze(-1)  # add dim N_part, N_k0, N_theta
+    n = n.to(dtype=a_n.real.dtype)  # avoid rounding of integer division to float32
     a_n = a_n.unsqueeze(-1)
     b_n = b_n.unsqueeze(-1)
 
@@ -1181,7 +1182,7 @@ def nearfields(
         theta_sh = theta.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
         phi_sh = phi.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
 
-        n = n.view((-1,) + (r_sh.ndim - 1) * (1,))
+        n = n.view((-1,) + (r_sh.ndim - 1) * (1,)).to(dtype=a_ext.real.dtype)
         En = 1j**n * E_0 * (2 * n + 1) / (n * (n + 1))
 
         # evaluate VSH per region medium (0..L-1 layers, L outside env)
@@ -1386,7 +1387,7 @@ def nearfields(
     theta = theta.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
 
     # add particle, wavenumber, position, vector dimensions
-    n = n.view((-1,) + (r.ndim - 1) * (1,))
+    n = n.view((-1,) + (r.ndim - 1) * (1,)).to(dtype=a_n.real.dtype)
 
     # evaluate vector spherical harmonics
     # Note: this is not optimum as all VSH are evaluated for all positions
-- 
2.43.0


From 640a9c02e9d21811b7f7d20efd374c75cc84db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 09/19] fix: compute plane wave expansion coefficients in
 double precision

---
 src/pymiediff/helper/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 75578d1..e15c0dc 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -167,7 +167,7 @@ def plane_wave_expansion(n):
         n_max = int(n)
     assert n_max >= 0
 
-    n_all = torch.arange(1, n_max + 1)
+    n_all = torch.arange(1, n_max + 1, dtype=torch.float64)
 
     a_pw_n = 1j**n_all * (2 * n_all + 1) / (n_all * (n_all + 1))
 
-- 
2.43.0


From 9035d40b640d63f998b7cf4a19423a31af8abd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 10/19] fix: create the default host permittivity on the device
 of the wavenumbers

---
 src/pymiediff/multishell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index b6f2c41..68a6168 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -618,7 +618,7 @@ def _broadcast_mie_layers(k0, r_layers, eps_layers, eps_env):
     else:
         raise ValueError("`eps_layers` must be 1D, 2D, or 3D.")
 
-    eps_env = torch.as_tensor(eps_env)
+    eps_env = torch.as_tensor(eps_env, device=k0.device)
     eps_env = torch.atleast_1d(eps_env)
     if eps_env.ndim != 1:
         raise ValueError("`eps_env` must be scalar or 1D.")
-- 
2.43.0


From 7481532e34f75d206ab97a3d08bd3f3ab72d9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 11/19] fix: align per-layer indices and radii in torch/scipy
 near fields

---
 src/pymiediff/multishell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 68a6168..21b3282 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1366,6 +1366,11 @@ def nearfields(
     kc = kc.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     ks = ks.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     n_sourrounding = n_sourrounding.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_env = n_sourrounding
+    n_core = n_core.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_shell = n_shell.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_c = r_c.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_s = r_s.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
 
     # add position, vector dim
     a_n = a_n.unsqueeze(-1).unsqueeze(-1)
-- 
2.43.0


From ae920810e83abf6309a534a332c53fae9063eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 12/19] fix: the n_env override of the torchgdm bridge crashed
 for its documented type

---
 src/pymiediff/helper/tg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 26ca5c4..2aad316 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -179,7 +179,7 @@ def mie_ab_sphere_3d_AD(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        eps_env = torch.full_like(eps_env, n_env**2)
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # --- get Mie coefficients from pymiediff particle
@@ -510,7 +510,7 @@ def extract_GPM_sphere_miediff(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        eps_env = torch.full_like(eps_env, n_env**2)
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # full radius
-- 
2.43.0


From 334c95d1ae3cdcf5f4e85f3572bf2344a8c27d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 13/19] fix: keep the Mie order axis last in
 mie_ab_sphere_3d_AD for n_max=1

---
 src/pymiediff/helper/tg.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 2aad316..8a53b3b 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -185,13 +185,9 @@ def mie_ab_sphere_3d_AD(
     # --- get Mie coefficients from pymiediff particle
     miecoeff = mie_particle.get_mie_coefficients(k0=k0, n_max=n_max, backend=backend)
 
-    a_n = miecoeff["a_n"]
-    b_n = miecoeff["b_n"]
-
-    if a_n.ndim == 1:  # single wl
-        a_n = a_n.unsqueeze(1)  # add empty wavelength dimension
-    if b_n.ndim == 1:
-        b_n = b_n.unsqueeze(1)
+    # (Mie order, wavelengths), also if size-one axes were squeezed
+    a_n = miecoeff["a_n"].reshape(-1, len(wavelengths))
+    b_n = miecoeff["b_n"].reshape(-1, len(wavelengths))
 
     a_n = a_n.moveaxis(0, 1)
     b_n = b_n.moveaxis(0, 1)  # move Mie-order last
-- 
2.43.0


From 16aa084e4813c26330f3b9842745e1a90404de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 14/19] fix: rotation matrices of the torchgdm bridge dropped
 the gradient of the angle

---
 src/pymiediff/helper/tg.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 8a53b3b..f87ef56 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -230,11 +230,10 @@ def rotation_x(alpha, device="cpu", DTYPE_FLOAT=torch.float32):
     alpha = torch.as_tensor(alpha, dtype=DTYPE_FLOAT, device=device)
     s = torch.sin(alpha)
     c = torch.cos(alpha)
-    rot_x = torch.as_tensor(
-        [[1, 0, 0], [0, c, -s], [0, s, c]],
-        dtype=DTYPE_FLOAT,
-        device=device,
-    )
+    zero, one = torch.zeros_like(alpha), torch.ones_like(alpha)
+    rot_x = torch.stack(
+        [one, zero, zero, zero, c, -s, zero, s, c]
+    ).reshape(3, 3)
     return rot_x
 
 
@@ -258,11 +257,10 @@ def rotation_y(alpha, device="cpu", DTYPE_FLOAT=torch.float32):
     alpha = torch.as_tensor(alpha, dtype=DTYPE_FLOAT, device=device)
     s = torch.sin(alpha)
     c = torch.cos(alpha)
-    rot_y = torch.as_tensor(
-        [[c, 0, s], [0, 1, 0], [-s, 0, c]],
-        dtype=DTYPE_FLOAT,
-        device=device,
-    )
+    zero, one = torch.zeros_like(alpha), torch.ones_like(alpha)
+    rot_y = torch.stack(
+        [c, zero, s, zero, one, zero, -s, zero, c]
+    ).reshape(3, 3)
     return rot_y
 
 
@@ -286,11 +284,10 @@ def rotation_z(alpha, device="cpu", DTYPE_FLOAT=torch.float32):
     alpha = torch.as_tensor(alpha, dtype=DTYPE_FLOAT, device=device)
     s = torch.sin(alpha)
     c = torch.cos(alpha)
-    rot_z = torch.as_tensor(
-        [[c, -s, 0], [s, c, 0], [0, 0, 1]],
-        dtype=DTYPE_FLOAT,
-        device=device,
-    )
+    zero, one = torch.zeros_like(alpha), torch.ones_like(alpha)
+    rot_z = torch.stack(
+        [c, -s, zero, s, c, zero, zero, zero, one]
+    ).reshape(3, 3)
     return rot_z
 
 
-- 
2.43.0


From 2f2f4d7193e73e90e9903ad5e63b4a8266d17746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:52 +0000
Subject: [PATCH 15/19] fix: accept a constant material for several particles
 in the legacy core-shell arguments

---
 src/pymiediff/multishell.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 21b3282..f3d04e8 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -515,12 +515,20 @@ def _as_layer_inputs(r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None):
     eps_c_t = torch.as_tensor(eps_c)
     eps_s_t = torch.as_tensor(eps_s)
 
+    # a single value holds for every particle and wavelength
+    if eps_c_t.numel() == 1:
+        eps_c_t = eps_c_t.reshape(())
+    if eps_s_t.numel() == 1:
+        eps_s_t = eps_s_t.reshape(())
+    if eps_c_t.ndim == 0 or eps_s_t.ndim == 0:
+        eps_c_t, eps_s_t = torch.broadcast_tensors(eps_c_t, eps_s_t)
+
     # choose L=1 when core and shell are exactly equal, otherwise L=2
     if torch.equal(r_c_t, r_s_t):
         r_layers = r_c_t.unsqueeze(-1)
         if eps_c_t.ndim == 0:
-            # single particle, constant epsilon: (N_part, L)
-            eps_layers = eps_c_t.view(1, 1)
+            # constant epsilon: (L,)
+            eps_layers = eps_c_t.view(1)
         elif eps_c_t.ndim == 1:
             if eps_c_t.shape == r_c_t.shape and r_c_t.numel() > 1:
                 # per-particle constant epsilon: (N_part, L)
@@ -534,8 +542,8 @@ def _as_layer_inputs(r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None):
     else:
         r_layers = torch.stack((r_c_t, r_s_t), dim=-1)
         if eps_c_t.ndim == 0:
-            # single particle, constant eps in both regions: (N_part, L)
-            eps_layers = torch.stack((eps_c_t, eps_s_t), dim=0).unsqueeze(0)
+            # constant eps in both regions: (L,)
+            eps_layers = torch.stack((eps_c_t, eps_s_t), dim=0)
         elif eps_c_t.ndim == 1:
             if eps_c_t.shape == r_c_t.shape and r_c_t.numel() > 1:
                 # per-particle constant eps: (N_part, L)
-- 
2.43.0


From 2c7ba589b477a44b11cd22182958f1c1a0f0e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:52 +0000
Subject: [PATCH 16/19] fix: angular functions accept non-contiguous arguments

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index e8bdf73..0f06d6f 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1094,7 +1094,7 @@ def pi_tau(n: int, mu: torch.Tensor, **kwargs):
 
     # keep original shape to reshape later
     orig_shape = mu.shape
-    mu_flat = mu.view(-1)  # 1D for iteration
+    mu_flat = mu.reshape(-1)  # 1D for iteration
     L = mu_flat.shape[0]
 
     # build pi/tau without in-place writes (autograd-safe)
-- 
2.43.0


From 7b520b8ec177520631f83b12363407461298e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 17/19] fix: angular scattering for a single scalar angle mixed
 up the order and particle axes

---
 src/pymiediff/multishell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index f3d04e8..7157549 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -956,6 +956,9 @@ def angular_scattering(
     a_n = miecoeff["a_n"]
     b_n = miecoeff["b_n"]
 
+    theta = torch.atleast_1d(torch.as_tensor(theta, device=k0.device))
+    if theta.ndim != 1:
+        raise ValueError("`theta` must be scalar or 1D.")
     mu = torch.cos(theta)
     pi_n, tau_n = special.pi_tau(n_max, mu)  # shape: N_teta, n_Mie_order
     pi_n = pi_n[1:]  # Mie orders 1 - n (no zero order)
-- 
2.43.0


From 0b7b3e21911bd5931c97b4b6af76031cd4ee6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 18/19] fix: near fields with precision='single' failed for
 mixed input precisions

---
 src/pymiediff/multishell.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7157549..09756f2 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1266,8 +1266,8 @@ def nearfields(
                     - a_l * M3_e[li]
                 )
 
-            Es[masks[li]] = E_l[masks[li]]
-            Hs[masks[li]] = H_l[masks[li]]
+            Es[masks[li]] = E_l[masks[li]].to(Es.dtype)
+            Hs[masks[li]] = H_l[masks[li]].to(Hs.dtype)
 
         # convert to Cartesian and sum over Mie orders
         Es_xyz = transform_fields_spherical_to_cartesian(
@@ -1440,9 +1440,9 @@ def nearfields(
     Es_3 = En * (1j * a_n * N3_e1n - b_n * M3_o1n)
 
     Es = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Es[idx_1] = Es_1[idx_1]
-    Es[idx_2] = Es_2[idx_2]
-    Es[idx_3] = Es_3[idx_3]
+    Es[idx_1] = Es_1[idx_1].to(Es.dtype)
+    Es[idx_2] = Es_2[idx_2].to(Es.dtype)
+    Es[idx_3] = Es_3[idx_3].to(Es.dtype)
 
     # magnetic fields (relative to H0)
     Hs_1 = -n_core * En * (d_n * M1_e1n_c + 1j * c_n * N1_o1n_c)
@@ -1458,9 +1458,9 @@ def nearfields(
     Hs_3 = En*n_env * (1j * b_n * N3_o1n + a_n * M3_e1n)
 
     Hs = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Hs[idx_1] = Hs_1[idx_1]
-    Hs[idx_2] = Hs_2[idx_2]
-    Hs[idx_3] = Hs_3[idx_3]
+    Hs[idx_1] = Hs_1[idx_1].to(Hs.dtype)
+    Hs[idx_2] = Hs_2[idx_2].to(Hs.dtype)
+    Hs[idx_3] = Hs_3[idx_3].to(Hs.dtype)
 
     # convert to Cartesian
     Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From 487d80c2f9d8be846844f9b9f5a1ab46c15a3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:25 +0000
Subject: [PATCH 19/19] fix: instantiating a bridge class without torchgdm
 raises the missing-dependency error

---
 src/pymiediff/helper/tg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index f87ef56..41b10a3 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -58,6 +58,7 @@ if _tg_available is None:
                 "The optional dependency 'torchgdm' is required for "
                 "'pymiediff.helper.tg' Install it via `pip install torchgdm`."
             )
+            raise self
 
     StructAutodiffMieEffPola3D = _MissingDependency
     StructAutodiffMieGPM3D = _MissingDependency
-- 
2.43.0

