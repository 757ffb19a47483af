From 541fca4292e016bc5bf2b82ec00d823294c1d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 01/24] fix: renormalize R and T by the same sum in the
 spectrum loss

---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..2de94f7 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            total = prod_R + prod_T
+            prod_R = prod_R / total
+            prod_T = prod_T / total
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From 9249bf47c2e24608afcd64b8b80f59623a63b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 02/24] fix: reject negative entries in list-valued config keys

---
 nidn/utils/validate_config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..4a3e8f1 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -153,7 +153,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -164,10 +163,10 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(value > 0.0 for value in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
-        if not (all(cfg[key]) >= 0.0):
+        if not all(value >= 0.0 for value in cfg[key]):
             raise RuntimeError(
                 f"All elements in {key} must be a positive integer or zero"
             )
-- 
2.43.0


From a828a36aa9581bf59c3c4e73d06a5c011eabeea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 03/24] fix: reject unknown solvers and model types instead of
 returning None

---
 nidn/utils/compute_spectrum.py | 4 ++++
 nidn/utils/validate_config.py  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/nidn/utils/compute_spectrum.py b/nidn/utils/compute_spectrum.py
index 8b339bd..a17c86b 100644
--- a/nidn/utils/compute_spectrum.py
+++ b/nidn/utils/compute_spectrum.py
@@ -25,3 +25,7 @@ def compute_spectrum(eps_grid, cfg, validate_cfg=True):
     elif cfg.solver == "TRCWA":
         logger.debug("Using TRCWA solver to find spectrum")
         return compute_spectrum_trcwa(eps_grid, cfg)
+    else:
+        raise NotImplementedError(
+            f"Solver {cfg.solver} is not implemented. Available are FDTD and TRCWA."
+        )
diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 4a3e8f1..6bf6fd4 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -147,6 +147,11 @@ def _check_value_ranges(cfg: DotMap):
     if cfg.type != "classification" and cfg.type != "regression":
         raise RuntimeError(f"type must be either 'classification' or 'regression'")
 
+    if not cfg.solver in ["FDTD", "TRCWA"]:
+        raise RuntimeError(f"solver must be either 'FDTD' or 'TRCWA'")
+    if not cfg.model_type in ["nerf", "siren", "voxel"]:
+        raise RuntimeError(f"model_type must be 'nerf', 'siren' or 'voxel'")
+
     if not cfg.TRCWA_L_grid[1][0] < cfg.TRCWA_L_grid[1][1]:
         raise RuntimeError(f"TRCWA_L_grid dim1 must be ordered from low to high")
     if not cfg.TRCWA_L_grid[0][0] > cfg.TRCWA_L_grid[0][1]:
-- 
2.43.0


From c3d21095968d9a870861cb79c1a90f59f1e697a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 04/24] fix: snapshot the initial model state instead of
 aliasing the live weights

---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..60723e5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -95,7 +95,7 @@ def run_training(
 
     # And store the best results
     best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
-- 
2.43.0


From 6985f991a9cb4f52e4ddb427bcff3b487b48ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 05/24] fix: shift the imaginary permittivity by its configured
 minimum

---
 nidn/training/model/model_to_eps_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..0804ead 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -195,7 +195,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
-        eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
+        eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
+        eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
 
-- 
2.43.0


From adf0efe50b8c0fb0954e104557776425ab8ee6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 06/24] fix: apply avoid_zero_eps to every regression grid,
 after noise

---
 nidn/training/model/model_to_eps_grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 0804ead..e8e9b04 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -190,9 +190,6 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        if run_cfg.avoid_zero_eps:
-            _avoid_zero_eps(eps)
-
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
@@ -217,6 +214,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
         eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
+    if run_cfg.avoid_zero_eps:
+        _avoid_zero_eps(eps)
+
     return eps
 
 
-- 
2.43.0


From 7e1f5f6b4a334c5aa901ee16aeb897af7c0f3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 07/24] fix: print_cfg failed on values without format support

---
 nidn/utils/print_cfg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/utils/print_cfg.py b/nidn/utils/print_cfg.py
index ac040b7..b9d05a4 100644
--- a/nidn/utils/print_cfg.py
+++ b/nidn/utils/print_cfg.py
@@ -21,8 +21,8 @@ def print_cfg(cfg: DotMap):
             print()
         else:
             if idx % 3 == 2:
-                print(f"{key:<23}: {value:<15}|")
+                print(f"{key:<23}: {str(value):<15}|")
             else:
-                print(f"{key:<23}: {value:<15}|", end="")
+                print(f"{key:<23}: {str(value):<15}|", end="")
         idx += 1
     print()
-- 
2.43.0


From e87704b2a2098551cf85fd8b4eac4b7fc4dd0cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:48 +0000
Subject: [PATCH 08/24] fix: keep the frequency axis of the material table for
 a single frequency

---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..5991026 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From 4282c8b9d5f39e4b06df6c1b4aab94b6f9dc876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:48 +0000
Subject: [PATCH 09/24] fix: load materials in a deterministic order

---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 5991026..0b951e3 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -57,7 +57,7 @@ class MaterialCollection:
         logger.trace(f"Loading materials from folder: {self.materials_folder}")
 
         # Load materials data
-        files = glob(self.materials_folder + "/*.csv")
+        files = sorted(glob(self.materials_folder + "/*.csv"))
         logger.debug("Found the following files")
         logger.debug(files)
 
-- 
2.43.0


From 7e793c79bb8090ed3a17504cafb4b6544732932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 10/24] fix: ricker point source assigned its signal to a
 misspelled name

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From f36cf9ff7d216003b122d9c24a48365be081bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 11/24] fix: named SoftArbitraryPointSource used its detector
 name before assignment

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index df9ea76..b061ac1 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -616,7 +616,7 @@ class SoftArbitraryPointSource:
         self.x, self.y, self.z = grid._handle_tuple((x, y, z))
 
         if self.name is not None:
-            detector_name += "_I"
+            detector_name = self.name + "_I"
         else:
             detector_name = None
 
-- 
2.43.0


From 7d8ef368e6561f765d055c540c772727010adab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 12/24] fix: transient removal crashed on signals of exactly
 two windows

---
 .../calculate_transmission_reflection_coefficients.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 723e9d3..db1cdb1 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -309,7 +309,7 @@ def _eliminate_transient_part(signal, wavelength, cfg, is_freespace=False, plot=
 
     # Check signal is still long enough
     signal_length = len(signal)
-    if signal_length < 2 * window_size:
+    if signal_length <= 2 * window_size:
         logger.error(
             "FDTD Signal is too short to compute R,T,A. Please increase FDTD_niter in the config. Aborting transient removal."
         )
-- 
2.43.0


From fe0ccef8de750f106ac18ee9c7ae05ae848ff5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 13/24] fix: negative Fourier components of the permittivity
 were set to zero

---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..9f8482e 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -32,7 +32,7 @@ def Epsilon_fft(dN, eps_grid, G):
     # Set very small components to zero for torch
     for i in range(eps2.shape[0]):
         for j in range(eps2.shape[1]):
-            if eps2[i][j].real < 1e-14 and eps2[i][j].imag < 1e-14:
+            if eps2[i][j].real.abs() < 1e-14 and eps2[i][j].imag.abs() < 1e-14:
                 eps2[i][j] = 0 + 0j
 
     return epsinv, eps2
-- 
2.43.0


From 2a8ec32f5197c0318dbfd468a570bd9a1232150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 14/24] fix: get_ifft called a function torch does not have

---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index 9f8482e..ec0bf1f 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -83,5 +83,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
-- 
2.43.0


From d438f30b8fff53f911fdaca1de4163f637bbe963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:30 +0000
Subject: [PATCH 15/24] fix: NERF skip connection only where a following layer
 expects it

---
 nidn/training/utils/nerf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/utils/nerf.py b/nidn/training/utils/nerf.py
index 0f5ab59..9657aae 100644
--- a/nidn/training/utils/nerf.py
+++ b/nidn/training/utils/nerf.py
@@ -56,7 +56,7 @@ class NERF(nn.Module):
         # compute all other layers and apply skip where requested
         for layer_idx in range(1, len(self.net)):
             out = self.net[layer_idx].forward(out)
-            if layer_idx in self.skip:
+            if layer_idx in self.skip and layer_idx < len(self.net) - 2:
                 out = torch.cat([out, identity], dim=1)
 
         return out
-- 
2.43.0


From 5f5076ebeacafb3f77c4d1c5be9ca49f77ab500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 16/24] fix: field and interior-mode queries called functions
 torch does not have

---
 nidn/trcwa/trcwa.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..1e3f66d 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -276,7 +276,7 @@ class TRCWA:
         # patterned layer
         elif self.id_list[i][0] == 1:
             if component == "zz":
-                epk = torch.inv(self.Patterned_epinv_list[self.id_list[i][2]])
+                epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
@@ -451,7 +451,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -504,7 +504,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if isinstance(Nxy, type(None)):
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -524,7 +524,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             eh = eh[0]
         return eh
 
@@ -862,7 +862,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
-- 
2.43.0


From 25d0d12b8501a364be191c07aec5f2e8f604ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 17/24] fix: Gmeshgrid could not build its grid from tensors

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 1e3f66d..c63e837 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -989,6 +989,6 @@ def Gmeshgrid(x):
     qj = []
     for i in range(N):
         qj.append(x)
-    qj = torch.tensor(qj)
+    qj = torch.stack(qj)
     qi = torch_transpose(qj)
     return qi, qj
-- 
2.43.0


From 18c36ac14d4a002afe43975d6aabcbc046e8a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 18/24] fix: rectangular Fourier truncation called torch
 functions on Python ints

---
 nidn/trcwa/utils/kbloch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index fc7f0dd..f92982b 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -61,13 +61,13 @@ def Gsel_parallelogramic(nG, Lk1, Lk2):
     v = torch.norm(Lk2)
     uv = torch.dot(Lk1, Lk2)
 
-    NGroot = int(torch.sqrt(nG))
-    if torch.mod(NGroot, 2) == 0:
+    NGroot = int(np.sqrt(nG))
+    if NGroot % 2 == 0:
         NGroot -= 1
 
     M = NGroot // 2
 
-    xG = range(-M, NGroot - M)
+    xG = torch.tensor(range(-M, NGroot - M))
     G1, G2 = torch.meshgrid(xG, xG, indexing="ij")
     G1 = G1.flatten()
     G2 = G2.flatten()
-- 
2.43.0


From d3e6343248aa8d0898700eb909569c87435b624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 19/24] fix: patterned layers with Nx=3 were taken for an
 anisotropic permittivity

---
 nidn/trcwa/trcwa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index c63e837..40a263d 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -227,14 +227,14 @@ class TRCWA:
             Ny = self.GridLayer_Nxy_list[ptri][1]
             dN = 1.0 / Nx / Ny
 
-            if len(ep_all) == 3 and ep_all[0].ndim > 0:
+            if torch.is_tensor(ep_all) and ep_all.ndim == 3:
+                ep_grid = ep_all[:, :, i - 1]
+            elif len(ep_all) == 3 and ep_all[0].ndim > 0:
                 ep_grid = [
                     torch.reshape(ep_all[0][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[2][ptr : ptr + Nx * Ny], [Nx, Ny]),
                 ]
-            elif len(ep_all.shape) == 3:
-                ep_grid = ep_all[:, :, i - 1]
             else:
                 ep_grid = torch.reshape(
                     torch.tensor(ep_all[ptr : ptr + Nx * Ny]), [Nx, Ny]
-- 
2.43.0


From 764dbc6fce80f0e0cd4c195355aa58afc35951e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 20/24] fix: keep the x axis of patterned layers with Nx=1

---
 nidn/trcwa/init_trcwa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/init_trcwa.py b/nidn/trcwa/init_trcwa.py
index 5a56ddb..fbf38a4 100644
--- a/nidn/trcwa/init_trcwa.py
+++ b/nidn/trcwa/init_trcwa.py
@@ -20,8 +20,9 @@ def _init_trcwa(eps_grid, target_frequency, run_cfg):
     Nx, Ny, N_layers = eps_grid.shape[0:3]
 
     # Squeeze out Nx=1, Ny=1 dimension (for uniform layer)
-    eps_grid = eps_grid.squeeze(0)  # squeeze X
-    eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
+    if Nx == 1 and Ny == 1:
+        eps_grid = eps_grid.squeeze(0)  # squeeze X
+        eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
 
     # Adding a small imaginary part to the frequency to avoid singularities in RCWA
     # See page 2 of arxiv.org/pdf/2005.04840v1.pdf
-- 
2.43.0


From d6874e253cf6b648034ba32f765421ff7658b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 21/24] fix: plot_model_grid_per_freq failed with fewer than
 four frequencies

---
 nidn/plots/plot_model_grid_per_freq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index 41041b2..1a11cd1 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -5,15 +5,17 @@ from ..utils.convert_units import freq_to_wl
 from ..training.model.model_to_eps_grid import model_to_eps_grid
 
 
-def plot_model_grid_per_freq(run_cfg, freq_idx=[0, 1, 2, 3], save_path=None):
+def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
     """Plots the real and imaginary part of the permittivity in two separate plots for
     frequencies in target_frequencies defined by freq_idx. Optionally saves it.
 
     Args:
         run_cfg (dict): The run configuration.
-        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to [0, 1, 2, 3].
+        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to the first four (or all, if there are fewer).
         save_path (str, optional): Folder to save the plot in. Defaults to None, then the plot will not be saved.
     """
+    if freq_idx is None:
+        freq_idx = list(range(min(4, run_cfg.N_freq)))
     Nx, Ny, N_layers = run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers
     eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
 
-- 
2.43.0


From 183082f079154ef92441b812087b342291b0dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:18 +0000
Subject: [PATCH 22/24] fix: current detector counted one H_y difference twice
 in its average

---
 nidn/fdtd/detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/detectors.py b/nidn/fdtd/detectors.py
index f0f9998..4bc4e48 100644
--- a/nidn/fdtd/detectors.py
+++ b/nidn/fdtd/detectors.py
@@ -454,7 +454,7 @@ class CurrentDetector:
             (self.grid.H[px, py - 1, pz - 1, FDTD_X])
             - (self.grid.H[px, py, pz - 1, FDTD_X])
         ) * self.grid.grid_spacing
-        current_vector_2 += (
+        current_vector_2 = (
             (self.grid.H[px, py, pz - 1, FDTD_Y])
             - (self.grid.H[px - 1, py, pz - 1, FDTD_Y])
         ) * self.grid.grid_spacing
-- 
2.43.0


From 20f860dc9c93b8668174710356892af9f31a6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:39 +0000
Subject: [PATCH 23/24] fix: keep the gradient of flat permittivity lists in
 GridLayer_geteps

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 40a263d..1425475 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -237,7 +237,7 @@ class TRCWA:
                 ]
             else:
                 ep_grid = torch.reshape(
-                    torch.tensor(ep_all[ptr : ptr + Nx * Ny]), [Nx, Ny]
+                    torch.as_tensor(ep_all[ptr : ptr + Nx * Ny]), [Nx, Ny]
                 )
 
             epinv, ep2 = Epsilon_fft(dN, ep_grid, self.G)
-- 
2.43.0


From 9f8ac23cbfda49d1957c1ba6004befb4d90ab176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:03 +0000
Subject: [PATCH 24/24] fix: let gradients flow through noisy regression grids

---
 nidn/training/model/model_to_eps_grid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index e8e9b04..2258008 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -199,20 +199,22 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-        eps.real += (
+        noise = (
             (torch.randn_like(eps.real) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.real_max_eps - run_cfg.real_min_eps)
         )
-        eps.real = eps.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
-        eps.imag += (
+        # clip a new tensor, clipping the part of eps itself breaks the backward pass
+        eps.real = (eps.real + noise).clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
+        noise = (
             (torch.randn_like(eps.imag) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         )
-        eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
+        # clip a new tensor, clipping the part of eps itself breaks the backward pass
+        eps.imag = (eps.imag + noise).clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
     if run_cfg.avoid_zero_eps:
         _avoid_zero_eps(eps)
-- 
2.43.0

