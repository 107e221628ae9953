From 4282b2b8a6308f4e6105b5a9c9e3f3eb98a8616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:32 +0000
Subject: [PATCH 01/28] fix: get_frame applies the alive mask like a step does

---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..3a54f95 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -337,6 +337,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..351745b 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -565,6 +565,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From 3012345ba6bf45fbbe60526f3a4b0519a2461186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 02/28] fix: the neural update layer takes the identity and
 neighborhood channels it is fed

---
 yuca/ca/neural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..b5f3248 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -266,7 +266,7 @@ class NCA(CA):
         
         self.weights_layer = nn.Sequential(\
                 nn.Conv2d(\
-                    self.external_channels + self.internal_channels,\
+                    2 * self.internal_channels,\
                     self.hidden_channels, 1, \
                     padding=0, \
                     padding_mode = self.conv_mode, bias=False),\
-- 
2.43.0


From c984871d7fb53a6d922330a478f2be67a686a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 03/28] fix: the adaptive step falls back to min_dt when no
 candidate step reaches it

---
 yuca/code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..71884c4 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -62,6 +62,8 @@ class CODE(CCA):
         keep = False
         
         current_step = min([self.prev_dt * 2, self.max_dt])
+        # no error estimate when every candidate step is below min_dt
+        step_mse = None
         # Don't track gradients while estimating step size
         with torch.no_grad():
 
-- 
2.43.0


From 7f1137913d6a775e996875d886926a8cdba6f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 04/28] fix: difference-of-Gaussians mode 1 maps the whole
 difference to 2v-1

---
 yuca/activations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/activations.py b/yuca/activations.py
index e8332c7..8d9347d 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -369,7 +369,7 @@ class DoGaussian(nn.Module):
                 - (((x-self.dx) - self.mu) / (eps + self.sigma))**2 / 2 )
 
         if self.mode:
-            result = gaussian_1 - gaussian_2 * 2 -1
+            result = (gaussian_1 - gaussian_2) * 2 - 1
         else:
             result = gaussian_1 - gaussian_2
 
-- 
2.43.0


From 1d054d5f05a852640649de2ac1c5242399cf7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 05/28] fix: three-dimensional kernels keep all three of their
 dimensions

---
 yuca/ca/common.py     | 6 ++++--
 yuca/ca/continuous.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 3a54f95..5e2554e 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -94,7 +94,8 @@ class CA(nn.Module):
             elif len(self.id_kernel.shape) == 3:
                 self.id_kernel = torch.reshape(self.id_kernel, \
                         (1, self.id_kernel.shape[0], \
-                        self.id_kernel.shape[1]))
+                        self.id_kernel.shape[1], \
+                        self.id_kernel.shape[2]))
 
         else:
             self.id_kernel = torch.tensor([[[\
@@ -164,7 +165,8 @@ class CA(nn.Module):
         elif len(kernel.shape) == 3:
             kernel = torch.reshape(kernel, \
                     (1, kernel.shape[0], \
-                    kernel.shape[1]))
+                    kernel.shape[1], \
+                    kernel.shape[2]))
 
         kernel_dims = len(kernel.shape)
         
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 351745b..3833b51 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -366,7 +366,8 @@ class CCA(CA):
             elif len(self.id_kernel.shape) == 3:
                 self.id_kernel = torch.reshape(self.id_kernel, \
                         (1, self.id_kernel.shape[0], \
-                        self.id_kernel.shape[1]))
+                        self.id_kernel.shape[1], \
+                        self.id_kernel.shape[2]))
             
 
         else:
-- 
2.43.0


From ef19ecc7201383cf557f0be95e5710d378240c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 06/28] fix: setting a kernel configuration of a neural
 automaton installs the kernel

---
 yuca/ca/neural.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index b5f3248..2afe0af 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -130,6 +130,8 @@ class NCA(CA):
             self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
 
         self.add_neighborhood_kernel(nbhd_kernel)
+        self.initialize_neighborhood_layer()
+        self.to_device(self.my_device)
 
     def load_config(self, config):
 
-- 
2.43.0


From a9f1d549cd8f84537683268cb9f6954b5699cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 07/28] fix: a reaction-diffusion kernel is detached like every
 other family's

---
 yuca/ca/reaction_diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..a1d93d4 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -261,7 +261,7 @@ class RxnDfn(CA):
 
         assert dim_x == dim_y, error_msg
 
-        kernel = torch.cat([kernel, kernel], dim=0)
+        kernel = torch.cat([kernel, kernel], dim=0).detach()
         self.neighborhood_kernels = kernel 
         self.neighborhood_dim = dim_x 
 
-- 
2.43.0


From 322e99e711dae2624ca275b10163f61cb021254f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 08/28] fix: get_bite_mask works for every even image size

The number of elements of np.arange with the fractional step (2r+1)/(2r) depends on
rounding: for images of side 58, 98, 122, ... it had one element too many and the
mask did not fit the image.
---
 yuca/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..c8aaa8b 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -40,9 +40,11 @@ def get_bite_mask(img, bite_radius, coords=None):
     if coords is None:
         coords = np.random.rand(2) * radius
 
-    xx, yy = np.meshgrid(\
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)), \
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)))
+    # exactly 2 * radius coordinates (the length of a np.arange with a 
+    # fractional step is at the mercy of rounding, e.g. for radius 29)
+    coordinates = -radius + np.arange(2 * radius) \
+            * ((2 * radius + 1) / (2 * radius))
+    xx, yy = np.meshgrid(coordinates, coordinates)
 
     grid = np.sqrt((xx-coords[0])**2 + (yy-coords[1])**2) / radius
 
-- 
2.43.0


From 7d028cbe9fdb483e9aba75ce9450bc117f5fc155 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 09/28] fix: prep_input uses the image's channel count by
 default

The default was the size of the image's batch dimension, so multi-channel images
raised a shape mismatch unless external_channels was given.
---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index c8aaa8b..e37b51d 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -68,7 +68,7 @@ def get_aperture(img, aperture_radius):
 def prep_input(img, external_channels=None, \
         batch_size=32, aperture_radius=1.0, bite_radius=0.1, noise_level=0.05):
 
-    external_channels = img.shape[0] if external_channels is None \
+    external_channels = img.shape[1] if external_channels is None \
             else external_channels
 
     batch = torch.zeros(batch_size, external_channels, img.shape[2], img.shape[3])
-- 
2.43.0


From d2a217f46f3ad6da3e39793b92c67d01bbfba42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 10/28] fix: the conditional entropy counts pairs of values

The joint histogram used (a == i) == (b == j), which also counts the cells
where neither value occurs, and absent neighbour values gave 0/0 = nan.
---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..ce8b9da 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -113,7 +113,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     
     for ii in range(p.shape[0]):
         for jj in range(p.shape[1]):
-            p[ii,jj] = np.sum((uint8_grid == ii) == (uint8_grid_shifted == jj))
+            p[ii,jj] = np.sum((uint8_grid == ii) & (uint8_grid_shifted == jj))
     
     # normalize p
     p_su = p / p.sum()
@@ -124,7 +124,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     for kk in range(p_s_given_u.shape[0]):
         for ll in range(p_s_given_u.shape[1]):
             
-            p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
+            p_s_given_u[kk, ll] = p[kk,ll] / (eps + np.sum(p[:,ll]))
             
     
     h = - np.sum( p_su * np.log2( eps+p_s_given_u))
-- 
2.43.0


From 8e5d500d1ac1b304f3235b7a66f82be5009eacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 11/28] fix: elites are carried over from their saved
 parameters

An elite agent that sits in one of the leading places is overwritten by an
earlier elite before its own parameters are read, so the second and later
elites of the new generation could be copies of the first.
---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..0873a25 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -313,7 +313,7 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            self.population[kk].set_params(1.0 * elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From 98b3563884addd7f7c745c4142611e8a28730c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 12/28] fix: the search starts with one population, not two

reset() already initialises the population; initialising it again doubled it.
---
 yuca/cmaes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 0873a25..c0310d4 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -441,7 +441,6 @@ class CMAES():
 
             seed_all(my_seed)
             self.reset()
-            self.initialize_population()
             
             self.generation = 0
 
-- 
2.43.0


From 91f163ab0bf8499b19cdd9cd6089ef20896f7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 13/28] fix: a converged search ranks the generation it
 evaluated

Stopping early ranked the population after it had been resampled, pairing the
fitness values with other parameters (and ranked a last generation twice).
---
 yuca/cmaes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index c0310d4..27ad567 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -516,7 +516,11 @@ class CMAES():
 
 
                 
-                if generation == self.generations - 1:
+                # the last generation is ranked, not resampled, so that its
+                # fitness values stay with the parameters they belong to
+                converged = generation > 6 and np.std(fitness) < 0.02
+
+                if converged or generation == self.generations - 1:
                     self.rank_population(fitness, seed=my_seed)
                 else:
                     self.update_population(fitness)
@@ -560,8 +564,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if converged:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From e341e49094a6d8391d4a7111ddba58710e639750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 14/28] fix: an automaton keeps its own copy of the kernel
 parameters it is given

set_params stored a view of the caller's vector as kernel_params, so editing
that vector later changed what get_params reports while the kernel in use
stayed the same.
---
 yuca/ca/continuous.py | 2 +-
 yuca/ca/neural.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 3833b51..add6156 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -680,7 +680,7 @@ class CCA(CA):
                 param_start = param_stop
 
         param_stop = param_start + self.kernel_params.shape[0]
-        self.kernel_params = params[param_start:param_stop]
+        self.kernel_params = 1.0 * params[param_start:param_stop]
 
         nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
                 parameters=self.kernel_params)
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 2afe0af..4319001 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -358,7 +358,7 @@ class NCA(CA):
 
         if self.kernel_params is not None:
             param_stop = param_start + self.kernel_params.shape[0]
-            self.kernel_params = params[param_start:param_stop]
+            self.kernel_params = 1.0 * params[param_start:param_stop]
 
             nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
                     parameters=self.kernel_params)
-- 
2.43.0


From 23c94d3404b3a8fc511734867325f32ffa8b1ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 15/28] fix: CPPN input grid has 16 features per channel for
 any channel count

The grid and the radius were doubled for every extra channel, so generators
with three or more channels could not produce a pattern.
---
 yuca/cppn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..865f9e6 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -135,9 +135,11 @@ class CPPN(nn.Module):
 
 
 
+        channel_grid, channel_rr = grid, rr
+
         for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+            grid = torch.cat([grid,  channel_grid], dim=1)
+            rr = torch.cat([rr, channel_rr], dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From e4243851aebb4f4f323ab91cfe21bf73ebf0507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 16/28] fix: CPPN agents start from the parameters they are
 given

CMAES builds its agents with params=<sampled vector>, but CPPN ignored the
keyword and kept its random weights, so the initial population and the
restored elites were not the ones sampled or saved.
---
 yuca/cppn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index 865f9e6..7c492e0 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,9 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        if kwargs.get("params") is not None:
+            CPPN.set_params(self, kwargs["params"])
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
-- 
2.43.0


From 6f747602d8ad16c41ced497843dca7853999c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 17/28] fix: ParamsAgent keeps its own copy of its parameters

The agent stored the caller's array and handed out its own, so editing either
one later silently changed the agent (or the caller's vector).
---
 yuca/params_agent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yuca/params_agent.py b/yuca/params_agent.py
index 4c8a4a2..34e92a8 100644
--- a/yuca/params_agent.py
+++ b/yuca/params_agent.py
@@ -17,7 +17,7 @@ class ParamsAgent():
         #        0.2, .015, 0.295, 0.015]) 
 
         if "ca_params" in kwargs.keys():
-            self.params = kwargs["ca_params"]
+            self.params = 1.0 * kwargs["ca_params"]
             self.num_params = self.get_params().shape[0]
         
         elif "num_params" in kwargs.keys():
@@ -27,7 +27,7 @@ class ParamsAgent():
         else:
 
             default_params = np.array([0.15, 0.015, 0.15, 0.020]) #, \
-            self.params = query_kwargs("params", default_params, 
+            self.params = 1.0 * query_kwargs("params", default_params, 
                     **kwargs)
             self.num_params = self.params.shape[0]
 
@@ -41,11 +41,11 @@ class ParamsAgent():
             # filters for evolving universes with gaussian update functions
             self.params = np.abs(self.params)
 
-        return self.params
+        return 1.0 * self.params
 
     def get_params(self):
 
-        return self.params
+        return 1.0 * self.params
 
     def set_params(self, params):
 
@@ -58,7 +58,7 @@ class ParamsAgent():
             params = np.clip(params, 0.0001, 1.0)
             #params[2] = np.clip(params[2], 0.005, 1.0)
 
-        self.params = params
+        self.params = 1.0 * params
 
     def to_device(self, device):
 
-- 
2.43.0


From 5f14b220f3a9135bd4c7c7eb334b254eb36eaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 18/28] fix: CPPN features of the smallest grids are finite

On a 3 by 3 grid the peak of two radial features is exactly 0, so normalising
them turned the whole input grid and every pattern into NaN.
---
 yuca/cppn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index 7c492e0..a698269 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -68,9 +68,10 @@ class CPPN(nn.Module):
         sinr_8 = np.sin(rr*np.pi*8) 
         sinr_4 = np.sin(rr*np.pi*4) 
 
-        sinr_16r /= sinr_16r.max()
-        sinr_8r /= sinr_8r.max()
-        sinr_4r /= sinr_4r.max()
+        # (the peak can be 0 on very small grids)
+        sinr_16r /= sinr_16r.max() + (sinr_16r.max() == 0)
+        sinr_8r /= sinr_8r.max() + (sinr_8r.max() == 0)
+        sinr_4r /= sinr_4r.max() + (sinr_4r.max() == 0)
 
         sinr_16 /= sinr_16.max()
         sinr_8 /= sinr_8.max()
-- 
2.43.0


From 7507d575e87d7cc1aa04c5e1e53dc299d9faf8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 19/28] fix: a saved configuration is loaded with its identity
 kernel

---
 yuca/ca/continuous.py         | 4 +++-
 yuca/ca/neural.py             | 4 +++-
 yuca/ca/reaction_diffusion.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index add6156..b1971ec 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -110,8 +110,10 @@ class CCA(CA):
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
+            self.id_kernel_config = None
             self.add_identity_kernel()
         else: 
+            self.id_kernel_config = config["identity_kernel_config"]
             id_kernel = get_kernel(config["identity_kernel_config"])
             self.add_identity_kernel(kernel = id_kernel)
 
@@ -237,7 +239,7 @@ class CCA(CA):
 
         #    persistence_config["parameters"] = self.get_persistence_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
         config["persistence_config"] = persistence_config
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 4319001..e818e60 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -142,8 +142,10 @@ class NCA(CA):
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
+            self.id_kernel_config = None
             self.add_identity_kernel()
         else: 
+            self.id_kernel_config = config["identity_kernel_config"]
             id_kernel = get_kernel(config["identity_kernel_config"])
             self.add_identity_kernel(kernel = id_kernel)
 
@@ -236,7 +238,7 @@ class NCA(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         if "dt" not in config.keys():
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index a1d93d4..8184f61 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -78,8 +78,10 @@ class RxnDfn(CA):
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
+            self.id_kernel_config = None
             self.add_identity_kernel()
         else: 
+            self.id_kernel_config = config["identity_kernel_config"]
             id_kernel = get_kernel(config["identity_kernel_config"])
             self.add_identity_kernel(kernel = id_kernel)
 
@@ -180,7 +182,7 @@ class RxnDfn(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         config["dt"] = self.dt.item() 
-- 
2.43.0


From fb65fcb678b10877ab96ee7ce6f30fb77b067937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 20/28] fix: the kernel configuration follows the parameters

---
 yuca/ca/continuous.py |  4 ++++
 yuca/ca/neural.py     | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index b1971ec..050fa78 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -687,6 +687,10 @@ class CCA(CA):
         nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
                 parameters=self.kernel_params)
 
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "radius": self.kernel_radius, \
+                "kernel_kwargs": {"parameters": self.kernel_params}}
+
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
         self.to_device(self.my_device)
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index e818e60..abb142e 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -173,7 +173,14 @@ class NCA(CA):
 
         self.initialize_weight_layer()
 
+        kernel_config = self.neighborhood_kernel_config
+
         self.set_params(config["params"])
+
+        # setting parameters builds a Gaussian mixture kernel
+        if kernel_config["name"] != "GaussianMixture":
+            self.set_kernel_config(kernel_config)
+
         self.include_parameters()
 
     def restore_config(self, filepath, verbose=True):
@@ -365,6 +372,10 @@ class NCA(CA):
             nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
                     parameters=self.kernel_params)
 
+            self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                    "radius": self.kernel_radius, \
+                    "kernel_kwargs": {"parameters": self.kernel_params}}
+
             self.add_neighborhood_kernel(nbhd_kernel)
             self.initialize_neighborhood_layer()
             self.to_device(self.my_device)
-- 
2.43.0


From 45dcbad5e4f63cf4fc26d08f0db22fce6599461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 21/28] fix: a saved configuration holds the update functions
 as they are

---
 yuca/ca/continuous.py | 86 ++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 050fa78..5711602 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -128,8 +128,20 @@ class CCA(CA):
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
         self.initialize_neighborhood_layer()
 
-        self.add_genesis_fn(config["genesis_config"])
-        self.add_persistence_fn(config["persistence_config"])
+        # one function, or a list with a function for each channel
+        genesis_configs = config["genesis_config"]
+        if type(genesis_configs) is not list:
+            genesis_configs = [genesis_configs]
+
+        persistence_configs = config["persistence_config"]
+        if type(persistence_configs) is not list:
+            persistence_configs = [persistence_configs]
+
+        for genesis_config in genesis_configs:
+            self.add_genesis_fn(genesis_config)
+
+        for persistence_config in persistence_configs:
+            self.add_persistence_fn(persistence_config)
 
         self.genesis_fn_config = config["genesis_config"]
         self.persistence_fn_config = config["persistence_config"]
@@ -174,6 +186,46 @@ class CCA(CA):
             print(f"attempted to read {filepath}, not found")
             #assert False, f"{filepath} not found"
         
+    def get_fn_config(self, fns):
+        """
+        configuration of a list of update functions, as used in load_config: 
+        a dictionary for one function, a list of dictionaries otherwise
+        """
+
+        configs = []
+
+        for fn in fns:
+
+            config = {"name": type(fn).__name__}
+
+            if type(fn) is GaussianMixture:
+                config["parameters"] = []
+                for amplitude, gaussian in zip(fn.amplitudes, fn.gaussians):
+                    config["parameters"].append(amplitude.item())
+                    config["parameters"].append(gaussian.mu.item())
+                    config["parameters"].append(gaussian.sigma.item())
+
+            elif type(fn) is SmoothIntervals:
+                config["parameters"] = fn.intervals
+                config["alpha"] = fn.alpha
+
+            elif type(fn) is Polynomial:
+                config["coefficients"] = fn.coefficients.detach().clone()
+
+            elif type(fn) in [Gaussian, DoubleGaussian, DoGaussian]:
+                config["mu"] = fn.mu.detach().clone()
+                config["sigma"] = fn.sigma.detach().clone()
+
+            if type(fn) is DoGaussian:
+                config["dx"] = fn.dx
+
+            if hasattr(fn, "mode"):
+                config["mode"] = fn.mode
+
+            configs.append(config)
+
+        return configs[0] if len(configs) == 1 else configs
+
     def make_config(self):
 
         config = {}
@@ -208,36 +260,10 @@ class CCA(CA):
         # config for genesis and persistence functions
 
         # genesis 
-        if self.genesis_fn_config is None:
-            print("genesis fn config is missing, assuming GaussianMixture")
-            #assert False,  "not implemented exception"
-            genesis_config = {"name": "GaussianMixture", \
-                    "parameters": np.array([0.15000001, 0.015     ]), \
-                    "mode": 1}
-            self.genesis_fn_config = genesis_config
-        else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
-
-        #if "parameters" in genesis_config.keys():
-
-        #    genesis_config["parameters"] = self.get_genesis_params()
+        genesis_config = self.get_fn_config(self.genesis_fns)
             
         # persistence
-        if self.persistence_fn_config is None:
-            print("persistence fn config is missing, assuming GaussianMixture")
-            #assert False,  "not implemented exception"
-            persistence_config = {"name": "GaussianMixture", \
-                    "parameters": np.array([0.15000001, 0.015     ]), \
-                    "mode": 1}
-            self.persistence_fn_config = persistence_config
-        else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
-
-        #if "parameters" in persistence_config.keys():
-
-        #    persistence_config["parameters"] = self.get_persistence_params()
+        persistence_config = self.get_fn_config(self.persistence_fns)
             
         config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
-- 
2.43.0


From e457657bb6655fcaf06f0cded9de9b8ef7530472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 22/28] fix: automata that load the same configuration do not
 share it

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 4 +++-
 yuca/ca/neural.py             | 6 ++++--
 yuca/ca/reaction_diffusion.py | 2 ++
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 5e2554e..6793f0e 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -286,7 +286,7 @@ class CA(nn.Module):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
             self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 5711602..36009af 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -101,6 +101,8 @@ class CCA(CA):
 
     def load_config(self, config):
 
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             self.__init__(**config["instant_kwargs"])
 
@@ -274,7 +276,7 @@ class CCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels, and all kwargs for instantiating ca
-        config["instant_kwargs"] = self.instant_kwargs
+        config["instant_kwargs"] = dict(self.instant_kwargs)
 
         config["instant_kwargs"]["kernel_radius"] = self.kernel_radius
         config["instant_kwargs"]["kernel_peaks"] = self.kernel_peaks
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index abb142e..3f83060 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -123,7 +123,7 @@ class NCA(CA):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
@@ -135,6 +135,8 @@ class NCA(CA):
 
     def load_config(self, config):
 
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             self.__init__(**config["instant_kwargs"])
 
@@ -252,7 +254,7 @@ class NCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels
-        config["instant_kwargs"] = self.instant_kwargs
+        config["instant_kwargs"] = dict(self.instant_kwargs)
         config["instant_kwargs"]["activation"] = str(self.act).split("'")[1].split(".")[-1]
         config["instant_kwargs"]["dropout_rate"] = self.dropout_rate
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 8184f61..ca13f2a 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -75,6 +75,8 @@ class RxnDfn(CA):
 
     def load_config(self, config, verbose=False):
 
+        config = copy.deepcopy(config)
+
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
-- 
2.43.0


From 8d4a8cdfc0d547600038c02be3dc6c50aa4905a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 23/28] fix: Gray-Scott automata load the radius of their
 kernel

---
 yuca/ca/reaction_diffusion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index ca13f2a..e81a2ef 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -91,6 +91,7 @@ class RxnDfn(CA):
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.kernel_radius = self.neighborhood_kernel_config["radius"]
 
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
-- 
2.43.0


From b48b43c1644d5140119ecefa786e4630a719d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 24/28] fix: neural automata load kernels that have a single
 parameter

---
 yuca/ca/common.py |  2 +-
 yuca/ca/neural.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 6793f0e..db0e99d 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -279,7 +279,7 @@ class CA(nn.Module):
 
         for key in kernel_kwargs.keys():
             if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
+                self.kernel_params = np.array(kernel_kwargs[key]).reshape(-1)
             else:
                 self.kernel_params = np.append(self.kernel_params, \
                         np.array(kernel_kwargs[key]))
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 3f83060..0692eda 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -87,7 +87,7 @@ class NCA(CA):
 
         for key in kernel_kwargs.keys():
             if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
+                self.kernel_params = np.array(kernel_kwargs[key]).reshape(-1)
             else:
                 self.kernel_params = np.append(self.kernel_params, \
                         np.array(kernel_kwargs[key]))
@@ -175,13 +175,13 @@ class NCA(CA):
 
         self.initialize_weight_layer()
 
-        kernel_config = self.neighborhood_kernel_config
-
-        self.set_params(config["params"])
-
-        # setting parameters builds a Gaussian mixture kernel
-        if kernel_config["name"] != "GaussianMixture":
-            self.set_kernel_config(kernel_config)
+        if self.neighborhood_kernel_config["name"] != "GaussianMixture":
+            # only a Gaussian mixture kernel is built from `params`
+            kernel_params, self.kernel_params = self.kernel_params, None
+            self.set_params(config["params"])
+            self.kernel_params = kernel_params
+        else:
+            self.set_params(config["params"])
 
         self.include_parameters()
 
-- 
2.43.0


From 8a1c17f5ca459183bb4b9bc6ac9820ba87f3fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 25/28] fix: halting rewards start from a reset automaton

---
 yuca/wrappers/halting_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..26f5306 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -60,7 +60,7 @@ class SimpleHaltingWrapper(nn.Module):
     def step(self, action):
     
         self.ca.set_params(action)
-
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim).to(self.ca.my_device)
@@ -278,6 +278,7 @@ class HaltingWrapper(nn.Module):
             self.optimizer.step()
 
         self.eval()
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim, device=self.my_device)
-- 
2.43.0


From f691c509b5794b26a5c2555aae38d143b5b64c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:11 +0000
Subject: [PATCH 26/28] fix: librarian records ca_config when it is not verbose

---
 yuca/zoo/librarian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..896efd5 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -65,9 +65,10 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
-                print(f"warning, no config supplied for {pattern_name}")
+        if config_name == "unspecified":
+            if ca_config == "unspecified":
+                if self.verbose:
+                    print(f"warning, no config supplied for {pattern_name}")
             else:
                 config_name = ca_config
 
-- 
2.43.0


From 4240e86dabbfdf25a44c30e18077869b2ade3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:11 +0000
Subject: [PATCH 27/28] fix: librarian loads metadata as it was stored

---
 yuca/zoo/librarian.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 896efd5..887e663 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -96,25 +96,21 @@ class Librarian():
 
         pattern = np.load(file_path)
 
+        metadata = {}
         with open(meta_path) as f:
-            metadata = f.readlines()
-
-            ca_config = metadata[0].split(",")[1]
-
-            try:
-                entry_point = metadata[3].split(",")[1]
-            except:
-                entry_point = "none"
-
-            try:
-                notes = metadata[2].split(",")[1]
-            except:
-                notes = ""
-
-            try:
-                commit_hash = metadata[1].split(",")[1]
-            except:
-                commit_hash = "none"
+            for line in f:
+                # values may contain commas themselves
+                key, _, value = line.rstrip("\n").partition(",")
+                metadata[key] = value
+
+        ca_config = metadata["ca_config"]
+        entry_point = metadata.get("entry_point", "none")
+        commit_hash = metadata.get("commit_hash", "none")
+
+        notes = metadata.get("notes", "")
+        if notes.startswith(" "):
+            # notes are written after a comma and a space
+            notes = notes[1:]
 
         if self.verbose:
             print(f"pattern {pattern_name} loaded from {file_path}")
-- 
2.43.0


From fa57ea549b8fa899f62ac1ec845f7d80f47dd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:11 +0000
Subject: [PATCH 28/28] fix: librarian index lists every stored pattern

---
 yuca/zoo/librarian.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 887e663..1207d89 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -26,18 +26,8 @@ class Librarian():
         update the list of (string) names of patterns in the zoo directory
         """
 
-        pattern_names = os.listdir(self.directory)
-
-        remove_list = []
-        for elem in pattern_names:
-            if ".py" in elem \
-                    or ".ipynb" in elem \
-                    or "csv" in elem \
-                    or "__pycache__" in elem:
-                remove_list.append(elem)
-                
-        for elem in remove_list:
-            pattern_names.remove(elem)
+        pattern_names = [elem for elem in os.listdir(self.directory) \
+                if os.path.splitext(elem)[1] == ".npy"]
 
         pattern_names = [os.path.splitext(elem)[0] for elem in pattern_names]
 
@@ -79,6 +69,7 @@ class Librarian():
             f.write(f"\nentry_point,{entry_point}")
 
         np.save(file_path, pattern) 
+        self.update_index()
 
         if self.verbose:
             print(f"pattern {pattern_name} saved to {file_path}")
-- 
2.43.0

