From f493efc90129909c2dd295c02290b75fa16ed1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:10 +0000
Subject: [PATCH 01/70] fix: log-determinant of the transform no longer
 underflows in many dimensions

---
 forcepho/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 18f637e..f051b40 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -583,8 +583,8 @@ class Transform(object):
     def lndetjac(self, z):
         """ln(|dq/dz|)
         """
-        return np.log(np.abs(np.prod(self.jacobian(z))))
-        # return np.sum(np.log(self.jacobian(z)))
+        # sum the logs; the product of many small terms underflows
+        return np.sum(np.log(np.abs(self.jacobian(z))))
 
     def lndetjac_grad(self, z):
         return np.zeros(len(z))
-- 
2.43.0


From 8b281b3acc0b1277316556c7d36b07e91b090242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:32 +0000
Subject: [PATCH 02/70] fix: cache a copy of the evaluated position, not a
 reference to the caller's array

---
 forcepho/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index f051b40..b5f05d4 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -345,7 +345,8 @@ class FastPosterior(Posterior):
         # Assumes Jacobian is diagonal
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian
         self._q = q
-        self._z = z
+        # copy, so that later in-place changes by the caller do not look cached
+        self._z = np.array(z)
         # do volume correction when sampling
         if self.sampling:
             self._lnp += self._lndetjac
@@ -462,7 +463,8 @@ class SlowPosterior(Posterior):
         # gradient vector with a Jacobian matrix, but for now the jacobian is diagonal so this works
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
         self._q = q
-        self._z = z
+        # copy, so that later in-place changes by the caller do not look cached
+        self._z = np.array(z)
 
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
-- 
2.43.0


From 3d007afd2cb841a2a1c6b6111135d5cd729ac55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:32 +0000
Subject: [PATCH 03/70] fix: switching the volume correction on or off
 invalidates the cached probability

---
 forcepho/model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/forcepho/model.py b/forcepho/model.py
index b5f05d4..3205dc2 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -299,6 +299,18 @@ class FastPosterior(Posterior):
             self.lnp_history = []
             self.grad_history = []
 
+    @property
+    def sampling(self):
+        """Whether to include the volume correction in lnp.
+        """
+        return self._sampling
+
+    @sampling.setter
+    def sampling(self, value):
+        self._sampling = value
+        # cached lnp was computed for the previous mode
+        self._z = -99
+
     def evaluate(self, z):
         """Compute the log-likelihood and its gradient, using the GPU propsoer
         object.  These are then cached.
-- 
2.43.0


From d00015e8150d0b29e9f002f9b2e32af685d097df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:32 +0000
Subject: [PATCH 04/70] fix: accept parameter bounds that are all zero on one
 side

---
 forcepho/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 3205dc2..99274cf 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -62,7 +62,8 @@ class Posterior:
         self.ncall = 0
         self.ndof = 1.0
 
-        if (np.any(kwargs.get('lower')) and np.any(kwargs.get('upper'))) == bool(kwargs.get('transform')):
+        has_bounds = (kwargs.get('lower') is not None) and (kwargs.get('upper') is not None)
+        if has_bounds == (kwargs.get('transform') is not None):
             raise ValueError('Must specify either "transform" or ("lower","upper")')
 
         transform = kwargs.pop('transform', None)
-- 
2.43.0


From 9dc0a819839a6e3132bc728c8b4e4c92b4cc5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:50 +0000
Subject: [PATCH 05/70] fix: patch.render() returns the model image of every
 exposure instead of raising

---
 forcepho/patches/device_patch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 00e9a5f..73d7da0 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -247,11 +247,13 @@ class DevicePatchMixin:
 
         proposal = scene.get_proposal()
         orig, self.return_residual = self.return_residual, True
-        ret = proposer.evaluate_proposal(proposal, patch=self, unpack=True)
-        self.return_residual = True
+        _ = self.send_to_device()
+        ret = proposer.evaluate_proposal(proposal, patch=self, unpack=False)
+        self.return_residual = orig
         chi2, chi2_derivs, residuals = ret
-        image = -residuals
-        return image
+        # residual = data - model
+        image = self.retrieve_array("data") - residuals
+        return proposer.unpack_residuals(image, self)
 
     def free(self):
         pass
-- 
2.43.0


From 5bb3d0365c0e93586819beb4733c35a9bc04eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:33 +0000
Subject: [PATCH 06/70] fix: subtract_fixed() without active sources no longer
 shifts the last block's coordinates twice

---
 forcepho/patches/device_patch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 73d7da0..4e0c49c 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -3,6 +3,8 @@
 """device_patch.py - mix-in classes containing methods for communicating with GPU or CPU device
 """
 
+from copy import deepcopy
+
 import numpy as np
 
 from ..sources import Scene, Galaxy
@@ -155,7 +157,8 @@ class DevicePatchMixin:
         else:
             print("Warning: The meta-data will be for a scene already subtracted from the GPU-side data array!")
             assert swap_local
-            scenes.append(scenes[-1])
+            # a separate copy, because packing shifts the scene coordinates in place
+            scenes.append(deepcopy(scenes[-1]))
 
         assert len(scenes) > 0, "No scenes to prepare!"
 
-- 
2.43.0


From 603c2f1c6944329e5b67759ffe7e0f9e2c3df733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:47 +0000
Subject: [PATCH 07/70] fix: StorePatch loads the WCSes of its metastore, so
 that exposures can be found

---
 forcepho/patches/pixel_patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index d0f3d58..c8bd3cc 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -250,7 +250,7 @@ class StorePatch(PixelPatch):
                          splinedata=splinedata,
                          spline_smoothing=spline_smoothing)
 
-        self.metastore = MetaStore(metastore)
+        self.metastore = MetaStore(metastore, load_all=True)
         self.pixelstore = PixelStore(pixelstore)
 
     def find_exposures(self, region, bandlist):
-- 
2.43.0


From ac5dae2aba8b1a571b30ee56168aa9d713f60149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:47 +0000
Subject: [PATCH 08/70] fix: DirectPatch finds its exposures in header_dict, in
 the requested band order

---
 forcepho/patches/pixel_patch.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index c8bd3cc..a457e81 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -531,17 +531,16 @@ class DirectPatch(PixelPatch):
         self.unc = None
 
     def find_exposures(self, region, bandlist, do_check=True):
-        epaths = list(self.wcs_dict.keys())
-        bands, hdrs, wcses = [], [], []
-
-        for epath in epaths:
-            hdr = self.header_dict[epath]
-            wcs = WCS(hdr)
-            band = hdr["FILTER"]
+        epaths, bands, hdrs, wcses = [], [], [], []
 
-            wcses.append(wcs)
-            bands.append(band)
-            hdrs.append(hdr)
+        for band in bandlist:
+            for epath, hdr in self.header_dict.items():
+                if hdr["FILTER"] != band:
+                    continue
+                wcses.append(WCS(hdr))
+                epaths.append(epath)
+                bands.append(band)
+                hdrs.append(hdr)
 
         return hdrs, wcses, epaths, bands
 
-- 
2.43.0


From 1335853246e37e1d4a28575da795c18b7e3a5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:47 +0000
Subject: [PATCH 09/70] fix: MetaStore.find_exposures uses the true upper right
 corner of non-square images

---
 forcepho/patches/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 1e6b5c4..7d36142 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -468,7 +468,7 @@ class MetaStore:
                 imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                 bbox = np.array([[0, 0],
                                  [0, imsize[1]],
-                                 [imsize[0], imsize[0]],
+                                 [imsize[0], imsize[1]],
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
-- 
2.43.0


From 227b333dc620126c1c59baf30aaec3adb3485df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:47 +0000
Subject: [PATCH 10/70] fix: a new MetaStore can be searched before it was
 written to file

---
 forcepho/patches/storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 7d36142..24cc921 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -313,6 +313,7 @@ class MetaStore:
     def __init__(self, metastorefile=None, use_gwcs=False, load_all=False):
         self.headers = {}
         self.tree = {}
+        self.wcs = {}
         if metastorefile is not None:
             self.headers = self.read_from_file(metastorefile)
             # GWCS?
-- 
2.43.0


From a83267df1fbe0fff28d4a2f82bbb34a01a3dbf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:32 +0000
Subject: [PATCH 11/70] fix: PixelStore.add_exposure no longer overwrites the
 caller's images

---
 forcepho/patches/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 24cc921..b30aa8d 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -169,8 +169,9 @@ class PixelStore:
         hdr = imset.hdr
         band, expID = imset.band, imset.expID
 
-        im = imset.im
-        ierr = imset.ierr
+        # work on copies, so that the caller's images are left alone
+        im = np.array(imset.im)
+        ierr = np.array(imset.ierr)
         # -- backgound subtract ---
         if imset.bkg is not None:
             bkg = imset.bkg
-- 
2.43.0


From 57bc95d8cdc97078ad14ff04c182ffded4afd03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:32 +0000
Subject: [PATCH 12/70] fix: integer masks without a bitmask flag the masked
 pixels instead of whole rows

---
 forcepho/patches/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index b30aa8d..bb3ba87 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -184,8 +184,8 @@ class PixelStore:
             pmask = imset.mask
             if bitmask:
                 # just check that any of the bad bits are set
-                pmask = np.bitwise_and(pmask, bitmask) != 0
-            mask = mask | pmask
+                pmask = np.bitwise_and(pmask, bitmask)
+            mask = mask | (pmask != 0)
         ierr[mask] = 0
         im[mask] = 0
         # let masked pixels provide a sampling of the subtracted background
-- 
2.43.0


From 3d3a201b169377fb809e4b5d51e4c9fb6f60b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:32 +0000
Subject: [PATCH 13/70] fix: replacing an exposure in the MetaStore drops its
 cached WCS

---
 forcepho/patches/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index bb3ba87..bea9ba4 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -370,6 +370,8 @@ class MetaStore:
         if band not in self.headers:
             self.headers[band] = {}
         self.headers[band][expID] = hdr
+        # a WCS cached for a previous version of this exposure is now stale
+        self.wcs.get(band, {}).pop(expID, None)
         if hasattr(imset, "gwcs"):
             if band not in self.tree:
                 self.tree[band] = {}
-- 
2.43.0


From 43acd574a005d86c28df5fdc1369d150a77a4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 14/70] fix: seed weights are zero for sources that are being
 worked on (bitwise not of integer flags)

---
 forcepho/superscene.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccab493..5a539fa 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -468,8 +468,11 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for inactive, zero if active
-        w = (~self.sourcecat["is_valid"]).astype(np.float64)
+        # just one for valid, zero if already in a patch
+        w = (self.sourcecat["is_valid"] > 0).astype(np.float64)
+        if not np.any(w):
+            # nothing is available; any choice will be refused at checkout
+            w += 1.0
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
@@ -479,7 +482,10 @@ class SuperScene:
 
     def sigmoid_weight(self):
         # just one for inactive, zero if active
-        w = (~self.sourcecat["is_active"]).astype(np.float32)
+        w = (self.sourcecat["is_active"] == 0).astype(np.float32)
+        if not np.any(w):
+            # nothing is available; any choice will be refused at checkout
+            w += 1.0
 
         # multiply by something inversely correlated with niter
         # sigmoid ?  This is ~ 0.5 at niter ~ntarget
-- 
2.43.0


From e316cffef729a8364a4b5facca69bf36d174dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 15/70] fix: checking in a patch does not mark its fixed
 sources as valid while they are active in another patch

---
 forcepho/superscene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 5a539fa..f7a5517 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -317,7 +317,8 @@ class SuperScene:
         self.sourcecat["is_active"][active_inds] = False
         self.sourcecat["n_patch"][active_inds] += int(niter > 0)
         self.sourcecat["is_valid"][active_inds] = True
-        self.sourcecat["is_valid"][fixed_inds] = True
+        # fixed sources may have become active in another patch meanwhile
+        self.sourcecat["is_valid"][fixed_inds] = self.sourcecat["is_active"][fixed_inds] == 0
 
         self.n_active -= len(active_inds)
         self.n_fixed -= len(fixed_inds)
-- 
2.43.0


From 4d16459abaa8ebaedda1204e509235560c84ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 16/70] fix: linked scenes never activate a source that is
 already active in another patch

---
 forcepho/superscene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index f7a5517..7e4fc10 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -612,6 +612,9 @@ class LinkedSuperScene(SuperScene):
                     active_inds += to_add[:n_avail]
                 break
             active_inds += to_add
+        # associations can extend to sources that are active in another patch
+        if np.any(self.sourcecat[active_inds]["is_active"]):
+            return (seed["ra"], seed["dec"]), None, None
         active = self.sourcecat[active_inds]
 
         # now redetermine the region center and the radius
-- 
2.43.0


From 4e9015dbb2ad6d0694f1535e64e0ccb70f2caa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 17/70] fix: flux_bounds of a source with zero flux bracket the
 flux instead of being NaN or zero-width

---
 forcepho/superscene.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 7e4fc10..f4c1580 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -958,11 +958,9 @@ def flux_bounds(flux, unc1, snr_max=10, precisions=None):
 
     else:
         # this is wierd
-        snr = np.sqrt(np.abs(flux)) / unc1
-        #snr = np.minimum(snr, snr_max)
-
+        # i.e. snr = np.sqrt(np.abs(flux)) / unc1
         fmin = (unc1 / 2.)**2
-        noise = np.abs(flux) / snr
+        noise = np.sqrt(np.abs(flux)) * unc1
         lo = flux - noise
         hi = flux + noise
 
-- 
2.43.0


From e926249b1634972105dd719745686dea47f2980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 18/70] fix: make_bounds accepts a position half-width per
 source, as documented

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index f4c1580..71e7d07 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -855,7 +855,7 @@ def make_bounds(active, filternames, shapenames=Galaxy.SHAPE_COLS, unccat=None,
         dpos = np.ones(2) * n_pix * pixscale
 
     dra = dpos[0] / 3600. / np.cos(np.deg2rad(active["dec"]))
-    ddec = np.array([dpos[1] / 3600.])
+    ddec = dpos[1] / 3600. * np.ones(len(active))
 
     # Make empty bounds catalog
     colnames = filternames + shapenames
-- 
2.43.0


From bed7724ff746f493e0397876b9af84de14fb0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 19/70] fix: adjust_bounds uses the scene's existing source
 catalog attribute

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 71e7d07..9b6e4e3 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -981,7 +981,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         scat = active
     else:
         bcat = sceneDB.bounds_catalog
-        scat = sceneDB.source_catalog
+        scat = sceneDB.sourcecat
 
     if minflux is None:
         minflux = config.minflux
-- 
2.43.0


From bc0619c463bde4abd404f63ce694d13c38f9481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 20/70] fix: adjust_bounds clips fluxes to the upper bound
 instead of below the lower bound

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 9b6e4e3..188b848 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -1003,7 +1003,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         for b in bands:
             active[b][:] = np.clip(active[b][:],
                                    bcat[b][:, 0] + eps,
-                                   bcat[b][:, 0] - eps)
+                                   bcat[b][:, 1] - eps)
 
     if not isinstance(sceneDB, np.ndarray):
         sceneDB.check_bounds()
-- 
2.43.0


From 399ba245abd07f1183ae0c3551dcbc4540c0148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 21/70] fix: convert_pa leaves angles that are already between
 -pi/2 and pi/2 alone

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 188b848..d92da80 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -1032,7 +1032,7 @@ def convert_pa(pa_in, from_deg=False, rotate=False, reverse=False, max_try=4):
     count = 0
     while count < max_try:
         p = pa > np.pi / 2
-        n = pa < np.pi / 2
+        n = pa < -np.pi / 2
         if (p.sum() == 0) & (n.sum() == 0):
             break
         else:
-- 
2.43.0


From 2838622f7ff14e236e7fcbc835a3eaa644c55517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:15 +0000
Subject: [PATCH 22/70] fix: find_overlaps returns an empty index array when
 nothing is near

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index d92da80..ead5d6c 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -718,7 +718,7 @@ class LinkedSuperScene(SuperScene):
             order = np.argsort(metric[overlaps])
         else:
             order = slice(None)
-        return np.array(kinds)[overlaps][order]
+        return np.array(kinds, dtype=int)[overlaps][order]
 
     def overlap_circle(self, ra, dec, radius):
         """Get all sources with an roi that overlaps the given circle on the
-- 
2.43.0


From f479b66d13ffa2f046c8529dd38e9336c5b372f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:36 +0000
Subject: [PATCH 23/70] fix: seed weights exclude the active sources, and only
 those

---
 forcepho/superscene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ead5d6c..f172e26 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -469,8 +469,8 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for valid, zero if already in a patch
-        w = (self.sourcecat["is_valid"] > 0).astype(np.float64)
+        # just one for inactive, zero if active
+        w = (self.sourcecat["is_active"] == 0).astype(np.float64)
         if not np.any(w):
             # nothing is available; any choice will be refused at checkout
             w += 1.0
-- 
2.43.0


From e92f63337614ef2cb90bbe45f0fc0de130d73ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:28 +0000
Subject: [PATCH 24/70] fix: options given as --key=value or abbreviated on the
 command line are no longer ignored

---
 forcepho/config.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index e641006..813c2c6 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -266,13 +266,16 @@ def rectify_config(config):
 
 
 def new_args(parser, argv):
-    nconf = Namespace()
-    oconf = parser.parse_args(argv)
-    for k, v in vars(oconf).items():
-        #if v == parset.get_default(k):
-        if f"--{k}" not in argv:  # Ugly HACK
-            continue
-        setattr(nconf, k, v)
+    # Hide the defaults, so that only what is really in argv gets set, however
+    # it is spelled (--key value, --key=value, abbreviations, ...)
+    defaults = [(action, action.default) for action in parser._actions]
+    try:
+        for action, _ in defaults:
+            action.default = argparse.SUPPRESS
+        nconf = parser.parse_args(argv)
+    finally:
+        for action, default in defaults:
+            action.default = default
     return nconf
 
 
-- 
2.43.0


From 4e533ad671c0e095fed57179383363418baf98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:28 +0000
Subject: [PATCH 25/70] fix: default_config_file writes the default
 configuration (it used undefined names)

---
 forcepho/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 813c2c6..b07078d 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -137,13 +137,13 @@ def preprocess_config_parser():
 
 def default_config_file(filename="", **kwargs):
     parser = main_config_parser(**kwargs)
-    config = parser.parse_args()
+    config = parser.parse_args([])
     import yaml
-    configtext = yaml.dumps(vars(config))
+    configtext = yaml.dump(vars(config))
     if filename:
         with open(filename, "w") as cfile:
-            cfile.write(ctext)
-    return cfile
+            cfile.write(configtext)
+    return configtext
 
 
 def parse_all(parser, argv):
-- 
2.43.0


From d4cb2f57d93780408eeed1313f53a014d23fe6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:28 +0000
Subject: [PATCH 26/70] fix: yaml_to_namespace accepts a dictionary, as
 documented

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index b07078d..9d434ca 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -210,7 +210,7 @@ def yaml_to_namespace(config_file):
         with open(config_file) as f:
             config_dict = yaml.load(f, Loader=yaml.Loader)
     elif type(config_file) is dict:
-        config_dict = yaml.load(config_file, Loader=yaml.Loader)
+        config_dict = config_file
 
     config = Namespace(**config_dict)
 
-- 
2.43.0


From 080ac249c069afb7eabc6f7d604628c8cdb0a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:28 +0000
Subject: [PATCH 27/70] fix: a store_directory does not fail for stores without
 a file name

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 9d434ca..9af72ec 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -243,7 +243,7 @@ def rectify_config(config):
                 n = getattr(config, attr)
                 new = os.path.join(config.store_directory, n)
                 setattr(config, attr, new)
-            except(AttributeError):
+            except(AttributeError, TypeError):
                 print("could not update {}storefile path".format(store))
 
     for k, v in vars(config).items():
-- 
2.43.0


From 06a0ed790f609791bbf156325de1c5c1a3183857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 28/70] fix: Residuals.fill_images does not share its image and
 header dictionaries between calls

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 813888f..c0bf3f3 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -121,10 +121,12 @@ class Residuals:
         pix = sky_to_pix(ra, dec, ee, ref_coords=self.reference_coordinates)
         return pix
 
-    def fill_images(self, images={}, headers={}, fill_type="residual",
+    def fill_images(self, images=None, headers=None, fill_type="residual",
                     metastore=None, imshape=(2048, 2048)):
         """Add the stored pixel data to the images in the supplied `images` dictionary.
         """
+        images = {} if images is None else images
+        headers = {} if headers is None else headers
         for e in self.exposures:
             # create the empty array
             if e not in images:
-- 
2.43.0


From 5ac80379197d5d3c6919a2f15c72d42661a6aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 29/70] fix: padding pixels no longer overwrite the corner of
 the images in fill_images

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index c0bf3f3..a0066cb 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -143,7 +143,9 @@ class Residuals:
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-            images[e][xpix, ypix] = arr
+            # padding has negative pixel coordinates
+            g = (xpix >= 0) & (ypix >= 0)
+            images[e][xpix[g], ypix[g]] = arr[g]
 
         return images, headers
 
-- 
2.43.0


From 1591fce72f5eb4712a8b46e0c5bc1de3c36adb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 30/70] fix: fill_images reads the shape of images that are in
 a FITS extension, and of each exposure separately

---
 forcepho/postprocess.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index a0066cb..2470234 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -130,16 +130,21 @@ class Residuals:
         for e in self.exposures:
             # create the empty array
             if e not in images:
+                shape = imshape
                 if metastore is not None:
                     band, exp = e.split("/")
                     hdr = metastore.headers[band][exp]
-                    imshape = (hdr["NAXIS1"], hdr["NAXIS2"])
+                    shape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
                 elif os.path.exists(e):
                     hdr = fits.getheader(e)
-                    imshape = (hdr["NAXIS1"], hdr["NAXIS2"])
+                    if hdr["NAXIS"] == 0:
+                        # the image is in the first extension
+                        hdr = fits.getheader(e, 1)
+                        del hdr["XTENSION"]
+                    shape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
-                images[e] = np.zeros(imshape) + np.nan
+                images[e] = np.zeros(shape) + np.nan
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-- 
2.43.0


From 284634b425631af0dc291e34140544440c209373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 31/70] fix: postsample_catalog has one row per source when
 patches are given

---
 forcepho/postprocess.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 2470234..5bee7aa 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -272,11 +272,9 @@ def postsample_catalog(root, catname=None, patches=None):
         parameters of that source each with shape (n_sample,)
     """
     # get summary info
+    config, plog, slog, final = run_metadata(root)
     if patches is None:
-        config, plog, slog, final = run_metadata(root)
         patches = plog
-    else:
-        final = patches
 
     # Get catalog data type
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
-- 
2.43.0


From 1ad1a768cc37bfd033fad0b303147fda1556f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 32/70] fix: flux_unc_linear keeps the default uncertainty for
 patches without precision matrices, as documented

---
 forcepho/postprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 5bee7aa..5db9f64 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -351,6 +351,7 @@ def flux_unc_linear(root, snr_max=1000):
 
         if not hasattr(s, "precisions"):
             print(f"flux_unc_linear: No precisons for {patchfile}")
+            continue
 
         for i, b in enumerate(s.bands):
             flux = s.final[b]
-- 
2.43.0


From 84379c47f58cb83649ebc48a7d82d742fa33f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 33/70] fix: find_multipatch looks patches up by their id, not
 by their position in the log

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 5db9f64..09a6c43 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -378,7 +378,7 @@ def find_multipatch(root):
         A list of the posterior sample chains for each source.
     """
     config, plog, slog, final = run_metadata(root)
-    samples = [Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog]
+    samples = {int(p): Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog}
     chains, sources, patches = [], [], []
     for sid, pids in slog.items():
         if len(pids) == 1:
-- 
2.43.0


From eae31a075b844a4356f85bcd2498a9ca3b3e21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 34/70] fix: check_multipatch used an undefined list of columns

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 09a6c43..23ebfa4 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -399,7 +399,9 @@ def check_multipatch(root, n_sample=256):
     stats = {}
     for s, p, c in zip(sid, pids, chains):
         stats[s] = {}
-        for col in vcols:
+        for col in c.dtype.names:
+            if col == "source_index":
+                continue
             sm = c[col][:, -n_sample:]
             stats[s][col] = sm.mean(axis=-1), sm.std(axis=-1)
     return stats
-- 
2.43.0


From ffebec344c2b79284a00ce00cb59ff71dc4c34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:00 +0000
Subject: [PATCH 35/70] fix: results can be written to a file name without a
 directory

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f4e7481..f22929f 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -189,7 +189,7 @@ class Result(object):
         """
         msgs = []
         import h5py
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         with h5py.File(filename, "w") as out:
             for name, value in vars(self).items():
                 if type(value) == np.ndarray:
-- 
2.43.0


From 6734bf9dc27581ccbb655db7b426f47afdf50688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:24 +0000
Subject: [PATCH 36/70] fix: write_sourcereg called an undefined function and
 ignored its output path

---
 forcepho/postprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 23ebfa4..d364b14 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -14,7 +14,7 @@ from astropy.io import fits
 import h5py
 
 from .fitting import Result
-from .utils import sky_to_pix, populate_image, isophotal_radius
+from .utils import sky_to_pix, populate_image, isophotal_radius, cat_to_regions
 from .patches.storage import MetaStore
 from .superscene import flux_bounds
 
@@ -427,8 +427,8 @@ def write_sourcereg(root, slist="sources.reg", showid=False,
         roi[np.isnan(roi)] = cat["rhalf"][np.isnan(roi)]
     else:
         roi = cat["rhalf"]
-    regions = cat_to_reg(cat, roi=roi, ellipse=True)
-    regions.write(slist, format="ds9", overwrite=True)
+    regions = cat_to_regions(cat, roi=roi, ellipse=True, showid=showid)
+    regions.write(rfile, format="ds9", overwrite=True)
 
     return regions
 
-- 
2.43.0


From d4e05c44865b0c178a78a7619600d13ff0a376dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:08 +0000
Subject: [PATCH 37/70] fix: kron_radius within rmax includes the gamma
 function normalisation

---
 forcepho/utils/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/profile.py b/forcepho/utils/profile.py
index bef7bea..0322e24 100644
--- a/forcepho/utils/profile.py
+++ b/forcepho/utils/profile.py
@@ -27,7 +27,9 @@ def kron_radius(rhalf, sersic, rmax=None):
         x = k*(rmax / rhalf)**(1./sersic)
         c = gammainc(3 * sersic, x) / gammainc(2 * sersic, x)
     else:
-        c = gamma(3 * sersic) / gamma(2 * sersic)
+        c = 1.0
+    # gammainc is normalized by gamma
+    c = c * gamma(3 * sersic) / gamma(2 * sersic)
     r_kron = rhalf / k**sersic * c
     return r_kron
 
-- 
2.43.0


From e6b76019d98f0a127aa38d70f067138eb80c1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:37 +0000
Subject: [PATCH 38/70] fix: postprocess.__all__ names a function that does not
 exist, so star import raised

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index d364b14..c2b7ae4 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -21,7 +21,7 @@ from .superscene import flux_bounds
 __all__ = ["Residuals", "Samples",
            "run_metadata",
            "postop_catalog", "postsample_catalog",
-           "make_errorbars", "flux_unc_linear",
+           "flux_unc_linear",
            "write_sourcereg", "write_patchreg",
            "write_images", "show_exp",
            "residual_pdf", "chain_pdf",
-- 
2.43.0


From b640b9a9c803f9e36869447345f5136d11b7efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:38 +0000
Subject: [PATCH 39/70] fix: dispatcher imports read_config from the module
 that defines it

---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 2c7a088..f007fd0 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -18,7 +18,7 @@ import numpy as np
 from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
-from .utils import read_config
+from .config import read_config
 #from .child import sampling_task, optimization_task
 
 
-- 
2.43.0


From 72cdbd67729a6882f9e6e85804061cc7d0955c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:57 +0000
Subject: [PATCH 40/70] fix: append_catalogs copied the structure and EXTNAME
 of the first table into every HDU, hiding the MOMENT table behind the empty
 primary

---
 forcepho/utils/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 63b13d0..4832512 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -49,7 +49,9 @@ def append_catalogs(infilenames, out):
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
                     catlists[i].append(hdul[i].data.copy())
-            hdr = hdul[1].header
+            # only the metadata, not the description of that table
+            hdr = hdul[1].header.copy(strip=True)
+            hdr.remove("EXTNAME", ignore_missing=True)
 
     cats = [np.concatenate(catlist)
             for catlist in catlists]
-- 
2.43.0


From 53d574c876c363f52ebd79e051eb9fbb21552481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:57 +0000
Subject: [PATCH 41/70] fix: append_catalogs read the wrong HDUs of files
 without extension names

---
 forcepho/utils/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 4832512..e20f448 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -48,7 +48,7 @@ def append_catalogs(infilenames, out):
                 try:
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
-                    catlists[i].append(hdul[i].data.copy())
+                    catlists[i].append(hdul[i+1].data.copy())
             # only the metadata, not the description of that table
             hdr = hdul[1].header.copy(strip=True)
             hdr.remove("EXTNAME", ignore_missing=True)
-- 
2.43.0


From 454403396b10595ceae592db8b1c967158405cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:05 +0000
Subject: [PATCH 42/70] fix: collecting from a queue without outstanding tasks
 returns no results instead of raising

---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index f007fd0..0de6477 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -79,7 +79,7 @@ class MPIQueue:
         result : object
             The result generated and passed by the child.
         """
-        if blocking == 'all' and not self.irecv_handles:
+        if blocking in ('all', False) and not self.irecv_handles:
             return []
 
         if blocking and not self.irecv_handles:
-- 
2.43.0


From 3e11ea3af42219d49af3745fc55ae26b579f590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:05 +0000
Subject: [PATCH 43/70] fix: the parent checks in results that arrive after the
 target is reached, and logs each result under its own task

---
 forcepho/dispatcher.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 0de6477..a5c57f2 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -186,6 +186,16 @@ def do_parent(comm, config=None):
         logger.debug(f'SuperScene has {sceneDB.n_sources} sources')
 
         taskid = 0
+        # The task each source was last active in
+        owner = {}
+
+        def checkin(result):
+            final = result['final']
+            sceneDB.checkin_region(final, result['out'].fixed,
+                                   config.sampling_draws,
+                                   block_covs=result['covs'],
+                                   taskID=owner[int(final["source_index"][0])])
+
         # Event Loop
         while sceneDB.undone:
             # Generate one patch proposal.
@@ -213,6 +223,7 @@ def do_parent(comm, config=None):
                 # log some info for this patch/task
                 patchcat[taskid] = {"ra": region.ra, "dec": region.dec, "radius": region.radius,
                                     "sources": active["source_index"].tolist()}
+                owner.update((i, taskid) for i in active["source_index"].tolist())
                 # submit the task
                 assigned_to = queue.submit(chore, tag=taskid)
 
@@ -224,18 +235,13 @@ def do_parent(comm, config=None):
 
             # Check results back in
             for result in results:
-                sceneDB.checkin_region(result['final'], result['out'].fixed,
-                                       config.sampling_draws,
-                                       block_covs=result['covs'],
-                                       taskID=taskid)
+                checkin(result)
 
         # Receive any stragglers
         results = queue.collect(blocking='all')
         logger.info(f'Collected {len(results)} straggler result(s)')
-        # TODO: finalize the checkin args, then update this
-        #for result in results:
-        #    sceneDB.checkin_region(result.active, result.fixed,
-        #                           result.niter, mass_matrix=None)
+        for result in results:
+            checkin(result)
 
         ttotal = timer() - tstart
         logger.info(f"Finished in {ttotal:.1f}s")
-- 
2.43.0


From 402f85084f3618deabdde68a6398d21725d453c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:51 +0000
Subject: [PATCH 44/70] fix: local scale matrices of distorted images next to
 RA=0 (or at negative RA)

---
 forcepho/slow/stamp.py | 2 ++
 forcepho/utils/wcs.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/forcepho/slow/stamp.py b/forcepho/slow/stamp.py
index e6d09a0..932405b 100644
--- a/forcepho/slow/stamp.py
+++ b/forcepho/slow/stamp.py
@@ -240,6 +240,8 @@ def scale_at_sky(sky, wcs, dpix=1.0, origin=1, make_approx=False):
         # compute dpix_dsky matrix
         P = np.eye(2) * dpix
         St = np.array([pos1_sky - pos0_sky, pos2_sky - pos0_sky])
+        # the RA may be given and returned on different sides of the 0/360 boundary
+        St[:, 0] -= 360.0 * np.round(St[:, 0] / 360.0)
         CW_mat = np.linalg.solve(St, P).T
 
         # compute D matrix
diff --git a/forcepho/utils/wcs.py b/forcepho/utils/wcs.py
index dec7388..1136157 100644
--- a/forcepho/utils/wcs.py
+++ b/forcepho/utils/wcs.py
@@ -129,6 +129,8 @@ def scale_at_sky(sky, wcs, dpix=1.0, make_approx=False):
         # compute dpix_dsky matrix
         P = np.eye(2) * dpix
         St = np.array([pos1_sky - pos0_sky, pos2_sky - pos0_sky])
+        # the RA may be given and returned on different sides of the 0/360 boundary
+        St[:, 0] -= 360.0 * np.round(St[:, 0] / 360.0)
         CW_mat = np.linalg.solve(St, P).T
 
         # compute D matrix
-- 
2.43.0


From 9a4c143f7a651cdd7f7e7107df3e17abd568ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:29 +0000
Subject: [PATCH 45/70] fix: optimisation results report the log-probability,
 not half of it

---
 forcepho/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f22929f..6e976fa 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -444,7 +444,7 @@ def run_opt(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun
     result.wall_time = tsample
 
     result.fun = scires.fun
@@ -489,7 +489,7 @@ def run_opt_bounded(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun
     result.wall_time = tsample
 
     result.fun = scires.fun
-- 
2.43.0


From 6bae42897d56e3648acdc7a80b09a9d29d2aa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:31 +0000
Subject: [PATCH 46/70] fix: optimize leaves the patch with the reference
 coordinates of its chain after the linear step

---
 forcepho/tasks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/forcepho/tasks.py b/forcepho/tasks.py
index dcd70b9..013209c 100644
--- a/forcepho/tasks.py
+++ b/forcepho/tasks.py
@@ -60,6 +60,7 @@ def optimize(patcher, scene, config, logger,
     # --- Do linear flux optimization?
     if config.linear_optimize:
         logger.info("Beginning linear optimization")
+        reference_coordinates = patcher.patch_reference_coordinates.copy()
         result = optimize_fluxes(patcher, active, return_all=True)
         fluxes, precisions = result[:2]
         scratchpad.precision_matrices = precisions
@@ -71,10 +72,13 @@ def optimize(patcher, scene, config, logger,
             bounds[b][:, 0] = lo
             bounds[b][:, 1] = hi
             active[b] = f
-        patcher.set_scene(active)
+        # the design matrix is made one source at a time, which moves the patch
+        # reference coordinates; go back to the ones that the chain refers to
+        linear_scene = patcher.set_scene(active)
+        patcher.zerocoords(linear_scene, sky_zero=reference_coordinates)
         scratchpad.active_postlinear = active.copy()
         scratchpad.bounds_postlinear = bounds.copy()
-        scratchpad.q_postlinear = patcher.scene.get_all_source_params().copy()
+        scratchpad.q_postlinear = linear_scene.get_all_source_params().copy()
 
     return (out, step, stats), (region, active, fixed, bounds), model
 
-- 
2.43.0


From 9a1e455bc2de4b8595ca8e9738b07d93806fd654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 47/70] fix: slow gradients are finite for zero fluxes and zero
 mixture amplitudes

---
 forcepho/slow/gaussmodel.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 6b926be..41c058c 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -290,7 +290,10 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             F = fast_inv_2x2(Sigma)
             detF = fast_det_2x2(F)
             am, al = samps[i], pamps[j]
-            K = flux * G * am * al * detF**(0.5) / (2 * np.pi)
+            # amplitude per unit flux and mixture weight, so that zero fluxes and
+            # zero weights have finite derivatives
+            k = G * al * detF**(0.5) / (2 * np.pi)
+            K = flux * am * k
 
             # Now get derivatives
             # Of F
@@ -305,9 +308,9 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             # of Amplitude
             dA_dq = K / (2 * detF) * ddetF_dq  # 1
             dA_dpa = K / (2 * detF) * ddetF_dpa  # 1
-            dA_dflux = K / flux  # 1
-            dA_dsersic = K / am * da_dn[i]  # 1
-            dA_drh = K / am * da_dr[i]  # 1
+            dA_dflux = am * k  # 1
+            dA_dsersic = flux * k * da_dn[i]  # 1
+            dA_drh = flux * k * da_dr[i]  # 1
 
             # --- Add derivatives to gaussians ---
             # - As a list of just nonzero -
@@ -437,7 +440,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
 
     # --- Calculate derivatives ---
     if compute_deriv:
-        dC_dA = C / g.amp
+        dC_dA = Gp * H * root_det
         dC_dx = C*vx
         dC_dy = C*vy
         dC_dfx = -0.5*C*dx*dx
@@ -445,7 +448,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
         dC_dfxy = -1.0*C*dx*dy
 
     if compute_deriv and second_order:
-        c_h = C / H
+        c_h = g.amp * Gp * root_det
         dC_dx -= c_h * (g.fxx*vx + g.fxy*vy) / 12.
         dC_dy -= c_h * (g.fyy*vy + g.fxy*vx) / 12.
         dC_dfx -= c_h * (1. - 2.*dx*vx) / 24.
-- 
2.43.0


From e79a335ec13966d22cd9007249791f64896d9712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 48/70] fix: slow rendering of PSFs in units of arcsec
 transforms the component means

---
 forcepho/slow/gaussmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 41c058c..cc1ca27 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -125,7 +125,7 @@ def convert_to_gaussians(source, stamp, compute_deriv=False):
     # get PSF component means and covariances in the pixel space
     if psf.units == 'arcsec':
         pcovar = fast_matmul_matmul_2x2(D, psf.covariances, D.T)
-        pmeans = np.matmul(D, psf.means)
+        pmeans = np.matmul(psf.means, D.T)
         # FIXME need to adjust amplitudes to still sum to one?
         pamps = psf.amplitudes
     elif psf.units == 'pixels':
-- 
2.43.0


From bc17e148f269119161cf56a5a8129cbbeeac31c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 49/70] fix: get_psf makes a gaussian with the requested FWHM

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index 367bd6e..ca05e9a 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -110,7 +110,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
 
     else:
         psf = PointSpreadFunction()
-        psf.covariances *= fwhm / 2.355
+        psf.covariances *= (fwhm / 2.355)**2
 
     return psf
 
-- 
2.43.0


From 80eb6b37ca8a607316a2b38be0e812930fe7f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 50/70] fix: get_psf reads old-style PSF files without n_gauss
 in python 3

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index ca05e9a..b57416c 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -98,7 +98,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
                 pdat = pickle.load(pf)
 
             if n_gauss is None:
-                n_gauss = pdat.keys()[0]
+                n_gauss = list(pdat.keys())[0]
             answer = pdat[n_gauss][psf_realization]
             psf = make_psf(answer, oversample=oversample, center=center)
         # newstyle
-- 
2.43.0


From 27c153d2b8fbacbf443d6657c3f70328a843b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 51/70] fix: WorkPlan includes the flux of fixed sources in the
 model, as FastWorkPlan does

---
 forcepho/slow/likelihood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index c1c7327..4947795 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -236,6 +236,14 @@ class WorkPlan(object):
                 # pixels *HERE* to avoid storage
                 self.gradients[i, :, :] += np.matmul(g.derivs, dI_dphi)
 
+        # Fixed sources contribute to the residual but have no gradients
+        keywords = dict(self.compute_keywords, compute_deriv=False)
+        for i, gig in enumerate(self.fixed):
+            for j, g in enumerate(gig.gaussians):
+                self.residual[self.nactive + i, ...] -= compute_gaussian(g, self.stamp.xpix.reshape(-1),
+                                                                         self.stamp.ypix.reshape(-1),
+                                                                         **keywords)
+
     def lnlike(self, active=None, fixed=None):
         """Returns a scalar chi^2 value and a chi^2 gradient array of
         shape (nactive, NDERIV)
-- 
2.43.0


From 35a3cbec35c9b689a360d9f75699a168c878c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 52/70] fix: FastWorkPlan does not change the compute keywords
 shared by all plans

---
 forcepho/slow/likelihood.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index 4947795..854be71 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -295,20 +295,20 @@ class FastWorkPlan(WorkPlan):
         for i, gig in enumerate(self.active + self.fixed):
             for j, g in enumerate(gig.gaussians):
                 # get the image counts for each Gaussian in a GaussianGalaxy
-                self.compute_keywords['compute_deriv'] = False
+                keywords = dict(self.compute_keywords, compute_deriv=False)
                 self.residual -= compute_gaussian(g, self.stamp.xpix.flat,
                                                   self.stamp.ypix.flat,
-                                                  **self.compute_keywords)
+                                                  **keywords)
         self.chi = self.residual * self.ierr
         self.chivar = self.chi * self.ierr
         # Loop only over active to get the chisq gradients
         for i, gig in enumerate(self.active):
             for j, g in enumerate(gig.gaussians):
-                self.compute_keywords['compute_deriv'] = True
+                keywords = dict(self.compute_keywords, compute_deriv=True)
                 # get the image gradients for each Gaussian in a GaussianGalaxy
                 I, dI_dphi = compute_gaussian(g, self.stamp.xpix.flat,
                                               self.stamp.ypix.flat,
-                                              **self.compute_keywords)
+                                              **keywords)
                 # Accumulate the *chisq* derivatives w.r.t. theta from each Gaussian
                 # This matrix multiply can be optimized (g.derivs is sparse)
                 self.gradients[i, :] += np.matmul(g.derivs, np.matmul(dI_dphi, self.chivar))
-- 
2.43.0


From f59d168533eca534a3f10e1dac6f0ee71a3c1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 53/70] fix: param_indices accounts for fixed sources and for
 filtername=None, as documented

---
 forcepho/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7b7545e..15249e9 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -204,13 +204,15 @@ class Scene(object):
         inds : ndarray of ints
             Indices of the parameters for this source.
         """
-        npar_per_source = [s.n_params for s in self.active_sources[:sid]]
+        npar_per_source = [s.n_params for s in self.sources[:sid] if not s.fixed]
         # get all the shape parameters
         source = self.sources[sid]
         start = int(np.sum(npar_per_source))
         # indices of the shape and position parameters
         inds = list(range(start + source.n_bands, start + source.n_params))
         # put in the flux for this source in this band
+        if filtername is None:
+            return list(range(start, start + source.n_bands)) + inds
         inds.insert(0, start + source.filter_index(filtername))
         return inds
 
-- 
2.43.0


From b6a4e77a6c9df3b8c4e977fbc763223d01a992b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 54/70] fix: scenes of stars and simple galaxies can be made
 from catalogs

---
 forcepho/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 15249e9..f0c14c2 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -251,7 +251,7 @@ class Source:
     sersic = 0.   # sersic index
     rhalf = 0.    # half light radius
 
-    def __init__(self, filters=['band'], radii=None):
+    def __init__(self, filters=['band'], radii=None, filternames=None):
         """
         Parameters
         ----------
@@ -264,6 +264,8 @@ class Source:
             The length of the supplied `filters` list will determine the length
             of the `flux` vector, accessible via the `n_bands` attribute.
         """
+        if filternames is not None:
+            filters = filternames
         assert type(filters) == list
         self.filternames = filters
         self.flux = np.zeros(len(self.filternames))
-- 
2.43.0


From 99303d6a72374fbb8c112c2e3e7b081ff780fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 55/70] fix: SlowPosterior works without a prior, in nll, and
 for residuals of a parameter array

---
 forcepho/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 99274cf..c846c58 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -439,11 +439,11 @@ class SlowPosterior(Posterior):
             self.plans = [WorkPlan(stamp) for stamp in stamps]
         else:
             self.plans = plans
-        if lnprior is not None:
-            self.lnprior = lnprior
+        self._lnpriorfn = lnprior
 
         # --- initialize some things ---
         self.ncall = 0
+        self.ndof = 1.0
         self._z = -99
         self._q = -99
 
@@ -482,7 +482,7 @@ class SlowPosterior(Posterior):
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
         """
-        if Theta:
+        if Theta is not None:
             self.scene.set_all_source_params(Theta)
         self._residuals = [plan.stamp.pixel_values - make_image(self.scene, plan.stamp)[0]
                            for plan in self.plans]
-- 
2.43.0


From 639799e45a499fd4b4ce0dda00fa3d539aa60e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:03 +0000
Subject: [PATCH 56/70] fix: slow likelihood gradients of conformal shear
 galaxies are with respect to their own parameters

---
 forcepho/slow/gaussmodel.py | 5 +++++
 forcepho/sources.py         | 3 ---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index cc1ca27..c50a981 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -261,6 +261,11 @@ def get_gaussian_gradients(source, stamp, gig):
                                      flux, G, T,
                                      dT_dq, dT_dpa, da_dn, da_dr, CW)
 
+    # sources parameterized by conformal shear: convert d/dq, d/dpa to
+    # d/deta_+, d/deta_x
+    if hasattr(source, "ds_deta"):
+        derivs[:, :, 3:5, :] = np.matmul(source.ds_deta, derivs[:, :, 3:5, :])
+
     # Unpack the results array returned by `_get_gaussian_gradients`
     for i in range(source.n_gauss):
         for j in range(psf.n_gauss):
diff --git a/forcepho/sources.py b/forcepho/sources.py
index f0c14c2..6e3194a 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -1018,9 +1018,6 @@ class ConformalShearGalaxy(Galaxy):
                                compute_deriv=compute_deriv, **compute_keywords)
 
         if compute_deriv:
-            # convert d/dq, d/dphi to d/deta_+, d/deta_x
-            # FIXME: This is a brittle way to do this!
-            grad[3:5, :] = np.matmul(self.ds_deta, grad[3:5, :])
             return im, grad[self.use_gradients]
         else:
             return im, None
-- 
2.43.0


From b95a122b43db42f6ef189c8ec30188548a5f54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:56 +0000
Subject: [PATCH 57/70] fix: amplitudes of galaxies with a single-gaussian
 spline table are arrays

---
 forcepho/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 6e3194a..b04d51d 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -672,7 +672,7 @@ class Galaxy(Source):
             amp[0] = 1.0
         else:
             amp = np.squeeze(np.array([spline(self.sersic, self.rhalf)
-                                       for spline in self.splines]))
+                                       for spline in self.splines]), axis=(1, 2))
         return amp
 
     @property
@@ -684,7 +684,7 @@ class Galaxy(Source):
             return np.zeros(len(self.radii))
         # n_gauss array of da/dsersic
         return np.squeeze(np.array([spline(self.sersic, self.rhalf, dx=1)
-                                    for spline in self.splines]))
+                                    for spline in self.splines]), axis=(1, 2))
 
     @property
     def damplitude_drh(self):
@@ -695,7 +695,7 @@ class Galaxy(Source):
             return np.zeros(len(self.radii))
         # n_gauss array of da/drh
         return np.squeeze(np.array([spline(self.sersic, self.rhalf, dy=1)
-                                    for spline in self.splines]))
+                                    for spline in self.splines]), axis=(1, 2))
 
     def profile(self, r, band=None, epsilon=2.5e-3):
         """Compute the circularized surface brightness profile.
-- 
2.43.0


From cf1d448b1629d62396ce260f96062f87ef869677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:10 +0000
Subject: [PATCH 58/70] fix: least-squares mixture fits return their answer

---
 forcepho/mixtures/psf_mix_em.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index 35537b9..41273f5 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -127,7 +127,7 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
                                 bounds=([-np.inf, 0, 0, 0, 0, -1]*num_mix,
                                         [np.inf, x_max-1, y_max-1, np.inf, np.inf, 1]*num_mix)
                                 )
-            ans_repeat.append(create_ans(res.x))
+            ans_repeat.append(create_ans(res.x, {}))
         elif method_opt == 'em':
             def log_likelihood(params):
                 return np.sum(image_data * np.log(mvn_pdf_2d_mix_fn(num_mix, x_max, y_max)(params)))
-- 
2.43.0


From 0a485d635971b5a35cf56e7d1a4c1104bb1df463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:10 +0000
Subject: [PATCH 59/70] fix: mixture fits give one independent answer per
 repeat, converged or not

---
 forcepho/mixtures/psf_mix_em.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index 41273f5..ce57f3b 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -131,7 +131,7 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
         elif method_opt == 'em':
             def log_likelihood(params):
                 return np.sum(image_data * np.log(mvn_pdf_2d_mix_fn(num_mix, x_max, y_max)(params)))
-            curr_params = all_init
+            curr_params = all_init.copy()
             curr_log_likelihood = log_likelihood(curr_params)
             # weights = 3-dim array x,y,k - weights[x,y,k] propto N(x,y|param_k) and sum over k = 1
             # param_k is param[6*k:(6*k+6)]
@@ -201,6 +201,11 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
                 curr_params = new_params
                 curr_log_likelihood = new_log_likelihood
                 loop_count += 1
+            else:
+                # not converged within the maximum number of iterations
+                print('WARNING log likelihood did not converge')
+                ans_repeat.append(create_ans(curr_params,
+                        {'loop_count':loop_count, 'final_log_likelihood':curr_log_likelihood}))
     if returnfull:
         return ans_repeat
     else:
-- 
2.43.0


From f2e07544f2f73b191489fd159c6a2de9972c78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:10 +0000
Subject: [PATCH 60/70] fix: mixtures of non-square PSF images are centred on
 the image

---
 forcepho/mixtures/utils_em.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/mixtures/utils_em.py b/forcepho/mixtures/utils_em.py
index 27e0b90..05f77e4 100644
--- a/forcepho/mixtures/utils_em.py
+++ b/forcepho/mixtures/utils_em.py
@@ -106,7 +106,8 @@ def psf_mixture(psfimname, band, nmix, nrepeat=5,
     for i, r in enumerate(results):
         # Note this flips the x and y axes from what is in `result`
         # It also makes sure x and y are relative to the center in the full image
-        pars = params_to_gauss(r, oversample=oversample, start=start, center=center_full)
+        pars = params_to_gauss(r, oversample=oversample,
+                               start=start[::-1], center=center_full[::-1])
         x, y, vx, vy, vxy, amp = pars
         for j in range(nmix):
             parameters[i, j] = (x[j], y[j], vx[j], vy[j], vxy[j], amp[j])
-- 
2.43.0


From 344e02b80d9b59a225610567d5f0e539f3cbe136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:10 +0000
Subject: [PATCH 61/70] fix: Sersic mixture fits with free dispersions

---
 forcepho/mixtures/sersic_mix_oned.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/mixtures/sersic_mix_oned.py b/forcepho/mixtures/sersic_mix_oned.py
index 8d20526..aba5e07 100644
--- a/forcepho/mixtures/sersic_mix_oned.py
+++ b/forcepho/mixtures/sersic_mix_oned.py
@@ -97,8 +97,8 @@ def chisq(params, x=None, target=None, radii=None,
         disps = np.exp(radii)
         amps = np.exp(params[:len(radii)])
     else:
-        amps = np.exp(params[:len(params)/2])
-        disps = np.exp(params[len(params)/2:])
+        amps = np.exp(params[:len(params)//2])
+        disps = np.exp(params[len(params)//2:])
     # this is to account for two-d normalization and smoothing
     disps = np.hypot(disps, smoothing)
     amps /= disps * np.sqrt(2 * np.pi)
-- 
2.43.0


From 0beb63c7c0aa1aa89c782d8f8b00adb4da24ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 62/70] fix: seed weights stay finite and usable for any number
 of iterations

---
 forcepho/superscene.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index f172e26..33ad504 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -478,12 +478,14 @@ class SuperScene:
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
         sigma = 20
-        w *= np.exp((n.mean() - n) / sigma)
+        # relative to the least fit available source, so that large iteration
+        # counts can neither overflow nor make all the weights vanish
+        w *= np.exp(np.minimum(n[w > 0].min() - n, 0) / sigma)
         return w / w.sum()
 
     def sigmoid_weight(self):
         # just one for inactive, zero if active
-        w = (self.sourcecat["is_active"] == 0).astype(np.float32)
+        w = (self.sourcecat["is_active"] == 0).astype(np.float64)
         if not np.any(w):
             # nothing is available; any choice will be refused at checkout
             w += 1.0
@@ -494,7 +496,10 @@ class SuperScene:
         # `b` shifts the 0.5 weight left (negative) and right of ntarget
         a, b = 20., -1.0
         x = a * (1 - self.sourcecat["n_iter"] / self.target_niter) + b
-        w *= 1 / (1 + np.exp(-x))
+        # log of the sigmoid, relative to that of the least fit available source,
+        # so that the weights do not all vanish well past ntarget
+        logs = -np.logaddexp(0, -x)
+        w *= np.exp(np.minimum(logs - logs[w > 0].max(), 0))
 
         return w / w.sum()
 
-- 
2.43.0


From cb6ce038ec7b7c40e5c9539c9e00f312256b0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 63/70] fix: find_exposures finds images that straddle RA=0

---
 forcepho/patches/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index bea9ba4..a5ca4cc 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -449,6 +449,7 @@ class MetaStore:
                     # FIXME: this could use crval, crpix, CD matrix, and imsize to be more general
                     polys = hdr["S_REGION"].split()[2:]
                     rough_bb = np.array([float(p) for p in polys]).reshape(4, 2)
+                    rough_bb[:, 0] -= 360 * np.round((rough_bb[:, 0] - sky[0]) / 360)
                     inim = polygon_contains(rough_bb, np.atleast_2d(sky))[0]
                 except(KeyError):
                     inim = True
@@ -476,6 +477,8 @@ class MetaStore:
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
+                # the corner right ascensions nearest the target (images at RA=0)
+                bbox[:, 0] -= 360 * np.round((bbox[:, 0] - sky[0]) / 360)
                 inim = polygon_contains(bbox, np.atleast_2d(sky))[0]
                 if inim:
                     epaths.append(expID)
-- 
2.43.0


From c64c70b5a0ca7c1cc835d0af13a9e06a4863c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:11 +0000
Subject: [PATCH 64/70] fix: regions and their overlap with images work across
 RA=0

---
 forcepho/region.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forcepho/region.py b/forcepho/region.py
index 64044d2..7daaec8 100644
--- a/forcepho/region.py
+++ b/forcepho/region.py
@@ -56,6 +56,8 @@ class Region:
         pcorners = np.array([[0, imsize[0], imsize[0], 0],
                             [0, 0, imsize[1], imsize[1]]])
         ira, idec = wcs.pixel_to_world_values(pcorners[0], pcorners[1])
+        # the right ascensions nearest the region (images at RA=0)
+        ira = ira - 360 * np.round((ira - np.mean(self.bounding_box[0])) / 360)
         im_bb = RectangularRegion(ira.min(), ira.max(), idec.min(), idec.max())
         overlap = polygons_overlap(self, im_bb)
 
@@ -185,6 +187,8 @@ class RectangularRegion(Region):
         """
         # Get the corners in ra, dec coodrinates
         ra, dec = wcs.pixel_to_world_values(xcorners, ycorners)
+        # the right ascensions nearest the region (images at RA=0)
+        ra = ra - 360 * np.round((ra - 0.5 * (self.ra_min + self.ra_max)) / 360)
         # TODO: use polygon_contains for this.  have to be careful about shapes
         valid = ((ra > self.ra_min) & (ra < self.ra_max) &
                  (dec > self.dec_min) & (dec < self.dec_max))
-- 
2.43.0


From 4e9d782d739f614999556ac33a47dc18bfd3bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:55 +0000
Subject: [PATCH 65/70] fix: ds9 regions with the position angle of the catalog
 convention

Catalog position angles run from east to north with the major axis at
(cos pa, sin pa); the ellipse was drawn at the wrong angle.
---
 forcepho/utils/ds9.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/ds9.py b/forcepho/utils/ds9.py
index 1eb01bd..b298934 100644
--- a/forcepho/utils/ds9.py
+++ b/forcepho/utils/ds9.py
@@ -31,7 +31,8 @@ def cat_to_regions(cat, roi=None, ellipse=True, showid=True):
 
         if ellipse:
             sqrtq = row["q"]
-            pa = 90.0 - np.rad2deg(row["pa"])
+            # `pa` is North of East, region angles are counterclockwise from West
+            pa = 180.0 - np.rad2deg(row["pa"])
         else:
             sqrtq = 1
             pa = 0.0
-- 
2.43.0


From 2f2fee92f580bbc1495755513530a679d2c60927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:55 +0000
Subject: [PATCH 66/70] fix: no isophotal radius where the isophote is brighter
 than the centre

---
 forcepho/utils/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/profile.py b/forcepho/utils/profile.py
index 0322e24..c3428ca 100644
--- a/forcepho/utils/profile.py
+++ b/forcepho/utils/profile.py
@@ -37,7 +37,9 @@ def kron_radius(rhalf, sersic, rmax=None):
 def isophotal_radius(iso, flux, r_half, flux_radius=None, sersic=1):
     Ie = I_eff(flux, r_half, flux_radius=flux_radius, sersic=sersic)
     k = gammaincinv(2 * sersic, 0.5)
-    r_iso = (1 - np.log(iso / Ie) / k)**(sersic)
+    x = 1 - np.log(iso / Ie) / k
+    # there is no such radius if the isophote is brighter than the center
+    r_iso = np.where(x > 0, x, np.nan)**(sersic)
 
     return r_iso * r_half
 
-- 
2.43.0


From 4c7205abd226e9984b45e910059abc8d028a0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:55 +0000
Subject: [PATCH 67/70] fix: refuse more sources than the kernels have room for

The accumulators and responses have MAXSOURCES slots; more sources wrote
past the end of the output array.
---
 forcepho/proposal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/forcepho/proposal.py b/forcepho/proposal.py
index 4bd3bd5..788cded 100644
--- a/forcepho/proposal.py
+++ b/forcepho/proposal.py
@@ -35,6 +35,12 @@ class ProposerBase:
     def evaluate_proposal(self, proposal, **kwargs):
         raise NotImplementedError
 
+    def check_limits(self, patch):
+        """The kernels have room for the derivatives of MAXSOURCES sources
+        """
+        if patch.n_sources > MAXSOURCES:
+            raise ValueError(f"{patch.n_sources} sources, but the maximum is {MAXSOURCES}")
+
     def unpack_residuals(self, residuals_flat, patch, reshape=False):
         """Unpack flat, padded residuals into original images
         """
@@ -118,6 +124,7 @@ class GPUProposer(ProposerBase):
         if patch is None:
             patch = self.patch
 
+        self.check_limits(patch)
         n_bands, n_sources = patch.n_bands, patch.n_sources
         self.grid = (n_bands, 1)
 
@@ -199,6 +206,7 @@ class CPUProposer(ProposerBase):
             The residual image (data - model) for each exposure.  No padding.
             Only returned if patch.return_residual.
         """
+        self.check_limits(patch)
         self.device_proposal = self.send_to_device(proposal)
 
         n_bands, n_sources = patch.n_bands, patch.n_sources
-- 
2.43.0


From 2e1cac2d5bff6e9333d228d4e276ef793719ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:55 +0000
Subject: [PATCH 68/70] fix: PatchBase.free hands the call on to the device
 mix-in

In every patch class the mix-in follows the patch class in the bases, so
the empty PatchBase.free hid GPUPatchMixin.free and device memory was not
released.
---
 forcepho/patches/patch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/patch.py b/forcepho/patches/patch.py
index 58bf25f..342899a 100644
--- a/forcepho/patches/patch.py
+++ b/forcepho/patches/patch.py
@@ -112,7 +112,12 @@ class PatchBase:
                 pass
 
     def free(self):
-        pass
+        """Release whatever the device mix-in holds.  Mix-ins come after the
+        patch class in the bases, so this has to hand the call on to them.
+        """
+        release = getattr(super(), "free", None)
+        if release is not None:
+            release()
 
     def __del__(self):
         self.free()  # do we want to do this?
-- 
2.43.0


From 103282c8e3a7c328405d094131a58713bfd063a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:00 +0000
Subject: [PATCH 69/70] fix: keep right ascensions contiguous in scenes that
 straddle RA=0

The scene frame (median RA) and the centre of linked patches (mean RA) ended
up on the other side of the sky, so neighbours were not found and patches had
no pixels.
---
 forcepho/superscene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 33ad504..885b6bd 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -156,6 +156,9 @@ class SuperScene:
         self.sourcecat["source_index"][:] = np.arange(self.n_sources)
         self.sourcecat["is_valid"][:] = True
         self.sourcecat["is_active"][:] = False
+        # keep right ascensions contiguous in fields that straddle RA=0
+        ra = self.sourcecat["ra"]
+        ra -= 360 * np.round((ra - ra[:1]) / 360)
 
         # save the original catalog
         self.original = sourcecat.copy()
-- 
2.43.0


From 1809b4f0edb05aec4666550e0520512a9fedead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 70/70] fix: regularise mass matrices that are only positive
 definite in double precision

The littlemcmc potentials are single precision, so their own factorisation of
a nearly singular covariance raised LinAlgError.
---
 forcepho/fitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index 6e976fa..f52e7c3 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -395,7 +395,8 @@ def get_pot(n_dim, init_mean=None, init_cov=None, trace=None,
     ntimes = 0
     while ntimes < 5:
         try:
-            _ = cholesky(cov, lower=True)
+            # the potentials work in single precision
+            _ = cholesky(cov.astype(np.float32), lower=True)
             break
         except(np.linalg.LinAlgError):
             cov[np.diag_indices_from(cov)] += regular_variance
-- 
2.43.0

