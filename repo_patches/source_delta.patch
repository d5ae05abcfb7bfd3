From 5f567a281449a9539b566506dddc66fbad0dcd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 01/36] fix: do not write past the end of the pixels array when
 weights are nan

Nan weights were not counted when allocating the array but were stored,
corrupting memory
---
 ngmix/pixels/pixels_nb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ngmix/pixels/pixels_nb.py b/ngmix/pixels/pixels_nb.py
index ea7779f..4be7129 100644
--- a/ngmix/pixels/pixels_nb.py
+++ b/ngmix/pixels/pixels_nb.py
@@ -34,8 +34,11 @@ def fill_pixels(pixels, image, weight, jacob, ignore_zero_weight=True):
         for col in range(ncol):
 
             ivar = weight[row, col]
-            if ignore_zero_weight and ivar <= 0.0:
-                continue
+            # written so that nan weights are treated as zero weights
+            if not ivar > 0.0:
+                if ignore_zero_weight:
+                    continue
+                ivar = 0.0
 
             pixel = pixels[ipixel]
 
@@ -47,9 +50,6 @@ def fill_pixels(pixels, image, weight, jacob, ignore_zero_weight=True):
 
             pixel['val'] = image[row, col]
 
-            if ivar < 0.0:
-                ivar = 0.0
-
             pixel['ierr'] = numpy.sqrt(ivar)
 
             ipixel += 1
-- 
2.43.0


From fe1070b41756b5c8c86dcdb4a147bb8cb86df493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 02/36] fix: setting an invalid psf or gmix no longer drops the
 current one

---
 ngmix/observation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index e21b580..dec7644 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -553,13 +553,12 @@ class Observation(MetadataMixin):
         """
         Set a psf Observation
         """
-        if self.has_psf():
-            del self._psf
-
         if psf is not None:
             mess = "psf must be of Observation, got %s" % type(psf)
             assert isinstance(psf, Observation), mess
             self._psf = psf
+        elif self.has_psf():
+            del self._psf
 
     def get_psf(self):
         """
@@ -602,13 +601,12 @@ class Observation(MetadataMixin):
             The GMix to use to set the internal GMix.
         """
 
-        if self.has_gmix():
-            del self._gmix
-
         if gmix is not None:
             mess = "gmix must be of type GMix, got %s" % type(gmix)
             assert isinstance(gmix, GMix), mess
             self._gmix = gmix.copy()
+        elif self.has_gmix():
+            del self._gmix
 
     def get_gmix(self):
         """
-- 
2.43.0


From 766ef6b1447cc8b37296f59bf74f22535fd00b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 03/36] fix: a rejected edit leaves an observation unchanged,
 with no stale pixels

When there are no weights > 0 the setters raised after changing the data but
kept the pixels made from the old data
---
 ngmix/observation.py | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index dec7644..ecb2664 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -341,10 +341,7 @@ class Observation(MetadataMixin):
                     "vs %s" % (image.shape, image_old.shape))
             assert image.shape == image_old.shape, mess
 
-        self._image = image
-
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update_pixels('_image', image, update_pixels)
 
     def set_weight(self, weight, update_pixels=True):
         """
@@ -371,9 +368,7 @@ class Observation(MetadataMixin):
         else:
             weight = np.zeros(image.shape) + 1.0
 
-        self._weight = weight
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update_pixels('_weight', weight, update_pixels)
 
     def set_mfrac(self, mfrac):
         """
@@ -534,10 +529,7 @@ class Observation(MetadataMixin):
             assert isinstance(jacobian, Jacobian), mess
             jac = jacobian.copy()
 
-        self._jacobian = jac
-
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update_pixels('_jacobian', jac, update_pixels)
 
     def get_jacobian(self):
         """
@@ -787,9 +779,7 @@ class Observation(MetadataMixin):
         """
         # only update if value is changed
         do_update = False if store_pixels == self._store_pixels else True
-        self._store_pixels = store_pixels
-        if do_update:
-            self.update_pixels()
+        self._set_and_update_pixels('_store_pixels', store_pixels, do_update)
 
     @property
     def ignore_zero_weight(self):
@@ -803,17 +793,19 @@ class Observation(MetadataMixin):
         calls update_pixels after ignore_zero_weight is set if needed
         """
         do_update = False if ignore_zero_weight == self._ignore_zero_weight else True
-        self._ignore_zero_weight = ignore_zero_weight
-        if do_update:
-            self.update_pixels()
+        self._set_and_update_pixels(
+            '_ignore_zero_weight', ignore_zero_weight, do_update,
+        )
 
     def update_pixels(self):
         """
         create the pixel struct array, for efficient cache usage
         """
 
+        # if we fail to make pixels below, do not leave those of older data
+        self._pixels = None
+
         if not self._store_pixels:
-            self._pixels = None
             return
 
         pixels = make_pixels(
@@ -825,6 +817,22 @@ class Observation(MetadataMixin):
         pixels.flags['WRITEABLE'] = False
         self._pixels = pixels
 
+    def _set_and_update_pixels(self, name, value, update_pixels):
+        """set an attribute the pixels depend on and update the pixels if
+        requested.  If the pixels cannot be made, e.g. because there are no
+        weights > 0, nothing is changed
+        """
+        old = {key: getattr(self, key, None) for key in (name, '_pixels')}
+
+        setattr(self, name, value)
+
+        if update_pixels:
+            try:
+                self.update_pixels()
+            except Exception:
+                self.__dict__.update(old)
+                raise
+
     def _get_view(self, data):
         """return a view of some numpy data.
 
-- 
2.43.0


From e70b48d3c607c44d1b3919ef39d1debb0cdbc37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 04/36] fix: unpickled observations have read-only data

---
 ngmix/observation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index ecb2664..dc2dcfc 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -725,6 +725,14 @@ class Observation(MetadataMixin):
         memo[id(self)] = result
         return result
 
+    def __setstate__(self, state):
+        # arrays are always writeable after unpickling, but the pixels are
+        # always read-only, and the writeable context is not carried over
+        self.__dict__.update(state)
+        self._writeable = False
+        if self._pixels is not None:
+            self._pixels.flags['WRITEABLE'] = False
+
     def __eq__(self, obs):
         if not isinstance(obs, Observation):
             raise ValueError(f'expected Observation, got {type(obs)}')
-- 
2.43.0


From b432a6e17b3b76cedba178b5e9d52c4738c504ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 05/36] fix: observations differ when only one has an optional
 part

Equality looked at what the left hand side has for both sides
---
 ngmix/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index dc2dcfc..4033bf3 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -761,7 +761,7 @@ class Observation(MetadataMixin):
                 self_has = obs_has = True
             else:
                 self_has = getattr(self, has)()
-                obs_has = getattr(self, has)()
+                obs_has = getattr(obs, has)()
             if self_has or obs_has:
                 if self_has and obs_has:
 
-- 
2.43.0


From 211a631fd48d690c10c8dc9fc8268f0e53d7ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 06/36] fix: copying a model mixture keeps flux and shape
 changes

The copy was made from the parameters used to construct the model, so changes
made to the gaussians since then, e.g. with set_flux or set_cen, get_sheared or
make_round, were lost
---
 ngmix/gmix/gmix.py | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index e0b8107..1467f87 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -415,8 +415,10 @@ class GMix(object):
         """
         Get a new GMix with the same parameters
         """
-        gmix = GMix(ngauss=self._ngauss)
-        gmix._data[:] = self._data[:]
+        gmix = object.__new__(type(self))
+        gmix.__dict__.update(self.__dict__)
+        gmix._pars = self._pars.copy()
+        gmix._data = self._data.copy()
         return gmix
 
     def __copy__(self):
@@ -929,13 +931,6 @@ class GMixModel(GMix):
         self._set_fill_func()
         self.fill(pars)
 
-    def copy(self):
-        """
-        Get a new GMix with the same parameters
-        """
-        gmix = GMixModel(self._pars, self._model_name)
-        return gmix
-
     def set_cen(self, row, col):
         """
         Move the mixture to a new center
@@ -972,12 +967,6 @@ class GMixCM(GMixModel):
         self._Tfactor = get_cm_Tfactor(fracdev, TdByTe)
         super(GMixCM, self).__init__(pars, "cm")
 
-    def copy(self):
-        """
-        Get a new GMix with the same parameters
-        """
-        return GMixCM(self._fracdev, self._TdByTe, self._pars,)
-
     def _fill(self, pars):
         """
         Fill in the gaussian mixture with new parameters, with
@@ -1056,13 +1045,6 @@ class GMixCoellip(GMixModel):
         self._set_fill_func()
         self._fill(pars)
 
-    def copy(self):
-        """
-        Get a new GMix with the same parameters
-        """
-        gmix = GMixCoellip(self._pars)
-        return gmix
-
 
 GMIX_FULL = 0
 GMIX_GAUSS = 1
-- 
2.43.0


From ea8789aea074623ed5e7d6b1735cf866ae59720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 07/36] fix: set the determinant of round mixtures

The determinant was that of the original gaussians, so evaluating the round
mixture gave a wrong normalization
---
 ngmix/gmix/gmix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 1467f87..1df1be0 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -582,6 +582,7 @@ class GMix(object):
             gdata["irc"][i] = 0.0
             gdata["irr"][i] = 0.5 * Ti * factor
             gdata["icc"][i] = 0.5 * Ti * factor
+            gdata["det"][i] = gdata["irr"][i] * gdata["icc"][i]
 
         return gm
 
-- 
2.43.0


From c476bad84f7860f97cb50b1ede8e884163eb3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 08/36] fix: mixtures with different numbers of gaussians are
 not equal

---
 ngmix/gmix/gmix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 1df1be0..6e36ae2 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -436,6 +436,9 @@ class GMix(object):
         if not isinstance(gm, GMix):
             raise ValueError(f'expected GMix, got {type(gm)}')
 
+        if len(self) != len(gm):
+            return False
+
         self_data = self.get_data()
         gm_data = gm.get_data()
 
-- 
2.43.0


From 7a3112bdaa7b6a7e1247dbcad24be9c2e6a5c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 09/36] fix: keep rejecting a mixture when only a later
 gaussian is singular

When setting the norms failed for a gaussian other than the first, the next
evaluation assumed all norms were set and gave nan
---
 ngmix/gmix/gmix_nb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index c444e26..d502da7 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -174,8 +174,10 @@ def gmix_set_norms(gmix):
     gmix:
        gaussian mixture
     """
-    for gauss in gmix:
-        gauss2d_set_norm(gauss)
+    # the flag of the first gaussian tells if the norms are set for all of them,
+    # so do it last in case there is an error
+    for i in range(gmix.size - 1, -1, -1):
+        gauss2d_set_norm(gmix[i])
 
 
 @njit
-- 
2.43.0


From 872b651da938b0ba35b6cd240980938c99a5a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 10/36] fix: compare observations with array metadata or of
 different shape

Comparison raised an exception when the metadata contained arrays, e.g. fit
results, or when the images had different shapes
---
 ngmix/observation.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 4033bf3..99ec0bc 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -13,6 +13,27 @@ from .pixels import make_pixels
 DEFAULT_XINTERP = 'lanczos15'
 
 
+def _data_equal(data1, data2):
+    """
+    check equality for data that may be, or contain, arrays
+    """
+    if isinstance(data1, dict) and isinstance(data2, dict):
+        return data1.keys() == data2.keys() and all(
+            _data_equal(data1[key], data2[key]) for key in data1
+        )
+
+    for seq in (list, tuple):
+        if type(data1) is seq and type(data2) is seq:
+            return len(data1) == len(data2) and all(
+                _data_equal(val1, val2) for val1, val2 in zip(data1, data2)
+            )
+
+    if isinstance(data1, np.ndarray) or isinstance(data2, np.ndarray):
+        return np.array_equal(data1, data2)
+
+    return data1 is data2 or bool(data1 == data2)
+
+
 class MetadataMixin(object):
     @property
     def meta(self):
@@ -738,7 +759,7 @@ class Observation(MetadataMixin):
             raise ValueError(f'expected Observation, got {type(obs)}')
 
         # attributes that all share
-        if self.meta != obs.meta:
+        if not _data_equal(self.meta, obs.meta):
             return False
 
         # image attributes
@@ -767,7 +788,7 @@ class Observation(MetadataMixin):
 
                     self_data = getattr(self, attr)
                     obs_data = getattr(obs, attr)
-                    if not np.all(self_data == obs_data):
+                    if not _data_equal(self_data, obs_data):
                         return False
                 else:
                     return False
-- 
2.43.0


From 1cd0f93b860a3a93edf67e0095c243068d1ebd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 11/36] fix: compare the metadata of observation lists

---
 ngmix/observation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 99ec0bc..ecc471f 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -995,14 +995,17 @@ class ObsList(list, MetadataMixin):
         if not isinstance(obslist, ObsList):
             raise ValueError(f'expected ObsList, got {type(obslist)}')
 
-        if len(self) != len(obslist):
+        if len(self) != len(obslist) or not _data_equal(self.meta, obslist.meta):
             return False
 
         for self_obs, obs in zip(self, obslist):
-            if self_obs != obs:
+            if not self_obs == obs:
                 return False
         return True
 
+    def __ne__(self, obslist):
+        return not self == obslist
+
     def __setitem__(self, index, obs):
         """
         over-riding this for type safety
@@ -1117,14 +1120,17 @@ class MultiBandObsList(list, MetadataMixin):
         if not isinstance(mbobs, MultiBandObsList):
             raise ValueError(f'expected MultiBandObsList, got {type(mbobs)}')
 
-        if len(self) != len(mbobs):
+        if len(self) != len(mbobs) or not _data_equal(self.meta, mbobs.meta):
             return False
 
         for self_obslist, obslist in zip(self, mbobs):
-            if self_obslist != obslist:
+            if not self_obslist == obslist:
                 return False
         return True
 
+    def __ne__(self, mbobs):
+        return not self == mbobs
+
     def __setitem__(self, index, obs_list):
         """
         over-riding this for type safety
-- 
2.43.0


From 74d75eab2e07b78d4f05827f9ce3e50ab980958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 12/36] fix: adaptive moments no longer overwrites the guess
 mixture

---
 ngmix/admom/admom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/admom/admom.py b/ngmix/admom/admom.py
index 771d672..4824227 100644
--- a/ngmix/admom/admom.py
+++ b/ngmix/admom/admom.py
@@ -361,7 +361,8 @@ class AdmomFitter(object):
 
     def _get_guess(self, obs, guess):
         if isinstance(guess, GMix):
-            guess_gmix = guess
+            # the guess is used as work space, do not modify the input
+            guess_gmix = guess.copy()
         else:
             Tguess = guess  # noqa
             guess_gmix = self._generate_guess(obs=obs, Tguess=Tguess)
-- 
2.43.0


From accd1791344563c50dcfe8b2f6e5414f6216be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 13/36] fix: psf flux guessers do not reuse the fluxes of an
 earlier object

---
 ngmix/guessers.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 90d1d98..92b7da0 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -93,16 +93,12 @@ class TPSFFluxGuesser(object):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
 
     def _get_psf_fluxes(self, obs):
-        oid = id(obs)
-        if oid != self._id_last:
-            self._id_last = oid
-            fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
-            self._psf_fluxes = fdict['flux']
-        return self._psf_fluxes
+        # these are not remembered between calls: the data can be modified in
+        # place, and the id of an observation can be reused for another one
+        fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
+        return fdict['flux']
 
     def __call__(self, obs, nrand=1):
         """
@@ -162,8 +158,6 @@ class TPSFFluxAndPriorGuesser(TPSFFluxGuesser):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
 
     def __call__(self, obs, nrand=1):
         """
@@ -206,8 +200,6 @@ def _get_psf_fluxes(rng, obs):
     """
     Get psf fluxes for the input observations
 
-    The result is cached with cache size 64
-
     Parameters
     ----------
     rng: numpy.random.RandomState
@@ -337,8 +329,6 @@ class BDFPSFFluxGuesser(TPSFFluxGuesser):
     def __init__(self, T, prior):
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
         self.rng = self.prior.cen_prior.rng
 
     def __call__(self, obs, nrand=1):
-- 
2.43.0


From 429243ba65ac21e585acea307cc66fea433ef967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 14/36] fix: failed least squares results have the same entries
 as others

---
 ngmix/fitting/leastsqbound.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index cfee383..d37f9b8 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -131,9 +131,11 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
             pars, pcov, perr = _get_def_stuff(npars)
 
             res["pars"] = pars
+            res["pars_err"] = perr
             res["pars_cov0"] = pcov
             res["pars_cov"] = pcov
             res["nfev"] = -1
+            res["ier"] = -1
             res["flags"] = LM_FUNC_NOTFINITE
             res["errmsg"] = "not finite"
             LOGGER.debug("not finite")
@@ -144,9 +146,11 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
         pars, pcov, perr = _get_def_stuff(npars)
 
         res["pars"] = pars
+        res["pars_err"] = perr
         res["pars_cov0"] = pcov
         res["pars_cov"] = pcov
         res["nfev"] = -1
+        res["ier"] = -1
 
         res["flags"] = DIV_ZERO
         res["errmsg"] = "zero division"
-- 
2.43.0


From 7539a7af9a8e241c04598af1c59931b95fb7d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 15/36] fix: metacal with fitgauss does not modify the input
 psf observation

---
 ngmix/metacal/metacal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index dbf3a3d..1703f9a 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -684,7 +684,11 @@ class MetacalFitGaussPSF(MetacalGaussPSF):
         # try adaptive moments first
         fitter = AdmomFitter(rng=self.rng)
 
-        res = run_psf_fitter(obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry)
+        # do not set the result, the input psf should not be modified
+        res = run_psf_fitter(
+            obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry,
+            set_result=False,
+        )
 
         if res['flags'] == 0:
             e1, e2 = res['e']
-- 
2.43.0


From 8a5fd5afa078d65731041486963e371cbf4137a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 16/36] fix: a failure to draw a metacal psf leaves no bad
 entry in the cache

---
 ngmix/metacal/metacal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 1703f9a..535eca5 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -305,11 +305,9 @@ class MetacalDilatePSF(object):
         return psf_grown
 
     def _do_dilate(self, psf, shear, doshear=False):
-        key = self._get_psf_key(shear, doshear)
-        if key not in self._psf_cache:
-            self._psf_cache[key] = _do_dilate(psf, shear)
-
-        return self._psf_cache[key]
+        # the psf cache is not used here, it is for the final image and psf. If
+        # drawing that image fails no entry should be left in the cache
+        return _do_dilate(psf, shear)
 
     def _get_psf_key(self, shear, doshear):
         """
-- 
2.43.0


From adb67da43bfcd82f8f2df1eb3ac2cce4d73884c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 17/36] fix: making k space observations does not modify the
 input metadata

---
 ngmix/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index ecc471f..76c9a56 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1595,7 +1595,8 @@ def make_kobs(mb_obs, interp=DEFAULT_XINTERP):
             else:
                 psf_kobs = None
 
-            meta = iidict['meta']
+            meta = {}
+            meta.update(iidict['meta'])
             meta['realspace_gsimage'] = iidict['realspace_gsimage']
             meta['scale'] = iidict['scale']
             kobs = KObservation(
-- 
2.43.0


From 1aa8adcc68733426415597ad5d77d7d1154853f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 18/36] fix: a psf flux whose error is not finite is flagged

---
 ngmix/fitting/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index d6642b2..2ff0ab4 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -612,7 +612,7 @@ class PSFFluxFitModel(dict):
         else:
 
             arg = chi2 / msq_sum / (self.totpix - 1)
-            if arg >= 0.0:
+            if arg >= 0.0 and np.isfinite(arg):
                 flux_err = np.sqrt(arg)
             else:
                 flags |= BAD_VAR
-- 
2.43.0


From 06c3ccac9d390ec2c95c0dbd39725d2eec0f7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 19/36] fix: gaussmom gives flux quantities in the same units
 whether or not flagged

---
 ngmix/gaussmom.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngmix/gaussmom.py b/ngmix/gaussmom.py
index a8f4b49..a03ccc1 100644
--- a/ngmix/gaussmom.py
+++ b/ngmix/gaussmom.py
@@ -55,11 +55,9 @@ class GaussMom(object):
             obs=obs, with_higher_order=self.with_higher_order,
         )
 
-        if res['flags'] != 0:
-            return res
-
         # need to take out the pixel area factor since new ngmix is in flux
-        # units
+        # units.  This is done for flagged results too: the flux has its own
+        # flags, and can be good when the shape is not
         area = obs.jacobian.area
         fac = 1/area
         res['flux'] *= fac
@@ -70,6 +68,9 @@ class GaussMom(object):
         res["sums_norm"] *= fac
         res["wsum"] *= fac
         res["sums_err"] *= fac
+        for name in ("MF", "M00"):
+            res[name] *= fac
+            res[f"{name}_err"] *= fac
         return res
 
     def _set_mompars(self):
-- 
2.43.0


From 91c34e4273b522bc9ea74f62486673ebe8c967d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 20/36] fix: moments that are not finite flag the quantity
 concerned

---
 ngmix/moments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngmix/moments.py b/ngmix/moments.py
index c1e028f..9be8438 100644
--- a/ngmix/moments.py
+++ b/ngmix/moments.py
@@ -463,6 +463,9 @@ def make_mom_result(sums, sums_cov, sums_norm=None):
     else:
         res["flux_flags"] |= ngmix.flags.NONPOS_VAR
 
+    if not np.isfinite(res["flux"]):
+        res["flux_flags"] |= ngmix.flags.NONPOS_FLUX
+
     # handle flux+T only
     if sums_cov[mf_ind, mf_ind] > 0 and sums_cov[mt_ind, mt_ind] > 0:
         if sums[mf_ind] > 0:
@@ -474,6 +477,8 @@ def make_mom_result(sums, sums_cov, sums_norm=None):
                 sums_cov[mf_ind, mf_ind],
                 sums_cov[mt_ind, mf_ind],
             )
+            if not np.isfinite(res["T"]):
+                res["T_flags"] |= ngmix.flags.NONPOS_SIZE
         else:
             # flux <= 0.0
             res["T_flags"] |= ngmix.flags.NONPOS_FLUX
-- 
2.43.0


From dbaa9828a2e45ab5f5510cf180ced28f81ddc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 21/36] fix: the flux reported for spergel and moffat fits is
 the flux

---
 ngmix/fitting/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 2ff0ab4..ad63020 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -859,7 +859,7 @@ def _set_flux(res, nband):
 
     if model == 'bd':
         start = 7
-    elif model == 'bdf':
+    elif model in ['bdf', 'spergel', 'moffat']:
         start = 6
     else:
         start = 5
-- 
2.43.0


From c3ca94caf9f363eb34c53f73915d85566f4d131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 22/36] fix: a least squares fit with negative degrees of
 freedom is flagged

---
 ngmix/fitting/leastsqbound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index d37f9b8..5ff983c 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -98,7 +98,7 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
             else:
                 dof = fdiff.size - n_prior_pars - npars
 
-            if dof == 0:
+            if dof <= 0:
                 junk, pcov, perr = _get_def_stuff(npars)
                 flags |= ZERO_DOF
             else:
-- 
2.43.0


From 71e1b9bcfbfe98839051c57a23ccf8be326f3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 23/36] fix: covariance of bounded fits with scipy versions
 counting pivots from zero

---
 ngmix/fitting/leastsqbound.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index 5ff983c..414b6c5 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -538,13 +538,15 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     if full_output:
         # convert fjac from internal params to external
         grad = _internal2external_grad(retval[0], bounds)
-        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad,
-                             retval[1]['ipvt'] - 1)).T
+        # the permutation counts from one in older versions of scipy and from
+        # zero in newer ones
+        ipvt = retval[1]['ipvt'] - np.min(retval[1]['ipvt'])
+        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, ipvt)).T
         cov_x = None
         if info in [1, 2, 3, 4]:
             from numpy.linalg import inv
             from numpy.linalg import LinAlgError
-            perm = take(eye(n), retval[1]['ipvt'] - 1, 0)
+            perm = take(eye(n), ipvt, 0)
             r = triu(transpose(retval[1]['fjac'])[:n, :])
             R = dot(r, perm)
             try:
-- 
2.43.0


From 91f9ea653b0186a903717d3e17f46c6f51fef562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 24/36] fix: flag a least squares fit whose derivatives were
 infinite

---
 ngmix/fitting/leastsqbound.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index 414b6c5..ab229ee 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -106,6 +106,9 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
                 pcov = pcov0 * s_sq
 
                 cflags = _test_cov(pcov)
+                if np.any(diag(pcov0) == 0):
+                    # the derivatives were not finite
+                    cflags |= LM_NEG_COV_DIAG
                 if cflags != 0:
                     flags |= cflags
                     errmsg = "bad covariance matrix"
-- 
2.43.0


From 11ee8835fb7de87b9cf76172c442239a81e97652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 25/36] fix: brute force lognormal samples do not fail on a
 draw at the lower limit

---
 ngmix/priors/priors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 54001a8..bf207b2 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -906,7 +906,11 @@ class LogNormal(PriorBase):
             # between 0,1 which is max for prob
             h = rng.uniform(size=nleft)
 
-            pvals = self.get_prob_array(rvals)
+            # the draw can fall exactly on the lower limit, where there is no
+            # probability
+            (w,) = np.where(rvals > (self.shift or 0.0))
+            pvals = np.zeros(nleft)
+            pvals[w] = self.get_prob_array(rvals[w])
 
             (w,) = np.where(h < pvals)
             if w.size > 0:
-- 
2.43.0


From 51b5edc6c6591bed4507bc77666e01de8ae370c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 26/36] fix: a T and flux guess that stays bad is replaced by a
 prior sample

---
 ngmix/guessers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 92b7da0..6c0a42c 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -1252,7 +1252,7 @@ def _fix_guess_TFlux(guess, prior, ntry=4):
 
             if dosample:
                 print_pars(guess[j, :], front="bad guess:", logger=LOGGER)
-                if itry < ntry:
+                if itry < ntry - 1:
                     tguess = prior.sample()
                     guess[j, 4:] = tguess[4:]
                 else:
-- 
2.43.0


From b5f351cc858ab0d62d26d045583707155319163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 27/36] fix: a rejected k space psf does not replace the
 current one

---
 ngmix/observation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 76c9a56..edb482a 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1272,21 +1272,20 @@ class KObservation(MetadataMixin):
             The PSF as a KObservation. If not None, the shape of the psf image
             should match the observation image.
         """
-        if self.has_psf():
-            del self._psf
-
         if psf is None:
+            if self.has_psf():
+                del self._psf
             return
 
         assert isinstance(psf, KObservation)
 
-        self._psf = psf
-
         if psf.kimage.array.shape != self.kimage.array.shape:
             raise ValueError("psf kimage must have "
                              "same shape as kimage")
         assert np.allclose(psf.kimage.scale, self.kimage.scale)
 
+        self._psf = psf
+
     def _set_jacobian(self):
         """
         center is always at the canonical center.
-- 
2.43.0


From 1640a55400e98387867774318de24eb1b59f0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 28/36] fix: samples of an n-dimensional mixture follow a newly
 set mixture

---
 ngmix/gmix_ndim/gmix_ndim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index d63fb07..afe7f51 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -71,6 +71,9 @@ class GMixND(object):
         self.tmp_lnprob = numpy.zeros(self.ngauss)
         self.xdiff = numpy.zeros(self.ndim)
 
+        # any sampler was for the previous mixture
+        self._gmm = None
+
     @property
     def converged(self):
         """
@@ -107,8 +110,8 @@ class GMixND(object):
         if not gmm.converged_:
             print("DID NOT CONVERGE")
 
-        self._gmm = gmm
         self.set_mixture(gmm.weights_, gmm.means_, gmm.covariances_)
+        self._gmm = gmm
 
         if doplot:
             plt = self.plot(data=data, **keys)
@@ -347,7 +350,7 @@ class GMixND(object):
         """
         sample from the gaussian mixture
         """
-        if not hasattr(self, "_gmm"):
+        if self._gmm is None:
             self._set_gmm()
 
         if n is None:
-- 
2.43.0


From d3ce99be73afc8fd1911d92f68aa84370e00f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 29/36] fix: undefined parameters in a catalog are flagged in
 aperture fluxes

One object with undefined parameters got an unflagged flux, and one with a
zero composite size factor stopped the calculation for the whole catalog.
---
 ngmix/gaussap.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 546f05e..d923d2d 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -93,7 +93,13 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
 
         tpars = _get_band_pars(pars, model, i, band)
 
+        if not np.all(np.isfinite(tpars)):
+            raise GMixRangeError('non finite parameters: %s' % tpars)
+
         if model == 'cm':
+            if not np.isfinite([fracdev[i], TdByTe[i]]).all():
+                raise GMixRangeError('non finite fracdev or TdByTe')
+
             gm = GMixCM(
                 fracdev[i],
                 TdByTe[i],
@@ -102,10 +108,15 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
         else:
             gm = GMixModel(tpars, model)
 
-        flux = gm.get_gaussap_flux(fwhm=weight_fwhm)
+        tflux = gm.get_gaussap_flux(fwhm=weight_fwhm)
+
+        if not np.isfinite(tflux):
+            raise GMixRangeError('non finite flux: %g' % tflux)
+
+        flux = tflux
         flags = 0
 
-    except GMixRangeError as err:
+    except (GMixRangeError, ZeroDivisionError) as err:
         logger.debug(str(err))
 
     return flux, flags
-- 
2.43.0


From a3c5318c35b615d03c70a6fe10ce54235d87d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 30/36] fix: regularizing moment shapes does not touch the
 input sums

They were set to zero and back, so a failure in between, or another user
of the result at that time, saw centroid moments of zero instead of nan.
---
 ngmix/moments.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ngmix/moments.py b/ngmix/moments.py
index 9be8438..86a9bfe 100644
--- a/ngmix/moments.py
+++ b/ngmix/moments.py
@@ -607,7 +607,8 @@ def regularize_mom_shapes(res, fwhm_reg):
         The regularized moments result. The size and flux are unchanged.
     """
     if fwhm_reg > 0:
-        raw_mom = res["sums"]
+        # a copy, we modify it below
+        raw_mom = res["sums"].copy()
         raw_mom_cov = res["sums_cov"]
 
         T_reg = fwhm_to_T(fwhm_reg)
@@ -618,17 +619,15 @@ def regularize_mom_shapes(res, fwhm_reg):
         amat[4, 5] = T_reg
 
         # the pre-PSF fitters do not fill out the centroid moments so hack around that
-        raw_mom_orig = raw_mom.copy()
+        raw_mom_orig = res["sums"]
         if np.isnan(raw_mom_orig[0]):
             raw_mom[0] = 0
         if np.isnan(raw_mom_orig[1]):
             raw_mom[1] = 0
         reg_mom = np.dot(amat, raw_mom)
         if np.isnan(raw_mom_orig[0]):
-            raw_mom[0] = np.nan
             reg_mom[0] = np.nan
         if np.isnan(raw_mom_orig[1]):
-            raw_mom[1] = np.nan
             reg_mom[1] = np.nan
 
         reg_mom_cov = np.dot(amat, np.dot(raw_mom_cov, amat.T))
-- 
2.43.0


From 448eee1f5b5f28feebe95f21f4e6ce9f828e917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 31/36] fix: flagged moment results have undefined pars rather
 than zeros

Same keys for good and flagged results from the same sums.
---
 ngmix/moments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngmix/moments.py b/ngmix/moments.py
index 86a9bfe..2bf4682 100644
--- a/ngmix/moments.py
+++ b/ngmix/moments.py
@@ -455,6 +455,7 @@ def make_mom_result(sums, sums_cov, sums_norm=None):
     res["e_err"] = np.array([np.nan, np.nan])
     res["e_cov"] = np.diag([np.nan, np.nan])
     res["sums_err"] = np.array([np.nan, np.nan, np.nan, np.nan, np.nan, np.nan])
+    res["pars"] = np.full(6, np.nan)
 
     # handle flux-only
     if sums_cov[mf_ind, mf_ind] > 0:
-- 
2.43.0


From f4f55f117d5063c6290b8723f2efac4f40262ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 32/36] fix: simulated observations keep the pixel settings of
 the input

An observation with no weight could not be simulated, even when it was
set up to allow that, and zero weight pixels that were to be kept in the
pixel list were not.
---
 ngmix/simobs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngmix/simobs.py b/ngmix/simobs.py
index 1c59406..43c5695 100644
--- a/ngmix/simobs.py
+++ b/ngmix/simobs.py
@@ -197,7 +197,9 @@ def _simulate_obs(
         weight *= 1.0 / noise_factor ** 2
 
     new_obs = Observation(
-        sim_image, weight=weight, jacobian=obs.jacobian, psf=psf
+        sim_image, weight=weight, jacobian=obs.jacobian, psf=psf,
+        ignore_zero_weight=obs.ignore_zero_weight,
+        store_pixels=obs.store_pixels,
     )
 
     new_obs.noise_image = noise_image
-- 
2.43.0


From a74665ca95b939c7f4e32286656edd8753c8cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 33/36] fix: coellip prior samples summed two draws for the
 first T, leaving the support of the T prior

---
 ngmix/joint_prior.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 69c478a..2fb157b 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -1011,16 +1011,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         cen1, cen2 = self.cen_prior.sample(nrand)
         g1, g2 = self.g_prior.sample2d(nrand)
-        T = self.T_prior.sample(nrand)
 
         samples[:, 0] = cen1
         samples[:, 1] = cen2
         samples[:, 2] = g1
         samples[:, 3] = g2
-        samples[:, 4] = T
 
         for i in range(ngauss):
-            samples[:, 4+i] += self.T_prior.sample(nrand)
+            samples[:, 4 + i] = self.T_prior.sample(nrand)
 
         F_prior = self.F_priors[0]
         for i in range(ngauss):
-- 
2.43.0


From 30e6454c89018498086becff9819d14bbcdbca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 34/36] fix: bounds of coellip priors had the wrong number and
 form, so fits with them raised

---
 ngmix/joint_prior.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 2fb157b..4a550c1 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -900,16 +900,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         some_have_bounds = False
 
-        allp = [self.T_prior]*ngauss + self.F_priors
-
-        for i, p in enumerate(allp):
+        for p in [self.T_prior] + self.F_priors:
             if p.has_bounds():
                 some_have_bounds = True
-                pbounds = [(p.bounds[0], p.bounds[1])]
+                pbounds = (p.bounds[0], p.bounds[1])
             else:
-                pbounds = [(None, None)]
+                pbounds = (None, None)
 
-            bounds += [pbounds] * self.ngauss
+            bounds += [pbounds] * ngauss
 
         if not some_have_bounds:
             bounds = None
-- 
2.43.0


From 67ccc4030b61db7e494d084054ffac243ed47dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 35/36] fix: GalsimPSFFitModel evaluates its chi^2 at the
 fitted flux

The template was renormalized to the flux within the stamp, so when part of
the light falls outside the stamp chi2per and flux_err were not those of the
flux reported.
---
 ngmix/fitting/galsim_results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index c58d03d..8a4b675 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -534,8 +534,9 @@ class GalsimPSFFitModel(PSFFluxFitModel):
         """
 
         if flux is not None:
-            model = self.template_list[iobs].copy()
-            model *= flux / model.sum()
+            # the templates have unit total flux but not all of it need fall
+            # in the stamp, so scale rather than renormalize
+            model = self.template_list[iobs] * flux
         else:
             model = self.template_list[iobs]
 
-- 
2.43.0


From 87d03abfabe3de45327fd0c4841d2a9fbc4749ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:04 +0000
Subject: [PATCH 36/36] fix: k space fits do not put their model images in the
 caller's metadata

A KObservation used for more than one band or epoch, or by more than one
fit, had its model image overwritten.
---
 ngmix/fitting/galsim_results.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index 8a4b675..90ba495 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -2,12 +2,15 @@ __all__ = [
     'GalsimFitModel', 'GalsimSpergelFitModel',
     'GalsimMoffatFitModel', 'GalsimPSFFitModel',
 ]
+import copy
 import numpy as np
 from .results import FitModel, PSFFluxFitModel
 from ..gexceptions import GMixRangeError
 from ..defaults import copy_if_needed, LOWVAL
 from .. import observation
-from ..observation import Observation, ObsList, MultiBandObsList
+from ..observation import (
+    Observation, ObsList, MultiBandObsList, KObsList, KMultiBandObsList,
+)
 
 
 class GalsimFitModel(FitModel):
@@ -205,6 +208,23 @@ class GalsimFitModel(FitModel):
 
         return kobs
 
+    def _copy_kobs(self, mb_kobs):
+        """
+        The images are shared but each observation gets its own metadata, where
+        we put the model images
+        """
+        new_mb_kobs = KMultiBandObsList(meta=mb_kobs.meta)
+        for kobs_list in mb_kobs:
+            new_kobs_list = KObsList(meta=kobs_list.meta)
+            for kobs in kobs_list:
+                new_kobs = copy.copy(kobs)
+                new_kobs.meta = kobs.meta.copy()
+                new_kobs_list.append(new_kobs)
+
+            new_mb_kobs.append(new_kobs_list)
+
+        return new_mb_kobs
+
     def _set_kobs(self, obs_in, **keys):
         """
         Input should be an Observation, ObsList, or MultiBandObsList
@@ -213,7 +233,7 @@ class GalsimFitModel(FitModel):
         if isinstance(obs_in, (Observation, ObsList, MultiBandObsList)):
             kobs = self._convert2kobs(obs_in)
         else:
-            kobs = observation.get_kmb_obs(obs_in)
+            kobs = self._copy_kobs(observation.get_kmb_obs(obs_in))
 
         self.mb_kobs = kobs
         self.nband = len(kobs)
-- 
2.43.0

