From ae313460c3f9cad886a2667416fde17aaa93f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 001/103] fix: group() lost the start of every run after the
 first when bl[0] is True

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index baba0be..9fd5ba5 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -87,7 +87,7 @@ def group(bl, min_length=0):
         if len(ups) == 0:
             ups = np.array([0])
         else:
-            ups = np.concatenate((np.array([0]), [len(ups)]))
+            ups = np.concatenate(([0], ups))
     if bl[-1]:
         if len(dns) == 0:
             dns = np.array([len(bl)])
-- 
2.43.0


From 5273d34328a774b30dcf5dddef2b5ddccee170a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 002/103] fix: convert_degrees() failed on scalar angles in
 tidal mode

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index 9fd5ba5..3ff5591 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -342,5 +342,5 @@ def convert_degrees(deg, tidal_mode=True):
     """
     out = -(deg - 90) % 360
     if tidal_mode:
-        out[out > 180] -= 360
+        out = out - 360 * (out > 180)
     return out
-- 
2.43.0


From 772edcc03a1795ae5aa03e69a7ca5c1a8bac4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 003/103] fix: epoch2dt64() was a second off for fractional
 times before 1970

---
 dolfyn/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 29b0b2a..8983b46 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -26,7 +26,7 @@ def epoch2dt64(ep_time):
     """
 
     # assumes t0=1970-01-01 00:00:00
-    out = np.array(ep_time.astype('int')).astype('datetime64[s]')
+    out = np.array(np.floor(ep_time).astype('int')).astype('datetime64[s]')
     out = out + ((ep_time % 1) * 1e9).astype('timedelta64[ns]')
     return out
 
-- 
2.43.0


From 8bc7c57e92eeb6d7cf61b4e1a4b0716142c0e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 004/103] fix: rotating an AWAC without an orientation matrix
 raised UnboundLocalError

---
 dolfyn/rotate/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 0e8cc08..1a9e1f9 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -96,6 +96,8 @@ def _inst2earth(advo, reverse=False, rotate_vars=None, force=False):
     else:
         if 'vector' in advo.inst_model.lower():
             orientation_down = advo['orientation_down']
+        else:
+            orientation_down = None
 
         omat = _calc_omat(advo['time'], advo['heading'], advo['pitch'],
                           advo['roll'], orientation_down)
-- 
2.43.0


From 1108023eb44bb04507f7375d3097e0611da5e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 005/103] fix: calc_principal_heading(tidal_mode=False)
 returned negative headings instead of 0-360

---
 dolfyn/rotate/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index eb5b38f..56f97fc 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -167,7 +167,7 @@ def calc_principal_heading(vel, tidal_mode=True):
     else:
         pang = np.angle(np.nanmean(dt, -1))
 
-    return np.round((90 - np.rad2deg(pang)), decimals=4)
+    return np.round((90 - np.rad2deg(pang)), decimals=4) % 360
 
 
 def set_declination(ds, declin, inplace=True):
-- 
2.43.0


From 6147a69eb29dcbf0155d9c2e1c4f4d341d0e029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 006/103] fix: save() changed the caller's dataset (float64
 cast to float32, attributes and time units dropped)

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index caeca76..513667b 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -164,6 +164,9 @@ def save(ds, filename,
 
     filename = _check_file_ext(filename, 'nc')
 
+    # Leave the caller's dataset as it is
+    ds = ds.copy()
+
     # Handling complex values for netCDF4
     ds.attrs['complex_vars'] = []
     for var in ds.data_vars:
-- 
2.43.0


From a642a8d791015b3bc25182c1812d0d81562381b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 007/103] fix: save() ignored the user's encoding, which is
 documented to take precedence

---
 dolfyn/io/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 513667b..fc1fcac 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -183,8 +183,7 @@ def save(ds, filename,
 
     # Write variable encoding
     enc = dict()
-    if 'encoding' in kwargs:
-        enc.update(kwargs['encoding'])
+    user_enc = kwargs.get('encoding', {})
     for ky in ds.variables:
         # Save prior encoding
         enc[ky] = ds[ky].encoding
@@ -195,9 +194,11 @@ def save(ds, filename,
 
         if compression:
             # New netcdf4-c cannot compress variable length strings
-            if ds[ky].size <= 1 or isinstance(ds[ky].data[0], str):
-                continue
-            enc[ky].update(dict(zlib=True, complevel=1))
+            if not (ds[ky].size <= 1 or isinstance(ds[ky].data[0], str)):
+                enc[ky].update(dict(zlib=True, complevel=1))
+
+        # User-specified encoding takes precedence
+        enc[ky].update(user_enc.get(ky, {}))
 
     kwargs['encoding'] = enc
 
-- 
2.43.0


From c5e2829887830f497f591769e011c92c7923dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 008/103] fix: save() failed on a dataset loaded from a
 compressed file

---
 dolfyn/io/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index fc1fcac..95c8efe 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -189,7 +189,8 @@ def save(ds, filename,
         enc[ky] = ds[ky].encoding
         # Remove unexpected netCDF4 encoding parameters
         # https://github.com/pydata/xarray/discussions/5709
-        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes']
+        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes',
+                  'preferred_chunks']
         [enc[ky].pop(p) for p in params if p in enc[ky]]
 
         if compression:
-- 
2.43.0


From 92f3736895cd8331c1a237e2e6c67b0d1eb89dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 009/103] fix: load() failed when several complex variables
 were saved and the first has a one-letter name

---
 dolfyn/io/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 95c8efe..11a4114 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -243,7 +243,7 @@ def load(filename):
     # Rejoin complex numbers
     if hasattr(ds, 'complex_vars'):
         if len(ds.complex_vars):
-            if len(ds.complex_vars[0]) == 1:
+            if isinstance(ds.complex_vars, str):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
-- 
2.43.0


From 548dfa544ed6c5e7e3f4d4f888f6d9590bc1de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 010/103] fix: reshape() raised IndexError for non-integer
 n_bin on long records

---
 dolfyn/binned.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index d61e935..57ae185 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -212,8 +212,8 @@ class TimeBinner:
         else:
             inds = (np.arange(np.prod(shp[-2:])) * n_bin // int(n_bin)
                     ).astype(int)
-            # If there are too many indices, drop one bin
-            if inds[-1] >= arr.shape[-1]:
+            # If there are too many indices, drop bins until they fit
+            while inds[-1] >= arr.shape[-1]:
                 inds = inds[:-int(n_bin)]
                 shp[-2] -= 1
                 out = out[..., 1:, :]
-- 
2.43.0


From 667dc6243fa580ec7044d8303c526c00cdf1f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 011/103] fix: psd/cpsd summed more segments than they divided
 by, overestimating the spectrum

---
 dolfyn/tools/psd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 5ac4d4f..b4f9c22 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -228,8 +228,8 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     pwr = fft(detrend(a[0:nfft]) * window)[fft_inds] * \
         np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
     if nens - 1:
-        for i1, i2 in zip(range(step[0], l[0] - nfft + 1, step[0]),
-                          range(step[1], l[1] - nfft + 1, step[1])):
+        for i1, i2 in zip(step[0] * np.arange(1, nens),
+                          step[1] * np.arange(1, nens)):
             pwr += fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds] * \
                 np.conj(fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds])
     pwr *= wght / nens / fs
@@ -311,7 +311,7 @@ def cpsd(a, b, nfft, fs, window='hann', step=None):
     else:
         pwr = s1 * np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
     if nens - 1:
-        for i in range(step, l - nfft + 1, step):
+        for i in step * np.arange(1, nens):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             if auto_psd:
                 pwr += np.abs(s1) ** 2
-- 
2.43.0


From fc80817ac9609970f7133b6babc217c64b192a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 012/103] fix: calc_psd() ignored its n_bin argument when
 cutting the data into bins

---
 dolfyn/binned.py   | 2 +-
 dolfyn/velocity.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 57ae185..9dc4bf6 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -396,7 +396,7 @@ class TimeBinner:
             n_pad = min(n_bin - n_fft, n_fft)
         out = np.empty(self._outshape_fft(dat.shape, n_fft=n_fft, n_bin=n_bin))
         # The data is detrended in psd, so we don't need to do it here.
-        dat = self.reshape(dat, n_pad=n_pad)
+        dat = self.reshape(dat, n_pad=n_pad, n_bin=n_bin)
 
         for slc in slice1d_along_axis(dat.shape, -1):
             out[slc] = psd(dat[slc], n_fft, fs,
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index c647c0d..737eab2 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -1134,7 +1134,7 @@ class VelBinner(TimeBinner):
                                               n_fft=n_fft,
                                               step=step)
             coords = {'S': self.S,
-                      'time': self.mean(veldat['time'].values),
+                      'time': self.mean(veldat['time'].values, n_bin=n_bin),
                       'freq': freq}
             dims = ['S', 'time', 'freq']
         else:
@@ -1151,7 +1151,8 @@ class VelBinner(TimeBinner):
                                      n_pad=n_pad,
                                      n_fft=n_fft,
                                      step=step)
-            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values),
+            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values,
+                                                 n_bin=n_bin),
                       'freq': freq}
             dims = [veldat.dims[-1], 'freq']
 
-- 
2.43.0


From 7e2c777babcc8d736fa32b54bdecae27178112c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 013/103] fix: phase_angle() failed for records shorter than
 nfft and averaged over the wrong number of segments

---
 dolfyn/tools/psd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index b4f9c22..1cff609 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -414,6 +414,8 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     :func:`cpsd`
     """
 
+    l = len(a)
+    step, nens, nfft = stepsize(l, nfft, step=step)
     window = _getwindow(window, nfft)
     fft_inds = slice(1, int(nfft / 2. + 1))
     s1 = fft(detrend(a[0:nfft]) * window)[fft_inds]
@@ -421,10 +423,8 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     s1 /= np.abs(s1)
     s2 /= np.abs(s2)
     ang = s2 / s1
-    l = len(a)
-    step, nens, nfft = stepsize(l, nfft, step=step)
     if nens - 1:
-        for i in range(step, l - nfft + 1, step):
+        for i in step * np.arange(1, nens):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             s1 /= np.abs(s1)
             s2 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
-- 
2.43.0


From 7bfbc0fd58d9782ed3d8016f30b351a4b19bc0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 014/103] fix: coherence() averaged the auto- and cross-spectra
 over different segments

---
 dolfyn/tools/psd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 1cff609..ac80fa4 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -143,8 +143,10 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     # fs=1 is ok because it comes out in the normalization.  (noise
     # normalization depends on this)
     out = ((np.abs(cross(a, b, nfft, 1, window=window)) ** 2) /
-           ((psd(a, nfft, 1, window=window, step=step1) - noise[0] ** 2 / np.pi) *
-            (psd(b, nfft, 1, window=window, step=step2) - noise[1] ** 2 / np.pi))
+           ((psd(a[:step1 * (nens - 1) + nfft], nfft, 1, window=window,
+                 step=step1) - noise[0] ** 2 / np.pi) *
+            (psd(b[:step2 * (nens - 1) + nfft], nfft, 1, window=window,
+                 step=step2) - noise[1] ** 2 / np.pi))
            )
     if debias:
         # This is from Benignus1969, it seems to work (make data with different
-- 
2.43.0


From 7a523723fffece1dd1cae5f3bf2bd6073fcd8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 015/103] fix: coherence() subtracted too small a noise level
 from the auto-spectra

---
 dolfyn/tools/psd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index ac80fa4..ebe7d95 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -140,13 +140,13 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
         noise = [noise[0], noise[0]]
     if nens <= 2:
         raise Exception("Coherence must be computed from a set of ensembles.")
-    # fs=1 is ok because it comes out in the normalization.  (noise
-    # normalization depends on this)
+    # fs=1 is ok because it comes out in the normalization.  (the noise
+    # level noise**2 / (fs/2) depends on this)
     out = ((np.abs(cross(a, b, nfft, 1, window=window)) ** 2) /
            ((psd(a[:step1 * (nens - 1) + nfft], nfft, 1, window=window,
-                 step=step1) - noise[0] ** 2 / np.pi) *
+                 step=step1) - 2 * noise[0] ** 2) *
             (psd(b[:step2 * (nens - 1) + nfft], nfft, 1, window=window,
-                 step=step2) - noise[1] ** 2 / np.pi))
+                 step=step2) - 2 * noise[1] ** 2))
            )
     if debias:
         # This is from Benignus1969, it seems to work (make data with different
-- 
2.43.0


From df224a3bd342fdebeac604820e3c05d850e96424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 016/103] fix: calc_coh, calc_phase_angle and calc_csd failed
 when n_bin or n_fft_coh was given

---
 dolfyn/adv/turbulence.py | 2 +-
 dolfyn/binned.py         | 8 ++++----
 dolfyn/velocity.py       | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 1f4ccae..2ce78b4 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -128,7 +128,7 @@ class ADVBinner(VelBinner):
 
         fs_in = self._parse_fs(fs)
         n_fft = self._parse_nfft_coh(n_fft_coh)
-        time = self.mean(veldat.time.values)
+        time = self.mean(veldat.time.values, n_bin=n_bin)
         veldat = veldat.values
         if len(np.shape(veldat)) != 2:
             raise Exception("This function is only valid for calculating TKE using "
diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 9dc4bf6..493d0ce 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -141,7 +141,7 @@ class TimeBinner:
                 o_attrs[ky] = props[ky]
         return out_ds
 
-    def _new_coords(self, array):
+    def _new_coords(self, array, n_bin=None):
         """Function for setting up a new xarray.DataArray regardless of how 
         many dimensions the input data-array has
         """
@@ -154,7 +154,7 @@ class TimeBinner:
         for ky in dims:
             dims_list.append(ky)
             if 'time' in ky:
-                coords_dict[ky] = self.mean(array.time.values)
+                coords_dict[ky] = self.mean(array[ky].values, n_bin=n_bin)
             else:
                 coords_dict[ky] = array.coords[ky].values
 
@@ -454,8 +454,8 @@ class TimeBinner:
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
 
         # The data is detrended in psd, so we don't need to do it here:
-        dat1 = self.reshape(dat1, n_pad=n_fft)
-        dat2 = self.reshape(dat2, n_pad=n_fft)
+        dat1 = self.reshape(dat1, n_pad=n_fft, n_bin=n_bin1)
+        dat2 = self.reshape(dat2, n_pad=n_fft, n_bin=n_bin2)
         out = np.empty(oshp, dtype='c{}'.format(dat1.dtype.itemsize * 2))
         if dat1.shape == dat2.shape:
             cross = cpsd
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 737eab2..08a907c 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -698,10 +698,10 @@ class VelBinner(TimeBinner):
                                  window=window, debias=debias,
                                  noise=noise)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -774,10 +774,10 @@ class VelBinner(TimeBinner):
             out[slc] = phase_angle(dat1[slc], dat2[slc], n_fft,
                                    window=window)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
-- 
2.43.0


From 5f41faec6c9dd4e40a1131496520fd56cc6841cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 017/103] fix: equally long records could be cut into bins of
 different size by calc_coh/calc_csd (float truncation)

---
 dolfyn/binned.py   | 2 +-
 dolfyn/velocity.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 493d0ce..b7de66f 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -448,7 +448,7 @@ class TimeBinner:
             n_fft = self.n_fft_coh
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 08a907c..3c21e24 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -683,7 +683,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -759,7 +759,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -885,7 +885,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
 
         shp = self._outshape(dat1.shape, n_bin=n_bin1)
         shp[-2] = min(shp[-2], self._outshape(dat2.shape, n_bin=n_bin2)[-2])
-- 
2.43.0


From ed794f0148e4ffdea131074fac754078a4f1a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 018/103] fix: cpsd_quasisync(a, b) returned the conjugate when
 a is longer than b

---
 dolfyn/tools/psd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index ebe7d95..ea90075 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -218,8 +218,7 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     if l[0] == l[1]:
         return cpsd(a, b, nfft, fs, window=window)
     elif l[0] > l[1]:
-        a, b = b, a
-        l = l[::-1]
+        return np.conj(cpsd_quasisync(b, a, nfft, fs, window=window))
     step = [0, 0]
     step[0], nens, nfft = stepsize(l[0], nfft)
     step[1], nens, nfft = stepsize(l[1], nfft, nens=nens)
-- 
2.43.0


From f3713f7e3880e59c8f675a2fb736504f71ef7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 019/103] fix: coherence() applied the noise levels to the
 wrong signals when a is longer than b

---
 dolfyn/tools/psd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index ea90075..b17a158 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -132,6 +132,8 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     elif l[0] > l[1]:
         a, b = b, a
         l = l[::-1]
+        if np.size(noise) == 2:
+            noise = noise[::-1]
     step1, nens, nfft = stepsize(l[0], nfft)
     step2, nens, nfft = stepsize(l[1], nfft, nens=nens)
     if noise.__class__ not in [list, tuple, np.ndarray]:
-- 
2.43.0


From 949b3387b222d322d35044548699152504523c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 020/103] fix: calc_acov/calc_xcov failed for bin sizes that
 are not multiples of four or given as n_bin

---
 dolfyn/velocity.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 3c21e24..143b4b1 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -820,11 +820,12 @@ class VelBinner(TimeBinner):
         n_bin = self._parse_nbin(n_bin)
         out = np.empty(self._outshape(indat.shape, n_bin=n_bin)[:-1] +
                        [int(n_bin // 4)], dtype=indat.dtype)
-        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2)
+        dt1 = self.reshape(indat, n_pad=max(2 * (n_bin // 4) - 2, 0),
+                           n_bin=n_bin)
         # Here we de-mean only on the 'valid' range:
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
-        dt2 = self.demean(indat)
+        dt2 = self.demean(indat, n_bin=n_bin)
         se = slice(int(n_bin // 4) - 1, None, 1)
         sb = slice(int(n_bin // 4) - 1, None, -1)
         for slc in slice1d_along_axis(dt1.shape, -1):
@@ -839,7 +840,7 @@ class VelBinner(TimeBinner):
                 # For the others we take the average of the two sides.
                 out[slc] = (tmp[se] + tmp[sb]) / 2
 
-        dims_list, coords_dict = self._new_coords(veldat)
+        dims_list, coords_dict = self._new_coords(veldat, n_bin)
         # tack on new coordinate
         dims_list.append('lag')
         coords_dict['lag'] = np.arange(n_bin//4)
@@ -908,7 +909,7 @@ class VelBinner(TimeBinner):
                     self.std(dat2, n_bin=n_bin2)[..., :shp[-2]] *
                     n_bin2)[..., None]
 
-        dims_list, coords_dict = self._new_coords(veldat1)
+        dims_list, coords_dict = self._new_coords(veldat1, n_bin1)
         # tack on new coordinate
         dims_list.append('dt')
         coords_dict['dt'] = np.arange(npt)
-- 
2.43.0


From 616c775beb737a93a7c5cfe94d9870f1f63ec12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 021/103] fix: calc_ti() ignored thresh

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 143b4b1..c54db56 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -962,7 +962,7 @@ class VelBinner(TimeBinner):
                 coords[nm] = U_mag[nm].values
 
         return xr.DataArray(
-            ti.data.astype('float32'),
+            ti.filled(np.nan).astype('float32'),
             coords=coords,
             dims=dims,
             attrs={'units': '% [0,1]',
-- 
2.43.0


From a376c22caad55768ffb7130e2faab9564ad3fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 022/103] fix: calc_tke() rejected valid noise arrays by
 comparing shapes instead of dimensions

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index c54db56..50b0f14 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -1024,7 +1024,7 @@ class VelBinner(TimeBinner):
         else:
             # Subtract noise
             if noise is not None:
-                if np.shape(noise) > np.shape(vel):
+                if np.ndim(noise) > np.ndim(vel):
                     raise Exception(
                         'Noise should have same or fewer dimensions as velocity')
                 out -= noise ** 2
-- 
2.43.0


From 181d1c557c67fdd7a93cd6b4203b9b122ea2e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 023/103] fix: ADVBinner removed the configuration attributes
 from the raw dataset

---
 dolfyn/adv/turbulence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 2ce78b4..e98f95f 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -39,10 +39,8 @@ class ADVBinner(VelBinner):
                                    window=window,
                                    freq_units=freq_units,
                                    noise=noise)
-        for key in list(ds.attrs.keys()):
-            if 'config' in key:
-                ds.attrs.pop(key)
-        out.attrs = ds.attrs
+        out.attrs = {key: val for key, val in ds.attrs.items()
+                     if 'config' not in key}
         out.attrs['n_bin'] = self.n_bin
         out.attrs['n_fft'] = self.n_fft
         out.attrs['n_fft_coh'] = self.n_fft_coh
-- 
2.43.0


From 8f431fb4fc82b820dd36aaac3872cb4cb115f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 024/103] fix: calc_dudz() failed for down-looking instruments

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 5ff46e0..1c953cd 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -99,8 +99,8 @@ class ADPBinner(VelBinner):
         if orientation == 'down':
             sign *= -1
 
-        dudz, rng = sign*self._diff_func(vel, 0)
-        return xr.DataArray(dudz,
+        dudz, rng = self._diff_func(vel, 0)
+        return xr.DataArray(sign*dudz,
                             coords=[rng, vel.time],
                             dims=['range', 'time'],
                             attrs={'units': 's-1',
-- 
2.43.0


From ba1c8a3ca4b44e74c740e52f3d22be9624482b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 025/103] fix: structure function (SF) put separations in the
 wrong column for bin sizes like 0.1 m

---
 dolfyn/adp/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 1c953cd..be8fc16 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -749,7 +749,7 @@ class ADPBinner(VelBinner):
         for r_value in r:
             # the i in d is the index based on r and bin size
             # bin size index, > 1
-            i = int(r_value/bin_size)
+            i = round(r_value/bin_size)
             for idx in range(bm.shape[1]):  # for each ensemble
                 # subtract the variance of adjacent depth cells
                 d = np.nanmean(
-- 
2.43.0


From 20fcad4201aff5ee071edfc25b83e552ed10f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 026/103] fix: calc_dissipation_LT83() (ADP) failed for a
 scalar noise level

---
 dolfyn/adp/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index be8fc16..c50b3a4 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -636,7 +636,7 @@ class ADPBinner(VelBinner):
         if not hasattr(freq_range, "__iter__") or len(freq_range) != 2:
             raise ValueError("`freq_range` must be an iterable of length 2.")
         if noise is not None:
-            if np.shape(noise)[0] != np.shape(psd)[0]:
+            if np.ndim(noise) and np.shape(noise)[0] != np.shape(psd)[0]:
                 raise Exception(
                     'Noise should have same first dimension as PSD')
         else:
-- 
2.43.0


From f93e4734fbed18520427498040721bdbff3ea91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 027/103] fix: find_surface() gave wrong depths for profiles of
 more than 256 cells

---
 dolfyn/adp/clean.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 939aa22..cf6517e 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -76,8 +76,7 @@ def find_surface(ds, thresh=10, nfilt=None):
     # the echo profile
     edf = np.diff(ds.amp.values.astype(np.int16), axis=1)
     inds2 = np.max((edf < 0) *
-                   np.arange(ds.vel.shape[1] - 1,
-                             dtype=np.uint8)[None, :, None], axis=1) + 1
+                   np.arange(ds.vel.shape[1] - 1)[None, :, None], axis=1) + 1
 
     # Calculate the depth of these quantities
     d1 = ds.range.values[inds]
-- 
2.43.0


From 472cdbc45ce0e4aa03d1f6d13e28a1a0522f6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 028/103] fix: nan_beyond_surface() failed or masked wrong
 cells of variables on another range coordinate

---
 dolfyn/adp/clean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index cf6517e..d991887 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -224,8 +224,6 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
     else:
         range_limit = ds.depth * np.cos(beam_angle) - ds.cell_size
 
-    bds = ds.range > range_limit
-
     # Echosounder data needs only be trimmed at water surface
     if 'echo' in var:
         bds_echo = ds.range_echo > ds.depth
@@ -235,6 +233,8 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
     # Correct rest of "range" data for surface interference
     for nm in var:
         a = ds[nm].values
+        rng = [s for s in ds[nm].dims if 'range' in s][0]
+        bds = ds[rng].values[:, None] > range_limit.values
         try:  # float dtype
             a[..., bds] = val
         except:  # int dtype
-- 
2.43.0


From 1e53653903e32ac12210aeab48d0a948a378f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 029/103] fix: E_coh failed for ADCP stress profiles

---
 dolfyn/velocity.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 50b0f14..5bb0070 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -363,8 +363,6 @@ class Velocity():
 
         return xr.DataArray(
             E_coh.astype('float32'),
-            coords={'time': self.ds['stress_vec'].time},
-            dims=['time'],
             attrs={'units': self.ds['stress_vec'].units,
                    'long_name': 'Coherent Turbulence Energy'})
 
-- 
2.43.0


From 8b150196527da318f81f26503d854984876fba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 030/103] fix: U_dir failed for a single velocity vector
 outside the earth frame

---
 dolfyn/velocity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 5bb0070..68f5f98 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -334,8 +334,8 @@ class Velocity():
                 relative_to = self.ds.dir[1].values
             else:
                 # Switch to clockwise and from [-180, 180] to [0, 360]
-                angle *= -1
-                angle[angle < 0] += 360
+                angle = -angle
+                angle = np.where(angle < 0, angle + 360, angle)
                 relative_to = self.ds.dir[0].values
             return angle, relative_to
 
-- 
2.43.0


From afc52b8506a37d3408e0b4fe45e74a1e61672798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 031/103] fix: calc_principal_heading() failed for a series
 without valid velocities

---
 dolfyn/rotate/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index 56f97fc..cae63a4 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -159,7 +159,7 @@ def calc_principal_heading(vel, tidal_mode=True):
         # Now double the angle, so that angles near pi and 0 get averaged
         # together correctly:
         dt *= np.exp(1j * np.angle(dt))
-        dt = np.ma.masked_invalid(dt)
+        dt = np.where(np.isfinite(dt), dt, np.nan)
         # Divide the angle by 2 to remove the doubling done on the previous
         # line.
         pang = np.angle(
-- 
2.43.0


From e922674139672e617450ae4dc443f09e303d202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 032/103] fix: Nortek reader added samples that are not in the
 file

The arrays are allocated for an estimated number of samples; the space that
was not needed was never removed (the crop looked at the groups, not at the
arrays in them), and the requested start sample was ignored.
---
 dolfyn/io/nortek.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index db8af56..58ece2d 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -433,8 +433,6 @@ class _NortekReader():
         else:
             if self.debug:
                 logging.info(' stopped at {} bytes.'.format(self.pos))
-        self.c -= 1
-        _crop_data(self.data, slice(0, self.c), self.n_samp_guess)
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
             self.data['coords']['time'] += self.config['start_time_VNO']
@@ -1268,6 +1266,12 @@ class _NortekReader():
         for nm in ['data_header', 'checkdata']:
             if nm in self.config and isinstance(self.config[nm], list):
                 self.config[nm] = _recatenate(self.config[nm])
+        # Remove the space that was allocated but not filled by a (complete)
+        # sample of the file, and the samples before the requested start.
+        rng = slice(self._n_start, self.c)
+        for grp in ['coords', 'data_vars', 'sys']:
+            _crop_data(self.data[grp], rng, self.n_samp_guess)
+        self.burst_start = self.burst_start[rng]
 
     def __exit__(self, type, value, trace):
         self.close()
@@ -1278,6 +1282,8 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
+        if 'beam2inst' in nm or 'range' in nm:  # not a function of time
+            continue
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
 
-- 
2.43.0


From be541d8320b0f02142430ec56e6eccb3da0c529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 033/103] fix: Vector times of a burst with one or two system
 records

Time is in seconds since 1970, but was advanced by days per sample.
---
 dolfyn/io/nortek.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 58ece2d..bb0c7f4 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -871,10 +871,10 @@ class _NortekReader():
                 p = np.poly1d(np.polyfit(inds, t[iburst][inds], 1))
                 t[iburst] = p(arng)
             elif len(inds) == 1:
-                t[iburst] = ((arng - inds[0]) / (fs * 3600 * 24) +
-                             t[iburst][inds[0]])
-            else:
-                t[iburst] = (t[iburst][0] + arng / (fs * 24 * 3600))
+                t[iburst] = (arng - inds[0]) / fs + t[iburst][inds[0]]
+            elif sysi.any():
+                i0 = np.nonzero(sysi)[0][0]
+                t[iburst] = (arng - i0) / fs + t[iburst][i0]
 
             tmpd = tbx._nans_like(dv['heading'][iburst])
             # The first status bit should be the orientation.
-- 
2.43.0


From 6f5089e51b80b9f5540b64fdbd00bf80872066d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 034/103] fix: do_checksum of the Nortek reader raised a
 TypeError

---
 dolfyn/io/nortek.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index bb0c7f4..d87435c 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -390,7 +390,7 @@ class _NortekReader():
                                 "in ping %d. Searching for next valid code..." %
                                 (tmp[0], tmp[1], self.c))
             val = int(self.findnext(do_cs=False), 0)
-            self.f.seek(2, 1)
+            self._thisid_bytes = self.read(2)
             if self.debug:
                 logging.debug(
                     ' ...FOUND {} at position: {}.'.format(val, self.pos))
@@ -473,10 +473,10 @@ class _NortekReader():
         """Perform a checksum on `byts` and read the checksum value.
         """
         if self.do_checksum:
-            if not np.sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
-                                 self._thisid_bytes + byts)) + \
-                    46476 - unpack(self.endian + 'H', self.read(2)):
-
+            words = unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
+                           self._thisid_bytes + byts)
+            if (sum(words) + 46476) & 0xffff != \
+                    unpack(self.endian + 'H', self.read(2))[0]:
                 raise Exception("CheckSum Failed at {}".format(self.pos))
         else:
             self.f.seek(2, 1)
-- 
2.43.0


From b7252f9cf5d0eba0f03f0648e23ec33f8314b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 035/103] fix: a given userdata filename was ignored

---
 dolfyn/io/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 3616f78..c46c866 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -41,15 +41,14 @@ def _get_filetype(fname):
 
 def _find_userdata(filename, userdata=True):
     # This function finds the file to read
-    if userdata:
+    if isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
+        return _read_userdata(userdata)
+    elif userdata:
         for basefile in [filename.rsplit('.', 1)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
                 return _read_userdata(jsonfile)
-
-    elif isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
-        return _read_userdata(userdata)
     return {}
 
 
-- 
2.43.0


From 598a5cbc38a29f607a4ad2406165bfe81b7757ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:03 +0000
Subject: [PATCH 036/103] fix: Vector heading was interpolated through south
 where it crosses north

---
 dolfyn/io/nortek.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index d87435c..9add77d 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -887,7 +887,11 @@ class _NortekReader():
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
         tbx.interpgaps(dv['c_sound'], t)
+        # Heading is circular: interpolate it along the shorter arc
+        good = ~np.isnan(dv['heading'])
+        dv['heading'][good] = np.unwrap(dv['heading'][good], period=360)
         tbx.interpgaps(dv['heading'], t)
+        dv['heading'] %= 360
         tbx.interpgaps(dv['pitch'], t)
         tbx.interpgaps(dv['roll'], t)
         tbx.interpgaps(dv['temp'], t)
-- 
2.43.0


From 5cb3a3193fe011dcef7e9e934189c40eddf0740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:26 +0000
Subject: [PATCH 037/103] fix: temperatures below zero in Vector and AWAC files
 were read as 655 degC

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 9add77d..4ee947d 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -837,7 +837,7 @@ class _NortekReader():
          dv['temp'][c],
          dv['error'][c],
          dv['status'][c],
-         ds['AnaIn'][c]) = unpack(self.endian + '2H3hH2BH', byts[8:])
+         ds['AnaIn'][c]) = unpack(self.endian + '2H4h2BH', byts[8:])
         self.checksum(byts)
 
     def sci_vec_sysdata(self,):
@@ -1066,7 +1066,7 @@ class _NortekReader():
          p_msb,
          dv['status'][c],
          p_lsw,
-         dv['temp'][c],) = unpack(self.endian + '7HBB2H', byts[8:28])
+         dv['temp'][c],) = unpack(self.endian + '7HBBHh', byts[8:28])
         dv['pressure'][c] = (65536 * p_msb + p_lsw)
         # The nortek system integrator manual specifies an 88byte 'spare'
         # field, therefore we start at 116.
-- 
2.43.0


From f97940bc0706caaf12ac98f17fa411107cd5a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:50 +0000
Subject: [PATCH 038/103] fix: reading failed where no sample has an
 orientation

---
 dolfyn/rotate/vector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 1a9e1f9..ccd5ca7 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -194,10 +194,12 @@ def _calc_omat(time, hh, pp, rr, orientation_down=None):
     hh = hh.data.copy()
     if np.isnan(rr[-1]) and np.isnan(pp[-1]) and np.isnan(hh[-1]):
         # The end of the data may not have valid orientations
-        lastgd = np.nonzero(~np.isnan(rr + pp + hh))[0][-1]
-        rr[lastgd:] = rr[lastgd]
-        pp[lastgd:] = pp[lastgd]
-        hh[lastgd:] = hh[lastgd]
+        good = np.nonzero(~np.isnan(rr + pp + hh))[0]
+        if len(good):
+            lastgd = good[-1]
+            rr[lastgd:] = rr[lastgd]
+            pp[lastgd:] = pp[lastgd]
+            hh[lastgd:] = hh[lastgd]
     if orientation_down is not None:
         # For Nortek Vector ADVs: 'down' configuration means the head was
         # pointing 'up', where the 'up' orientation corresponds to the
-- 
2.43.0


From c44266f9fa98679a1caf7f18530b42c661f48521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:33 +0000
Subject: [PATCH 039/103] fix: TRDI files of small ensembles were silently cut
 short

The size of an ensemble is measured from header to header, checksum
included; adding two bytes to it again underestimates the number of
ensembles once there are more than a few hundred of less than 400 bytes.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 80f2fc8..b8ca583 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -207,7 +207,7 @@ class _RDIReader():
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
         space = self.code_spacing()  # '0x7F'
-        self._npings = int(self._filesize / (space + 2))
+        self._npings = int(self._filesize / space)
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
-- 
2.43.0


From a61c1e1d1c45e41ddbc1608916a65f9e4396833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:35 +0000
Subject: [PATCH 040/103] fix: TRDI ensemble numbers above 65535 were off by
 their high byte

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index b8ca583..7a3587c 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -840,7 +840,7 @@ class _RDIReader():
                            'adc']
         ens.number[k] = fd.read_ui16(1)
         ens.rtc[:, k] = fd.read_ui8(7)
-        ens.number[k] += 65535 * fd.read_ui8(1)
+        ens.number[k] += 65536 * int(fd.read_ui8(1))
         ens.builtin_test_fail[k] = fd.read_ui16(1)
         ens.c_sound[k] = fd.read_ui16(1)
         ens.depth[k] = fd.read_ui16(1) * 0.1
-- 
2.43.0


From cf92da0f6948bc9220c031d2167418dcd6d7192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 041/103] fix: a damaged TRDI ensemble length lost the rest of
 the file, a cut one raised

checkheader() stayed at the end of the file when a (supposed) header
points past it, and bin_reader raised struct.error on a partial value.
---
 dolfyn/io/rdi.py     | 7 ++++++-
 dolfyn/io/rdi_lib.py | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 7a3587c..b041780 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -525,16 +525,21 @@ class _RDIReader():
         valid = False
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
+        pos = fd.tell()
         numbytes = fd.read_i16(1)
+        if numbytes is None:
+            return False
         if numbytes > 0:
             fd.seek(numbytes - 2, 1)
             cfgid = fd.read_ui8(2)
+            # Continue the search here if this is not a header, also if its
+            # (supposed) length points past the end of the file
+            fd.seek(pos, 0)
             if cfgid is None:
                 if self._debug_level > 1:
                     logging.info('EOF')
                 return False
             if len(cfgid) == 2:
-                fd.seek(-numbytes - 2, 1)
                 if cfgid[0] == 127 and cfgid[1] in [127, 121]:
                     if cfgid[1] == 121 and self._debug7f79 is None:
                         self._debug7f79 = True
diff --git a/dolfyn/io/rdi_lib.py b/dolfyn/io/rdi_lib.py
index a707f8f..61218fa 100644
--- a/dolfyn/io/rdi_lib.py
+++ b/dolfyn/io/rdi_lib.py
@@ -77,7 +77,8 @@ class bin_reader():
 
     def read(self, n, frmt):
         val = self.f.read(n * self._size_factor[frmt])
-        if not val:  # If val is empty we are at the end of the file.
+        # If val is empty or incomplete we are at the end of the file.
+        if len(val) < n * self._size_factor[frmt]:
             return None
         self.cs and self.cs.add(val)
         if n == 1:
-- 
2.43.0


From 00893086cb022a555c0348402f6f11840514a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 042/103] fix: TRDI reader skipped ensembles after one of
 another layout

The correction made for the first ensemble (WinRiver and VMDAS files) was
applied to all later ones, whatever was read of them.
---
 dolfyn/io/rdi.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index b041780..23b4eb1 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -187,7 +187,6 @@ class _RDIReader():
     progress = 0
     _cfac = 180 / 2 ** 31
     _source = 0
-    _fixoffset = 0
     _nbyte = 0
     _search_num = 30000  # Maximum distance? to search
     _debug7f79 = None
@@ -478,9 +477,9 @@ class _RDIReader():
                         logging.info(f'Found {id:04d}')
                     if id == 8192:
                         self.read_dat(id)
-            readbytes = fd.tell() - startpos
-            offset = hdr['nbyte'] + 2 - readbytes
-            self.check_offset(offset, readbytes)
+            # The next ensemble starts behind this one's checksum, whatever
+            # of this one was read
+            fd.seek(startpos + hdr['nbyte'] + 2, 0)
             self.print_pos(byte_offset=byte_offset)
 
         return True
@@ -580,19 +579,6 @@ class _RDIReader():
             logging.debug(
                 f'  pos: {self.f.tell()}, pos_: {self._pos}, nbyte: {self._nbyte}, k: {k}, byte_offset: {byte_offset}')
 
-    def check_offset(self, offset, readbytes):
-        fd = self.f
-        if offset != 4 and self._fixoffset == 0:
-            if self._debug_level > 0:
-                if fd.tell() == self._filesize:
-                    logging.error(
-                        ' EOF reached unexpectedly - discarding this last ensemble\n')
-                else:
-                    logging.debug("  Adjust location by {:d} (readbytes={:d},hdr['nbyte']={:d})\n"
-                                  .format(offset, readbytes, self.hdr['nbyte']))
-            self._fixoffset = offset - 4
-        fd.seek(4 + self._fixoffset, 1)
-
     def remove_end(self, iens):
         dat = self.outd
         if self._debug_level > 0:
-- 
2.43.0


From 5dcca769d1648fdea7954fc8292236158d73515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 043/103] fix: TRDI reader failed on unknown data types (last
 of an ensemble, not in the first ensemble, or 30xx)

---
 dolfyn/io/rdi.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 23b4eb1..5dbef24 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -430,7 +430,7 @@ class _RDIReader():
         while self.ensemble.k < self.ensemble.n_avg - 1:
             if not self.search_buffer():
                 return False
-            startpos = fd.tell() - 2
+            startpos = self._startpos = fd.tell() - 2
             self.read_hdrseg()
             if self._debug_level >= 0:
                 logging.info('Read Header', hdr)
@@ -1265,30 +1265,16 @@ class _RDIReader():
         self._nbyte = 2 + n_skip
 
     def read_nocode(self, id):
-        # Skipping bytes from codes 0340-30FC, commented if needed
-        hxid = hex(id)
-        if hxid[2:4] == '30':
-            logging.warning("Skipping bytes from codes 0340-30FC")
-            # I want to count the number of 1s in the middle 4 bits
-            # of the 2nd two bytes.
-            # 60 is a 0b00111100 mask
-            nflds = (bin(int(hxid[3]) & 60).count('1') +
-                     bin(int(hxid[4]) & 60).count('1'))
-            # I want to count the number of 1s in the highest
-            # 2 bits of byte 3
-            # 3 is a 0b00000011 mask:
-            dfac = bin(int(hxid[3], 0) & 3).count('1')
-            self.skip_Nbyte(12 * nflds * dfac)
-        else:
-            if self._debug_level >= 0:
-                logging.warning('  Unrecognized ID code: %0.4X' % id)
-            self.skip_nocode(id)
+        if self._debug_level >= 0:
+            logging.warning('  Unrecognized ID code: %0.4X' % id)
+        self.skip_nocode(id)
 
     def skip_nocode(self, id):
         # Skipping bytes if ID isn't known
-        offsets = list(self.id_positions.values())
-        idx = np.where(offsets == self.id_positions[id])[0][0]
-        byte_len = offsets[idx+1] - offsets[idx] - 2
+        # up to the next data type, or the checksum after the last one
+        start = self.f.tell() - self._startpos - 2
+        ends = [o for o in self.hdr['dat_offsets'] if o > start]
+        byte_len = min(ends + [self.hdr['nbyte']]) - start - 2
 
         self.skip_Nbyte(byte_len)
         if self._debug_level >= 0:
-- 
2.43.0


From a419ea1a27d18096d9102231f82c739e899ab442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 044/103] fix: TRDI declination of userdata.json was noted but
 not applied where the file has one, too

---
 dolfyn/io/rdi.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 5dbef24..77ae4bb 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -176,7 +176,6 @@ def _set_rdi_declination(dat, fname, inplace):
             "'magnetic_var_deg', delete the value from userdata.json and "
             "re-read the file."
             .format(dat.attrs['magnetic_var_deg'], fname, declin))
-        dat.attrs['declination'] = declin
 
     if declin is not None:
         set_declination(dat, declin, inplace)
-- 
2.43.0


From 46570f5e98a13bde351961c65239c4839a5a0db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 045/103] fix: TRDI files with depth sounder data failed where
 GPS times repeat

dist_nmea is on the ensemble times, and kept out of the sorting by GPS time.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 77ae4bb..b3f3142 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -148,7 +148,7 @@ def _remove_gps_duplicates(dat):
         dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
 
     for key in dat['data_vars']:
-        if ('gps' in key) or ('nmea' in key):
+        if 'gps' in key:
             dat['data_vars'][key] = dat['data_vars'][key][idx]
             if sum(nan) > 0:
                 dat['data_vars'][key] = dat['data_vars'][key][~nan]
-- 
2.43.0


From 0387536b1d3e88a258d444dce32f5d39658fec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 046/103] fix: TRDI files could be cut short or fail because
 the number of ensembles was estimated

The estimate from the first 50 ensembles is too small where later ones are
smaller (transects), and divided by zero for files of one usable ensemble.
Count the ensembles instead, from header to header.
---
 dolfyn/io/rdi.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index b3f3142..9833c93 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -204,8 +204,7 @@ class _RDIReader():
 
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
-        space = self.code_spacing()  # '0x7F'
-        self._npings = int(self._filesize / space)
+        self._npings = self.count_ensembles()  # '0x7F'
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
@@ -222,38 +221,38 @@ class _RDIReader():
             self.vars_readBB = defs._variable_setlist(['time'])
 
         if self._debug_level >= 0:
-            logging.info('  %d pings estimated in this file' % self._npings)
+            logging.info('  %d pings in this file' % self._npings)
 
-    def code_spacing(self, iternum=50):
+    def count_ensembles(self,):
         """
-        Returns the average spacing, in bytes, between pings.
-        Repeat this * iternum * times(default 50).
+        Returns the number of valid ensembles in the file, and positions the
+        reader at the first one.
         """
-        fd = self.f
-        p0 = self._pos
         # Get basic header data and check dual profile
         if not self.read_hdr():
             raise RuntimeError('No header in this file')
+        p0 = self._pos
+        nbyte = self.hdr['nbyte']
         self._bb = self.check_for_double_buffer()
 
-        # Turn off debugging to check code spacing
+        # Turn off debugging while counting
         debug_level = self._debug_level
         self._debug_level = -1
-        for i in range(iternum):
-            try:
-                self.read_hdr()
-            except:
-                break
-        # Compute the average of the data size:
-        size = (self._pos - p0) / (i+1) * 0.995
-        self.f = fd
+        count = 1
+        self.f.seek(p0 + nbyte + 2, 0)
+        while self.read_hdr():
+            count += 1
+            self.f.seek(self._pos + self.hdr['nbyte'] + 2, 0)
         self._pos = p0
         self._debug_level = debug_level
-        return size
+        return count
 
     def read_hdr(self,):
         fd = self.f
-        cfgid = list(fd.read_ui8(2))
+        cfgid = fd.read_ui8(2)
+        if cfgid is None:
+            return False
+        cfgid = list(cfgid)
         nread = 0
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
-- 
2.43.0


From fbe01a95acd4be8cd0f7a50e307596cff833f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 047/103] fix: read Signature temperatures as signed numbers

They were read as unsigned, which turned -1 degree_C into 654.
---
 dolfyn/io/nortek2_defs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index 8456734..2014910 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -189,7 +189,7 @@ _burst_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
@@ -237,7 +237,7 @@ _bt_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
-- 
2.43.0


From 7f7d2902d18f3e6cfe3239a06e68f8c5ea355b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 048/103] fix: Signature records that are recorded less often
 than profiles

_check_index moves the ensemble count of an ID that skips pings by only one,
so that altimeter records and the like started ensembles of their own.
---
 dolfyn/io/nortek2_lib.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b72bfb7..996e761 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -163,7 +163,6 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
         hwe = idx['hw_ens'].copy()
     period = hwe.max()
     ens = idx['ens']
-    N_id = len(uid)
     FLAG = False
 
     # Are there better ways to detect dual profile?
@@ -171,12 +170,22 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
         warnings.warn("Dual Profile detected... Two datasets will be returned.")
         dp = True
 
+    # Records other than profiles may be recorded less often than those are:
+    # they belong to the ensemble in which they are found
+    n_rec = {id: np.sum(idx['ID'] == id) for id in uid}
+    rare = [id for id in uid if not dp and id not in [21, 22, 23, 24, 28] and
+            n_rec[id] < 0.75 * max(n_rec.values())]
+    uid = [id for id in uid if id not in rare]
+    is_rare = np.isin(idx['ID'], rare)
+    pos = np.arange(len(idx)) - np.cumsum(is_rare)
+    N_id = len(uid)
+
     # This loop fixes 'skips' inside the file
     for id in uid:
         # These are the indices for this ID
         inds = np.nonzero(idx['ID'] == id)[0]
         # These are bad steps in the indices for this ID
-        ibad = np.nonzero(np.diff(inds) > N_id)[0]
+        ibad = np.nonzero(np.diff(pos[inds]) > N_id)[0]
         # Check if spacing is equal for dual profiling ADCPs
         if dp:
             skip_size = np.diff(ibad)
@@ -197,6 +206,10 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             hwe[inds[(ib + 1):]] += 1
             ens[inds[(ib + 1):]] += 1
 
+    if len(rare):
+        prev = np.maximum.accumulate(np.where(is_rare, 0, np.arange(len(idx))))
+        ens[is_rare] = ens[prev[is_rare]]
+
     # if not dp:
     #     # This block fixes skips that originate from before this file.
     #     # Check first N id's and correct
-- 
2.43.0


From d19f0cb6d7aa12b8f2f2e22ba8fe8bea41cd3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 049/103] fix: Signature files with a single ensemble

---
 dolfyn/io/nortek2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 2395a23..bc51d9d 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -145,6 +145,11 @@ class _Ad2cpReader():
         self.unknown_ID_count = {}
 
     def _calc_lastblock_iswhole(self, ):
+        if len(self._ens_pos) == 1:
+            # There is no other block to compare it with
+            self.f.seek(int(self._index['pos'][-1]), 0)
+            hdr = self._read_hdr()
+            return self.f.tell() + hdr['sz'] <= self._eof
         blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
                                                return_counts=True)
         standard_blocksize = blocksize[blocksize_count.argmax()]
-- 
2.43.0


From b085772a4c3703c6daf96d638d9096bdc18db880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 050/103] fix: Signature files cut short within the header of a
 record

---
 dolfyn/io/nortek2_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 996e761..2f325b1 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -97,6 +97,7 @@ def _calc_time(year, month, day, hour, minute, second, usec, zero_is_bad=True):
 def _create_index(infile, outfile, N_ens, debug):
     logging = getLogger()
     print("Indexing {}...".format(infile), end='')
+    eof = path.getsize(_abspath(infile))
     fin = open(_abspath(infile), 'rb')
     fout = open(_abspath(outfile), 'wb')
     fout.write(b'Index Ver:')
@@ -119,6 +120,8 @@ def _create_index(infile, outfile, N_ens, debug):
             break
         if dat[2] in ids:
             idk = dat[2]
+            if fin.tell() + 36 + seek_2ens[idk] > eof:
+                break  # The last record is cut short
             d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
             fin.seek(4, 1)
             yr, mo, dy, h, m, s, u = struct.unpack('6BH', fin.read(8))
-- 
2.43.0


From a488e895c635d0506efc5525c3846df565329179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 051/103] fix: Signature records longer than 32767 bytes

---
 dolfyn/io/nortek2_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 2f325b1..b5c8783 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -36,7 +36,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
 _index_version = 1
-_hdr = struct.Struct('<BBBBhhh')
+_hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
     np.dtype([('ens', np.uint64),
-- 
2.43.0


From 6a6b37ada92c496e01d4f4e2261bf719d4489324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 052/103] fix: Signature files cut short after the header of a
 record

---
 dolfyn/io/nortek2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index bc51d9d..6ae1b06 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -294,6 +294,8 @@ class _Ad2cpReader():
                 hdr = self._read_hdr()
             except IOError:
                 return outdat
+            if self.f.tell() + hdr['sz'] > self._eof:
+                return outdat  # The last record is cut short
             id = hdr['id']
             if id in [21, 22, 23, 24, 28]:  # "burst data record" (vel + ast),
                 # "avg data record" (vel_avg + ast_avg), "bottom track data record" (bt),
-- 
2.43.0


From e354d8dfc278b02c5376b494aeb421c72fe6153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 053/103] fix: several pings of one kind skipped in a row in
 Signature files

---
 dolfyn/io/nortek2_lib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b5c8783..20ffe06 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -206,8 +206,14 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             # the ensemble count is wrong.
             warnings.warn("Skipped ping (ID: {}) in file {} at ensemble {}."
                           .format(id, infile, idx['ens'][inds[ib + 1] - 1]))
-            hwe[inds[(ib + 1):]] += 1
-            ens[inds[(ib + 1):]] += 1
+            n = 1
+            if not dp:
+                # Count the pings of the other IDs in the meantime
+                other = idx['ID'][inds[ib]:inds[ib + 1]]
+                other = other[(other != id) & np.isin(other, uid)]
+                n = np.unique(other, return_counts=True)[1].max() - 1
+            hwe[inds[(ib + 1):]] += n
+            ens[inds[(ib + 1):]] += n
 
     if len(rare):
         prev = np.maximum.accumulate(np.where(is_rare, 0, np.arange(len(idx))))
-- 
2.43.0


From e75ae4d8e66c00dd9aec0e7ef4881ae3c0de33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 054/103] fix: Signature averaged data without AHRS

---
 dolfyn/io/nortek2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 6ae1b06..02ead76 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -99,8 +99,10 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     ds = _set_coords(ds, ref_frame=ds.coord_sys)
 
     if 'orientmat' not in ds:
+        # Only averaged data if there are no burst data
+        tag = '' if 'heading' in ds else '_avg'
         ds['orientmat'] = _euler2orient(
-            ds['time'], ds['heading'], ds['pitch'], ds['roll'])
+            ds['time'], ds['heading' + tag], ds['pitch' + tag], ds['roll' + tag])
 
     if declin is not None:
         set_declination(ds, declin, inplace=True)
@@ -627,7 +629,7 @@ def _reduce(data):
         dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                            da['cell_size_avg'] +
                            da['blank_dist_avg'])
-        if 'orientmat' not in dv:
+        if 'orientmat' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
         da['fs'] = da['filehead_config']['PLAN']['MIAVG']
-- 
2.43.0


From 8dab09c5fac99dc27d685698b1102b095b177cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 055/103] fix: Signature averaged data with raw altimeter data

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 02ead76..0617913 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -667,7 +667,7 @@ def _reduce(data):
     # If burst velocity isn't used, need to copy one for 'time'
     if 'time' not in dc:
         for val in dc:
-            if 'time' in val:
+            if 'time' in val and 'altraw' not in val:
                 time = val
         dc['time'] = dc[time]
 
-- 
2.43.0


From cdc93034fb53be42a1b7bb07b87aae9e1fc9af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 056/103] fix: Signature dual profiles in files with string
 records

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 0617913..e8f46d5 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -590,7 +590,7 @@ def _clean_dp_skips(data):
     configuration.
     """
     for id in data:
-        if id == 'filehead_config':
+        if id == 'filehead_config' or 'ver' not in data[id]:
             continue
         # Check where 'ver' is zero (should be 1 (for bt) or 3 (everything else))
         skips = np.where(data[id]['ver'] != 0)
-- 
2.43.0


From e91e4bd33b9fc980acd8ea7d5d0af70a0539bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 057/103] fix: Signature dual profiles with the same number of
 pings

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index e8f46d5..23ff7f3 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -683,7 +683,7 @@ def split_dp_datasets(ds):
 
     other_coords = []
     for key, val in t_dict.items():
-        if val != t_dict['time']:
+        if val != t_dict['time'] or key.endswith('_avg'):
             if key.endswith('altraw'):
                 # altraw goes with burst, altraw_avg goes with avg
                 continue
-- 
2.43.0


From 3d8a896220cfb028c495ca1951d06c125a0dbc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 058/103] fix: Signature dual profiles without AHRS

---
 dolfyn/io/nortek2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 23ff7f3..1a08f51 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -714,7 +714,13 @@ def split_dp_datasets(ds):
     ds2.attrs['rotate_vars'] = rotate_vars2
     # Set orientation matricies
     ds2['beam2inst_orientmat'] = ds['beam2inst_orientmat']
-    ds2 = ds2.rename({'orientmat_' + other_tags[0]: 'orientmat'})
+    tag = '_' + other_tags[0]
+    if 'orientmat' + tag in ds2:
+        ds2 = ds2.rename({'orientmat' + tag: 'orientmat'})
+    else:
+        omat = _euler2orient(ds2['time' + tag].values, ds2['heading' + tag],
+                             ds2['pitch' + tag], ds2['roll' + tag])
+        ds2['orientmat'] = omat.rename({'time': 'time' + tag})
     # Set original coordinate system
     cy = ds2.attrs['coord_sys_axes_' + other_tags[0]]
     ds2.attrs['coord_sys'] = {'XYZ': 'inst',
-- 
2.43.0


From 8ae03cbcba8f5e67fe31a20aa1493c921b700d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:58 +0000
Subject: [PATCH 059/103] fix: declination of Signature dual profiles

---
 dolfyn/io/nortek2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 1a08f51..5956517 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -104,7 +104,7 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
         ds['orientmat'] = _euler2orient(
             ds['time'], ds['heading' + tag], ds['pitch' + tag], ds['roll' + tag])
 
-    if declin is not None:
+    if declin is not None and not rdr._dp:
         set_declination(ds, declin, inplace=True)
 
     # Convert config dictionary to json string
@@ -120,7 +120,11 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
 
     # Return two datasets if dual profile
     if rdr._dp:
-        return split_dp_datasets(ds)
+        ds, ds2 = split_dp_datasets(ds)
+        if declin is not None:
+            set_declination(ds, declin, inplace=True)
+            set_declination(ds2, declin, inplace=True)
+        return ds, ds2
     else:
         return ds
 
-- 
2.43.0


From 16eb7e2710f3308fcdf3a54da4f5f6c895f11219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 060/103] fix: index of a Signature file that has changed since
 it was indexed

---
 dolfyn/io/nortek2_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 20ffe06..955d92c 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -263,7 +263,8 @@ def get_index(infile, rebuild=False, debug=False, dp=False):
     """
 
     index_file = infile + '.index'
-    if not path.isfile(index_file) or rebuild or debug:
+    if not path.isfile(index_file) or rebuild or debug or \
+            path.getmtime(index_file) < path.getmtime(infile):
         _create_index(infile, index_file, 2 ** 32, debug)
     f = open(_abspath(index_file), 'rb')
     file_head = f.read(12)
-- 
2.43.0


From 64cdef987d62dfb49e17c3fb7a441c0eb400ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 061/103] fix: crop_ensembles up to the last ensemble

---
 dolfyn/io/nortek2_lib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 955d92c..9d446ed 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -303,10 +303,11 @@ def crop_ensembles(infile, outfile, range):
         with open(_abspath(outfile), 'wb') as fout:
             fout.write(fin.read(idx['pos'][0]))
             i0 = np.nonzero(idx['ens'] == range[0])[0][0]
-            ie = np.nonzero(idx['ens'] == range[1])[0][0]
+            ie = np.nonzero(idx['ens'] >= range[1])[0]
+            stop = idx['pos'][ie[0]] if len(ie) else path.getsize(_abspath(infile))
             pos = idx['pos'][i0]
-            nbyte = idx['pos'][ie] - pos
-            fin.seek(pos, 0)
+            nbyte = int(stop) - int(pos)
+            fin.seek(int(pos), 0)
             fout.write(fin.read(nbyte))
 
 
-- 
2.43.0


From e76b29472cf7e51f01bd2275351b0a1bfef55ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:01 +0000
Subject: [PATCH 062/103] fix: log the estimated number of pings of TRDI files
 as before

---
 dolfyn/io/rdi.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 9833c93..4df89ce 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -204,7 +204,7 @@ class _RDIReader():
 
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
-        self._npings = self.count_ensembles()  # '0x7F'
+        self._npings = self.count_ensembles()  # '0x7F', an upper limit
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
@@ -221,12 +221,13 @@ class _RDIReader():
             self.vars_readBB = defs._variable_setlist(['time'])
 
         if self._debug_level >= 0:
-            logging.info('  %d pings in this file' % self._npings)
+            logging.info('  %d pings estimated in this file' % self._npings)
 
     def count_ensembles(self,):
         """
-        Returns the number of valid ensembles in the file, and positions the
-        reader at the first one.
+        Returns the number of valid ensembles in the file, or an estimate from
+        the average spacing of the first ones if that is larger, and positions
+        the reader at the first one.
         """
         # Get basic header data and check dual profile
         if not self.read_hdr():
@@ -239,13 +240,17 @@ class _RDIReader():
         debug_level = self._debug_level
         self._debug_level = -1
         count = 1
+        estimate = 0
         self.f.seek(p0 + nbyte + 2, 0)
         while self.read_hdr():
             count += 1
+            if count <= 51:
+                space = (self._pos - p0) / (count - 1) * 0.995
+                estimate = int(self._filesize / (space + 2))
             self.f.seek(self._pos + self.hdr['nbyte'] + 2, 0)
         self._pos = p0
         self._debug_level = debug_level
-        return count
+        return max(count, estimate)
 
     def read_hdr(self,):
         fd = self.f
-- 
2.43.0


From 2c49dc09cf8ba47070905ceb2199e1610c62e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:26 +0000
Subject: [PATCH 063/103] fix: user metadata such as 'deck_height' taken as the
 declination

---
 dolfyn/io/nortek.py  | 2 +-
 dolfyn/io/nortek2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 4ee947d..1b1bd96 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -82,7 +82,7 @@ def read_nortek(filename, userdata=True, debug=False, do_checksum=False,
     for nm in userdata:
         if 'rotmat' in nm:
             rotmat = userdata[nm]
-        elif 'dec' in nm:
+        elif 'declin' in nm:
             declin = userdata[nm]
         else:
             dat['attrs'][nm] = userdata[nm]
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 5956517..4cbcafe 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -89,7 +89,7 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
 
     declin = None
     for nm in userdata:
-        if 'dec' in nm:
+        if 'declin' in nm:
             declin = userdata[nm]
         else:
             out['attrs'][nm] = userdata[nm]
-- 
2.43.0


From dc41e13740e376075d89460d2fa4900407ac8ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:26 +0000
Subject: [PATCH 064/103] fix: read_rdi looks for the userdata file by default,
 as documented

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 4df89ce..051dc1f 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -14,7 +14,7 @@ from ..rotate.base import _set_coords
 from ..rotate.api import set_declination
 
 
-def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
+def read_rdi(filename, userdata=True, nens=None, debug_level=-1,
              vmdas_search=False, winriver=False, **kwargs):
     """Read a TRDI binary data file.
 
-- 
2.43.0


From 78617147e621779c36aca894c3ce58467e74e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:26 +0000
Subject: [PATCH 065/103] fix: userdata of files in '~' or without an extension
 in a folder with a dot

---
 dolfyn/io/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index c46c866..123d4a1 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -22,7 +22,7 @@ def _get_filetype(fname):
        '<GIT-LFS pointer> - if the file looks like a GIT-LFS pointer.
     """
 
-    with open(fname, 'rb') as rdr:
+    with open(_abspath(fname), 'rb') as rdr:
         bytes = rdr.read(40)
     code = bytes[:2].hex()
     #print("{} - {}".format(fname.rsplit('/')[-1], bytes))
@@ -44,7 +44,8 @@ def _find_userdata(filename, userdata=True):
     if isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
         return _read_userdata(userdata)
     elif userdata:
-        for basefile in [filename.rsplit('.', 1)[0],
+        filename = _abspath(filename)
+        for basefile in [os.path.splitext(filename)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
@@ -56,7 +57,7 @@ def _read_userdata(fname):
     """Reads a userdata.json file and returns the data it contains as a
     dictionary.
     """
-    with open(fname) as data_file:
+    with open(_abspath(fname)) as data_file:
         data = json.load(data_file)
     for nm in ['body2head_rotmat', 'body2head_vec']:
         if nm in data:
-- 
2.43.0


From 708a16e43a179d1d3bede0b583c522785b4c41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 066/103] fix: user metadata with 'config' in its name turned
 into a json string

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 4cbcafe..9e9e37b 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -109,7 +109,7 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
 
     # Convert config dictionary to json string
     for key in list(ds.attrs.keys()):
-        if 'config' in key:
+        if 'config' in key and key not in userdata:
             ds.attrs[key] = json.dumps(ds.attrs[key])
 
     # Close handler
-- 
2.43.0


From feb8897f5e28663175bf6c146a4dc96ea81d9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 067/103] fix: user metadata in both datasets of Signature dual
 profiles

---
 dolfyn/io/nortek2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 9e9e37b..d088fb8 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -121,6 +121,9 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     # Return two datasets if dual profile
     if rdr._dp:
         ds, ds2 = split_dp_datasets(ds)
+        for nm in userdata:
+            if 'declin' not in nm:
+                ds.attrs[nm] = ds2.attrs[nm] = userdata[nm]
         if declin is not None:
             set_declination(ds, declin, inplace=True)
             set_declination(ds2, declin, inplace=True)
-- 
2.43.0


From 5b89654ee41a5718f6cad0e523193038ba66fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 068/103] fix: endless loop on Nortek records with a size of
 zero

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 1b1bd96..6604beb 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -449,7 +449,7 @@ class _NortekReader():
                 shift = 20
             else:
                 sz = 2 * unpack(self.endian + 'H', self.read(2))[0]
-                shift = sz - 4
+                shift = max(sz - 4, 0)  # a damaged size could stop it here
             self.f.seek(shift, 1)
         return self.pos
 
-- 
2.43.0


From 14c9a18c184798fb1d8c0fdbbf545d53a5076b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:21 +0000
Subject: [PATCH 069/103] fix: uninitialized values before a TRDI data type is
 first recorded

---
 dolfyn/io/rdi_defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 8c65812..fce9de3 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -140,7 +140,7 @@ def _idata(dat, nm, sz):
     units = data_defs[nm][3]
     long_name = data_defs[nm][4]
     standard_name = data_defs[nm][5]
-    arr = np.empty(sz, dtype=dtype)
+    arr = np.zeros(sz, dtype=dtype)
     if dtype.startswith('float'):
         arr[:] = np.NaN
     dat[group][nm] = arr
-- 
2.43.0


From 3b68d6017f9139dee27431c4f3113085783c87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 070/103] fix: calc_epsilon_LT83() failed for a noise level
 given as a number or list

---
 dolfyn/adv/turbulence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index e98f95f..531384d 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -349,9 +349,13 @@ class ADVBinner(VelBinner):
             raise ValueError("`freq_range` must be an iterable of length 2.")
 
         if noise is not None:
-            if np.shape(noise)[0] != 3:
+            if np.ndim(noise) and np.shape(noise)[0] != 3:
                 raise Exception(
                     'Noise should have same first dimension as velocity')
+            if np.ndim(noise) and not isinstance(noise, xr.DataArray):
+                noise = np.asarray(noise)
+                noise = noise.reshape(
+                    noise.shape + (1,) * (psd.ndim - noise.ndim))
         else:
             noise = np.array([0, 0, 0])[:, None, None]
 
-- 
2.43.0


From d12b7ade687652ff87dd65a08a594a6d20b009f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:15 +0000
Subject: [PATCH 071/103] fix: summary of a dataset with one ping, or without
 times, raised

---
 dolfyn/velocity.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 68f5f98..2d5f9c0 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -168,10 +168,13 @@ class Velocity():
 
     def __repr__(self, ):
         time_string = '{:.2f} {} (started: {})'
-        if ('time' not in self or dt642epoch(self['time'][0]) < 1):
+        if 'time' in self:
+            tm = np.atleast_1d(self['time'].values)
+        else:
+            tm = np.array([], dtype='datetime64[ns]')
+        if (not tm.size or dt642epoch(tm[0]) < 1):
             time_string = '-->No Time Information!<--'
         else:
-            tm = self['time'][[0, -1]].values
             dt = dt642date(tm[0])[0]
             delta = (dt642epoch(tm[-1]) -
                      dt642epoch(tm[0])) / (3600 * 24)  # days
@@ -193,7 +196,7 @@ class Velocity():
                 time_string = '-->Error in time info<--'
 
         p = self.ds.attrs
-        t_shape = self['time'].shape
+        t_shape = tm.shape
         if len(t_shape) > 1:
             shape_string = '({} bins, {} pings @ {}Hz)'.format(
                 t_shape[0], t_shape, p.get('fs'))
-- 
2.43.0


From 8af8e602b28a44e7b4bffeae56a6f33a49e2f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 072/103] fix: documented defaults of calc_tke() and of the ADP
 cascade slope

---
 dolfyn/adp/turbulence.py | 2 +-
 dolfyn/velocity.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index c50b3a4..9b2025a 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -533,7 +533,7 @@ class ADPBinner(VelBinner):
         ----------
         psd : xarray.DataArray ([[range,] time,] freq)
           The power spectral density (1D, 2D or 3D)
-        freq_range : iterable(2) (default: [6.28, 12.57])
+        freq_range : iterable(2) (default: [0.2, 0.4])
           The range over which the isotropic turbulence cascade occurs, in 
           units of the psd frequency vector (Hz or rad/s)
 
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 2d5f9c0..cc6ae1e 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -982,7 +982,7 @@ class VelBinner(TimeBinner):
         noise : float or array-like
           A vector of the noise levels of the velocity data with 
           the same first dimension as the velocity vector.
-        detrend : bool (default: False)
+        detrend : bool (default: True)
           Detrend the velocity data (True), or simply de-mean it
           (False), prior to computing TKE. Note: the PSD routines
           use detrend, so if you want to have the same amount of
-- 
2.43.0


From 8719c82ff52ece4ad0857bfb5e63552a6376e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:18 +0000
Subject: [PATCH 073/103] fix: no warning for averages longer than the bursts
 (attribute renamed)

---
 dolfyn/binned.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index b7de66f..0aa7131 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -107,15 +107,15 @@ class TimeBinner:
             if np.any(np.array(raw_ds[v].shape) == 0):
                 raise RuntimeError(f"{v} cannot be averaged "
                                    "because it is empty.")
-        if 'DutyCycle_NBurst' in raw_ds.attrs and \
-                raw_ds.attrs['DutyCycle_NBurst'] < self.n_bin:
-            warnings.warn(f"The averaging interval (n_bin = {self.n_bin})"
+        if 'duty_cycle_n_burst' in raw_ds.attrs and \
+                raw_ds.attrs['duty_cycle_n_burst'] < self.n_bin:
+            warnings.warn(f"The averaging interval (n_bin = {self.n_bin}) "
                           "is larger than the burst interval "
-                          "(NBurst = {dat.attrs['DutyCycle_NBurst']})")
+                          f"(NBurst = {raw_ds.attrs['duty_cycle_n_burst']})")
         if raw_ds.fs != self.fs:
             raise Exception(f"The input data sample rate ({raw_ds.fs}) does not "
                             "match the sample rate of this binning-object "
-                            "({self.fs})")
+                            f"({self.fs})")
 
         if out_ds is None:
             out_ds = type(raw_ds)()
-- 
2.43.0


From e39bdc4405344b1e2a47f75152b9686ed5e230c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:06 +0000
Subject: [PATCH 074/103] fix: calc_epsilon_LT83() without noise failed for the
 spectrum of one component

---
 dolfyn/adv/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 531384d..04da9cb 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -357,7 +357,7 @@ class ADVBinner(VelBinner):
                 noise = noise.reshape(
                     noise.shape + (1,) * (psd.ndim - noise.ndim))
         else:
-            noise = np.array([0, 0, 0])[:, None, None]
+            noise = 0
 
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
-- 
2.43.0


From cc29cacc51586d4c82049861c19bc6a077dbad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:06 +0000
Subject: [PATCH 075/103] fix: calc_L_int() failed for the auto-covariance of
 one component

---
 dolfyn/adv/turbulence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 04da9cb..a886699 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -577,7 +577,8 @@ class ADVBinner(VelBinner):
 
         return xr.DataArray(
             L_int.astype('float32'),
-            coords={'dir': a_cov.dir, 'time': a_cov.time},
+            coords={dim: a_cov[dim] for dim in a_cov.dims[:-1]},
+            dims=a_cov.dims[:-1],
             attrs={'units': 'm',
                    'long_name': 'Integral Length Scale',
                    'standard_name': 'turbulent_mixing_length_of_sea_water'})
-- 
2.43.0


From 6531d2bdaa10c78c8d5635b55362bcfe2081ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:06 +0000
Subject: [PATCH 076/103] fix: calc_epsilon_SF() raised for a frequency above
 fs, which it only warns of

---
 dolfyn/adv/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index a886699..aad5e68 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -424,7 +424,7 @@ class ADVBinner(VelBinner):
             up = dt[slc]
             lag = U_mag.values[slc[:-1]] / fs * np.arange(up.shape[0])
             DAA = _nans_like(lag)
-            for L in range(int(fs / freq_range[1]), int(fs / freq_range[0])):
+            for L in range(max(int(fs / freq_range[1]), 1), int(fs / freq_range[0])):
                 DAA[L] = np.nanmean((up[L:] - up[:-L]) ** 2, dtype=np.float64)
             cv2 = DAA / (lag ** (2 / 3))
             cv2m = np.median(cv2[np.logical_not(np.isnan(cv2))])
-- 
2.43.0


From 3d5b662c14a5007a8cf33a33a6be056a403e6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:06 +0000
Subject: [PATCH 077/103] fix: save_mat() added attributes to a dataset without
 times

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 11a4114..ad8bb56 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -287,6 +287,9 @@ def save_mat(ds, filename, datenum=True):
 
     filename = _check_file_ext(filename, 'mat')
 
+    # Leave the caller's dataset as it is
+    ds = ds.copy()
+
     # Convert time to datenum
     t_coords = [t for t in ds.coords if np.issubdtype(
         ds[t].dtype, np.datetime64)]
-- 
2.43.0


From 1aa8ece7288ab52c09178ca636bffd76c8e02c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:44 +0000
Subject: [PATCH 078/103] fix: readers gave tagged variables the names of
 others (water velocity labelled as that of the platform)

The long_name, units and standard_name of each Nortek AD2CP record type were
merged under untagged names, so that those of the last one read (bottom
track) ended up on the water velocity, and the raw altimeter variables had
none; the names defined for TRDI's bottom track, surface layer and GPS
variables were replaced by those of the untagged variables.
---
 dolfyn/io/base.py    |  2 +-
 dolfyn/io/nortek2.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 123d4a1..874ed91 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -259,7 +259,7 @@ def _create_dataset(data):
                 ds[key].attrs['coverage_content_type'] = 'physicalMeasurement'
             try:  # make sure ones with tags get units
                 tg = '_' + key.rsplit('_')[-1]
-                if any(val in key for val in tag):
+                if key not in data[md] and any(val in key for val in tag):
                     ds[key].attrs[md] = data[md][key[:-len(tg)]]
             except:
                 pass
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index d088fb8..df21b4f 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -469,12 +469,12 @@ def _reorg(dat):
         if id not in dat:
             continue
         dnow = dat[id]
-        outdat['units'].update(dnow['units'])
-        outdat['long_name'].update(dnow['long_name'])
-        for ky in dnow['units']:
-            if not dnow['standard_name'][ky]:
-                dnow['standard_name'].pop(ky)
-        outdat['standard_name'].update(dnow['standard_name'])
+        for md in ['units', 'long_name', 'standard_name']:
+            for ky, val in dnow[md].items():
+                if val:
+                    outdat[md][ky + tag] = val
+                    # Shared by the variables that have no metadata of their own
+                    outdat[md].setdefault(ky, val)
         cfg['burst_config' + tag] = lib._headconfig_int2dict(
             lib._collapse(dnow['config'], exclude=collapse_exclude,
                           name='config'))
-- 
2.43.0


From 209c54328af4003d51c2b509166ead1d2887e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:59 +0000
Subject: [PATCH 079/103] fix: averages of a dual profile lost the attributes
 of their time coordinate

---
 dolfyn/io/nortek2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index df21b4f..8be4e13 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -727,7 +727,8 @@ def split_dp_datasets(ds):
     else:
         omat = _euler2orient(ds2['time' + tag].values, ds2['heading' + tag],
                              ds2['pitch' + tag], ds2['roll' + tag])
-        ds2['orientmat'] = omat.rename({'time': 'time' + tag})
+        ds2['orientmat'] = omat.rename({'time': 'time' + tag}).assign_coords(
+            {'time' + tag: ds2['time' + tag]})  # keep its attributes
     # Set original coordinate system
     cy = ds2.attrs['coord_sys_axes_' + other_tags[0]]
     ds2.attrs['coord_sys'] = {'XYZ': 'inst',
-- 
2.43.0


From d56fce0b71b553a6a4b7255018b4c2bcf6d49b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:46 +0000
Subject: [PATCH 080/103] fix: WinRiver files with bottom track could not be
 read (position lost in the bottom-track block)

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 051dc1f..93885ed 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1013,7 +1013,7 @@ class _RDIReader():
                                                        ens.longitude_gps[k]))
                 ens.latitude_gps[k] = np.NaN
                 ens.longitude_gps[k] = np.NaN
-            fd.seek(71 - 45 - 16 - 17, 1)
+            fd.seek(5, 1)
             self._nbyte = 2 + 68
         else:
             # Skip reference layer data
-- 
2.43.0


From 54ecff0613c400e1d3bc0e075feddcb25d2d6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 081/103] fix: WinRiver2 files with a sentence of another kind
 were misread after it

---
 dolfyn/io/rdi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 93885ed..b807df5 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1246,6 +1246,9 @@ class _RDIReader():
             self.vars_read += ['heading_gps']
             self._nbyte = self.f.tell() - startpos + 2
 
+        else:  # other sentences aren't read
+            self._nbyte = self.f.tell() - startpos + 2
+
     def read_winriver(self, nbt):
         self._winrivprob = True
         self.cfg['sourceprog'] = 'WINRIVER'
-- 
2.43.0


From 61de406ed7ed9b39440f2fef29ee74e97aed0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 082/103] fix: motcorrect_vector.py never found or applied the
 head rotation matrix

---
 scripts/motcorrect_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 7ae2929..fc36594 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -145,12 +145,12 @@ for fnm in args.filename:
     dat = avm.read(fnm)
 
     if rmat is not None:
-        dat.attrs['inst2head_rotmat'] = rmat
+        avm.set_inst2head_rotmat(dat, rmat)
     if vec is not None:
         dat.attrs['inst2head_vec'] = vec
     if declin is not None:
         dat.attrs['declination'] = declin
-    if ('inst2head_rotmat' not in dat.attrs or
+    if ('inst2head_rotmat' not in dat or
             'inst2head_vec' not in dat.attrs):
         raise Exception("inst2head_rotmat or inst2head_vec not found "
                         "in dat.attrs. These must be specified by either:\n"
-- 
2.43.0


From d96d614505b0c2b86a2771200b9675973ae726e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 083/103] fix: motcorrect_vector.py refused -f and ignored the
 filter frequency of the userdata

---
 scripts/motcorrect_vector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index fc36594..72c0bed 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -20,11 +20,13 @@ parser = argparse.ArgumentParser(
     """)
 parser.add_argument(
     '-f',
-    default=0.03333,
+    type=float,
+    default=None,
     help="""
     Specify the high-pass filter frequency that is applied to the
     acceleration prior to integrating acceleration (Accel) to get
-    velocity. Default '0.03333' (Hz) = 30sec.
+    velocity. Default: that of the '.userdata.json' file
+    ('motion accel_filtfreq Hz'), or '0.03333' (Hz) = 30sec.
     """
 )
 
@@ -161,7 +163,10 @@ for fnm in args.filename:
     if hasattr(dat, 'orientmat'):
         print('Performing motion correction...')
         # Perform the motion correction.
-        dat = avm.correct_motion(dat, accel_filtfreq=args.f)
+        filtfreq = args.f
+        if filtfreq is None:
+            filtfreq = dat.attrs.get('motion accel_filtfreq Hz', 0.03333)
+        dat = avm.correct_motion(dat, accel_filtfreq=filtfreq)
         # Compute pitch,roll,heading from orientmat.
         dat['pitch'], dat['roll'], dat['heading'] = orient2euler(dat.orientmat)
     else:
-- 
2.43.0


From 0d336d35af40f799e9ff710ec17dad0af3a1b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 084/103] fix: motcorrect_vector.py failed on the angles and
 took them in the wrong order

---
 scripts/motcorrect_vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 72c0bed..c3faf02 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -167,8 +167,9 @@ for fnm in args.filename:
         if filtfreq is None:
             filtfreq = dat.attrs.get('motion accel_filtfreq Hz', 0.03333)
         dat = avm.correct_motion(dat, accel_filtfreq=filtfreq)
-        # Compute pitch,roll,heading from orientmat.
-        dat['pitch'], dat['roll'], dat['heading'] = orient2euler(dat.orientmat)
+        # Compute heading,pitch,roll from orientmat.
+        h, p, r = orient2euler(dat.orientmat.values)
+        dat['heading'].values, dat['pitch'].values, dat['roll'].values = h, p, r
     else:
         print("""
         !!!--Warning--!!!: Orientation matrix('orientmat')
-- 
2.43.0


From 21080f5437c2ff7fb8002f5d88fcbed759b8caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 085/103] fix: motcorrect_vector.py --mat failed on the times

---
 scripts/motcorrect_vector.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index c3faf02..fb15837 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -177,14 +177,10 @@ for fnm in args.filename:
         """)
 
     if args.mat:
-        # Set matlab 'datenum' time.
-        dt = dolfyn.time.epoch2date(dat['time'])
-        dat['datenum'] = dolfyn.time.date2matlab(dt)
-
         outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.mat'
         print('Saving to %s.' % outnm)
-        # Save the data.
-        dolfyn.io.api.save_mat(dat, outnm)
+        # Save the data (with matlab 'datenum' time).
+        dolfyn.io.api.save_mat(dat, outnm, datenum=True)
 
     if args.nc:
         outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.nc'
-- 
2.43.0


From a6ccfeeee6d7fecfa554ceafa253eae5692bb484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 086/103] fix: the scripts cut letters of the file name off the
 output's name

---
 scripts/binary2mat.py        | 5 ++---
 scripts/motcorrect_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/binary2mat.py b/scripts/binary2mat.py
index 1c66f3d..5fc2502 100644
--- a/scripts/binary2mat.py
+++ b/scripts/binary2mat.py
@@ -1,5 +1,6 @@
 #!/usr/bin/python
 import argparse
+import os
 from dolfyn import read, save_mat
 
 parser = argparse.ArgumentParser(
@@ -16,9 +17,7 @@ args = parser.parse_args()
 for fnm in args.files:
     dat = read(fnm)
 
-    if '.' in fnm:
-        ext = fnm[fnm.index('.'):]
-    outnm = fnm.rstrip(ext) + '.mat'
+    outnm = os.path.splitext(fnm)[0] + '.mat'
 
     print('Saving to %s.' % outnm)
     save_mat(dat, outnm, datenum=True)
diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index fb15837..f504526 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -177,13 +177,13 @@ for fnm in args.filename:
         """)
 
     if args.mat:
-        outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.mat'
+        outnm = os.path.splitext(fnm)[0] + '.mat'
         print('Saving to %s.' % outnm)
         # Save the data (with matlab 'datenum' time).
         dolfyn.io.api.save_mat(dat, outnm, datenum=True)
 
     if args.nc:
-        outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.nc'
+        outnm = os.path.splitext(fnm)[0] + '.nc'
         print('Saving to %s.' % outnm)
         # Save the data.
         dolfyn.save(dat, outnm)
-- 
2.43.0


From 6f49627fc497861d54f00f2837833779f655e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 087/103] fix: the scripts took one file only, against their
 help

---
 scripts/binary2mat.py        | 2 +-
 scripts/motcorrect_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/binary2mat.py b/scripts/binary2mat.py
index 5fc2502..6c57b75 100644
--- a/scripts/binary2mat.py
+++ b/scripts/binary2mat.py
@@ -9,7 +9,7 @@ parser = argparse.ArgumentParser(
 
 parser.add_argument('files',
                     help="The filename(s) to convert.",
-                    action='append',
+                    nargs='+',
                     )
 
 args = parser.parse_args()
diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index f504526..3f14834 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -111,7 +111,7 @@ parser.add_argument(
     'filename',
     help="""The filename(s) of the the Nortek Vector file(s) to be
     processed(they probably end with '.vec').""",
-    action='append'
+    nargs='+'
 )
 
 args = parser.parse_args()
-- 
2.43.0


From f628e55f4e649365e4b447f8d96a3a84f9085847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:35 +0000
Subject: [PATCH 088/103] fix: load_mat() dropped the profiles of the vertical
 beam

---
 dolfyn/io/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 874ed91..f473028 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -208,6 +208,10 @@ def _create_dataset(data):
                         dim0 = 'dir'
                     ds_dict[key] = {"dims": (dim0, "time" + tg), "data": data['data_vars'][key]}
 
+                # profiles of the vertical beam (as read back from '.mat' files)
+                elif '_b5' in key and key.split('_b5')[0] not in ['accel', 'angrt', 'mag']:
+                    ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
+
                 # ADCP IMU data
                 elif shp[0] == 3:
                     if not any(val in key for val in tag):
@@ -223,9 +227,6 @@ def _create_dataset(data):
 
                     ds_dict[key] = {"dims": ("dirIMU", "time" + tg), "data": data['data_vars'][key]}
 
-                elif 'b5' in tg:
-                    ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
-
             elif len(shp) == 3:  # 3D variables
                 if 'vel' in key:
                     dim0 = 'dir'
-- 
2.43.0


From 468d0d2a7c2560257ace26e0dbe2e4bf23a873d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:35 +0000
Subject: [PATCH 089/103] fix: load_mat() could not load the averaged dataset
 of a dual profile

---
 dolfyn/io/base.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index f473028..ddd242e 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -151,15 +151,19 @@ def _create_dataset(data):
             elif 'orientmat' in key:  # earth2inst orientation matrix
                 if any(val in key for val in tag):
                     tg = '_' + key.rsplit('_')[-1]
+                elif 'time' not in data['coords']:  # averaged profile alone
+                    tg = '_avg'
                 else:
                     tg = ''
                 ds_dict['earth'] = {"dims": ('earth'), "data": ['E', 'N', 'U']}
                 ds_dict['inst'] = {"dims": ('inst'), "data": ['X', 'Y', 'Z']}
                 ds_dict[key] = {"dims": ('earth', 'inst', 'time' + tg), "data": data['data_vars'][key]}
-                data["units"].update({"earth": "1", "inst": "1", key: data["units"]["orientmat"]})
+                data["units"].update({"earth": "1", "inst": "1"})
                 data["long_name"].update({"earth": "Earth Reference Frame",
-                                          "inst": "Instrument Reference Frame",
-                                          key: data["long_name"]["orientmat"]})
+                                          "inst": "Instrument Reference Frame"})
+                for md in ['units', 'long_name']:
+                    if key not in data[md]:
+                        data[md][key] = data[md]['orientmat']
 
         # quaternion units never change
         elif 'quaternions' in key:
@@ -174,8 +178,9 @@ def _create_dataset(data):
                 data['long_name'].update({'q': 'Quaternion Vector Components'})
 
             ds_dict[key] = {"dims": ("q", "time" + tg), "data": data['data_vars'][key]}
-            data['units'].update({key: data['units']['quaternions']})
-            data['long_name'].update({key: data['long_name']['quaternions']})
+            for md in ['units', 'long_name']:
+                if key not in data[md]:
+                    data[md][key] = data[md]['quaternions']
 
         else:
             shp = data['data_vars'][key].shape
-- 
2.43.0


From 92bdf1ca96cca2b94759aa098a22ed972349b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:10 +0000
Subject: [PATCH 090/103] fix: a missing spectrum got a dissipation rate

---
 dolfyn/adp/turbulence.py | 2 +-
 dolfyn/adv/turbulence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 9b2025a..7a7e1a6 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -646,7 +646,7 @@ class ADPBinner(VelBinner):
         psd = psd.copy()
         if noise is not None:
             psd -= noise**2 / (self.fs / 2)
-            psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
+            psd = psd.where((psd > 0) | psd.isnull(), np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
         idx = np.where((freq_range[0] < freq) & (freq < freq_range[1]))
diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index aad5e68..e03a5ad 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -363,7 +363,7 @@ class ADVBinner(VelBinner):
         psd = psd.copy()
         if noise is not None:
             psd -= (noise**2 / (self.fs / 2))
-            psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
+            psd = psd.where((psd > 0) | psd.isnull(), np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
         idx = np.where((freq_range[0] < freq) & (freq < freq_range[1]))
-- 
2.43.0


From 4d290b36af3409539f3f5549d8510111f1904e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:03 +0000
Subject: [PATCH 091/103] fix: a sample without IMU data amid a Vector file
 cost the last samples of the file

---
 dolfyn/io/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index ddd242e..01912c1 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -99,7 +99,7 @@ def _handle_nan(data):
                 elif len(shp) == 2:
                     if any(np.isnan(data['data_vars'][key][-1])):
                         nan += np.isnan(data['data_vars'][key][-1])
-    trailing = np.cumsum(nan)[-1]
+    trailing = l if nan.all() else np.argmin(nan[::-1])
 
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
-- 
2.43.0


From cb9b44cd26d8ff3fd15839fa315386c591ab6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 092/103] fix: IMU data of a damaged Vector sample replaced
 those of the sample before

---
 dolfyn/io/nortek.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 6604beb..0b0157a 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -981,6 +981,13 @@ class _NortekReader():
                     da['rotate_vars'].extend(rv)
                 update_defs(dat, mag=True, orientmat=False)
 
+        if ahrsid in [195, 204, 211] and not np.isnan(dv['accel'][0, c]):
+            # The velocity data of this record is missing
+            logging.warning('IMU data without velocity data skipped.')
+            self.checksum(byts0 + self.read({195: 64, 204: 78, 211: 42}[ahrsid]))
+            self.c += 1
+            return
+
         byts = ''
         if ahrsid == 195:  # 0xc3
             byts = self.read(64)
-- 
2.43.0


From ddcb30863346339b50520d1f77f60bca66e5c8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:09 +0000
Subject: [PATCH 093/103] fix: medfiltnan() did not use a scalar kernel in both
 dimensions of a 2-D array, as documented

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index 3ff5591..b9b1a82 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -304,7 +304,7 @@ def medfiltnan(a, kernel, thresh=0):
     try:
         len(kernel)
     except:
-        kernel = [1, kernel]
+        kernel = [1 if flag_1D else kernel, kernel]
     out = medfilt2d(a, kernel)
     if thresh > 0:
         out[convolve2d(np.isnan(a),
-- 
2.43.0


From d3766a7d0c2423b556a1c1074e9bebb83efd7792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:14 +0000
Subject: [PATCH 094/103] fix: a missing sample of one ensemble no longer
 removes spectral estimates of the others

---
 dolfyn/binned.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 0aa7131..6d3ddc0 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -404,7 +404,9 @@ class TimeBinner:
         if np.any(noise):
             out -= noise**2 / (fs/2)
             # Make sure all values of the PSD are >0 (but still small):
-            out[out < 0] = np.min(np.abs(out)) / 100
+            neg = out < 0
+            if neg.any():
+                out[neg] = np.nanmin(np.abs(out)) / 100
         return out
 
     def calc_csd_base(self, dat1, dat2, fs=None, window='hann',
-- 
2.43.0


From e6f0da91695b76a7d17a848258a4bda1983c4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:58 +0000
Subject: [PATCH 095/103] fix: refuse an invalid inst2head_rotmat before the
 dataset is changed

A matrix whose determinant is not one was stored (inplace=True) before it was
found invalid, after which no rotation was possible and no other matrix could
be set.
---
 dolfyn/rotate/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index cae63a4..5e36983 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -2,7 +2,7 @@ from . import vector as r_vec
 from . import awac as r_awac
 from . import signature as r_sig
 from . import rdi as r_rdi
-from .base import _make_model
+from .base import _make_model, _check_rotmat_det
 import numpy as np
 import xarray as xr
 import warnings
@@ -295,6 +295,9 @@ def set_inst2head_rotmat(ds, rotmat, inplace=True):
         raise Exception(
             "You are setting 'inst2head_rotmat' after it has already "
             "been set. You can only set it once.")
+    if not _check_rotmat_det(np.array(rotmat)):
+        # Refuse it before `ds` is changed
+        raise ValueError("Invalid inst2head_rotmat (determinant != 1).")
 
     csin = ds.coord_sys
     if csin not in ['inst', 'beam']:
-- 
2.43.0


From 2895d65058c8219b69b55f502a678ef5648146f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:40 +0000
Subject: [PATCH 096/103] fix: averaged datasets shared the list of vectors
 with the raw dataset

---
 dolfyn/binned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 6d3ddc0..83a7cd2 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import warnings
 from .tools.psd import psd_freq, psd, cpsd_quasisync, cpsd
@@ -128,7 +129,7 @@ class TimeBinner:
         props['n_fft'] = self.n_fft
         props['description'] = 'Binned averages calculated from ' \
             'ensembles of size "n_bin"'
-        props.update(raw_ds.attrs)
+        props.update(copy.deepcopy(raw_ds.attrs))
 
         for ky in props:
             if ky in o_attrs and o_attrs[ky] != props[ky]:
-- 
2.43.0


From bfef59a44fe25e36bd00afc14abc2206a69d87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:40 +0000
Subject: [PATCH 097/103] fix: a Nortek file with more samples than estimated
 from its first records could not be read

---
 dolfyn/io/nortek.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 0b0157a..611c21d 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -400,6 +400,8 @@ class _NortekReader():
     def readnext(self,):
         id = '0x%02x' % self.read_id()
         if id in self.fun_map:
+            if self._npings is None and self.c >= self.n_samp_guess:
+                self._grow_data()
             func_name = self.fun_map[id]
             out = getattr(self, func_name)()  # Should return None
             self._lastread = [func_name[5:]] + self._lastread[:-1]
@@ -654,6 +656,27 @@ class _NortekReader():
                     if va.standard_name:
                         self.data['standard_name'][nm] = va.standard_name
 
+    def _grow_data(self,):
+        """Extend the data arrays: the file holds more samples than the
+        (estimated) number that they were allocated for.
+        """
+        n_old = self.n_samp_guess
+        n_add = n_old // 2 + 1
+
+        def extend(arr):
+            fill = np.nan if np.issubdtype(arr.dtype, np.floating) else 0
+            new = np.full(arr.shape[:-1] + (n_add,), fill, dtype=arr.dtype)
+            return np.concatenate((arr, new), axis=-1)
+
+        for grp in ['coords', 'data_vars', 'sys']:
+            for nm, dat in self.data[grp].items():
+                if 'beam2inst' in nm or 'range' in nm:  # not a function of time
+                    continue
+                if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_old):
+                    self.data[grp][nm] = extend(dat)
+        self.burst_start = extend(self.burst_start)
+        self.n_samp_guess = n_old + n_add
+
     def read_vec_data(self,):
         # ID: 0x10 = 16
         c = self.c
-- 
2.43.0


From ea7fc09d8391bfdfe0f213bcb0c035d799fdedc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:56 +0000
Subject: [PATCH 098/103] fix: ensembles were merged when the AD2CP ensemble
 counter met the adjusted count after a restart

---
 dolfyn/io/nortek2_lib.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 9d446ed..ef81a99 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -110,6 +110,7 @@ def _create_index(infile, outfile, N_ens, debug):
     N = dict.fromkeys(ids, 0)
     config = 0
     last_ens = dict.fromkeys(ids, -1)
+    last_raw = dict.fromkeys(ids, -1)  # as in the file
     seek_2ens = {21:40, 22:40, 23:42, 24:40, 26:40, 28:40, # 23 starts from "42"
                  27:40, 29:40, 30:40, 31:40, 35:40, 36:40}
     while N[21] < N_ens:  # Will fail if velocity ping isn't saved first
@@ -128,13 +129,17 @@ def _create_index(infile, outfile, N_ens, debug):
             fin.seek(14, 1)
             beams_cy = struct.unpack('<H', fin.read(2))[0]
             fin.seek(seek_2ens[dat[2]], 1)
-            ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            raw_ens = struct.unpack('<I', fin.read(4))[0]
+            ens[idk] = raw_ens
 
             if last_ens[idk] > 0:
-                if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
+                if (ens[idk] == 1) or (ens[idk] < last_ens[idk]) or \
+                        (ens[idk] == last_ens[idk] and
+                         raw_ens != last_raw[idk]):
                     # Covers all id keys saved in "burst mode"
                     # Covers ID keys not saved in sequential order
                     ens[idk] = last_ens[idk] + 1
+            last_raw[idk] = raw_ens
 
             if last_ens[idk] > 0 and last_ens[idk] != ens[idk]:
                 N[idk] += 1
-- 
2.43.0


From 7e3e1011cd0d29ffdd58d1a57c4a521db44c13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 099/103] fix: turbulence statistics shared the list of vectors
 with the input dataset

---
 dolfyn/adv/turbulence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index e03a5ad..cce98a7 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from ..velocity import VelBinner
 import warnings
@@ -39,7 +40,7 @@ class ADVBinner(VelBinner):
                                    window=window,
                                    freq_units=freq_units,
                                    noise=noise)
-        out.attrs = {key: val for key, val in ds.attrs.items()
+        out.attrs = {key: copy.deepcopy(val) for key, val in ds.attrs.items()
                      if 'config' not in key}
         out.attrs['n_bin'] = self.n_bin
         out.attrs['n_fft'] = self.n_fft
-- 
2.43.0


From 2ead8d22b418bab906ff083ba3512e1a67e52a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:21 +0000
Subject: [PATCH 100/103] fix: detrend() did not remove the trend of the
 samples that there are when others are missing

---
 dolfyn/tools/misc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index b9b1a82..278e1cf 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -47,6 +47,10 @@ def detrend(arr, axis=-1, in_place=False):
     sz = np.ones(arr.ndim, dtype=int)
     sz[axis] = arr.shape[axis]
     x = np.arange(sz[axis], dtype=np.float_).reshape(sz)
+    missing = np.isnan(arr)
+    if missing.any():
+        # The line is fitted to the samples that there are
+        x = np.where(missing, np.nan, x)
     x -= np.nanmean(x, axis=axis, keepdims=True)
     arr -= np.nanmean(arr, axis=axis, keepdims=True)
     b = np.nanmean((x * arr), axis=axis, keepdims=True) / \
-- 
2.43.0


From 850105900cd7885d6d30352a3cd784ed656a3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:21 +0000
Subject: [PATCH 101/103] fix: the FFT length was limited by the binner's bin
 length and not by the one given in the call

calc_psd(n_bin=...) failed when the bin was shorter than the binner's FFT,
and an FFT that fits the given bin was cut to the binner's own.
---
 dolfyn/adv/turbulence.py |  2 +-
 dolfyn/binned.py         | 26 ++++++++++++++------------
 dolfyn/velocity.py       | 12 +++---------
 3 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index cce98a7..7835ece 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -126,7 +126,7 @@ class ADVBinner(VelBinner):
         """
 
         fs_in = self._parse_fs(fs)
-        n_fft = self._parse_nfft_coh(n_fft_coh)
+        n_fft = self._parse_nfft_coh(n_fft_coh, n_bin)
         time = self.mean(veldat.time.values, n_bin=n_bin)
         veldat = veldat.values
         if len(np.shape(veldat)) != 2:
diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 83a7cd2..f5cd8c4 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -56,7 +56,8 @@ class TimeBinner:
     def _outshape_fft(self, inshape, n_fft=None, n_bin=None):
         """Returns `outshape` (the fft 'reshape'd shape) for an `inshape` array.
         """
-        n_fft = self._parse_nfft(n_fft)
+        if n_fft is None:
+            n_fft = self.n_fft
         n_bin = self._parse_nbin(n_bin)
         return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(n_fft // 2)]
 
@@ -70,20 +71,22 @@ class TimeBinner:
             return self.n_bin
         return n_bin
 
-    def _parse_nfft(self, n_fft=None):
+    def _parse_nfft(self, n_fft=None, n_bin=None):
+        n_bin = self._parse_nbin(n_bin)
         if n_fft is None:
-            return self.n_fft
-        if n_fft > self.n_bin:
-            n_fft = self.n_bin
+            n_fft = self.n_fft
+        if n_fft > n_bin:
+            n_fft = n_bin
             warnings.warn(
                 "n_fft must be smaller than n_bin, setting n_fft = n_bin")
         return n_fft
 
-    def _parse_nfft_coh(self, n_fft_coh=None):
+    def _parse_nfft_coh(self, n_fft_coh=None, n_bin=None):
+        n_bin = self._parse_nbin(n_bin)
         if n_fft_coh is None:
-            return self.n_fft_coh
-        if n_fft_coh > self.n_bin:
-            n_fft_coh = int(self.n_bin)
+            n_fft_coh = self.n_fft_coh
+        if n_fft_coh > n_bin:
+            n_fft_coh = int(n_bin)
             warnings.warn("n_fft_coh must be smaller than or equal to n_bin, "
                           "setting n_fft_coh = n_bin")
         return n_fft_coh
@@ -392,7 +395,7 @@ class TimeBinner:
 
         fs = self._parse_fs(fs)
         n_bin = self._parse_nbin(n_bin)
-        n_fft = self._parse_nfft(n_fft)
+        n_fft = self._parse_nfft(n_fft, n_bin)
         if n_pad is None:
             n_pad = min(n_bin - n_fft, n_fft)
         out = np.empty(self._outshape_fft(dat.shape, n_fft=n_fft, n_bin=n_bin))
@@ -447,8 +450,7 @@ class TimeBinner:
         """
 
         fs = self._parse_fs(fs)
-        if n_fft is None:
-            n_fft = self.n_fft_coh
+        n_fft = self._parse_nfft_coh(n_fft, n_bin)
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
         n_bin1 = int(dat1.shape[-1] * n_bin2 / dat2.shape[-1])
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index cc6ae1e..09e9c8c 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -677,10 +677,7 @@ class VelBinner(TimeBinner):
         dat1 = veldat1.values
         dat2 = veldat2.values
 
-        if n_fft_coh is None:
-            n_fft = self.n_fft_coh
-        else:
-            n_fft = int(n_fft_coh)
+        n_fft = int(self._parse_nfft_coh(n_fft_coh, n_bin))
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
@@ -753,10 +750,7 @@ class VelBinner(TimeBinner):
         dat1 = veldat1.values
         dat2 = veldat2.values
 
-        if n_fft_coh is None:
-            n_fft = self.n_fft_coh
-        else:
-            n_fft = int(n_fft_coh)
+        n_fft = int(self._parse_nfft_coh(n_fft_coh, n_bin))
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
@@ -1088,7 +1082,7 @@ class VelBinner(TimeBinner):
         """
 
         fs_in = self._parse_fs(fs)
-        n_fft = self._parse_nfft(n_fft)
+        n_fft = self._parse_nfft(n_fft, n_bin)
         if 'xarray' in type(veldat).__module__:
             vel = veldat.values
         if 'xarray' in type(noise).__module__:
-- 
2.43.0


From 374a648d17ad39a6ca3ce74679800cdc6a4dfe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:07 +0000
Subject: [PATCH 102/103] fix: the transformation matrix lost columns with the
 trailing samples of a record of three

_handle_nan took every array as long as the record in its last dimension for
a time series, beam2inst_orientmat (3x3) included.
---
 dolfyn/io/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 01912c1..7e089fd 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -104,7 +104,9 @@ def _handle_nan(data):
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
         for key in data['data_vars']:
-            if data['data_vars'][key].shape[-1] == l:
+            # The transformation matrix doesn't have a time dimension
+            if key != 'beam2inst_orientmat' and \
+                    data['data_vars'][key].shape[-1] == l:
                 data['data_vars'][key] = data['data_vars'][key][..., :-trailing]
 
     return data
-- 
2.43.0


From fc3695a0a36d209da1c7305277659a64c25bc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:07 +0000
Subject: [PATCH 103/103] fix: a Nortek file with an unset or damaged clock in
 one profile could not be read

The missing time is interpolated where the others already are.
---
 dolfyn/io/nortek.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 611c21d..466aacd 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -621,12 +621,17 @@ class _NortekReader():
         """Read the time from the first 6bytes of the input string.
         """
         min, sec, day, hour, year, month = unpack('BBBBBB', strng[:6])
-        return time.date2epoch(datetime(time._fullyear(_bcd2char(year)),
-                                        _bcd2char(month),
-                                        _bcd2char(day),
-                                        _bcd2char(hour),
-                                        _bcd2char(min),
-                                        _bcd2char(sec)))[0]
+        try:
+            date = datetime(time._fullyear(_bcd2char(year)),
+                            _bcd2char(month),
+                            _bcd2char(day),
+                            _bcd2char(hour),
+                            _bcd2char(min),
+                            _bcd2char(sec))
+        except ValueError:
+            warnings.warn("Invalid time stamp in ping {}.".format(self.c))
+            return np.NaN
+        return time.date2epoch(date)[0]
 
     def _init_data(self, vardict):
         """Initialize the data object according to vardict.
-- 
2.43.0

