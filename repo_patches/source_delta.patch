From 3f8777c4df5e64e7ca1f79611311c35fc0be0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 01/52] fix: usphere_phi_shift no longer modifies the
 coordinates it is given

The shift was added in place, so usphere_phi_shift, usphere_shift,
usphere_spin and everything built on them rewrote the caller's phi array
(and failed on integer arrays).
---
 magpie/coords/usphere.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..f3964f8 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,9 +100,7 @@ def usphere_phi_shift(phi, dphi):
     assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)[0]
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 724aa2a938340311ef249d47467afc66ee972bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 02/52] fix: usphere_phi_shift wraps only the out of range
 elements of 2D arrays

np.where(...)[0] used as an index selects whole rows, so every element of
a row holding one out of range value was wrapped, once per such value.
---
 magpie/coords/usphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index f3964f8..31c9b02 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -102,9 +102,9 @@ def usphere_phi_shift(phi, dphi):
     # shift phi
     phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
-        condition = np.where(phi_new > 2.*np.pi)[0]
+        condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-        condition = np.where(phi_new < 0.)[0]
+        condition = np.where(phi_new < 0.)
         phi_new[condition] += 2.*np.pi
     # scalar case
     else:
-- 
2.43.0


From be444807c768b98b6039a738523c027ac8ecd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 03/52] fix: cart2sphere accepts arrays of more than one
 dimension

cart2polar, sphere2cart and polar2cart do; cart2sphere raised on them.
---
 magpie/coords/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/conversions.py b/magpie/coords/conversions.py
index 3401676..15ad38d 100644
--- a/magpie/coords/conversions.py
+++ b/magpie/coords/conversions.py
@@ -88,8 +88,8 @@ def cart2sphere(x, y, z, center=[0., 0., 0.]):
     else:
         condition = np.where(phi < 0.)
         phi[condition] += 2.*np.pi
-        theta = np.zeros(len(phi))
-        condition = np.where(r != 0.)[0]
+        theta = np.zeros(np.shape(phi))
+        condition = np.where(r != 0.)
         theta[condition] = np.arccos((z[condition]-center[2])/r[condition])
     return r, phi, theta
 
-- 
2.43.0


From ec6b0f2f9d6327ad5b8406731fb100618d334499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 04/52] fix: usphere_phi_shift accepts the ends of its
 documented range

usphere_spin allows alpha = 2pi and usphere_shift allows moving between
phi = 0 and phi = 2pi; both tripped the open-interval assertion here.
---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 31c9b02..8ba505e 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -97,7 +97,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     phi_new = phi + dphi
-- 
2.43.0


From eeaaca18fc1a78a11cea2e01c70c3766d806aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 05/52] fix: usphere_rotate between coincident or antipodal
 points

The rotation axis was the normalised cross product of two (anti)parallel
vectors, which gave NaN or a non-rigid transformation, e.g. between
phi=0 and phi=2pi, between two longitudes at a pole or to an antipode.
---
 magpie/coords/usphere.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 8ba505e..7f27c51 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -51,6 +51,10 @@ def usphere_rotate(phi, theta, phi_end, theta_end, phi_start=0.,
     # calculate other dummy variables (n, t, alpha, Rn, T, invT) to do the
     # rotation, see notes to see how these are determined.
     n = np.cross(u, v)
+    if np.sqrt(np.sum(n**2.)) < 1e-12:
+        # u and v do not define a plane (they are the same point or antipodal),
+        # use the meridian through the starting point.
+        n = np.array([-np.sin(phi_start), np.cos(phi_start), 0.])
     n /= np.sqrt(np.sum(n**2.))
     t = np.cross(n, u)
     alpha = np.arctan2(v.dot(t), v.dot(u))
-- 
2.43.0


From 8edd020fd72aaeed86161002b4597cd859526394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 06/52] fix: rotate_polar rotates the coordinates it is given

It ignored phi and indexed the scalar rotation angle, so it always raised.
---
 magpie/coords/polar.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..4ced467 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,11 +18,17 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
-    cond = np.where(rot_phi >= 2.*np.pi)[0]
-    rot_phi[cond] -= 2.*np.pi
-    cond = np.where(rot_phi < 0.)[0]
-    rot_phi[cond] += 2.*np.pi
+    rot_phi = phi + rotate
+    if np.isscalar(rot_phi) is True:
+        if rot_phi >= 2.*np.pi:
+            rot_phi -= 2.*np.pi
+        elif rot_phi < 0.:
+            rot_phi += 2.*np.pi
+    else:
+        cond = np.where(rot_phi >= 2.*np.pi)
+        rot_phi[cond] -= 2.*np.pi
+        cond = np.where(rot_phi < 0.)
+        rot_phi[cond] += 2.*np.pi
     return rot_phi
 
 
-- 
2.43.0


From eb99418374a88a78036065ba894fc97c273839f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 07/52] fix: rotate_polar_grid mixes neighbouring bins with the
 right weights

The weights were swapped (a shift by a whole number of bins came out one
bin too far), the last row used an already mixed first row and, for
shifts below one bin, the input grid itself was overwritten.
---
 magpie/coords/polar.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 4ced467..76d5f4f 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -55,16 +55,12 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
     dp = pedges[1] - pedges[0]
     ind_shift = int(np.floor(phi_shift/dp))
     w_shift = phi_shift/dp - ind_shift
-    f_polar_rot = np.zeros(np.shape(f_polar))
-    if ind_shift != 0:
-        f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
-        f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
-    else:
-        f_polar_rot = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
+    # bin i of the rotated grid covers a fraction 1-w_shift of bin i+ind_shift
+    # and a fraction w_shift of the bin that follows it
+    f_polar_shift = np.roll(f_polar, -ind_shift, axis=0)
+    f_polar_next = np.roll(f_polar, -ind_shift-1, axis=0)
+    f_polar_rot = (1.-w_shift)*f_polar_shift + w_shift*f_polar_next
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
-    if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
-    else:
-        f_polar_rot[-1] *= w_shift
+    if pedges[-1] - pedges[0] != 2.*np.pi:
+        f_polar_rot[-1] = (1.-w_shift)*f_polar_shift[-1]
     return f_polar_rot
-- 
2.43.0


From 4c18616801f4df42764b8173bc39156d37263ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 08/52] fix: the rotate_polar methods call the grid rotation

Box2Ring.rotate_polar and Heal2Ring.rotate_polar called the coordinate
rotation with the arguments of rotate_polar_grid, which raised TypeError.
---
 magpie/coords/__init__.py      | 1 +
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..2b94cf7 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -229,7 +229,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..7f023a0 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -188,7 +188,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..6461550 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -321,7 +321,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..3c45f8c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -182,7 +182,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From d5ac8b9802b7db9800ffb2141265ce103b4ca76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 09/52] fix: rebin_1d averages over the lengths that overlap
 the new bin

A new bin covering the whole old range counted the last bin twice, a new
bin ending inside an old one weighted it by the length of another bin,
bins of different lengths were weighted by the fraction of the bin that
is covered and a new bin only touching the old range returned a value.
---
 magpie/one_d/one_d.py | 57 ++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 414f87d..97c7d99 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -3,6 +3,22 @@ import numpy as np
 from .. import utils
 
 
+def _get_overlap(bin_edges, bin_min, bin_max):
+    """Returns the length of each bin which lies inside the new bin.
+
+    Parameters
+    ----------
+    bin_edges : array
+        Edges of the bins.
+    bin_min : float
+        Minimum edge for the new bin.
+    bin_max : float
+        Maximum edge for the new bin.
+    """
+    overlap = np.minimum(bin_edges[1:], bin_max) - np.maximum(bin_edges[:-1], bin_min)
+    return np.maximum(overlap, 0.)
+
+
 def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     """Gets weights.
 
@@ -69,43 +85,12 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
     bin_max : float
         Maximum edge for the new bin.
     """
-    condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
+    overlap = _get_overlap(bin_edges, bin_min, bin_max)
+    condition = np.where(overlap > 0.)[0]
     if len(condition) == 0:
-        condition1 = np.where((bin_edges >= bin_min))[0]
-        if len(condition1) != 0 and len(condition1) != len(bin_edges):
-            return data[condition1[0]-1]
-        else:
-            # If we can't find any bins then we return a NaN
-            return np.nan
-    elif len(condition) == 1:
-        # To ensure we are not looking at the edges
-        if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            w1 = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            w2 = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
-            return (w1*data[condition[0]-1] + w2*data[condition[0]])/(w1+w2)
-        # To deal with edges
-        elif condition[0] == 0:
-            return data[0]
-        elif condition[0] == len(bin_edges)-1:
-            return data[-1]
-    else:
-        # General case
-        # Create weights equal to one
-        w = np.ones(len(condition) + 1)
-        index = np.array(np.ndarray.tolist(condition-1) + [condition[-1]])
-        if condition[-1] == len(bin_edges)-1:
-            w = w[:-1]
-            index = index[:-1]
-        elif condition[0] == 0:
-            w = w[1:]
-            index = index[1:]
-        if condition[0] != 0:
-            # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-        if condition[-1] != len(bin_edges)-1:
-            # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
-        return np.sum(w*data[index])/np.sum(w)
+        # If we can't find any bins then we return a NaN
+        return np.nan
+    return np.sum(overlap[condition]*data[condition])/np.sum(overlap[condition])
 
 
 def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
-- 
2.43.0


From 91c840b79180249d33986ea8396adc75680a0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 10/52] fix: rebin_1d_single_bin_weights returns the documented
 overlap weights

With one old edge inside the new bin the weights were put one bin too
high (out of bounds in the last bin), and the weight of a partially
covered last bin was divided by the length of another bin. The weights
are now w(X, Y) = A(X n Y)/A(Y), as in docs/source/remap_index.rst.
---
 magpie/one_d/one_d.py | 42 +++++-------------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 97c7d99..bb34e87 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -31,43 +31,11 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     bin_max : float
         Maximum edge for the new bin.
     """
-    weights = np.zeros(len(bin_edges)-1)
-    condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
-    if len(condition) == 0:
-        condition1 = np.where((bin_edges >= bin_min))[0]
-        if len(condition1) != 0 and len(condition1) != len(bin_edges):
-            weights[condition1[0]-1] = 1.
-        else:
-            # If we can't find any bins then we return a NaN
-            return np.nan
-    elif len(condition) == 1:
-        # To ensure we are not looking at the edges
-        if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            weights[condition[0]] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            weights[condition[0]+1] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
-        # To deal with edges
-        elif condition[0] == 0:
-            weights[condition[0]] = 1.
-        elif condition[0] == len(bin_edges)-1:
-            weights[condition[0]] = 1.
-    else:
-        # General case
-        # Create weights equal to one
-        w = np.ones(len(condition) + 1)
-        index = np.array(np.ndarray.tolist(condition-1) + [condition[-1]])
-        if condition[-1] == len(bin_edges)-1:
-            w = w[:-1]
-            index = index[:-1]
-        elif condition[0] == 0:
-            w = w[1:]
-            index = index[1:]
-        if condition[0] != 0:
-            # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-        if condition[-1] != len(bin_edges)-1:
-            # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
-        weights[index] = w
+    overlap = _get_overlap(bin_edges, bin_min, bin_max)
+    if np.sum(overlap) == 0.:
+        # If we can't find any bins then we return a NaN
+        return np.nan
+    weights = overlap/(bin_max - bin_min)
     return weights
 
 
-- 
2.43.0


From 19cab7fbef3e4a297bb1f976cf44430c9adfe7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 11/52] fix: rebin_1d errors for new bins that hold two or more
 old edges

The general case used bin indices where it needed edge indices, so it
dropped or mis-scaled the contribution of the bins at both ends.
---
 magpie/one_d/one_d.py | 79 +++++--------------------------------------
 1 file changed, 9 insertions(+), 70 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index bb34e87..96d683e 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -75,77 +75,16 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
     bin_max : float
         Maximum edge for the new bin.
     """
-    condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
-    lengths = bin_edges[1:] - bin_edges[:-1]
+    overlap = _get_overlap(bin_edges, bin_min, bin_max)
+    condition = np.where(overlap > 0.)[0]
     if len(condition) == 0:
-        condition1 = np.where((bin_edges >= bin_min))[0]
-        if len(condition1) != 0 and len(condition1) != len(bin_edges):
-            length = bin_max - bin_min
-            new_sigma = sigma[condition1[0]-1]**2.
-            new_sigma *= lengths[condition1[0]-1]/length
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-        else:
-            # If we can't find any bins then we return a NaN
-            return np.nan
-    elif len(condition) == 1:
-        # To ensure we are not looking at the edges
-        if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            w1 = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            w2 = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
-            l1 = bin_edges[condition[0]] - bin_min
-            l2 = bin_max - bin_edges[condition[0]]
-            if l1 != 0:
-                new_sigma = (lengths[condition[0]-1]/l1)*(w1*sigma[condition[0]-1])**2.
-            else:
-                new_sigma = 0.
-            if l2 != 0:
-                new_sigma += (lengths[condition[0]]/l2)*(w2*sigma[condition[0]])**2.
-            new_sigma /= (w1+w2)**2.
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-        # To deal with edges
-        elif condition[0] == 0:
-            length = bin_max - bin_edges[0]
-            new_sigma = sigma[0]**2.
-            new_sigma *= lengths[0]/length
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-        elif condition[0] == len(bin_edges)-1:
-            length = bin_edges[-1] - bin_min
-            new_sigma = sigma[-1]**2.
-            new_sigma *= lengths[-1]/length
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-    else:
-        # General case
-        # Create weights equal to one
-        w = np.ones(len(condition) + 1)
-        index = np.array(np.ndarray.tolist(condition-1) + [condition[-1]])
-        if condition[-1] == len(bin_edges)-1:
-            w = w[:-1]
-            index = index[:-1]
-        elif condition[0] == 0:
-            w = w[1:]
-            index = index[1:]
-        length = lengths[index]
-        if index[0] != 0:
-            # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[index[0]] - bin_min)/(bin_edges[index[0]] - bin_edges[index[0]-1])
-            length[0] = bin_edges[index[0]] - bin_min
-        if index[-1] != len(bin_edges)-1:
-            # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[index[-1]])/(bin_edges[index[-1]] - bin_edges[index[-1]-1])
-            length[-1] = bin_max - bin_edges[index[-1]]
-        condition2 = np.where(length > 0.)[0]
-        index = index[condition2]
-        w = w[condition2]
-        length = length[condition2]
-        new_sigma = (w*sigma[index])**2.
-        new_sigma *= (lengths[index]/length)
-        new_sigma = np.sum(new_sigma)/(np.sum(w)**2.)
-        new_sigma = np.sqrt(new_sigma)
-        return new_sigma
+        # If we can't find any bins then we return a NaN
+        return np.nan
+    lengths = bin_edges[1:] - bin_edges[:-1]
+    # The error on the mean of part of a bin grows as that part gets shorter.
+    new_sigma = (lengths[condition]/overlap[condition])*(overlap[condition]*sigma[condition])**2.
+    new_sigma = np.sqrt(np.sum(new_sigma))/np.sum(overlap[condition])
+    return new_sigma
 
 
 def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
-- 
2.43.0


From 80da13757b8b9478c531bc27fcb6cc077df13f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 12/52] fix: weighted rebin_1d errors are normalised by the
 mean weight

They were divided by the weights added in quadrature, so unit weights
did not reproduce the unweighted errors.
---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 96d683e..b0d3089 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -122,7 +122,7 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-            sigma_new /= np.array([_rebin_1d_single_bin_sigma(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
         return data_new
-- 
2.43.0


From 5229c0fb7e859f754fb9e0aaadcd7ef9d06f4787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 13/52] fix: set the remap weights of cells just left of the
 input grid

A new cell lying entirely within one old cell width below the input grid
has pix1 = pix2 = -1 and left pix and weights undefined (stale values of
the previous cell or whatever was on the stack).
---
 magpie/src/remap_utils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..809627a 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -263,7 +263,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
       end if
 
     end do
-  else if (pix1 .NE. -1) then
+  else
     do i = 1, pixlen
       pix(i) = pix1 + i-1
       if ((pix(i) .GE. 0) .AND. (pix(i) .LT. grid1)) then
-- 
2.43.0


From dae6d71827232344bcd6441f58512fe22b9cce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 14/52] fix: a new cell inside one old cell does not read the
 cells after it

They were kept with weight zero, so a NaN or infinity in a cell which
does not overlap the new cell spread to it.
---
 magpie/src/remap_utils.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 809627a..2c745dd 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -271,6 +271,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
           weights(i) = 1.
         else
           weights(i) = 0.
+          pix(i) = -1
         end if
       else
         weights(i) = 0.
-- 
2.43.0


From df00dcc14f46218b956cc13e90635372f8d641a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 15/52] fix: grid2grid1D without boxsizeout uses the input box
 size

As grid2grid2D and grid2grid3D do; None was added to a number.
---
 magpie/remap/grid2grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..6b4186a 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -27,6 +27,8 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
         The remapped pixel values for the output 1D grid."""
     x1min = origin
     x1max = origin + boxsize
+    if boxsizeout is None:
+        boxsizeout = boxsize
     x2min = originout
     x2max = originout + boxsizeout
     f1shape = np.shape(f1)
-- 
2.43.0


From 415b048bd83a017f3025d679f68601b6a2cc7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 16/52] fix: grid2grid3D accepts a list of output grid
 divisions

---
 magpie/remap/grid2grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 6b4186a..531f6bb 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -173,7 +173,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From 22931b000d7d1ffadcefbbbb97438260db256e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 17/52] fix: randoms_1d returns the randoms it draws

It returned an undefined name, so randoms_1d, 2d and 3d always raised.
---
 magpie/randoms/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..58a025a 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
-- 
2.43.0


From 6082a96e111ffd5e5e51fb627cf227d3dd244017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 18/52] fix: randoms_2d and randoms_3d spread x between its
 minimum and maximum

The minimum was given twice, so every x was mins[0].
---
 magpie/randoms/cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 58a025a..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From 1437faf53c3efdec82e8f59c0e3019538ff17031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 19/52] fix: Monte Carlo Heal2Ring and Heal2Polar weights use
 randoms_usphere

randoms_sky does not exist any more, so get_weights always raised.
---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..8759a75 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3c45f8c..e924428 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,7 +107,7 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
                                                             theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
-- 
2.43.0


From 7bcf564fe89258dc07b2cb3fedcbde2c051945f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 20/52] fix: Heal2Ring and Heal2Polar use usphere_area

sky_area does not exist any more, so the dense remaps and the radial
profiles of both Heal2Ring classes always raised.
---
 magpie/densegrid/heal2polar.py | 2 +-
 magpie/densegrid/heal2ring.py  | 4 ++--
 magpie/montecarlo/heal2ring.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 7f023a0..37ed844 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index e924428..5edc1da 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 4f598b1d22f6c89aa192318750c57bc9ecb12beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 21/52] fix: Monte Carlo Heal2Ring and Heal2Polar accept a
 weight map

The assertion compared the shape tuple with a number and always failed.
---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 8759a75..4d70df0 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -148,7 +148,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5edc1da..eb2e768 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -145,7 +145,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From a28c8a04d01828a048b7f25bda9b80abdc54a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 22/52] fix: Monte Carlo weights of rows whose pixels overlap
 equally many cells

np.array(list of arrays, dtype=object) becomes 2D when all the arrays
have the same length, for instance for pixels which are all outside of
the box or all inside one cell, and get_weights or remap then raised.
---
 magpie/montecarlo/box2ring.py   |  6 +++---
 magpie/montecarlo/cube2shell.py |  8 ++++----
 magpie/montecarlo/heal2polar.py |  4 ++--
 magpie/montecarlo/heal2ring.py  |  4 ++--
 magpie/utils/__init__.py        |  1 +
 magpie/utils/ragged.py          | 20 ++++++++++++++++++++
 6 files changed, 32 insertions(+), 11 deletions(-)
 create mode 100644 magpie/utils/ragged.py

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 6461550..b61eedc 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -235,9 +235,9 @@ class Box2Ring:
                 _ind_xs.append(ind_x)
                 _ind_ys.append(ind_y)
                 _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_xs.append(utils.ragged_array(_ind_xs))
+            ind_ys.append(utils.ragged_array(_ind_ys))
+            ind_ws.append(utils.ragged_array(_ind_ws))
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
         self.ind_xs = np.array(ind_xs, dtype=object)
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..e673ee4 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -166,10 +166,10 @@ class Cube2Shell:
                 _ind_ys.append(ind_y)
                 _ind_zs.append(ind_z)
                 _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_xs.append(utils.ragged_array(_ind_xs))
+            ind_ys.append(utils.ragged_array(_ind_ys))
+            ind_zs.append(utils.ragged_array(_ind_zs))
+            ind_ws.append(utils.ragged_array(_ind_ws))
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
         self.ind_xs = np.array(ind_xs, dtype=object)
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 4d70df0..ae1075c 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -121,8 +121,8 @@ class Heal2Polar:
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
                 _ind_pixs.append(ind_pix)
                 _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_pixs.append(utils.ragged_array(_ind_pixs))
+            ind_ws.append(utils.ragged_array(_ind_ws))
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
         self.ind_pixs = np.array(ind_pixs, dtype=object)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index eb2e768..4cd9351 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -118,8 +118,8 @@ class Heal2Ring:
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
                 _ind_pixs.append(ind_pix)
                 _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+            ind_pixs.append(utils.ragged_array(_ind_pixs))
+            ind_ws.append(utils.ragged_array(_ind_ws))
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
         self.ind_pixs = np.array(ind_pixs, dtype=object)
diff --git a/magpie/utils/__init__.py b/magpie/utils/__init__.py
index 3743bb2..3b0373e 100644
--- a/magpie/utils/__init__.py
+++ b/magpie/utils/__init__.py
@@ -1,3 +1,4 @@
 
 from .check import is_pos_monotonic
 from .progress import progress_bar
+from .ragged import ragged_array
diff --git a/magpie/utils/ragged.py b/magpie/utils/ragged.py
new file mode 100644
index 0000000..b407479
--- /dev/null
+++ b/magpie/utils/ragged.py
@@ -0,0 +1,20 @@
+import numpy as np
+
+
+def ragged_array(arrays):
+    """Returns a 1D object array which holds the input arrays.
+
+    Note
+    ----
+    np.array(arrays, dtype=object) returns a 2D array instead when all of the
+    arrays happen to have the same length.
+
+    Parameters
+    ----------
+    arrays : list
+        List of arrays, which can have different lengths.
+    """
+    ragged = np.empty(len(arrays), dtype=object)
+    for i in range(0, len(arrays)):
+        ragged[i] = arrays[i]
+    return ragged
-- 
2.43.0


From 29936cab9041f96f4afd5c7fe59d3faebaf7987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 23/52] fix: Box2Ring.polar2radial does not modify the weights
 it is given

The in-bound mask was multiplied into the caller's array, which also
failed for integer or boolean masks.
---
 magpie/densegrid/box2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2b94cf7..cfd6248 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -270,7 +270,7 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*self.mask_in_bound
             else:
                 w = self.mask_in_bound
         if sigma is None:
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index b61eedc..9c6bc3c 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -362,7 +362,7 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*self.mask_in_bound
             else:
                 w = self.mask_in_bound
         if sigma is None:
-- 
2.43.0


From 183d8c979d70e47d7cfbae83c0de27d2c384d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 24/52] fix: grids with a single bin along an axis can be set
 up

The bin width was taken from two mid points, so the set up methods
raised IndexError for one bin, which their assertions allow.
---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index cfd6248..b4bce1f 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -113,8 +113,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..e84640d 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -101,7 +101,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..2c2bafc 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,8 +89,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..e730f25 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,8 +94,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 37ed844..85200d6 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -94,8 +94,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 9c6bc3c..98fbc02 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -137,8 +137,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -189,7 +189,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index e673ee4..6417e4f 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -90,7 +90,7 @@ class Cube2Shell:
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index ae1075c..fa4a449 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -81,8 +81,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 4cd9351..0e7c2b4 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -79,8 +79,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From 5cfdaa53e087877a2a19188be5abc7a095eef4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 25/52] fix: setting up a new grid drops the areas and mask of
 the previous one

area2d, pixarea and mask_in_bound are computed once and kept, so radial
profiles and errors made after setting up another box, map or polar grid
on the same object used those of the first.
---
 magpie/densegrid/box2ring.py   | 4 ++++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 6 ++++++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index b4bce1f..9b07bff 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -70,6 +70,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
@@ -116,6 +118,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 85200d6..353ec3c 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -49,6 +49,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -97,6 +98,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
         self.rebin_alpha = rebin_alpha
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 98fbc02..1118851 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -97,6 +97,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -140,6 +142,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -191,6 +195,8 @@ class Box2Ring:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 0e7c2b4..76f84a3 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -82,6 +83,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
 
-- 
2.43.0


From 2579b303cc73f7fc670e9f208b39c266bbdf74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 26/52] fix: dense grid remaps rebin each axis by its own
 factor

The high resolution grids have phi (beta, y) along their rows but were
grouped with the r (alpha, x) factor, which raised or mixed pixels up
whenever the two factors were different.
---
 magpie/densegrid/box2ring.py   | 8 ++++----
 magpie/densegrid/heal2ortho.py | 8 ++++----
 magpie/densegrid/heal2polar.py | 8 ++++----
 magpie/densegrid/heal2ring.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 9b07bff..9d83350 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -164,10 +164,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 2c2bafc..e9f4d8a 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index e730f25..2a5ff2b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 353ec3c..0f1b40b 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -141,10 +141,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From 61d1bafcb03c5761969dc84b58ba86e0f375ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 27/52] fix: Heal2Ortho returns the mean of the high resolution
 pixels

The values were summed and the weights averaged along one axis, so maps
came out multiplied by a rebin factor (a map of ones became twos).
---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index e9f4d8a..5a9a77e 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -145,7 +145,7 @@ class Heal2Ortho:
         weights = self.rebin_onsphere
         f_box_highres *= weights
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
         weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
-- 
2.43.0


From 6191887266181195f7e522cfc553949f4c8dbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 28/52] fix: Heal2Ortho.transform places points on the sphere
 of the map

It always used a unit sphere, also for a map set up with another radius.
---
 magpie/densegrid/heal2ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 5a9a77e..cd27a1c 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -182,9 +182,9 @@ class Heal2Ortho:
     def transform(self, phi, theta):
         """Transforms coordinates from the original Healpix coordinate system to the orthographic projection"""
         if np.isscalar(phi) == True:
-            r = 1.
+            r = self.radius
         else:
-            r = np.ones(len(phi))
+            r = self.radius*np.ones(len(phi))
         phi, theta = coords.usphere_shift(phi, theta, self.center[0], self.center[1], self.end_center[0], self.end_center[1])
         x, y, z = coords.sphere2cart(r, phi, theta)
         if np.isscalar(phi) == True:
-- 
2.43.0


From 3485c990e903592d4cbc20fef8390107ae4d00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 29/52] fix: dense Cube2Shell reads f in the layout of its own
 x3d, y3d and z3d

These have y along the first axis (as the Monte Carlo class, which reads
f that way), so maps came out with x and y exchanged and boxes with a
different number of x and y cells raised.
---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index e84640d..9a003b9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -151,7 +151,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From a76774f9bb7bc681bec9a714c302a5275bfad730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 30/52] fix: dense Box2Ring.polar2radial gives no weight to the
 pixels it blanks

Pixels partly outside of the box were set to zero but kept the fraction
which is inside as their weight, which pulled the profile towards zero.
---
 magpie/densegrid/box2ring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 9d83350..4768e51 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -273,10 +273,12 @@ class Box2Ring:
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
+            # pixels which are only partly inside the box are masked too
+            mask = np.where(self.mask_in_bound == 1., 1., 0.)
             if w is not None:
-                w = w*self.mask_in_bound
+                w = w*mask
             else:
-                w = self.mask_in_bound
+                w = mask
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From d3cfb8b1ce11a7107521e415169105b0079dde86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 31/52] fix: PointOfView.reverse undoes the spin

usphere_spin takes angles within [0, 2pi], so spinning back by -spin
tripped its assertion for every perspective with a spin.
---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..ba5f359 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -103,7 +103,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi-self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From b249cef204c8193b4680096d636f97f926688c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 32/52] fix: PointOfView.transform accepts the coordinates of a
 single point

An unused np.where(...)[0] raised for scalars, which reverse accepts.
---
 magpie/densegrid/pointofview.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index ba5f359..bede14b 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -69,7 +69,6 @@ class PointOfView:
             phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., self.spin)
         dx, dy, dz = coords.sphere2cart(r, phi, theta)
         f = self.display/dx
-        condition = np.where(f >= 1.)[0]
         bx = dy*f
         by = dz*f
         dist = np.sqrt(dx**2. + dy**2. + dz**2.)
-- 
2.43.0


From eec6d8e83cb9c8e2703c2b588c2f6b0343c4a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 33/52] fix: HEALPix neighbours of pixels on the left edge of
 the north caps

---
 magpie/pixel/healpix_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 3f64c60..ef16daf 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -305,7 +305,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
         istar_neigh = [istar, istar + 1, istar + 1, istar, istar + 1,
                        istar - ((jstar+1)-nside*np.floor(jstar/nside)),
                        istar - ((jstar)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar-1)-nside*np.floor(jstar/nside))]
+                       istar - ((jstar+2)-nside*np.floor(jstar/nside))]
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar + 1, jstar + 1,
                        nside*np.floor(jstar/nside)-1,
                        nside*np.floor(jstar/nside)-1,
-- 
2.43.0


From 34069455bd528a2503d719c3a075ce790ab51f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 34/52] fix: HEALPix neighbours across the zero longitude seam

---
 magpie/pixel/healpix_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index ef16daf..38bd8fb 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -344,7 +344,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh = np.array(istar_neigh)
     jstar_neigh = np.array(jstar_neigh)
 
-    cond = np.where(istar_neigh + jstar_neigh > 9*nside-1)[0]
+    cond = np.where(istar_neigh + jstar_neigh > 9*nside-2)[0]
     istar_neigh[cond] = istar_neigh[cond] - 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] - 4*nside
 
-- 
2.43.0


From 696bc9646195fc492d9ccf00600d3701fd8b9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 35/52] fix: HEALPix neighbour star indices stay paired

---
 magpie/pixel/healpix_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 38bd8fb..4d9ebf1 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -352,8 +352,8 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh[cond] = istar_neigh[cond] + 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] + 4*nside
 
-    istar_neigh = np.unique(istar_neigh)
-    jstar_neigh = np.unique(jstar_neigh)
+    neigh = np.unique(np.array([istar_neigh, jstar_neigh]).astype('int'), axis=1)
+    istar_neigh, jstar_neigh = neigh[0], neigh[1]
     return istar_neigh, jstar_neigh
 
 
-- 
2.43.0


From a2f4146112ea738f51d908e00c618ed266eeea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 36/52] fix: plot_box and plot_circle use the outlines of the
 pixel module

---
 magpie/plots/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/shapes.py b/magpie/plots/shapes.py
index b7509f8..9c7a054 100644
--- a/magpie/plots/shapes.py
+++ b/magpie/plots/shapes.py
@@ -22,7 +22,7 @@ def plot_box(x_min, x_max, y_min, y_max, ax=None, divisions=100, **kwargs):
     divisions : int, optional
         Divisions in each line segment.
     """
-    x, y = shapes.get_box(x_min, x_max, y_min, y_max, divisions=divisions)
+    x, y = pixel.get_square(x_min, x_max, y_min, y_max, steps=4*divisions)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
@@ -43,7 +43,7 @@ def plot_circle(radius=1., center=[0., 0.], length=1000, ax=None, **kwargs):
     ax : class, optional
         Axis to plot on.
     """
-    x, y = shapes.get_circle(radius, center=center, length=length)
+    x, y = pixel.get_arc(radius, center=center, steps=length)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
-- 
2.43.0


From 8fe5f176b33472592bb1c2474309792104b69d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 37/52] fix: PlotOrtho.plot_polar_box uses the outlines of the
 pixel module

---
 magpie/plots/ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 7c9352e..a90a844 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -341,7 +341,7 @@ class PlotOrtho:
             _t1, _t2 = theta_min, theta_max
             theta_min = np.pi/2. - _t2
             theta_max = np.pi/2. - _t1
-        phi_box, theta_box = shapes.get_box(phi_min, phi_max, theta_min, theta_max, divisions=divisions)
+        phi_box, theta_box = pixel.get_square(phi_min, phi_max, theta_min, theta_max, steps=4*divisions)
         x, y = self.heal2ortho.transform(phi_box, theta_box)
         if ax is None:
             plt.plot(x, y, **kwargs)
-- 
2.43.0


From 0729df797433b33d4067f2539bac03419b6a567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 38/52] fix: PlotOrtho.plot_labels latitude labels

---
 magpie/plots/ortho.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index a90a844..07bb369 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -206,7 +206,7 @@ class PlotOrtho:
                 condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
                 f = interpolate.interp1d(theta, y)
                 y_ticks = f(theta_grid[condition])
-                y_labels = coords.polar2lonlat(theta_grid[condition])
+                y_labels = np.rad2deg(coords.sphere2lonlat(theta_grid[condition]))
             else:
                 if inbetween == 'min':
 
@@ -215,14 +215,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmin(theta):-1], theta[np.argmin(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
 
                 elif inbetween == 'max':
 
@@ -231,14 +231,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmax(theta):-1], theta[np.argmax(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
                 y_ticks = np.concatenate([y_ticks1, y_ticks2])
                 y_labels = np.rad2deg(np.concatenate([y_labels1, y_labels2]))
             y_labels = np.round(y_labels, decimals=0).astype('int')
-- 
2.43.0


From 1c94fb670dd77f7b40625312911ec0438ea624ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 39/52] fix: dense Box2Ring.polar2radial masks partial pixels
 when no pixel is fully outside

---
 magpie/densegrid/box2ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 4768e51..2bd2d81 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -266,7 +266,7 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
-- 
2.43.0


From 13b193e19cfce1bef3d174422dea1f6b9765d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 40/52] fix: Monte Carlo Box2Ring.get_weights drops the mask of
 the previous weights

---
 magpie/montecarlo/box2ring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 1118851..dd63808 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -249,6 +249,7 @@ class Box2Ring:
         self.ind_xs = np.array(ind_xs, dtype=object)
         self.ind_ys = np.array(ind_ys, dtype=object)
         self.ind_ws = np.array(ind_ws, dtype=object)
+        self.mask_in_bound = None
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0


From 52ccb6cbcd84b7bd7856fcd3fb9da169343fcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 41/52] fix: stochastic weights of arrays of more than one
 dimension

The draws had the length of the first axis only, so rows shared them or the
shapes did not fit, and a binary weight above one set its whole row to one.
---
 magpie/randoms/subsample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/subsample.py b/magpie/randoms/subsample.py
index 9f970cc..078a1e4 100644
--- a/magpie/randoms/subsample.py
+++ b/magpie/randoms/subsample.py
@@ -90,7 +90,7 @@ def stochastic_integer_weights(weights):
         if u_r < weights_SI - weights:
             weights_SI = np.floor(weights)
     else:
-        u_r = np.random.random_sample(len(weights))
+        u_r = np.random.random_sample(np.shape(weights))
         weights_SI = np.ceil(weights)
         cond = np.where(u_r < weights_SI - weights)
         weights_SI[cond] = np.floor(weights[cond])
@@ -118,6 +118,6 @@ def stochastic_binary_weights(weights):
         if weights_SI > 1:
             weights_SB = 1
     else:
-        cond = np.where(weights_SI > 1)[0]
+        cond = np.where(weights_SI > 1)
         weights_SB[cond] = 1
     return weights_SB
-- 
2.43.0


From d42fc4a95a65b67b3edbbf0c83a221d594deb951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:09 +0000
Subject: [PATCH 42/52] fix: setup_cube rejects an empty z axis

---
 magpie/densegrid/cube2shell.py  | 1 +
 magpie/montecarlo/cube2shell.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 9a003b9..7513846 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 6417e4f..8e75e52 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
-- 
2.43.0


From 2454de7071986d3c44cfcf23ab0e565c35c3470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 43/52] fix: plot_labels spaces longitude ticks by dphi and
 follows them across 2pi

---
 magpie/plots/ortho.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 07bb369..f76507b 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -249,6 +249,9 @@ class PlotOrtho:
             z = np.sqrt(self.heal2ortho.radius**2. - (x**2. + y**2.))
             rr, phi, theta = coords.cart2sphere(x, y, z)
             phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
+            # follow phi, and the grid, continuously across 2pi
+            phi = np.unwrap(phi)
+            phi_grid = np.concatenate([phi_grid - 2.*np.pi, phi_grid, phi_grid + 2.*np.pi])
 
             if np.argmax(phi) != 0 and np.argmax(phi) != len(phi)-1:
                 split = True
@@ -260,8 +263,6 @@ class PlotOrtho:
                 split = False
                 inbetween = None
 
-            phi_grid = np.linspace(0., 2.*np.pi, int(360./20.)+1)[:-1]
-
             if split == False:
                 condition = np.where((phi_grid >= phi.min()) & (phi_grid <= phi.max()))[0]
 
@@ -304,7 +305,7 @@ class PlotOrtho:
 
                 x_ticks = np.concatenate([x_ticks1, x_ticks2])
                 x_labels = np.rad2deg(np.concatenate([x_labels1, x_labels2]))
-            x_labels = np.round(x_labels, decimals=0).astype('int')
+            x_labels = np.round(np.mod(x_labels, 360.), decimals=0).astype('int')
 
             if ax is None:
                 plt.xticks(ticks=x_ticks, labels=x_labels, **kwargs)
-- 
2.43.0


From 1b0e86d22b29309afefdc6dad2711e937b5db73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:11 +0000
Subject: [PATCH 44/52] fix: plot_labels writes the requested number of
 decimals

---
 magpie/plots/ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index f76507b..6201062 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -138,7 +138,7 @@ class PlotOrtho:
         if onsphere == True:
             for ii in range(0, len(phi_grid)):
                 phi_val = phi_grid[ii]
-                phi_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(phi_val), decimals=decimals))[:-2]
+                phi_str = r'$ %.*f ^{\circ}$' % (decimals, np.rad2deg(phi_val))
                 theta_val = zeropoint[1]
                 phi_val -= np.deg2rad(shift[0])
                 x, y = self.heal2ortho.transform(phi_val, theta_val)
@@ -161,7 +161,7 @@ class PlotOrtho:
                 theta_val = theta_grid[ii]
                 if lonlat == True:
                     theta_val = np.pi/2. - theta_val
-                theta_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(theta_val), decimals=decimals))[:-2]
+                theta_str = r'$ %.*f ^{\circ}$' % (decimals, np.rad2deg(theta_val))
                 theta_val = theta_grid[ii]
                 phi_val = zeropoint[0]
                 theta_val -= np.deg2rad(shift[1])
-- 
2.43.0


From 88ec1dbcbc751ef621bfcbc6616049c0ba4a7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 45/52] fix: get_box hides a visible corner when it rounds
 inside the box

---
 magpie/pixel/basic_shapes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/magpie/pixel/basic_shapes.py b/magpie/pixel/basic_shapes.py
index f8a175f..7006c5c 100644
--- a/magpie/pixel/basic_shapes.py
+++ b/magpie/pixel/basic_shapes.py
@@ -160,11 +160,13 @@ def get_box(xmin, xmax, ymin, ymax, zmin, zmax, steps=120,
                             [xmax, ymin, zmin], [xmax, ymin, zmax],
                             [xmax, ymax, zmin], [xmax, ymax, zmax]])
         xc, yc, zc = corners[:, 0], corners[:, 1], corners[:, 2]
+        # the corner itself is left out, rounding can place it inside the box
+        sight = np.linspace(0., 1., 100)[:-1]
         remove_corner = []
         for i in range(0, len(corners)):
-            xx = np.linspace(0., 1., 100)*(xc[i] - center[0]) + center[0]
-            yy = np.linspace(0., 1., 100)*(yc[i] - center[1]) + center[1]
-            zz = np.linspace(0., 1., 100)*(zc[i] - center[2]) + center[2]
+            xx = sight*(xc[i] - center[0]) + center[0]
+            yy = sight*(yc[i] - center[1]) + center[1]
+            zz = sight*(zc[i] - center[2]) + center[2]
             condition = np.where((xx > xmin) & (xx < xmax) & (yy > ymin) &
                                  (yy < ymax) & (zz > zmin) & (zz < zmax))[0]
             if len(condition) == 0:
-- 
2.43.0


From dd6ccb25ccf511a8acf9df3176af987a686ec448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 46/52] fix: grid2grid crashed when new cells are very large
 compared to the old box

---
 magpie/src/remap_utils.f90 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 2c745dd..0d423e4 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -43,7 +43,8 @@ subroutine get_remap_pix_len(x1min, x1max, grid1, x2min, x2max, grid2, pixlen)
   dx1 = boxsize1 / real(grid1)
   dx2 = boxsize2 / real(grid2)
 
-  pixlen = int(floor(dx2/dx1)) + 2
+  ! no more than all pixels of grid 1 and one to their left can be needed
+  pixlen = int(min(dx2/dx1, real(grid1, dp))) + 2
 
 end subroutine get_remap_pix_len
 
@@ -77,7 +78,8 @@ subroutine which_pix(xmin, dx, x, pix)
 
   ! Function
 
-  pix = int(floor((x-xmin)/dx))
+  ! far outside of the grid any pixel index will do, as long as it is an integer
+  pix = int(floor(max(-1.e9_dp, min(1.e9_dp, (x-xmin)/dx))))
 
 end subroutine which_pix
 
@@ -239,6 +241,9 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
   call which_pix(x1min, dx1, x2edge1, pix1)
   call which_pix(x1min, dx1, x2edge2, pix2)
 
+  pix1 = max(pix1, -1)
+  pix2 = max(pix2, -1)
+
   if (pix1 .NE. pix2) then
     do i = 1, pixlen
       pix(i) = pix1 + i-1
-- 
2.43.0


From a7af71f81d4d82d5855aa0c989b0685373267295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 47/52] fix: set-up objects followed later changes to the
 caller's lists of coordinates

---
 magpie/densegrid/box2ring.py    | 2 +-
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 2 +-
 magpie/densegrid/heal2polar.py  | 2 +-
 magpie/densegrid/heal2ring.py   | 2 +-
 magpie/densegrid/pointofview.py | 4 ++--
 magpie/montecarlo/box2ring.py   | 4 ++--
 magpie/montecarlo/cube2shell.py | 4 ++--
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 10 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2bd2d81..134ff4d 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -120,7 +120,7 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
         self.mask_in_bound = None
-        self.center = center
+        self.center = list(center)
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
         self.rebin_p = rebin_p
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 7513846..7721afc 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -104,7 +104,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
-        self.center = center
+        self.center = list(center)
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
         centers = []
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index cd27a1c..5bd2618 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -99,7 +99,7 @@ class Heal2Ortho:
         self.onsphere[condition] = np.nan
         self.z2d[condition] = 0.
 
-        self.center = center
+        self.center = list(center)
         self.rebin_x = rebin_x
         self.rebin_y = rebin_y
         self.rebin_xedges = np.linspace(self.xedges[0], self.xedges[-1], self.rebin_x*len(self.xmid) + 1)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 2a5ff2b..4c190ec 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -97,7 +97,7 @@ class Heal2Polar:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
-        self.center = center
+        self.center = list(center)
         self.alpha = alpha
         self.rebin_x = rebin_x
         self.rebin_y = rebin_y
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 0f1b40b..18c3230 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -99,7 +99,7 @@ class Heal2Ring:
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.area2d = None
-        self.center = center
+        self.center = list(center)
         self.beta_shift = beta_shift
         self.rebin_alpha = rebin_alpha
         self.rebin_beta = rebin_beta
diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index bede14b..375e256 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -31,8 +31,8 @@ class PointOfView:
         spin : float, optional
             rotate the perspective around the central point defined by point.
         """
-        self.camera  = camera
-        self.point   = point
+        self.camera  = list(camera)
+        self.point   = list(point)
         self.display = display
         _r, _phi, _theta = coords.cart2sphere(self.point[0], self.point[1], self.point[2], center=self.camera)
         self.phi_point_towards = _phi
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index dd63808..ddd8225 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -144,7 +144,7 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
         self.mask_in_bound = None
-        self.center = center
+        self.center = list(center)
         self.phi_shift = phi_shift
 
 
@@ -197,7 +197,7 @@ class Box2Ring:
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
         self.mask_in_bound = None
-        self.center = center
+        self.center = list(center)
         self.phi_shift = phi_shift
 
 
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8e75e52..b1277af 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -93,7 +93,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
-        self.center = center
+        self.center = list(center)
 
 
     def setup_polar_log(self, rmin, rmax, numr, nside, center=[0., 0., 0.], addzero=True):
@@ -126,7 +126,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
         self.nside = nside
-        self.center = center
+        self.center = list(center)
 
 
     def get_weights(self, mc_size=100, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index fa4a449..21a597e 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -84,7 +84,7 @@ class Heal2Polar:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
-        self.center = center
+        self.center = list(center)
         self.alpha = alpha
 
 
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 76f84a3..f0f3516 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -84,7 +84,7 @@ class Heal2Ring:
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.area2d = None
-        self.center = center
+        self.center = list(center)
         self.beta_shift = beta_shift
 
 
-- 
2.43.0


From 9e077e395225cc71e6eac0f040b07b412257eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 48/52] fix: Heal2Ortho leaves map pixels beyond the limb out
 of the mean

Sub-pixels off the sphere were multiplied by a weight of zero, so an
undefined or infinite HEALPix pixel that only they point to made the
target pixel undefined.
---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 5bd2618..14ac62d 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -143,7 +143,7 @@ class Heal2Ortho:
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
-        f_box_highres *= weights
+        f_box_highres[weights == 0.] = 0.
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
         f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
-- 
2.43.0


From 6bf570be1f3dd3a1df1468a275f57a33594f0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 49/52] fix: Monte Carlo set-ups discard the weights of the
 previous grid

After a new map, box or target set-up, remap went on silently with the
weights calculated for the earlier grid. A new object asks for
get_weights first; a reused one now does too.
---
 magpie/montecarlo/box2ring.py   |  9 +++++++++
 magpie/montecarlo/cube2shell.py | 12 ++++++++++++
 magpie/montecarlo/heal2polar.py |  4 ++++
 magpie/montecarlo/heal2ring.py  |  4 ++++
 4 files changed, 29 insertions(+)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index ddd8225..4abc333 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -98,6 +98,9 @@ class Box2Ring:
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.pixarea = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.mask_in_bound = None
 
 
@@ -143,6 +146,9 @@ class Box2Ring:
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.mask_in_bound = None
         self.center = list(center)
         self.phi_shift = phi_shift
@@ -196,6 +202,9 @@ class Box2Ring:
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.area2d = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.mask_in_bound = None
         self.center = list(center)
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index b1277af..4cbb7d6 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -67,6 +67,10 @@ class Cube2Shell:
         self.dy = self.yedges[1] - self.yedges[0]
         self.dz = self.zedges[1] - self.zedges[0]
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nside, center=[0., 0., 0.]):
@@ -94,6 +98,10 @@ class Cube2Shell:
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = list(center)
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def setup_polar_log(self, rmin, rmax, numr, nside, center=[0., 0., 0.], addzero=True):
@@ -127,6 +135,10 @@ class Cube2Shell:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.nside = nside
         self.center = list(center)
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=100, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 21a597e..756bd19 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -38,6 +38,8 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None):
@@ -85,6 +87,8 @@ class Heal2Polar:
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = list(center)
+        self.ind_pixs = None
+        self.ind_ws = None
         self.alpha = alpha
 
 
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index f0f3516..1c24c72 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,8 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.ind_pixs = None
+        self.ind_ws = None
         self.pixarea = None
 
 
@@ -85,6 +87,8 @@ class Heal2Ring:
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.area2d = None
         self.center = list(center)
+        self.ind_pixs = None
+        self.ind_ws = None
         self.beta_shift = beta_shift
 
 
-- 
2.43.0


From e8b4d3c6887120321b3487775d6e3cdc1fa8247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 50/52] fix: dense HEALPix remaps follow a new map resolution

setup_map on an object whose target grid was already set up kept the
pixel numbers of the earlier resolution, so that remap read the wrong
pixels of the new map.
---
 magpie/densegrid/heal2ortho.py | 5 +++++
 magpie/densegrid/heal2polar.py | 5 +++++
 magpie/densegrid/heal2ring.py  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 14ac62d..20b9cd4 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -39,6 +39,8 @@ class Heal2Ortho:
         self.rebin_onsphere = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -52,6 +54,8 @@ class Heal2Ortho:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.rebin_theta is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], y_length=None, y_grid=None,
@@ -123,6 +127,7 @@ class Heal2Ortho:
         zz = self.rebin_z2d.flatten()
         rr, phi, theta = coords.cart2sphere(xx, yy, zz)
         phi, theta = coords.usphere_shift(phi, theta, self.end_center[0], self.end_center[1], self.center[0], self.center[1])
+        self.rebin_phi, self.rebin_theta = phi, theta
         self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
 
 
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 4c190ec..edc59f7 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -33,6 +33,8 @@ class Heal2Polar:
         self.rebin_y2d = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -46,6 +48,8 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.rebin_theta is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None,
@@ -117,6 +121,7 @@ class Heal2Polar:
         if self.alpha != 0.:
             xx, yy = coords.usphere_spin(xx, yy, 0., np.pi/2., self.alpha)
         xx, yy = coords.usphere_shift(xx, yy, 0., np.pi/2., self.center[0], self.center[1])
+        self.rebin_phi, self.rebin_theta = xx, yy
         self.rebin_pix = hp.ang2pix(self.nside, yy, xx)
 
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 18c3230..b5aff79 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -34,6 +34,8 @@ class Heal2Ring:
         self.rebin_beta2d = None
         self.rebin_alpha_ind = None
         self.rebin_beta_ind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
         self.area2d = None
         self.pixarea = None
@@ -49,6 +51,8 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.rebin_theta is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
         self.pixarea = None
 
 
@@ -118,6 +122,7 @@ class Heal2Ring:
         else:
             phi, theta = self.rebin_beta2d.flatten(), self.rebin_alpha2d.flatten()
         phi, theta = coords.usphere_shift(phi, theta, 0., 0., self.center[0], self.center[1])
+        self.rebin_phi, self.rebin_theta = phi, theta
         self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
 
 
-- 
2.43.0


From 51725517620f9a287884e40b67f05cd2a7d0d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 51/52] fix: dense Cube2Shell places its periodic images by the
 current cube

setup_cube on an object whose polar grid was already set up kept the
periodic images of the earlier cube.
---
 magpie/densegrid/cube2shell.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 7721afc..4cc624c 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -32,6 +32,9 @@ class Cube2Shell:
         self.center = None
         self.rebin_shell = None
         self.rebin_r = None
+        self.periodicx = None
+        self.periodicy = None
+        self.periodicz = None
         self.centers = None
         self.rebin_redges = None
         self.rebin_rmid = None
@@ -67,6 +70,8 @@ class Cube2Shell:
         self.dy = self.yedges[1] - self.yedges[0]
         self.dz = self.zedges[1] - self.zedges[0]
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
+        if self.centers is not None:
+            self._get_centers()
 
 
     def setup_polar(self, rmin, rmax, numr, nside, center=[0., 0., 0.], rebin_shell=2,
@@ -107,18 +112,26 @@ class Cube2Shell:
         self.center = list(center)
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
-        centers = []
-        for i in range(periodicx[0], periodicx[1]+1):
-            for j in range(periodicy[0], periodicy[1]+1):
-                for k in range(periodicz[0], periodicz[1]+1):
-                    centers.append([center[0] + i*(self.xedges[-1]-self.xedges[0]),
-                                    center[1] + j*(self.yedges[-1]-self.yedges[0]),
-                                    center[2] + k*(self.zedges[-1]-self.zedges[0])])
-        self.centers = centers
+        self.periodicx = list(periodicx)
+        self.periodicy = list(periodicy)
+        self.periodicz = list(periodicz)
+        self._get_centers()
         self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
         self.rebin_rmid = 0.5*(self.rebin_redges[1:] + self.rebin_redges[:-1])
 
 
+    def _get_centers(self):
+        """Finds the centers of the periodic images for the current cube."""
+        centers = []
+        for i in range(self.periodicx[0], self.periodicx[1]+1):
+            for j in range(self.periodicy[0], self.periodicy[1]+1):
+                for k in range(self.periodicz[0], self.periodicz[1]+1):
+                    centers.append([self.center[0] + i*(self.xedges[-1]-self.xedges[0]),
+                                    self.center[1] + j*(self.yedges[-1]-self.yedges[0]),
+                                    self.center[2] + k*(self.zedges[-1]-self.zedges[0])])
+        self.centers = centers
+
+
     def remap(self, f, verbose=True):
         """Remaps 3d grid data f onto spherical polar coordinate grid.
 
-- 
2.43.0


From 5634199c1c9c55a8a5f91cc8f3845bfc09c94428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 52/52] fix: rebin_1d with edges of an unsigned integer type

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index b0d3089..399a32c 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -15,7 +15,7 @@ def _get_overlap(bin_edges, bin_min, bin_max):
     bin_max : float
         Maximum edge for the new bin.
     """
-    overlap = np.minimum(bin_edges[1:], bin_max) - np.maximum(bin_edges[:-1], bin_min)
+    overlap = 1.*np.minimum(bin_edges[1:], bin_max) - np.maximum(bin_edges[:-1], bin_min)
     return np.maximum(overlap, 0.)
 
 
-- 
2.43.0

