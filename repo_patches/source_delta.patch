From de982450e1b3cadd2fa80766bdfddcb9c93c6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 01/59] fix: cumulative trapezoid integral is shifted by one
 grid cell

cumtrapz skipped the first interval and read past the end, so the CDF grids of
PowerlawRedshift and BSplineDistribution (and the samples drawn through their
inverse) did not match their densities. Return the n-1 cumulative values, as
scipy does, and let the two users start their CDF grid at 0.
---
 gwinferno/numpyro_distributions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7b8a99a..7adf92a 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -19,9 +19,8 @@ from .models.bsplines.smoothing import apply_difference_prior
 
 def cumtrapz(y, x):
     difs = jnp.diff(x)
-    idxs = jnp.array([i for i in range(1, len(y))])
-    res = jnp.cumsum(vmap(lambda i, d: d * (y[i] + y[i + 1]) / 2.0)(idxs, difs))
-    return jnp.concatenate([jnp.array([0]), res])
+    idxs = jnp.arange(len(y) - 1)
+    return jnp.cumsum(vmap(lambda i, d: d * (y[i] + y[i + 1]) / 2.0)(idxs, difs))
 
 
 class Sine(Distribution):
@@ -173,7 +172,7 @@ class PowerlawRedshift(Distribution):
         self.pdfs = self.dVdc_ * (1 + self.zs) ** (lamb - 1)
         self.norm = trapezoid(self.pdfs, self.zs)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.zs)
+        self.cdfgrid = jnp.concatenate([jnp.zeros(1), cumtrapz(self.pdfs, self.zs)])
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
@@ -274,7 +273,7 @@ class BSplineDistribution(Distribution):
         self.pdfs = jnp.exp(self.lpdfs)
         self.norm = trapezoid(self.pdfs, self.grid)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.grid)
+        self.cdfgrid = jnp.concatenate([jnp.zeros(1), cumtrapz(self.pdfs, self.grid)])
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
-- 
2.43.0


From feb9d35f23e3350975367a9f4e1e831dc1d1edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 02/59] fix: normalize Sine and Cosine log_prob over [minimum,
 maximum]

---
 gwinferno/numpyro_distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7adf92a..e7de3d8 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -46,7 +46,7 @@ class Sine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.sin(value) / 2.0)
+        lp = jnp.log(jnp.sin(value) / (jnp.cos(self.minimum) - jnp.cos(self.maximum)))
         return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
 
     def cdf(self, value):
@@ -83,7 +83,7 @@ class Cosine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.cos(value) / 2.0)
+        lp = jnp.log(jnp.cos(value) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
         return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
 
     def cdf(self, value):
-- 
2.43.0


From d54409dfcb31518671eef586f9dd0eaced4e866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:59 +0000
Subject: [PATCH 03/59] fix: sign error in the PowerlawSmoothedPowerlaw
 normalization

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index e7de3d8..a39736b 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -219,7 +219,7 @@ class PowerlawSmoothedPowerlaw(Distribution):
         super(PowerlawSmoothedPowerlaw, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         gamma = (self.alpha_min + 1) / (self.minimum ** (self.alpha_min + 1) - self.low ** (self.alpha_min + 1))
         self.k1 = -gamma / (
-            1
+            -1
             + gamma
             / (self.alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
-- 
2.43.0


From d5c1594f8fb1f2c6be03c36639ae15c06289aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:25 +0000
Subject: [PATCH 04/59] fix: smooth() applied the taper outside its window

The window condition joined its two bounds with 'or', so it was always true:
the taper fell back to 1/2 far above xmin and was nonzero below it.
---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 40db691..f89782b 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -17,7 +17,7 @@ def smooth(dx, x, xmin):
 
     func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
     s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) | jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
     return s2
 
 
-- 
2.43.0


From 3741efd4f76122013d29e0376528594a4331a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:30 +0000
Subject: [PATCH 05/59] fix: betadist is NaN at the edges of its support when a
 shape parameter is 1

---
 gwinferno/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index f89782b..86558c3 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import xlogy
 
 """
 =============================================
@@ -157,6 +158,6 @@ def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
     Returns:
         array_like: pdf evaluated at xx
     """
-    ln_beta = (alpha - 1) * jnp.log(xx) + (beta - 1) * jnp.log(scale - xx) - (alpha + beta - 1) * jnp.log(scale)
+    ln_beta = xlogy(alpha - 1, xx) + xlogy(beta - 1, scale - xx) - (alpha + beta - 1) * jnp.log(scale)
     ln_beta = ln_beta - betaln(alpha, beta)
     return jnp.where(jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0), jnp.exp(ln_beta), floor)
-- 
2.43.0


From d028ff61ca7fb01bc9a9f5d2113312714bd74646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:31 +0000
Subject: [PATCH 06/59] fix: natural boundary condition at the right end of the
 cubic spline

The last row of the linear system set the final second derivative equal to the
previous one instead of zero.
---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index aab3c38..055cf53 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -28,7 +28,7 @@ class NaturalCubicUnivariateSpline(object):
             assert n_data > 3, "Not enough input points for cubic spline."
             zero = jnp.array([0.0])
             one = jnp.array([1.0])
-            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, (-one), zero
+            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, zero, zero
             A = jnp.diag(jnp.concatenate((A00, 2 * (h[:-1] + h[1:]), ANN)))
             upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)
             upper_diag2 = jnp.diag(jnp.concatenate((A02, jnp.zeros(n_data - 3))), k=2)
-- 
2.43.0


From 6a334db7dace997598a0b6e1d8a0e9446ff01abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:36 +0000
Subject: [PATCH 07/59] fix: pytree registration of
 NaturalCubicUnivariateSpline

tree_flatten/tree_unflatten did not follow the JAX protocol, so passing the
spline through jit, grad or tree_map raised.
---
 gwinferno/interpolation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 055cf53..86fa4d6 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -43,12 +43,14 @@ class NaturalCubicUnivariateSpline(object):
 
     def tree_flatten(self):
         children = (self._x, self._y, self._coefficients)
-        return children
+        return children, None
 
     @classmethod
-    def tree_unflatten(cls, children):
-        x, y, coefs = children
-        return cls(x, y, coefs)
+    def tree_unflatten(cls, aux_data, children):
+        obj = object.__new__(cls)
+        obj.k = 3
+        obj._x, obj._y, obj._coefficients = children
+        return obj
 
     def __call__(self, x):
         t, a, b, c, d = self._compute_coeffs(x)
-- 
2.43.0


From 91638360e19693a3b9bda49f23811179d48c10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 08/59] fix: honour the interior_knots given to a basis spline

The knot vector was always rebuilt as a uniform grid from the first knot
spacing, so non-uniform interior knots were silently ignored and the basis did
not span the domain.
---
 gwinferno/interpolation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 86fa4d6..d86175c 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -100,8 +100,16 @@ class BasisSpline(object):
         if knots is None:
             if interior_knots is None:
                 interior_knots = np.linspace(xrange[0], xrange[1], n_df - k + 2)
-            dx = interior_knots[1] - interior_knots[0]
-            knots = jnp.linspace(xrange[0] - dx * (k - 1), xrange[1] + dx * (k - 1), len(interior_knots) + (k - 1) * 2)
+            interior_knots = np.asarray(interior_knots)
+            dx_low = interior_knots[1] - interior_knots[0]
+            dx_high = interior_knots[-1] - interior_knots[-2]
+            knots = jnp.concatenate(
+                [
+                    interior_knots[0] - dx_low * np.arange(1, k)[::-1],
+                    interior_knots,
+                    interior_knots[-1] + dx_high * np.arange(1, k),
+                ]
+            )
 
         self.knots = knots
         self.interior_knots = interior_knots
-- 
2.43.0


From a229238b879ed7ff4c6046aecdc5cb9a4cd5115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:31 +0000
Subject: [PATCH 09/59] fix: RectBivariateBasisSpline.bases raised and
 scrambled the two axes

---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index d86175c..bcc8c14 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -529,10 +529,10 @@ class RectBivariateBasisSpline(object):
         """
         self.x_bases = self.x_interpolator.bases(xs)
         self.y_bases = self.y_interpolator.bases(ys)
-        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for i in range(self.xdf)] for j in range(self.ydf)]).reshape(
+        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(
             self.xdf, self.ydf, *xs.shape
         )
-        self.reset_bases()
+        self._reset_bases()
         return out
 
     def _project(self, bases, coefs):
-- 
2.43.0


From 637f6354350d06b8019c76875b6c87ad0479060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 10/59] fix: normalize BSplineRedshift with the same spline it
 evaluates

The default basis is normalized when it is evaluated at the samples but the
normalization integral used the raw coefficients, so the density did not
integrate to one.
---
 gwinferno/models/bsplines/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/bsplines/single.py b/gwinferno/models/bsplines/single.py
index 0a58119..bea31c5 100644
--- a/gwinferno/models/bsplines/single.py
+++ b/gwinferno/models/bsplines/single.py
@@ -464,7 +464,7 @@ class BSplineRedshift(Base1DBSplineModel):
             The redshift normalization constant.
         """
         return trapezoid(
-            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(jnp.einsum("i...,i->...", self.grid_bases, cs)),
+            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(self.eval_spline(self.grid_bases, cs)),
             self.zgrid,
         )
 
-- 
2.43.0


From bee5f55aefc8371148e02220952c5ba6342eadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:09 +0000
Subject: [PATCH 11/59] fix: PowerlawBasisSplinePrimaryRatio could not be
 constructed or normalized

The constructor read an attribute that does not exist, and the normalization
was infinite because of the single grid point where the mass ratio range has
zero width.
---
 gwinferno/models/spline_perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 7c804e3..be446cb 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -217,7 +217,6 @@ class PowerlawBasisSplinePrimaryRatio(object):
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
         self.qdmats = [self.qinj_design_matrix, self.qpe_design_matrix]
-        self.qshapes = [(self.qknots, 1), (self.qknots, 1, 1)]
         self.norm_design_matrix = jnp.array(self.interpolator.bases(np.log(self.mm)))
         self.qnorm_design_matrix = jnp.array(self.qinterpolator.bases(self.qq))
 
@@ -258,6 +257,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
         p_m = powerlaw_pdf(self.mm, alpha=-alpha, low=mmin, high=mmax)
         perturbation = jnp.exp(self.interpolator.project(self.norm_design_matrix, cs))
         p_q = powerlaw_pdf(self.qq, alpha=beta, low=mmin / self.mm, high=1)
+        p_q = jnp.where(jnp.isfinite(p_q), p_q, 0.0)  # zero-width mass ratio range at m1 = mmin
         qperturbation = jnp.exp(self.qinterpolator.project(self.qnorm_design_matrix, vs))
         p_mq = p_m * perturbation * p_q * qperturbation
         return trapezoid(trapezoid(p_mq, self.qs, axis=0), self.ms)
-- 
2.43.0


From 8ab394318b1c258e3c192f0339e7251c5ceec68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:09 +0000
Subject: [PATCH 12/59] fix: Cosmology.DL2z raised TypeError beyond the
 tabulated distances

---
 gwinferno/cosmology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index b6c9eba..5736de8 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -124,8 +124,8 @@ class Cosmology(object):
         returns redshifts for each DL specified.
         """
         max_DL = jnp.max(DL)
-        if max_DL > jnp.max(self.DL):  # need to extend the integration
-            self.extend(max_DL=max_DL, dz=dz)
+        while max_DL > jnp.max(self.DL):  # need to extend the integration
+            self.extend(max_z=2 * jnp.max(self.z), dz=dz)
         return jnp.interp(DL, self.DL, self.z)
 
     def z2DL(self, z, dz=DEFAULT_DZ):
-- 
2.43.0


From d62054f1045f1fad70192bab7efcda1e4510c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:36 +0000
Subject: [PATCH 13/59] fix: the cosmology table stops short of the redshift it
 is extended to

Distances queried beyond the table were clamped to the last grid point below
the requested redshift.
---
 gwinferno/cosmology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index 5736de8..511e1f0 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -67,7 +67,7 @@ class Cosmology(object):
         integrate to solve for distance measures.
         """
 
-        self.z = jnp.arange(0, max_z, dz)
+        self.z = jnp.arange(0, max_z + dz, dz)  # reach max_z itself
         Dc = jnp.zeros_like(self.z)
         Vc = jnp.zeros_like(self.z)
 
-- 
2.43.0


From fc058810b9af3afb287ec8bb24a97b4af236d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:14 +0000
Subject: [PATCH 14/59] fix: detection_efficiency(log=True) over- and
 underflows

The variance of the log-space estimate was computed from exponentiated weights,
so shifting all log weights by a constant turned it into NaN or inf.
---
 gwinferno/pipeline/analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 54f1a11..560d2e0 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -123,10 +123,10 @@ def detection_efficiency(weights, Ninj, log=False):
     """
     if log:
         logweights = weights
-        logmu = logsumexp(logweights) - jnp.log(Ninj)
-        mu = jnp.exp(logmu)
-        var = jnp.sum(jnp.exp(logweights) ** 2) / Ninj**2 - mu**2 / Ninj
-        logn_eff = 2 * logmu - jnp.log(var)
+        logsum = logsumexp(logweights)
+        logmu = logsum - jnp.log(Ninj)
+        logess = 2 * logsum - logsumexp(2 * logweights)
+        logn_eff = logess - jnp.log1p(-jnp.exp(logess) / Ninj)
     else:
         mu = jnp.sum(weights) / Ninj
         var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
-- 
2.43.0


From 06c99d06bbba92a8d67f5d5eb4122e88bf791620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:14 +0000
Subject: [PATCH 15/59] fix: categorical likelihood ignored every subpopulation
 after the second

---
 gwinferno/pipeline/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 560d2e0..59a593d 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -250,7 +250,9 @@ def hierarchical_likelihood(
                 dist.Categorical(probs=jnp.array(pop_frac)),
                 rng_key=rngkey,
             ).reshape((-1, 1))
-            mix_pe_weights = jnp.where(Qs[i] == 0, pe_weights[0][i], pe_weights[1][i])
+            mix_pe_weights = pe_weights[0][i]
+            for subpop in range(1, len(pe_weights)):
+                mix_pe_weights = jnp.where(Qs[i] == subpop, pe_weights[subpop][i], mix_pe_weights)
             logBFs, logn_effs, variances = per_event_log_bayes_factors(mix_pe_weights, log=log)
     else:
 
-- 
2.43.0


From 14f4d9b93e0fd6523abb609f341ab95a05b2e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 16/59] fix: config-built models could not construct their
 redshift model

The redshift distribution needs its redshift grid and the comoving volume
element on it; the model passed a single argument that it does not accept.
---
 gwinferno/pipeline/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 59a593d..a87efbc 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -15,6 +15,7 @@ from numpyro.infer import Trace_ELBO
 from numpyro.infer import autoguide
 from numpyro.optim import Adam
 
+from ..cosmology import PLANCK_2015_LVK_Cosmology as Planck15
 from .parser import PopMixtureModel
 from .parser import PopModel
 
@@ -372,6 +373,7 @@ def construct_hierarchical_model(
 
     if "redshift" in pop_models.keys():
         z_grid = jnp.linspace(1e-9, prior_dict["redshift_maximum"], 1000)
+        dVcdz_grid = Planck15.dVcdz(z_grid)
 
     def model(samps, injs, Ninj, Nobs, Tobs):
         for k, v in prior_dict.items():
@@ -391,7 +393,8 @@ def construct_hierarchical_model(
             elif isinstance(v, PopModel):
                 hps = {p: hyper_params[f"{k}_{p}"] for p in v.params}
                 if k == "redshift":
-                    hps["grid"] = z_grid
+                    hps["zgrid"] = z_grid
+                    hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
                 iid_mapping[v] = k
-- 
2.43.0


From fa426f20db387fb7490f38ff243c5aba06b5186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 17/59] fix: parameters declared iid in a config overwrote the
 model they share

The mapping was inverted, so the shared model was replaced by None.
---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index a87efbc..f30dc61 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -397,7 +397,7 @@ def construct_hierarchical_model(
                     hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
-                iid_mapping[v] = k
+                iid_mapping[k] = v
             else:
                 raise ValueError(f"Unknown model type: {type(v)}:{v}")
         for shared_param, param in iid_mapping.items():
-- 
2.43.0


From 8e6db1388e57ba4d2d6a3d22e7aece1f6c5ab1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 18/59] fix: config-built models without a redshift model
 raised KeyError

The merger rate can only be reconstructed with a redshift model; skip it when
the configuration has none.
---
 gwinferno/pipeline/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index f30dc61..dfcd52b 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -412,7 +412,8 @@ def construct_hierarchical_model(
             total_inj=Ninj,
             Nobs=Nobs,
             Tobs=Tobs,
-            surveyed_hypervolume=pop_models["redshift"].norm,
+            surveyed_hypervolume=pop_models["redshift"].norm if "redshift" in pop_models else None,
+            reconstruct_rate="redshift" in pop_models,
             marginalize_selection=marginalize_selection,
             min_neff_cut=min_neff_cut,
             max_variance_cut=max_variance_cut,
-- 
2.43.0


From 9169d6d2d96d76190b64e8972506d9c8ebe14548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 19/59] fix: iid entry of a mixture model in a config was
 ignored

It was looked up inside the last component instead of next to the mixture's
other entries, where every other model has it.
---
 gwinferno/pipeline/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 62520af..d543a6f 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -114,8 +114,8 @@ class ConfigReader(object):
             for hp in subd[name]["hyper_params"]:
                 self.add_prior(f"{param}_component_{i + 1}_{hp}", subd[name]["hyper_params"][hp])
         self.models[param] = PopMixtureModel(model, mix_dist, mix_params, components, component_params)
-        if "iid" in subd[name]:
-            self.add_iid_model(param, subd[name]["iid"]["shared_parameter"])
+        if "iid" in subd:
+            self.add_iid_model(param, subd["iid"]["shared_parameter"])
 
 
 def load_base_parser():
-- 
2.43.0


From ff590110850cc89040633b8baac34228e43d07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 20/59] fix: load a python model from the file that was asked
 for

The file was imported by its base name through sys.path, so a second file with
the same name (or one shadowed by an installed module) returned the wrong
model, and a bare file name could not be loaded.
---
 gwinferno/pipeline/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index d543a6f..db576d0 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -2,9 +2,12 @@
 a module that stores tools for parsing CLI arguments and config files for analysis pipelines
 """
 
+import os
 import sys
 from argparse import ArgumentParser
 from importlib import import_module
+from importlib.util import module_from_spec
+from importlib.util import spec_from_file_location
 
 import jax.numpy as jnp
 import yaml
@@ -32,10 +35,13 @@ class PopMixtureModel(PopModel):
 
 
 def load_model_from_python_file(path):
-    fn = path.split("/")[-1]
-    direct = path.replace(f"/{fn}", "")
+    path = os.path.abspath(path)
+    direct, fn = os.path.split(path)
     sys.path.append(direct)
-    return getattr(import_module(fn.replace(".py", "")), "model")
+    spec = spec_from_file_location(os.path.splitext(fn)[0], path)
+    module = module_from_spec(spec)
+    spec.loader.exec_module(module)
+    return module.model
 
 
 def load_dist_from_string(dist):
-- 
2.43.0


From ea19c910bdabaacbaa693dc6dadd98b9e431ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 21/59] fix: parse the numbers of splines on the command line
 as integers

---
 gwinferno/pipeline/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index d0bc56f..df5fe01 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -26,11 +26,11 @@ def load_base_parser():
     )
     parser.add_argument("--run-label", type=str)
     parser.add_argument("--result-dir", type=str)
-    parser.add_argument("--m-nsplines", type=str, default=50)
-    parser.add_argument("--q-nsplines", type=str, default=30)
-    parser.add_argument("--a-nsplines", type=str, default=16)
-    parser.add_argument("--tilt-nsplines", type=str, default=16)
-    parser.add_argument("--z-nsplines", type=str, default=20)
+    parser.add_argument("--m-nsplines", type=int, default=50)
+    parser.add_argument("--q-nsplines", type=int, default=30)
+    parser.add_argument("--a-nsplines", type=int, default=16)
+    parser.add_argument("--tilt-nsplines", type=int, default=16)
+    parser.add_argument("--z-nsplines", type=int, default=20)
     parser.add_argument("--mmin", type=float, default=3.0)
     parser.add_argument("--mmax", type=float, default=100.0)
     parser.add_argument("--chains", type=int, default=1)
-- 
2.43.0


From b270eda8b70e9b8be146b8ca2f1d23a03206153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 22/59] fix: --save-plots False was parsed as True

---
 gwinferno/pipeline/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index df5fe01..4165e08 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -39,7 +39,7 @@ def load_base_parser():
     parser.add_argument("--warmup", type=int, default=1000)
     parser.add_argument("--skip-inference", action="store_true", default=False)
     parser.add_argument("--rngkey", type=int, default=1)
-    parser.add_argument("--save-plots", type=bool, default=True)
+    parser.add_argument("--save-plots", type=lambda arg: arg.lower() not in ("", "false", "no", "0"), default=True)
     return parser
 
 
-- 
2.43.0


From 7c836e350b53956d956e72883350751a87850bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:54 +0000
Subject: [PATCH 23/59] fix: number of observations did not account for ignored
 events

---
 gwinferno/pipeline/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 4165e08..0e10a2e 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -89,7 +89,7 @@ def load_pe_and_injections_as_dict(file, ignore=None):
 
     total_inj = data.inj_data.attrs["total_generated"]
     obs_time = data.inj_data.attrs["analysis_time"]
-    nObs = data.pe_data.posteriors.shape[0]
+    nObs = pedict[param_names[0]].shape[0]
 
     constants = {"total_inj": total_inj, "obs_time": obs_time, "nObs": nObs}
 
-- 
2.43.0


From 4139a2dc3b672fee3abef94b64861dedfbd5136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:54 +0000
Subject: [PATCH 24/59] fix: pdf_dict_to_xarray dropped the redshift pdfs of
 multi-population runs

The merged dictionary was discarded, and the entry was deleted from the
caller's dictionary, so the redshift pdfs were lost altogether.
---
 gwinferno/pipeline/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 0e10a2e..43b49ff 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -236,10 +236,9 @@ def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
         xr_dict = xr_dict | pdfs
     else:
         z = {"redshift_pdfs": (["draw", "redshift"], pdf_dict["redshift"])}
-        xr_dict | z
-        del pdf_dict["redshift"]
+        xr_dict = xr_dict | z
         for i, nm in enumerate(subpop_names):
-            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items()}
+            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items() if key != "redshift"}
             xr_dict = xr_dict | single
 
     coords = {key: ([key], item) for key, item in param_dict.items()}
-- 
2.43.0


From 4f0ac621cbac75781268c9cfdedef178cddc2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:25 +0000
Subject: [PATCH 25/59] fix: posterior_dict_to_xarray replaced the arrays in
 the caller's dictionary

---
 gwinferno/pipeline/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 43b49ff..885a28b 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -218,15 +218,16 @@ def bspline_redshift_prior(z_nsplines=None, z_tau=None, name=None, z_cs_sig=1, z
 
 def posterior_dict_to_xarray(posteriors):
 
+    xr_dict = {}
     for key in posteriors.keys():
         n_samples = posteriors[key].shape[0]
-        posteriors[key] = {"dims": "draw", "data": posteriors[key]}
+        xr_dict[key] = {"dims": "draw", "data": posteriors[key]}
 
-        if posteriors[key]["data"].shape != (n_samples,):
-            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key]["data"].shape) - 1)]
-            posteriors[key]["dims"] = new_dims
+        if xr_dict[key]["data"].shape != (n_samples,):
+            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(xr_dict[key]["data"].shape) - 1)]
+            xr_dict[key]["dims"] = new_dims
 
-    return xr.Dataset.from_dict(posteriors)
+    return xr.Dataset.from_dict(xr_dict)
 
 
 def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
-- 
2.43.0


From 7bfdb52f4e018be845220fe98ae4964d260886db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:25 +0000
Subject: [PATCH 26/59] fix: alpha_beta_from_mu_var rescaled the caller's
 arrays in place

---
 gwinferno/preprocess/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/conversions.py b/gwinferno/preprocess/conversions.py
index ca97a57..d86ecb5 100644
--- a/gwinferno/preprocess/conversions.py
+++ b/gwinferno/preprocess/conversions.py
@@ -103,8 +103,8 @@ def alpha_beta_from_mu_var(mu, var, xmax=1):
         Tuple of arrays with shape matching inputs that represent the
         α, β shape parameters corresponding to the desired means and variances.
     """
-    mu /= xmax
-    var /= xmax**2
+    mu = mu / xmax
+    var = var / xmax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta
-- 
2.43.0


From 10e7e38dfa644b85d8bf224f14c580ac585ee49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:25 +0000
Subject: [PATCH 27/59] fix: aligned-spin injection files could not be loaded

The zeros standing in for missing in-plane spin components had the number of
found injections but were then masked with the full found array.
---
 gwinferno/preprocess/selection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index d2f30ec..14b4f51 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -96,7 +96,6 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if additional_cuts is not None:
             for k in additional_cuts.keys():
                 found = found | (data[k][()] >= additional_cuts[k])
-        n_found = sum(found)
         injs = dict(
             mass_1=data["mass1_source"][()][found],
             mass_2=data["mass2_source"][()][found],
@@ -118,8 +117,8 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if ("a_1" in param_names) | ("chi_eff" in param_names):
             for ii in [1, 2]:
                 injs[f"a_{ii}"] = (
-                    data.get(f"spin{ii}x", np.zeros(n_found))[()][found] ** 2
-                    + data.get(f"spin{ii}y", np.zeros(n_found))[()][found] ** 2
+                    data.get(f"spin{ii}x", np.zeros(found.shape))[()][found] ** 2
+                    + data.get(f"spin{ii}y", np.zeros(found.shape))[()][found] ** 2
                     + data[f"spin{ii}z"][()][found] ** 2
                 ) ** 0.5
                 injs[f"cos_tilt_{ii}"] = data[f"spin{ii}z"][()][found] / injs[f"a_{ii}"]
-- 
2.43.0


From 887d2cfa35ba3516b942624c5165241d5c35bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 28/59] fix: isotropic chi_eff prior with an array of mass
 ratios

A point on the boundary between two cases raised unless q was a scalar, and a
scalar chi_eff with an array of mass ratios was not broadcast.
---
 gwinferno/preprocess/priors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index b53d987..608629d 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -95,7 +95,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
         Prior density at given effective spin value(s).
     """
     # Ensure that `chi_eff` is an array and take absolute value
-    chi_eff = np.abs(np.atleast_1d(chi_eff))
+    chi_eff, q = np.broadcast_arrays(np.abs(np.atleast_1d(chi_eff)), q)
 
     # Set up various piecewise cases
     # pdfs = np.ones(chi_eff.size, dtype=complex) * (-1.0)
@@ -179,12 +179,12 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
         caseF_pdfs = 0.0
 
     # Deal with spins on the boundary between cases
-    fallback = np.zeros_like(chi_eff)
+    fallback = np.zeros(chi_eff.shape)
     boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
     if np.any(boundaries):
         fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q, a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q, a_max=a_max)
+            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q[boundaries], a_max=a_max)
         )
 
     pdfs = np.select(
-- 
2.43.0


From dd6d1f6e841437a4fbea2db11f1e4d00d61ea07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 29/59] fix: isotropic chi_eff prior is NaN where the
 secondary's range ends

chi_eff = q a_max / (1 + q) was assigned to a case whose expression is singular
there; leave it to the average of its two sides, like the other boundaries.
---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 608629d..8b17137 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -103,7 +103,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     caseA = (chi_eff > 0) * (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
     caseB = (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseC = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
-    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff >= q * a_max / (1.0 + q))
+    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseE = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > a_max / (1.0 + q)) * (chi_eff < a_max)
     caseF = chi_eff >= a_max
 
-- 
2.43.0


From 071712914d7f84af9a41b5f41ae54e116319b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:58 +0000
Subject: [PATCH 30/59] fix: maximum chi_p at fixed chi_eff ignored the maximum
 spin magnitude

For a_max < 1 the range of the conditional chi_p prior was wrong, and NaN for
large chi_eff.
---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 8b17137..308fac4 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -317,7 +317,7 @@ def chi_p_prior_given_chi_eff_q(chi_p, chi_eff, q, a_max=1.0, ndraws=10000, bw_m
     if (1.0 + q) * np.abs(chi_eff) / q < a_max:
         max_chi_p = a_max
     else:
-        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q) ** 2.0)
+        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q * a_max) ** 2.0)
 
     # Set up a grid slightly inside (0,max chi_p) and evaluate KDE
     reference_grid = np.linspace(0.05 * max_chi_p, 0.95 * max_chi_p, 50)
-- 
2.43.0


From 6a50db89112283f2edcf96dab4a676d75995552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:58 +0000
Subject: [PATCH 31/59] fix: posterior samples could not be converted to chi_p

---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 588d3b2..758ee4e 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -339,7 +339,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
         if chip:
             chip_array = xr.DataArray(
-                chi_p.reshape(1, chi_p.shape[0]),
+                chi_p.reshape(chi_p.shape[0], 1, chi_p.shape[1]),
                 dims=["event", "param", "samples"],
                 coords={"event": dat_array.event, "param": ["chi_p"], "samples": dat_array.samples},
             )
-- 
2.43.0


From 1a18927d564f8f80b787b80d44d76b1fef1bfedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:19 +0000
Subject: [PATCH 32/59] fix: prior density of samples converted to effective
 spins

The component-spin prior has to be divided by the density of the component
spins themselves (uniform and isotropic) before the conditional prior of the
effective spins is applied. The code divided by the Jacobian of Cartesian spin
components instead, which left a factor 1/(a_1 a_2)^2 in every weight.
---
 gwinferno/preprocess/data_collection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 758ee4e..c917ee6 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -128,7 +128,7 @@ def append_prior_to_processed_catalog(catalog_dataset, param_names):
             prior *= (1 + catalog_dataset[ev].sel(param="redshift").values) ** 2  # flat detector components
         if "mass_ratio" in param_names:
             prior *= catalog_dataset[ev].sel(param="mass_1").values
-        if "a_1" in param_names:
+        if ("a_1" in param_names) | ("chi_eff" in param_names):
             prior *= 1 / 4
         priors = priors.at[i].set(prior)
 
@@ -217,6 +217,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
     tilt_1 = dat_array.sel(param="cos_tilt_1").values
     tilt_2 = dat_array.sel(param="cos_tilt_2").values
     prior = dat_array.sel(param="prior").values
+    isotropic_spin_prior = 1 / 4  # density of uniform magnitudes and isotropic tilts in (a_1, a_2, cos_tilt_1, cos_tilt_2)
 
     chi_eff = chieff_from_q_component_spins(
         q,
@@ -241,7 +242,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
             if chip:
                 new_prior[ii] = (
                     prior[ii]
-                    / ((2 * jnp.pi * a_1[ii] ** 2) * (2 * jnp.pi * a_2[ii] ** 2))
+                    / isotropic_spin_prior
                     * jnp.asarray(
                         joint_prior_from_isotropic_spins(
                             np.array(chi_p[ii]),
@@ -255,7 +256,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
                 new_prior[ii] = (
                     prior[ii]
-                    / ((2 * jnp.pi * a_1[ii] ** 2) * (2 * jnp.pi * a_2[ii] ** 2))
+                    / isotropic_spin_prior
                     * jnp.asarray(
                         chi_effective_prior_from_isotropic_spins(
                             np.asarray(chi_eff[ii]),
@@ -272,7 +273,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                 if chip:
                     new_prior[ii][jj] = (
                         prior[ii][jj]
-                        / ((2 * jnp.pi * a_1[ii][jj] ** 2) * (2 * jnp.pi * a_2[ii][jj] ** 2))
+                        / isotropic_spin_prior
                         * jnp.asarray(
                             joint_prior_from_isotropic_spins(
                                 np.array(chi_p[ii][jj]),
@@ -285,7 +286,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                 else:
                     new_prior[ii][jj] = (
                         prior[ii][jj]
-                        / ((2 * jnp.pi * a_1[ii][jj] ** 2) * (2 * jnp.pi * a_2[ii][jj] ** 2))
+                        / isotropic_spin_prior
                         * jnp.asarray(
                             chi_effective_prior_from_isotropic_spins(
                                 chi_eff[ii][jj],
-- 
2.43.0


From 0a47d64ed91a30efcc74aa96210e64d52983f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:53 +0000
Subject: [PATCH 33/59] fix: powerlaw_pdf raised ZeroDivisionError for a float
 index of -1

---
 gwinferno/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 86558c3..da3d851 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -110,10 +110,11 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
         floor (float, optional): lower bound of pdf (Defaults to 0.0)
     """
     prob = jnp.power(xx, alpha)
+    index = jnp.asarray(1.0 + alpha)  # a python float of -1 would raise ZeroDivisionError below
     norm = jnp.where(
         alpha == -1,
         1 / jnp.log(high / low),
-        (1 + alpha) / (high ** (1 + alpha) - low ** (1 + alpha)),
+        index / (high**index - low**index),
     )
     prob *= norm
 
-- 
2.43.0


From 8e146858499be805ab48418609a54ba52201a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 34/59] fix: numpyro Powerlaw with index -1 was normalized by
 log instead of log log

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index a39736b..765c151 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -127,7 +127,7 @@ class Powerlaw(Distribution):
     def log_prob(self, value):
         logp = self.alpha * jnp.log(value)
         logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(self.maximum / self.minimum)
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
-- 
2.43.0


From 20661d4d6e15c33b94e29680daef917cc1e8a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 35/59] fix: numpyro Powerlaw raised ZeroDivisionError with its
 default minimum or a float index of -1

---
 gwinferno/numpyro_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 765c151..58a1784 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -106,7 +106,8 @@ class Powerlaw(Distribution):
     reparametrized_params = ["minimum", "maximum", "alpha"]
 
     def __init__(self, alpha, minimum=0.0, maximum=1.0, low=0.0, high=1.0, validate_args=None):
-        self.minimum, self.maximum, self.alpha = promote_shapes(minimum, maximum, alpha)
+        # as arrays: with python floats the branches for alpha = -1 or minimum = 0 raise ZeroDivisionError
+        self.minimum, self.maximum, self.alpha = promote_shapes(jnp.asarray(minimum), jnp.asarray(maximum), jnp.asarray(alpha))
         self._support = constraints.interval(low, high)
         batch_shape = broadcast_shapes(
             jnp.shape(minimum),
-- 
2.43.0


From ddc21ac1b0dad2712aa11667af76fabb05ebae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:36 +0000
Subject: [PATCH 36/59] fix: BasisSpline.project rescaled the caller's
 coefficients in place

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index bcc8c14..a983ae7 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -213,7 +213,7 @@ class BasisSpline(object):
         Returns:
             array_like: The linear combination of the basis components given the coefficients
         """
-        coefs /= jnp.sum(coefs)
+        coefs = coefs / jnp.sum(coefs)
         return jnp.einsum("i...,i->...", bases, coefs) * self.norm(coefs)
 
     def eval(self, xs, coefs):
-- 
2.43.0


From 7fe65f989af2923a33cec27aaab5bd4aca92545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 37/59] fix: detection efficiency effective sample size
 overflowed for integer numbers of injections above 46340

---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index dfcd52b..147e27b 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -130,7 +130,7 @@ def detection_efficiency(weights, Ninj, log=False):
         logn_eff = logess - jnp.log1p(-jnp.exp(logess) / Ninj)
     else:
         mu = jnp.sum(weights) / Ninj
-        var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
+        var = jnp.sum((weights / Ninj) ** 2) - mu**2 / Ninj
         logmu = jnp.log(mu)
         logn_eff = 2 * logmu - jnp.log(var)
     variance = 1 / jnp.exp(logn_eff) - 1 / Ninj
-- 
2.43.0


From 5397fba929383e0864eed186ffee3fa41c4ce6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:32 +0000
Subject: [PATCH 38/59] fix: samples and injections could not be converted to
 chi_p

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index c917ee6..b23819d 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -250,7 +250,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                             np.array(q[ii]),
                             a_max=1.0,
                         )
-                    )
+                    )[0]
                 )
             else:
 
@@ -281,7 +281,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                                 np.array(q[ii][jj]),
                                 a_max=1.0,
                             )
-                        )
+                        )[0]
                     )
                 else:
                     new_prior[ii][jj] = (
-- 
2.43.0


From 5b7e3c57c2fd8c8b1e20674b334e8606e4627b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:32 +0000
Subject: [PATCH 39/59] fix: resample_injections overflowed for integer numbers
 of draws above 46340

---
 gwinferno/preprocess/selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index 14b4f51..18e74f3 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -150,6 +150,6 @@ def resample_injections(rng_key, model_prob, injdata, Ndraw, param_map, **kwargs
     injdata_new = injdata.at[:, idxs].get()
     p_new = model_prob(injdata_new, **kwargs) / norm
     injdata_new = injdata_new.at[param_map["prior"], :].set(p_new)
-    s2_new = jnp.sum(wts * wts) / (Ndraw * Ndraw) - norm * norm / Ndraw
+    s2_new = jnp.sum(wts * wts) / Ndraw / Ndraw - norm * norm / Ndraw
     Neff_new = norm * norm / s2_new
     return (injdata_new, N, Neff_new)
-- 
2.43.0


From a999ee0d2038614f76c914acd76409b6f4d035c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:52 +0000
Subject: [PATCH 40/59] fix: power law plus peak distributions were NaN for
 some lower masses

With a negative mass ratio index, rounding in mmin / M let the singular corner
m1 = mmin, q = 1 of the grid through the mask, so one infinite cell made the
whole draw's normalization infinite and the curve zero or NaN.
---
 gwinferno/postprocess/calculations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/postprocess/calculations.py b/gwinferno/postprocess/calculations.py
index 939982c..7fa05a5 100644
--- a/gwinferno/postprocess/calculations.py
+++ b/gwinferno/postprocess/calculations.py
@@ -76,7 +76,8 @@ def calculate_powerlaw_peak_mass_ppds(alpha, beta, mu_peak, sig_peak, lamb, mmin
 
     def calc_pdf(a, b, mp, sigp, lam, r, frac):
         p_MQ = plpeak_primary_ratio_pdf(M, Q, a, b, mmin, mmax, mp, sigp, lam)
-        p_mq = jnp.where(jnp.greater(Q, mmin / M), p_MQ, 0.0)
+        # at m1 = mmin the mass ratio has no room left: rounding in mmin / M must not let its singular density in
+        p_mq = jnp.where(jnp.greater(Q, mmin / M) & jnp.greater(M, mmin), p_MQ, 0.0)
         p_m = trapezoid(p_mq, qs, axis=0)
         p_q = trapezoid(p_mq, ms, axis=1)
         P_m = r * p_m * frac / trapezoid(p_m, ms)
-- 
2.43.0


From 46f18f702e69a66a190f5269709dfc3cd7966bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:58 +0000
Subject: [PATCH 41/59] fix: gradient of the low-mass taper is NaN for samples
 next to its window

exp() of the taper overflows just above xmin and next to xmin + dx, where the
derivative jnp.where should ignore becomes inf * 0.
---
 gwinferno/distributions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index da3d851..03e9d34 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import expit
 from jax.scipy.special import xlogy
 
 """
@@ -16,9 +17,13 @@ This file contains some functions copied from https://github.com/ColmTalbot/gwpo
 
 def smooth(dx, x, xmin):
 
-    func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
-    s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    delta = x - xmin
+    s1 = jnp.where(jnp.less(delta, 0) | (jnp.equal(delta, 0) & jnp.greater(dx, 0)), 0, 1)
+    window = jnp.less(delta, dx) & jnp.greater(delta, 0)
+    # stay away from the poles at the edges of the window, whose derivatives jnp.where does not discard
+    delta = jnp.where(window, delta, 0.5)
+    width = jnp.where(window, dx, 1.0)
+    s2 = jnp.where(window, expit(-(width / delta + width / (delta - width))), s1)
     return s2
 
 
-- 
2.43.0


From 8d9e347f5c92927c8a41722ba36c92eaa540de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:58 +0000
Subject: [PATCH 42/59] fix: gradient of betadist is NaN for samples outside of
 its support

---
 gwinferno/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 03e9d34..210eab0 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -164,6 +164,8 @@ def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
     Returns:
         array_like: pdf evaluated at xx
     """
+    support = jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0)
+    xx = jnp.where(support, xx, 0.5 * scale)  # jnp.where below does not discard the NaN derivatives of points outside
     ln_beta = xlogy(alpha - 1, xx) + xlogy(beta - 1, scale - xx) - (alpha + beta - 1) * jnp.log(scale)
     ln_beta = ln_beta - betaln(alpha, beta)
-    return jnp.where(jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0), jnp.exp(ln_beta), floor)
+    return jnp.where(support, jnp.exp(ln_beta), floor)
-- 
2.43.0


From 43f6a500145b304f41a7a96241b289a4e01b3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:42 +0000
Subject: [PATCH 43/59] fix: gradient of the logistic truncations is NaN where
 they saturate

---
 gwinferno/distributions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 210eab0..499bc85 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -3,6 +3,7 @@ a module for basic distribution pdf calculations with jax
 """
 
 import jax.numpy as jnp
+from jax.nn import log_sigmoid
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
 from jax.scipy.special import expit
@@ -40,7 +41,7 @@ def logistic_function(x, L, k, x0):
     Returns:
         array_like: logistic function evaluated at x
     """
-    return L / (1 + jnp.exp(-k * (x - x0)))
+    return L * expit(k * (x - x0))  # exp(-k * (x - x0)) overflows far from x0, which breaks the derivative
 
 
 def logistic_unit(x, x0, sgn=1, sc=4):
@@ -70,12 +71,7 @@ def log_logistic_unit(x, x0, sgn=1, sc=4):
     Returns:
         array_like: input array with the soft truncation at x0 applied
     """
-    diff = x - x0
-    return jnp.where(
-        jnp.less(diff * sgn * sc, 0),
-        jnp.log(logistic_unit(x, x0, sgn=sgn, sc=sc)),
-        -sgn * sc * (x - x0) + jnp.log(logistic_unit(x, x0, sgn=-sgn, sc=sc)),
-    )
+    return log_sigmoid(-1 * sgn * sc * (x - x0))
 
 
 def powerlaw_logit_pdf(xx, alpha, low=None, high=None, low_fall_off=4.0, high_fall_off=4.0):
-- 
2.43.0


From 5e77d2596943bd8b7e327476f18fc6c7da6cabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:57 +0000
Subject: [PATCH 44/59] fix: predictive draws ignore the weights when the log
 weights underflow or overflow

With log=True the log weights were exponentiated as they are, so an event (or
injection set) whose log weights all lie below about -100 had 0/0 as
probabilities and always drew its first sample.
---
 gwinferno/pipeline/analysis.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 147e27b..1f07040 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -323,36 +323,40 @@ def hierarchical_likelihood(
 
     if posterior_predictive_check:
         if param_names is not None and injdata is not None and pedata is not None:
-            if log:
-                pe_weights = jnp.exp(pe_weights)
-                inj_weights = jnp.exp(inj_weights)
+            no_weight = -jnp.inf if log else 0
             cond = jnp.less(pedata["mass_1"], m1min) | jnp.greater(pedata["mass_1"], mmax)
             pe_weights = jnp.where(
                 cond | jnp.less(pedata["mass_1"] * pedata["mass_ratio"], m2min),
-                0,
+                no_weight,
                 pe_weights,
             )
             inj_weights = jnp.where(
                 jnp.less(injdata["mass_1"], m1min)
                 | jnp.greater(injdata["mass_1"], mmax)
                 | jnp.less(injdata["mass_1"] * injdata["mass_ratio"], m2min),
-                0,
+                no_weight,
                 inj_weights,
             )
+            pe_probs, inj_probs = pe_weights, inj_weights
+            if log:
+                # relative to the largest one, so that they neither all underflow nor overflow
+                pe_probs = jnp.exp(pe_weights - jnp.max(pe_weights, axis=1, keepdims=True))
+                inj_probs = jnp.exp(inj_weights - jnp.max(inj_weights))
+                pe_weights = jnp.exp(pe_weights)
             for ev in range(Nobs):
                 k = random.PRNGKey(ev)
                 k1, k2 = random.split(k)
                 obs_idx = random.choice(
                     k1,
                     pe_weights.shape[1],
-                    p=pe_weights[ev, :] / jnp.sum(pe_weights[ev, :]),
+                    p=pe_probs[ev, :] / jnp.sum(pe_probs[ev, :]),
                 )
 
                 if marginal_qs:
                     for i in range(len(indv_weights)):
                         numpyro.deterministic(f"cat_frac_subpop_{i + 1}_event_{ev}", indv_weights[i][ev, obs_idx] / pe_weights[ev, obs_idx])
 
-                pred_idx = random.choice(k2, inj_weights.shape[0], p=inj_weights / jnp.sum(inj_weights))
+                pred_idx = random.choice(k2, inj_probs.shape[0], p=inj_probs / jnp.sum(inj_probs))
                 for p in param_names:
                     numpyro.deterministic(f"{p}_obs_event_{ev}", pedata[p][ev, obs_idx])
                     numpyro.deterministic(f"{p}_pred_event_{ev}", injdata[p][pred_idx])
-- 
2.43.0


From 35fd322706c455bd83ab702357d6b6675223dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:57 +0000
Subject: [PATCH 45/59] fix: basis splines vanish at the end of a range on
 which their knots stop

The last knot interval excluded its end, so with clamped knots every basis
function was zero there.
---
 gwinferno/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index a983ae7..f890203 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -152,7 +152,9 @@ class BasisSpline(object):
             return np.zeros_like(xs)
         elif k == 1:
             v = np.zeros_like(xs)
-            v[(xs >= self.knots[i]) & (xs < self.knots[i + 1])] = 1 / (self.knots[i + 1] - self.knots[i])
+            # knots that stop at the end of the range: the last interval includes its end
+            below = xs <= self.knots[i + 1] if self.knots[i + 1] == self.knots[-1] else xs < self.knots[i + 1]
+            v[(xs >= self.knots[i]) & below] = 1 / (self.knots[i + 1] - self.knots[i])
             return v
         else:
             v = (xs - self.knots[i]) * self._basis(xs, i, k - 1) + (self.knots[i + k] - xs) * self._basis(xs, i + 1, k - 1)
-- 
2.43.0


From 98a79ae6f078095dbec2314431796abafb45f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:45 +0000
Subject: [PATCH 46/59] fix: gradient of the truncated power law is NaN at
 index -1 and for samples outside its range

---
 gwinferno/distributions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 499bc85..8063433 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -110,16 +110,21 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
         high (float): high end truncation bound
         floor (float, optional): lower bound of pdf (Defaults to 0.0)
     """
-    prob = jnp.power(xx, alpha)
+    outside = jnp.less(xx, low) | jnp.greater(xx, high)
+    prob = jnp.power(jnp.where(outside, 1.0, xx), alpha)
     index = jnp.asarray(1.0 + alpha)  # a python float of -1 would raise ZeroDivisionError below
+    # each branch is kept finite where the other is selected: jnp.where does not discard NaN derivatives
+    flat = jnp.equal(alpha, -1)
+    log_low, log_high = jnp.log(jnp.where(flat, low, 1.0)), jnp.log(jnp.where(flat, high, jnp.e))
+    safe = jnp.where(flat, 1.0, index)
     norm = jnp.where(
-        alpha == -1,
-        1 / jnp.log(high / low),
-        index / (high**index - low**index),
+        flat,
+        (1 - 0.5 * index * (log_high + log_low)) / (log_high - log_low),  # to first order in index
+        safe / (high**safe - low**safe),
     )
     prob *= norm
 
-    return jnp.where(jnp.less(xx, low) | jnp.greater(xx, high), floor, prob)
+    return jnp.where(outside, floor, prob)
 
 
 def truncnorm_pdf(xx, mu, sig, low, high, log=False):
-- 
2.43.0


From 64a84626e2b962272acc9a19b1dc84bbaba67a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:45 +0000
Subject: [PATCH 47/59] fix: gradient of the beta distribution is NaN for
 samples at the edges of its support

---
 gwinferno/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 8063433..ae217be 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -166,7 +166,9 @@ def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
         array_like: pdf evaluated at xx
     """
     support = jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0)
-    xx = jnp.where(support, xx, 0.5 * scale)  # jnp.where below does not discard the NaN derivatives of points outside
+    vanish = (jnp.equal(xx, 0) & jnp.greater(alpha, 1)) | (jnp.equal(xx, scale) & jnp.greater(beta, 1))
+    # jnp.where below does not discard the NaN derivatives of points outside, or of edges where the density vanishes
+    xx = jnp.where(support & ~vanish, xx, 0.5 * scale)
     ln_beta = xlogy(alpha - 1, xx) + xlogy(beta - 1, scale - xx) - (alpha + beta - 1) * jnp.log(scale)
     ln_beta = ln_beta - betaln(alpha, beta)
-    return jnp.where(support, jnp.exp(ln_beta), floor)
+    return jnp.where(support, jnp.where(vanish, 0.0, jnp.exp(ln_beta)), floor)
-- 
2.43.0


From b27c23fafd03a8124a9569cbca54d849dbc929f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:45 +0000
Subject: [PATCH 48/59] fix: gradient of the truncated log-normal is NaN for
 samples at or below zero

---
 gwinferno/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index ae217be..dd8de9a 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -134,7 +134,9 @@ def truncnorm_pdf(xx, mu, sig, low, high, log=False):
     `log=True` makes this a log-normal distribution!
     """
 
+    outside = jnp.greater(xx, high) | jnp.less(xx, low)
     if log:
+        xx = jnp.where(outside, 1.0, xx)  # jnp.where below does not discard the NaN derivatives at and below zero
         prob = jnp.exp(-jnp.power(jnp.log(xx) - mu, 2) / (2 * sig**2))
         continuous_norm = 1 / (xx * sig * (2 * jnp.pi) ** 0.5)
         left_tail_cdf = 0.5 * (1 + erf((jnp.log(low) - mu) / (sig * (2**0.5))))
@@ -148,7 +150,7 @@ def truncnorm_pdf(xx, mu, sig, low, high, log=False):
         denom = right_tail_cdf - left_tail_cdf
 
     norm = continuous_norm / denom
-    return jnp.where(jnp.greater(xx, high) | jnp.less(xx, low), 0, prob * norm)
+    return jnp.where(outside, 0, prob * norm)
 
 
 def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
-- 
2.43.0


From 8a96df1ada98edef5dc64d6463478bd43ea96fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:45 +0000
Subject: [PATCH 49/59] fix: gradient of the Powerlaw log density is NaN at
 index -1 and for values outside its range

---
 gwinferno/numpyro_distributions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 58a1784..3bf5b6e 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -126,13 +126,18 @@ class Powerlaw(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        logp = self.alpha * jnp.log(value)
-        logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
+        outside = jnp.less(value, self.minimum) | jnp.greater(value, self.maximum)
+        # each branch is kept finite where the other is selected: jnp.where does not discard NaN derivatives
+        flat = jnp.equal(self.alpha, -1.0)
+        index = jnp.where(flat, 1.0, 1.0 + self.alpha)
+        log_low, log_high = jnp.log(jnp.where(flat, self.minimum, 1.0)), jnp.log(jnp.where(flat, self.maximum, jnp.e))
+        logp = self.alpha * jnp.log(jnp.where(outside, 1.0, value))
+        lognorm = jnp.log(index / (self.maximum**index - self.minimum**index))
+        lognorm_neg1 = -jnp.log(log_high - log_low) - 0.5 * (1.0 + self.alpha) * (log_high + log_low)
         return jnp.where(
-            jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
+            outside,
             jnp.nan_to_num(-jnp.inf),
-            jnp.where(jnp.equal(self.alpha, -1.0), logp_neg1, logp),
+            logp + jnp.where(flat, lognorm_neg1, lognorm),
         )
 
     def cdf(self, value):
-- 
2.43.0


From 80f7ff1e94bcceba86ec0a06a1912387ee5ce819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:39 +0000
Subject: [PATCH 50/59] fix: chi_p prior never returns for an effective spin
 beyond the largest spin magnitude

---
 gwinferno/preprocess/priors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 308fac4..6480a6d 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -285,6 +285,10 @@ def chi_p_prior_given_chi_eff_q(chi_p, chi_eff, q, a_max=1.0, ndraws=10000, bw_m
     array-like
         Prior density at given effective precession value.
     """
+    # No component spins give such an effective spin: the redrawing below would never end
+    if np.abs(chi_eff) >= a_max:
+        return np.zeros(np.shape(chi_p))
+
     # Draw random spin magnitudes.
     # Note that, given a fixed chi_eff, a1 can be no larger than (1+q)*chi_eff,
     # and a2 can be no larger than (1+q)*chi_eff/q
-- 
2.43.0


From 9bb1b2e17a94a53638c3ea4ee73d077889c0d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:39 +0000
Subject: [PATCH 51/59] fix: a catalog without metadata or key file raises
 TypeError before its own error

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index b23819d..6a0ee7a 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -144,10 +144,10 @@ def append_prior_to_processed_catalog(catalog_dataset, param_names):
 
 def load_posterior_dataset(maximum_mass=100.0, catalog_metadata=None, key_file=None, param_names=["mass_1", "mass_ratio", "redshift"]):
     if catalog_metadata is None:
-        with open(key_file, "r") as f:
-            catalog_metadata = json.load(f)
         if key_file is None:
             raise AssertionError("catalog_metadata or key_file must be specified")
+        with open(key_file, "r") as f:
+            catalog_metadata = json.load(f)
 
     posterior_dict = unprocessed_catalog_dict_from_metadata(catalog_metadata)
     catalog_dataset = processed_catalog_dataset_from_dict(posterior_dict, mmax=maximum_mass)
-- 
2.43.0


From f4fcb3834c54a6c86e14b25cf971a03bd6acd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:37 +0000
Subject: [PATCH 52/59] fix: density and gradient of a power law on an empty
 range are not finite

---
 gwinferno/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index dd8de9a..0170fce 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -110,7 +110,9 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
         high (float): high end truncation bound
         floor (float, optional): lower bound of pdf (Defaults to 0.0)
     """
-    outside = jnp.less(xx, low) | jnp.greater(xx, high)
+    empty = jnp.greater_equal(low, high)  # e.g. the mass ratios below one when the primary mass is the minimum mass
+    low = jnp.where(empty, 0.5 * high, low)
+    outside = jnp.less(xx, low) | jnp.greater(xx, high) | empty
     prob = jnp.power(jnp.where(outside, 1.0, xx), alpha)
     index = jnp.asarray(1.0 + alpha)  # a python float of -1 would raise ZeroDivisionError below
     # each branch is kept finite where the other is selected: jnp.where does not discard NaN derivatives
-- 
2.43.0


From f45c89bc1d9233a39a84f3656e400ffe0d452ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:22 +0000
Subject: [PATCH 53/59] fix: log-space splines vanish at the end of their range
 when its logarithm rounds up

---
 gwinferno/interpolation.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index f890203..9221fae 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -329,6 +329,13 @@ class BSpline(BasisSpline):
         return self._project(bases, coefs) * self.norm(coefs)
 
 
+def _log_within(xs, limits, log_limits):
+    """the logarithm of xs, which rounding does not push across the logarithms of the limits"""
+    logxs = jnp.log(xs)
+    inside = jnp.greater_equal(xs, limits[0]) & jnp.less_equal(xs, limits[1])
+    return jnp.where(inside, jnp.clip(logxs, *log_limits), logxs)
+
+
 class LogXBSpline(BSpline):
     def __init__(self, n_df, knots=None, interior_knots=None, xrange=(0.01, 1), normalize=True, **kwargs):
         """
@@ -346,13 +353,14 @@ class LogXBSpline(BSpline):
         """
         knots = None if knots is None else np.log(knots)
         interior_knots = None if interior_knots is None else np.log(interior_knots)
+        self.limits = xrange
         xrange = np.log(xrange)
         super().__init__(n_df, knots=knots, interior_knots=interior_knots, xrange=xrange, **kwargs)
 
         self.normalize = normalize
         self.basis_vols = np.ones(self.N)
         if normalize:
-            self.grid = jnp.linspace(*np.exp(xrange), 1000)
+            self.grid = jnp.linspace(*self.limits, 1000)
             self.grid_bases = jnp.array(self.bases(self.grid))
 
     def bases(self, xs):
@@ -366,7 +374,7 @@ class LogXBSpline(BSpline):
         Returns:
             array_like: the design matrix evaluated at xs. shape (N, *xs.shape)
         """
-        return super().bases(jnp.log(xs))
+        return super().bases(_log_within(xs, self.limits, self.xrange))
 
 
 class LogYBSpline(BSpline):
@@ -436,13 +444,14 @@ class LogXLogYBSpline(LogYBSpline):
         """
         knots = None if knots is None else np.log(knots)
         interior_knots = None if interior_knots is None else np.log(interior_knots)
+        self.limits = xrange
         xrange = np.log(xrange)
         super().__init__(n_df, knots=knots, interior_knots=interior_knots, xrange=xrange, **kwargs)
 
         self.normalize = normalize
         self.basis_vols = np.ones(self.N)
         if normalize:
-            self.grid = jnp.linspace(*jnp.exp(xrange), 1500)
+            self.grid = jnp.linspace(*self.limits, 1500)
             self.grid_bases = jnp.array(self.bases(self.grid))
 
     def bases(self, xs):
@@ -456,7 +465,7 @@ class LogXLogYBSpline(LogYBSpline):
         Returns:
             array_like: the design matrix evaluated at xs. shape (N, *xs.shape)
         """
-        logxs = jnp.log(xs)
+        logxs = _log_within(xs, self.limits, self.xrange)
         design_matrix = super().bases(logxs)
         return jnp.where(jnp.less(logxs, self.xrange[0]) | jnp.greater(logxs, self.xrange[1]), -jnp.inf, design_matrix)
 
-- 
2.43.0


From 147886e3b793305bcb3ee7b0871b271a55a47002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:40 +0000
Subject: [PATCH 54/59] fix: a spline distribution is one distribution, not a
 batch of one per coefficient

---
 gwinferno/numpyro_distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 3bf5b6e..27216a9 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -269,9 +269,10 @@ class BSplineDistribution(Distribution):
     reparametrized_params = ["maximum", "minimum", "cs"]
 
     def __init__(self, minimum, maximum, cs, grid, grid_dmat, validate_args=None):
-        self.maximum, self.minimum, self.cs = promote_shapes(maximum, minimum, cs)
+        self.maximum, self.minimum = promote_shapes(maximum, minimum)
+        self.cs = cs  # one coefficient per basis function, not a batch of distributions
         self._support = constraints.interval(minimum, maximum)
-        batch_shape = lax.broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(cs))
+        batch_shape = lax.broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum))
         super(BSplineDistribution, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         self.grid = grid
         # grid_dmat will contain nan's where the grid is outside the support
-- 
2.43.0


From 7200524b20d9042576bddd94d816fa844d228b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:10 +0000
Subject: [PATCH 55/59] fix: draw predictive samples when events are assigned
 to sub-populations

---
 gwinferno/pipeline/analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 1f07040..6028e17 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -255,6 +255,7 @@ def hierarchical_likelihood(
             for subpop in range(1, len(pe_weights)):
                 mix_pe_weights = jnp.where(Qs[i] == subpop, pe_weights[subpop][i], mix_pe_weights)
             logBFs, logn_effs, variances = per_event_log_bayes_factors(mix_pe_weights, log=log)
+        pe_weights = mix_pe_weights  # of the sub-population each event is assigned to
     else:
 
         logBFs, logn_effs, variances = per_event_log_bayes_factors(pe_weights, log=log)
-- 
2.43.0


From 7b1add638d74d9e3ea2572cddceee0232a682f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 56/59] fix: perturbed power-law mass models honour the order
 of their splines

Any order but four failed: the knots were laid out for the requested order
and handed to a spline built with order four.
---
 gwinferno/models/spline_perturbation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index be446cb..5dfbe32 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -54,7 +54,7 @@ class PowerlawBasisSplinePrimaryPowerlawRatio(object):
             ]
         )
         self.knots = knots
-        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=4, **kwargs)
+        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=k, **kwargs)
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
         self.dmats = [self.inj_design_matrix, self.pe_design_matrix]
@@ -202,7 +202,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsm,
             interior_knots=interior_mknots,
             xrange=(np.log(mmin), np.log(mmax)),
-            k=4,
+            k=k,
         )
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
@@ -212,7 +212,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsq,
             interior_knots=interior_qknots,
             xrange=(0, 1),
-            k=4,
+            k=k,
         )
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
-- 
2.43.0


From c72f58382a927cb2b8e89a295052a1224d0c59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 57/59] fix: resample_injections drew injections of zero weight
 by rounding

---
 gwinferno/preprocess/selection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index 18e74f3..e199dc0 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -142,11 +142,12 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
 def resample_injections(rng_key, model_prob, injdata, Ndraw, param_map, **kwargs):
     wts = model_prob(injdata, **kwargs) / injdata[param_map["prior"], :]
     p = wts / jnp.sum(wts)
-    Ndet = len(p)
     # draw the maximum number of samples
     N = int((jnp.sum(wts)) ** 2 // jnp.sum(wts * wts))
     norm = jnp.sum(wts) / Ndraw
-    idxs = random.choice(rng_key, Ndet, shape=[N], replace=True, p=p)
+    # among those of non-zero weight: rounding of the cumulative weights can select others
+    possible = jnp.flatnonzero(p)
+    idxs = random.choice(rng_key, possible, shape=[N], replace=True, p=p[possible])
     injdata_new = injdata.at[:, idxs].get()
     p_new = model_prob(injdata_new, **kwargs) / norm
     injdata_new = injdata_new.at[param_map["prior"], :].set(p_new)
-- 
2.43.0


From f67ab452e41d765a63ad657b1ca64fc6f1f5b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 58/59] fix: posterior predictive checks drew samples of zero
 weight by rounding

---
 gwinferno/pipeline/analysis.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 6028e17..4fb5e87 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -8,6 +8,7 @@ import jax.numpy as jnp
 import numpyro
 import numpyro.distributions as dist
 from jax import jit
+from jax import lax
 from jax import random
 from jax.scipy.special import logsumexp
 from numpyro.infer import SVI
@@ -137,6 +138,13 @@ def detection_efficiency(weights, Ninj, log=False):
     return logmu, logn_eff, variance
 
 
+def nearest_possible(idx, probs):
+    """The given index, or that of the nearest earlier (or else the first) sample of non-zero probability: rounding of
+    the cumulative probabilities of many samples can select one of zero probability."""
+    possible = jnp.where(probs > 0, jnp.arange(probs.shape[0]), jnp.argmax(probs > 0))
+    return lax.cummax(possible)[idx]
+
+
 def hierarchical_likelihood(
     pe_weights,
     inj_weights,
@@ -352,12 +360,14 @@ def hierarchical_likelihood(
                     pe_weights.shape[1],
                     p=pe_probs[ev, :] / jnp.sum(pe_probs[ev, :]),
                 )
+                obs_idx = nearest_possible(obs_idx, pe_probs[ev, :])
 
                 if marginal_qs:
                     for i in range(len(indv_weights)):
                         numpyro.deterministic(f"cat_frac_subpop_{i + 1}_event_{ev}", indv_weights[i][ev, obs_idx] / pe_weights[ev, obs_idx])
 
                 pred_idx = random.choice(k2, inj_probs.shape[0], p=inj_probs / jnp.sum(inj_probs))
+                pred_idx = nearest_possible(pred_idx, inj_probs)
                 for p in param_names:
                     numpyro.deterministic(f"{p}_obs_event_{ev}", pedata[p][ev, obs_idx])
                     numpyro.deterministic(f"{p}_pred_event_{ev}", injdata[p][pred_idx])
-- 
2.43.0


From 89979655059e257aad05face8328dd1a88eea162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 59/59] fix: PowerlawSmoothedPowerlaw divides by zero for a
 spectral index of -1

---
 gwinferno/numpyro_distributions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 27216a9..b5de716 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -206,6 +206,13 @@ class PowerlawRedshift(Distribution):
         return jnp.interp(q, self.cdfgrid, self.zs)
 
 
+def powerlaw_integral(alpha, low, high):
+    """Integral of x ** alpha from low to high, which is a logarithm for alpha = -1."""
+    flat = jnp.equal(alpha, -1.0)
+    index = jnp.where(flat, 1.0, alpha + 1.0)
+    return jnp.where(flat, jnp.log(high / low), (high**index - low**index) / index)
+
+
 class PowerlawSmoothedPowerlaw(Distribution):
     arg_constraints = {
         "minimum": constraints.positive,
@@ -227,14 +234,12 @@ class PowerlawSmoothedPowerlaw(Distribution):
         self.k1 = -gamma / (
             -1
             + gamma
-            / (self.alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
-            * (self.minimum ** (self.alpha + 1) - self.maximum ** (self.alpha + 1))
+            * powerlaw_integral(self.alpha, self.maximum, self.minimum)
             + gamma
-            / (self.alpha_max + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
             * self.maximum ** (self.alpha - self.alpha_max)
-            * (self.maximum ** (self.alpha_max + 1) - self.high ** (self.alpha_max + 1))
+            * powerlaw_integral(self.alpha_max, self.high, self.maximum)
         )
         self.k2 = self.k1 * self.minimum ** (self.alpha_min - self.alpha)
         self.k3 = self.k2 * self.maximum ** (self.alpha - self.alpha_max)
-- 
2.43.0

