From 103cdfefa85a339af49a2a20aab2b1f5fbf70bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 001/114] fix: constrained_least_squares used the wrong sign
 for the center of the domain

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 4f38fed..b6ac763 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -356,7 +356,7 @@ class EuclideanDomain(Domain):
 		c = self._center()	
 			
 		# \| A x - b\|_2 
-		obj = cp.norm( (A @ D) @ x_norm - b - (A @ c) )
+		obj = cp.norm( (A @ D) @ x_norm - b + (A @ c) )
 		constraints = self._build_constraints_norm(x_norm)
 		problem = cp.Problem(cp.Minimize(obj), constraints)
 		problem.solve(**kwargs)
-- 
2.43.0


From 4c238f63780b20dbaf05c912a5e2ec68d437a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 002/114] fix: normalize the centers of quadratic constraints
 with the scaling, not only the shift

---
 psdr/domains/euclidean.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index b6ac763..2dd70c3 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -993,8 +993,7 @@ class EuclideanDomain(Domain):
 			
 	@property
 	def ys_norm(self):
-		c = self._center()
-		return [y - c for y in self.ys]	
+		return [self.normalize(y) for y in self.ys]	
 
 	@property
 	def rhos_norm(self):
-- 
2.43.0


From d96d8458751563e17608ed9f71b2c9702e1462e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 003/114] fix: querying BoxDomain.is_empty no longer changes
 is_point and is_unbounded

---
 psdr/domains/box.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/psdr/domains/box.py b/psdr/domains/box.py
index a008969..58bef52 100644
--- a/psdr/domains/box.py
+++ b/psdr/domains/box.py
@@ -34,8 +34,6 @@ class BoxDomain(LinIneqDomain):
 			return self._empty
 		except AttributeError:
 			self._empty = np.any(self.lb > self.ub)
-			self._point = False
-			self._unbounded = False
 			return self._empty
 	
 	@property
-- 
2.43.0


From 8ec1c469892d7c4fd7b9f6917c29f948cda75d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 004/114] fix: is_unbounded failed on one-dimensional domains

---
 psdr/domains/euclidean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 2dd70c3..f0ff50e 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -113,7 +113,10 @@ class EuclideanDomain(Domain):
 	@cached_property
 	def is_unbounded(self):
 		try:
-			U = ortho_group.rvs(len(self))
+			if len(self) > 1:
+				U = ortho_group.rvs(len(self))
+			else:
+				U = np.ones((1,1))
 			for u in U:
 				x1 = self.corner(u)
 				x2 = self.corner(-u)
-- 
2.43.0


From a13d246d7c9217fd661dd6713307f67dc30a447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 005/114] fix: LinIneqDomain.extent ignored equality
 constraints

---
 psdr/domains/linineq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index e5e0072..06a50fd 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -50,7 +50,11 @@ class LinIneqDomain(LinQuadDomain):
 		return self._isinside_bounds(X, tol = tol) & self._isinside_ineq(X, tol = tol) & self._isinside_eq(X, tol = tol)
 
 	def _extent(self, x, p):
-		return min(self._extent_bounds(x, p), self._extent_ineq(x, p))
+		# Check that direction satisfies equality constraints to a tolerance
+		if self.A_eq.shape[0] == 0 or np.all(np.abs(self.A_eq.dot(p) ) < self.tol):
+			return min(self._extent_bounds(x, p), self._extent_ineq(x, p))
+		else:
+			return 0.
 	
 	def _normalized_domain(self, **kwargs):
 		names_norm = [name + ' (normalized)' for name in self.names]
-- 
2.43.0


From c2e6840ca934fcf33c700aec63359063f8bff51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 006/114] fix: ConvexHullDomain.extent applied the additional
 constraints to the starting point instead of the end point

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index babea3a..12f9a0c 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -79,7 +79,7 @@ class _Extent:
 			self.domain._X_norm.T @ self.alpha == self.p_norm * self.beta + self.x_norm,
 			cp.sum(self.alpha) == 1
 		] 
-		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.x_norm) 
+		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.x_norm + self.p_norm * self.beta) 
 		
 		self.prob = cp.Problem(self.obj, self.constraints)
 
-- 
2.43.0


From 257a1a00c41f8c7525f74c23cef8036fd4bd5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 007/114] fix: ConvexHullDomain.to_linineq dropped the bound
 constraints

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 12f9a0c..cb416f1 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -195,7 +195,7 @@ class ConvexHullDomain(LinQuadDomain):
 		dom_hull = LinQuadDomain(A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names, **kwargs)
 		dom_hull.vertices = np.copy(vertices)
 		# Add back in non-hull constraints
-		dom = dom_hull.add_constraints(A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
+		dom = dom_hull.add_constraints(A = self.A, b = self.b, lb = self.lb, ub = self.ub, A_eq = self.A_eq, b_eq = self.b_eq,
 				Ls = self.Ls, ys = self.ys, rhos = self.rhos)
 		return dom
 
-- 
2.43.0


From 365db7f29268adc0ef5fe58e163b7e81f0f422a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 008/114] fix: normalized_domain of a ConvexHullDomain dropped
 the convex hull constraint

---
 psdr/domains/convexhull.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index cb416f1..300ad41 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -183,6 +183,12 @@ class ConvexHullDomain(LinQuadDomain):
 		ret += ">"
 		return ret
 
+	def _normalized_domain(self, **kwargs):
+		names_norm = [name + ' (normalized)' for name in self.names]
+		return ConvexHullDomain(self._X_norm, lb = self.lb_norm, ub = self.ub_norm, A = self.A_norm, b = self.b_norm, 
+			A_eq = self.A_eq_norm, b_eq = self.b_eq_norm, Ls = self.Ls_norm, ys = self.ys_norm, rhos = self.rhos_norm,
+			names = names_norm, tol = self.tol, **merge(self.kwargs, kwargs))
+
 	def chebyshev_center(self):
 		raise NotImplementedError
 
-- 
2.43.0


From b2565d66b43791f3c7d79d913dcc87e3cc372ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 009/114] fix: combining a TensorProductDomain with further
 constraints dropped its quadratic constraints

---
 psdr/domains/tensor.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index c22f574..5b410a9 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -160,6 +160,30 @@ class TensorProductDomain(EuclideanDomain):
 	def b_eq(self):
 		return np.concatenate([dom.b_eq for dom in self.domains])
 
+	@property
+	def Ls(self):
+		Ls = []
+		for dom, I in zip(self.domains, self._slices):
+			for L in dom.Ls:
+				L_tmp = np.zeros((L.shape[0], len(self)))
+				L_tmp[:,I] = L
+				Ls.append(L_tmp)
+		return Ls
+
+	@property
+	def ys(self):
+		ys = []
+		for dom, I in zip(self.domains, self._slices):
+			for y in dom.ys:
+				y_tmp = np.zeros(len(self))
+				y_tmp[I] = y
+				ys.append(y_tmp)
+		return ys
+
+	@property
+	def rhos(self):
+		return list(itertools.chain(*[dom.rhos for dom in self.domains]))
+
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
-- 
2.43.0


From 2537cb654e7b3f978864e461a1a33b7176252688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 010/114] fix: the center used by a TensorProductDomain must
 match the normalization of its components

---
 psdr/domains/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index 5b410a9..c068236 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -94,6 +94,9 @@ class TensorProductDomain(EuclideanDomain):
 	def _unnormalize(self, X_norm):
 		return np.hstack([dom.unnormalize(X_norm[:,I]) for dom, I in zip(self.domains, self._slices)])
 
+	def _center(self):
+		return np.hstack([dom._center() for dom in self.domains])
+
 	def _unnormalize_der(self):
 		return np.diag(np.hstack([np.diag(dom._unnormalize_der()) for dom in self.domains]))
 
-- 
2.43.0


From ee27e3f0da09df93c9b635acc80a9383f22e51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 011/114] fix: intersecting domains dropped the convex hull
 constraint of the right-hand operand

---
 psdr/domains/linquad.py | 9 +++++++++
 psdr/domains/tensor.py  | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index f4c00bd..ca672d0 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -360,6 +360,15 @@ class LinQuadDomain(EuclideanDomain):
 			return BoxDomain(lb = lb, ub = ub, names = self.names)
 
 	def __and__(self, other):
+		from .convexhull import ConvexHullDomain
+		if isinstance(other, ConvexHullDomain):
+			if not isinstance(self, ConvexHullDomain):
+				return other.__and__(self)
+			# write the convex hull constraint of the other domain in terms of linear constraints
+			other = other.to_linineq()
+		elif isinstance(other, TensorProductDomain) and any([isinstance(dom, ConvexHullDomain) for dom in other.domains]):
+			other = other.add_constraints()
+
 		if isinstance(other, LinQuadDomain) or (isinstance(other, TensorProductDomain) and other.is_linquad_domain):
 			return self.add_constraints(lb = other.lb, ub = other.ub,
 				A = other.A, b = other.b, A_eq = other.A_eq, b_eq = other.b_eq,
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index c068236..b442246 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -190,6 +190,11 @@ class TensorProductDomain(EuclideanDomain):
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
+			from .convexhull import ConvexHullDomain
+			if any([isinstance(dom, ConvexHullDomain) for dom in self.domains]):
+				# the convex hull constraint must be written in terms of linear constraints
+				domains = [dom.to_linineq() if isinstance(dom, ConvexHullDomain) else dom for dom in self.domains]
+				return TensorProductDomain(domains, **self.kwargs).add_constraints(*args, **kwargs)
 			return LinQuadDomain.add_constraints(self, *args, **kwargs)
 		else:
 			raise NotImplementedError
-- 
2.43.0


From 45dd8f1b30abb98e148c1512fd1859a875f8de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 012/114] fix: closest_point, corner, extent,
 normalized_domain, and is_empty failed on UnboundedDomain

---
 psdr/domains/unbounded.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 40c41e2..3ee5c58 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -21,6 +21,7 @@ class UnboundedDomain(EuclideanDomain):
 	def __init__(self, dimension, names = None):
 		self._dimension = dimension
 		self._init_names(names)
+		self.kwargs = {}
 
 		self._unbounded = True
 		self._empty = False
@@ -41,6 +42,12 @@ class UnboundedDomain(EuclideanDomain):
 	def _closest_point(self, x0, L = None, **kwargs):
 		return x0
 
+	def _extent(self, x, p):
+		return np.inf
+
+	def _normalized_domain(self, **kwargs):
+		return UnboundedDomain(len(self), names = [name + ' (normalized)' for name in self.names])
+
 	def _normalize(self, X):
 		return X
 
-- 
2.43.0


From a4391c58a26136c59401b6a9a56acdbb180f6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 013/114] fix: PointDomain.isinside ignored the tolerance

---
 psdr/domains/point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index b1cebcc..300690d 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -42,7 +42,7 @@ class PointDomain(BoxDomain):
 
 	def _isinside(self, X, tol = TOL):
 		Pcopy = np.tile(self._x.reshape(1,-1), (X.shape[0],1))
-		return np.all(X == Pcopy, axis = 1)	
+		return np.all(np.abs(X - Pcopy) <= tol, axis = 1)	
 
 	def _sample(self, draw = 1):
 		return np.tile(self._x.reshape(1,-1), (draw, 1))
-- 
2.43.0


From df58b6b592adf11410f08d3b4ed46fee0cce7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 014/114] fix: optimization over a LogNormalDomain failed as no
 solver arguments were set

---
 psdr/domains/lognormal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7973b80..7a7f559 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -1,7 +1,8 @@
 from __future__ import division
 
 import numpy as np
-from .domain import TOL
+from .domain import TOL, DEFAULT_CVXPY_KWARGS
+from ..misc import merge
 from .box import BoxDomain
 from .random import RandomDomain
 from .normal import NormalDomain
@@ -35,6 +36,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 	"""	
 	def __init__(self, mean, cov = 1., offset = 0., scaling = 1., truncate = None, names = None):
 		self.tol = 1e-6
+		self.kwargs = merge(DEFAULT_CVXPY_KWARGS, {})
 		self.normal_domain = NormalDomain(mean, cov, truncate = truncate)
 		assert len(self.normal_domain) == 1, "Only defined for one-dimensional distributions"
 
-- 
2.43.0


From 6f472254bf34027f64d91ceae7c9a94209f4403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 015/114] fix: bounds of a LogNormalDomain without truncation
 ignored the offset

---
 psdr/domains/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7a7f559..5c2fcb8 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -54,7 +54,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			self._lb = self.offset + self.scaling*np.exp(self.normal_domain.norm_lb)
 			self._ub = self.offset + self.scaling*np.exp(self.normal_domain.norm_ub)
 		else:
-			self._lb = 0.*np.ones(1)
+			self._lb = self.offset*np.ones(1)
 			self._ub = np.inf*np.ones(1)
 
 		self._init_names(names)
-- 
2.43.0


From 1555363e3dc981c8eb500120801bedcd4b3cd179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 016/114] fix: LogNormalDomain.pdf used the variance as
 standard deviation, and ignored truncation and the support

---
 psdr/domains/lognormal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 5c2fcb8..bb24e1b 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -77,6 +77,12 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			return self
 
 	def _pdf(self, X):
-		X_norm = (X - self.offset)/self.scaling
-		p = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*self.cov*np.sqrt(2*np.pi))
+		X_norm = ((X - self.offset)/self.scaling).flatten()
+		p = np.zeros(len(X_norm))
+		# The density is zero outside the domain
+		I = X_norm > 0
+		p[I] = np.exp(-(np.log(X_norm[I]) - self.mean)**2/(2*self.cov))/(X_norm[I]*np.sqrt(2*np.pi*self.cov))
+		if self.truncate is not None:
+			p /= (1-self.truncate)
+			p *= self.isinside(X)
 		return p
-- 
2.43.0


From 38c25a05186847b5d5cd843751cb1df805393816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 017/114] fix: extent was wrong for starting points on the
 boundary of the domain

---
 psdr/domains/euclidean.py | 52 ++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index f0ff50e..16ee1ab 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -676,7 +676,7 @@ class EuclideanDomain(Domain):
 			raise NotImplementedError
 
 		Qeq = self._A_eq_basis
-		while True:
+		for it in range(int(1e5)):
 			# Generate a random direction inside 
 			p = np.random.normal(size = (len(self),))
 			# Orthogonalize against equality constarints constraints
@@ -1154,6 +1154,11 @@ class EuclideanDomain(Domain):
 	# Extent functions 
 	################################################################################		
 	
+	def _slack(self, slack):
+		# A starting point inside the domain may violate a constraint by up to the tolerance;
+		# if so, we can move until the constraint is violated by the tolerance.
+		return np.where(slack >= 0, slack, np.maximum(slack + TOL, 0))
+
 	def _extent_bounds(self, x, p):
 		"""Check the extent from the box constraints"""
 		alpha = np.inf
@@ -1165,29 +1170,26 @@ class EuclideanDomain(Domain):
 		if np.any(p[self.ub == x] > 0):
 			return 0.	
 		
-		# To prevent divide-by-zero we ignore directions we are not moving in
-		I = np.nonzero(p)
-
 		# Check upper bounds
-		y = (self.ub - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))	
+		I = p > 0
+		if np.any(I):
+			alpha = min(alpha, np.min(self._slack(self.ub - x)[I]/p[I]))
 
 		# Check lower bounds
-		y = (self.lb - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))
-		
+		I = p < 0
+		if np.any(I):
+			alpha = min(alpha, np.min(self._slack(x - self.lb)[I]/-p[I]))
+	
 		return alpha
 
 	def _extent_ineq(self, x, p):
 		""" check the extent from the inequality constraints """
 		alpha = np.inf
-		# positive extent
-		with np.errstate(divide = 'ignore'):
-			y = (self.b - np.dot(self.A, x)	)/np.dot(self.A, p)
-		if np.sum(y>0) > 0:
-			alpha = min(alpha, np.min(y[y>0]))
+		# only those constraints we are moving towards limit the extent
+		Ap = np.dot(self.A, p)
+		I = Ap > 0
+		if np.any(I):
+			alpha = min(alpha, np.min(self._slack(self.b - np.dot(self.A, x))[I]/Ap[I]))
 
 		return alpha
 	
@@ -1200,11 +1202,15 @@ class EuclideanDomain(Domain):
 			# Terms in quadratic formula a alpha^2 + b alpha + c
 			a = Lp.T.dot(Lp)
 			b = 2*Lp.T.dot(Lxy)
-			c = Lxy.T.dot(Lxy) - rho**2
+			r = np.linalg.norm(Lxy)
+			c = r**2 - (r + self._slack(rho - r))**2
 			
-			roots = np.roots([a,b,c])
-			real_roots = roots[np.isreal(roots)]
-			pos_roots = real_roots[real_roots>=0]
-			if len(pos_roots) > 0:
-				alpha = min(alpha, min(pos_roots))
-		return alpha
+			if a == 0:
+				# this direction does not move towards the constraint
+				continue
+			# As x is inside c <= 0, and the ray leaves the constraint set at the larger root
+			disc = np.sqrt(max(b**2 - 4*a*c, 0))
+			# (avoiding cancellation)
+			root = -2*c/(b + disc) if b > 0 else (-b + disc)/(2*a)
+			alpha = min(alpha, root)
+		return max(alpha, 0.)
-- 
2.43.0


From 713b266fdb3eab755b9b1457f04e2d5e2244b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 018/114] fix: hit and run sampling never terminated if a
 variable was fixed by its bounds

---
 psdr/domains/euclidean.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 16ee1ab..95aaa67 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -820,8 +820,10 @@ class EuclideanDomain(Domain):
 		r""" This contains an orthogonal basis for the directions that are *not* allowed to be moved along
 		"""
 		try: 
-			if len(self.A_eq) == 0: raise AttributeError
-			Qeq = orth(self.A_eq.T)
+			# Coordinates where the lower and upper bounds coincide cannot be moved along either
+			A_eq = np.vstack([self.A_eq, np.eye(len(self))[self.lb == self.ub]])
+			if len(A_eq) == 0: raise AttributeError
+			Qeq = orth(A_eq.T)
 		except AttributeError:
 			Qeq = np.zeros((len(self),0))
 		return Qeq
-- 
2.43.0


From 14d81c29cce6922c62286bddcd657ccf81b02eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 019/114] fix: sweep modified the direction provided by the
 caller

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 95aaa67..f9a32d3 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -429,7 +429,7 @@ class EuclideanDomain(Domain):
 		else:
 			# Orthogonalize search direction against equality constraints 
 			Qeq = self._A_eq_basis
-			p -= Qeq.dot(Qeq.T.dot(p))
+			p = p - Qeq.dot(Qeq.T.dot(p))
 
 			a1 = self.extent(x, p)
 			c1 = x + a1*p
-- 
2.43.0


From 4db1821886976b0a14fd3563b480e6543d7f324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 020/114] fix: sample_boundary and sampling point domains
 failed for domains without a Chebyshev center

---
 psdr/domains/euclidean.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index f9a32d3..834342f 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -829,6 +829,12 @@ class EuclideanDomain(Domain):
 		return Qeq
 
 
+	@property
+	def center(self):
+		r""" A point inside the domain, away from the boundary if possible
+		"""
+		return self._corner_center()
+
 	def _corner_center(self):
 		# Otherwise we pick points on the boundary and then initialize
 		# at the center of the domain.
-- 
2.43.0


From 1b55c95fc5653da0d2361b46e530208978bcb831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 021/114] fix: fitting a Lipschitz matrix failed with a
 division by zero inside the solver

---
 psdr/lipschitz.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 4f8311e..f3029b6 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -346,7 +346,16 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			if name in self.kwargs:
 				cvxopt.solvers.options[name] = self.kwargs[name]
 
-		sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
+		# Close to the solution the tolerances may be too small for the solver to make progress, yielding
+		# a divide by zero error inside CVXOPT; if so we relax them
+		for it in range(5):
+			try:
+				sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
+				break
+			except ZeroDivisionError:
+				if it == 4: raise
+				for name in ['abstol', 'reltol', 'feastol']:
+					cvxopt.solvers.options[name] = 10*cvxopt.solvers.options.get(name, 1e-9)
 		alpha = sol['x']
 		H = np.sum([ alpha_i * Ei for alpha_i, Ei in zip(alpha, Es)], axis = 0)
 		return H
-- 
2.43.0


From 9d5369f0bf851c3a109ffc6226702687e3e5285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 022/114] fix: ConvexHullDomain.isinside accepted points
 outside the hull if in the cone generated by its points

---
 psdr/domains/convexhull.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 300ad41..328bd93 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -271,6 +271,11 @@ class ConvexHullDomain(LinQuadDomain):
 		
 		for i, xi in enumerate(X):
 			alpha = self.coefficients(xi)
+			# the weights must sum to one for this to be a convex combination;
+			# otherwise we only test if the point is in the cone generated by the points
+			if np.sum(alpha) == 0:
+				continue
+			alpha /= np.sum(alpha)
 			rnorm = np.linalg.norm( xi - self._X.T.dot(alpha))
 			inside[i] = (rnorm < tol)
 
-- 
2.43.0


From 6426f432e43608b498545972bae50e4829cb98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 023/114] fix: ConvexHullDomain constraints in application
 units used the transpose of the points

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 328bd93..a3dd579 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -254,7 +254,7 @@ class ConvexHullDomain(LinQuadDomain):
 	def _build_constraints(self, x):
 		
 		alpha = cp.Variable(len(self.X), name = 'alpha')
-		constraints = [x == alpha @ self._X.T,  alpha >=0, cp.sum(alpha) == 1]
+		constraints = [x == alpha @ self._X,  alpha >=0, cp.sum(alpha) == 1]
 		constraints += LinQuadDomain._build_constraints(self, x)
 		return constraints
 		
-- 
2.43.0


From b95f77b81fc8da22f417b13e70e105d1dba97bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 024/114] fix: optimization over a domain ignored finite bounds
 if another bound was infinite

---
 psdr/domains/euclidean.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 834342f..b8a4709 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -965,15 +965,16 @@ class EuclideanDomain(Domain):
 	
 	@property
 	def lb_norm(self):
-		lb_norm = self.normalize(self.lb)
 		I = ~np.isfinite(self.lb)
+		# avoid 0*inf = nan removing the finite bounds during normalization
+		lb_norm = self.normalize(np.where(I, 0., self.lb))
 		lb_norm[I] = -np.inf
 		return lb_norm
 
 	@property
 	def ub_norm(self):
-		ub_norm = self.normalize(self.ub)
 		I = ~np.isfinite(self.ub)
+		ub_norm = self.normalize(np.where(I, 0., self.ub))
 		ub_norm[I] = np.inf
 		return ub_norm
 
-- 
2.43.0


From ef8dfccbd0b63459b39316fa89909e537a5641a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 025/114] fix: extent of a TensorProductDomain was zero along
 directions not moving a point or convex hull component

---
 psdr/domains/convexhull.py | 4 ++++
 psdr/domains/point.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index a3dd579..f468984 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -84,6 +84,10 @@ class _Extent:
 		self.prob = cp.Problem(self.obj, self.constraints)
 
 	def __call__(self, x, p, **kwargs):
+		# if the direction does not move (e.g., as part of a tensor product domain)
+		# this domain places no restriction on the extent
+		if np.all(p == 0):
+			return np.inf
 		kwargs['warm_start'] = False
 		self.x_norm.value = self.domain.normalize(x)
 		self.p_norm.value = self.domain.normalize(x+p)-self.domain.normalize(x)
diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index 300690d..d7eddde 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -38,6 +38,10 @@ class PointDomain(BoxDomain):
 		return np.copy(self._x)
 
 	def _extent(self, x, p, **kwargs):
+		# if the direction does not move (e.g., as part of a tensor product domain)
+		# this domain places no restriction on the extent
+		if np.all(p == 0):
+			return np.inf
 		return 0
 
 	def _isinside(self, X, tol = TOL):
-- 
2.43.0


From 58b84319a92d834de0e9444d4a254401448a7cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 026/114] fix: the Monte-Carlo quadrature rule with a single
 sample returned nodes of the wrong shape

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index b8a4709..ab76ed2 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -793,7 +793,7 @@ class EuclideanDomain(Domain):
 		elif method == 'montecarlo':
 			# For a Monte-Carlo rule we simply sample the domain randomly.
 			w = (1./N)*np.ones(N)
-			X = self.sample(N)
+			X = self.sample(N).reshape(N, len(self))
 
 			# However, we need to include a correction to account for the 
 			# volume of this domain
-- 
2.43.0


From 3841bf08662fd238fda0d5d097fd1b2c2c35c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 027/114] fix: polynomial bases returned NaN if a coordinate of
 the samples is constant

---
 psdr/basis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 4661665..20ee917 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -132,8 +132,12 @@ class PolynomialTensorBasis(Basis):
 	def _set_scale(self, X):
 		r""" default scaling to [-1,1]
 		"""
-		self._lb = np.min(X, axis = 0)
-		self._ub = np.max(X, axis = 0)
+		self._lb = np.min(X, axis = 0).astype(float)
+		self._ub = np.max(X, axis = 0).astype(float)
+		# If a coordinate is constant, only shift to avoid division by zero
+		I = (self._lb == self._ub)
+		self._lb[I] -= 1.
+		self._ub[I] += 1.
 
 	def _scale(self, X):
 		r""" Apply the scaling to the input coordinates
@@ -412,6 +416,8 @@ class HermiteTensorBasis(PolynomialTensorBasis):
 	def _set_scale(self, X):
 		self._mean = np.mean(X, axis = 0)
 		self._std = np.std(X, axis = 0)
+		# If a coordinate is constant, only shift to avoid division by zero
+		self._std[np.min(X, axis = 0) == np.max(X, axis = 0)] = 1.
 
 	def _scale(self, X):
 		try:
-- 
2.43.0


From dd7e5187f31160c5199476861aa788258763f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 028/114] fix: roots failed for polynomial bases without a
 scaling

---
 psdr/basis.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 20ee917..4efd9cc 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -359,7 +359,11 @@ class PolynomialTensorBasis(Basis):
 		if self.dim > 1:
 			raise NotImplementedError
 		r = self.polyroots(coef)
-		return r*(self._ub[0] - self._lb[0])/2.0 + (self._ub[0] + self._lb[0])/2.
+		try:
+			return r*(self._ub[0] - self._lb[0])/2.0 + (self._ub[0] + self._lb[0])/2.
+		except AttributeError:
+			# no scaling has been set
+			return r
 		 
 
 class MonomialTensorBasis(PolynomialTensorBasis):
@@ -435,7 +439,11 @@ class HermiteTensorBasis(PolynomialTensorBasis):
 		if self.dim > 1:
 			raise NotImplementedError
 		r = hermroots(coef)
-		return r*self._std[0]*np.sqrt(2) + self._mean[0]
+		try:
+			return r*self._std[0]*np.sqrt(2) + self._mean[0]
+		except AttributeError:
+			# no scaling has been set
+			return r
 
 
 class ArnoldiPolynomialBasis(Basis):
-- 
2.43.0


From 1a93a8b12a407d449962b188bb43f9c22613e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 029/114] fix: finite difference gradient ignored kwargs at the
 base point and failed with several outputs

---
 psdr/function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 84541f1..d764e58 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -201,12 +201,13 @@ class Function(BaseFunction):
 			h = 1e-7
 			grads = []
 			for x in np.atleast_2d(X_norm):
-				fx = self.eval(x)
-				grad = np.zeros(x.shape)
+				fx = self.eval(x, **kwargs)
+				# One row for each output of the function
+				grad = np.zeros((len(fx), len(x)))
 				for i in range(len(x)):
 					ei = np.zeros(x.shape)
 					ei[i] = 1.
-					grad[i] = (self.eval(x + h*ei, **kwargs) - fx)/h
+					grad[:,i] = (self.eval(x + h*ei, **kwargs) - fx)/h
 				# This ensures the dimensions match expectation for 
 				grads.append(np.atleast_2d(grad))
 			
-- 
2.43.0


From 0016c018daa5510aa420821b08e2b81130fb524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 030/114] fix: shapes of values and gradients of vectorized
 functions with return_grad

---
 psdr/function.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index d764e58..d6a3b59 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -239,8 +239,8 @@ class Function(BaseFunction):
 				grads = []
 				for fun in self._funs:
 					fXi, gradsi = fun(X, return_grad = True, **kwargs)
-					grads.append(gradsi)
-				grads = np.array([ np.atleast_2d(grad) for grad in grads])
+					grads.append(np.array(gradsi).reshape(X.shape[0], -1, len(self.domain)))
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = []
 				for x in X:
@@ -263,13 +263,14 @@ class Function(BaseFunction):
 
 		if self.return_grad:
 			# If the function can return both the value and gradient simultaneously
+			X_norm = np.atleast_1d(X_norm)
 			X = self.domain_app.unnormalize(X_norm)
 			X = np.atleast_2d(X)
 			D = self.domain_app._unnormalize_der() 	
 			if self.vectorized:
 				ret = [fun(X, return_grad = True, **kwargs) for fun in self._funs]
-				fX = np.hstack([r[0] for r in ret])
-				grads = np.concatenate([r[1].reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
+				fX = np.hstack([np.array(r[0]).reshape(X.shape[0], -1) for r in ret])
+				grads = np.concatenate([np.array(r[1]).reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
 			else:
 				fX = []
 				grads = []
-- 
2.43.0


From 2069c95ebf65b61a265a622a0c5940a82e39a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 031/114] fix: gradient of QuadraticFunction for a nonsymmetric
 matrix

---
 psdr/demos/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/polynomial.py b/psdr/demos/polynomial.py
index 3559d39..ec19715 100644
--- a/psdr/demos/polynomial.py
+++ b/psdr/demos/polynomial.py
@@ -80,4 +80,4 @@ class QuadraticFunction(Function):
 		return 	(X.dot(self.quad)*X).sum(axis = 1) + self.linear.dot(X.T) + self.constant
 
 	def _func_grad(self, X):
-		 return 2*X.dot(self.quad) + np.tile(self.linear, (len(X),1))
+		 return X.dot(self.quad + self.quad.T) + np.tile(self.linear, (len(X),1))
-- 
2.43.0


From 2b73694dfad2b9d74b008cc92443e9446393bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 032/114] fix: clip was ignored by build_golinski_random_domain

---
 psdr/demos/golinski.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/psdr/demos/golinski.py b/psdr/demos/golinski.py
index 90d3e03..9d8b6a6 100755
--- a/psdr/demos/golinski.py
+++ b/psdr/demos/golinski.py
@@ -330,12 +330,12 @@ def build_golinski_design_domain():
 
 # Taken from table 3 of Hu, Zhou, Chen, Parks, 2017 in AIAA journal 
 def build_golinski_random_domain(clip = None):
-	return TensorProductDomain([NormalDomain(0,21e-4**2, clip = clip),
-				NormalDomain(0, 1e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip),
-				NormalDomain(0, 21e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip)])
+	return TensorProductDomain([NormalDomain(0,21e-4**2, truncate = clip),
+				NormalDomain(0, 1e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip),
+				NormalDomain(0, 21e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip)])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 48f7a02da73aa873a16cf52b03c2639cd7581945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 033/114] fix: build_multif_random_domain raised a NameError

---
 psdr/demos/multif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index d3e0016..56004ce 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -101,7 +101,7 @@ def build_multif_domain(truncate = 1e-7, **kwargs):
 def build_multif_design_domain(output = 'none', **kwargs):
 	return buildDesignDomain(output = output, **kwargs)
 
-def build_multif_random_domain(truncate = 1e-7):
+def build_multif_random_domain(truncate = 1e-7, **kwargs):
 	return buildRandomDomain(truncate = truncate, **kwargs)
 
 
-- 
2.43.0


From 60c89b41b642c51cdf0c6395a289f295f5617ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 034/114] fix: MULTIF ignored level, su2_maxiter and workdir

---
 psdr/demos/multif.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index 56004ce..c28d1f1 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -88,6 +88,7 @@ class MULTIF(Function):
 		self.random_domain = self.random_domain_norm		
 
 		domain = self.design_domain_app * self.random_domain_app
+		kwargs.update({'level': level, 'su2_maxiter': su2_maxiter, 'workdir': workdir})
 		Function.__init__(self, multif, domain, vectorized = False, dask_client = dask_client, kwargs = kwargs )
 
 	def __str__(self):
-- 
2.43.0


From 31757bbcbf83d706f697b97ba14b1e4dce979199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 035/114] fix: output of the simulation was lost from the log
 once the process had ended

---
 psdr/demos/multif.py   | 2 ++
 psdr/demos/naca0012.py | 2 ++
 psdr/demos/oas.py      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index c28d1f1..44dbc2a 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -193,6 +193,8 @@ def multif(x, level = 0, version = 'v25', su2_maxiter = None, workdir = None,
 
 			# Check for termination
 			if p.poll() is not None:
+				# Save any output remaining in the pipe
+				log.write(p.stdout.read())
 				break
 		if p.returncode != 0:
 			print("exited with error code %d" % p.returncode)
diff --git a/psdr/demos/naca0012.py b/psdr/demos/naca0012.py
index f35d21a..9910cb7 100644
--- a/psdr/demos/naca0012.py
+++ b/psdr/demos/naca0012.py
@@ -91,6 +91,8 @@ def naca0012_func(x, version = 'v1', workdir = None, verbose = False,
 
 			# Check for termination
 			if p.poll() is not None:
+				# Save any output remaining in the pipe
+				log.write(p.stdout.read())
 				break
 		if p.returncode != 0:
 			print("exited with error code %d" % p.returncode)
diff --git a/psdr/demos/oas.py b/psdr/demos/oas.py
index f5c504b..c1fe4ab 100644
--- a/psdr/demos/oas.py
+++ b/psdr/demos/oas.py
@@ -88,6 +88,8 @@ def oas_func(x, version = 'v1', workdir = None, verbose = False, keep_data = Fal
 
 			# Check for termination
 			if p.poll() is not None:
+				# Save any output remaining in the pipe
+				log.write(p.stdout.read())
 				break
 		if p.returncode != 0:
 			print("exited with error code %d" % p.returncode)
-- 
2.43.0


From a5c79da00602f2dab9042115f8e6e32fc28319a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 036/114] fix: perplexity_bandwidth used wrong bounds on the
 bandwidth and an underflowing entropy

---
 psdr/local_linear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 3f12067..331b1fb 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -40,6 +40,8 @@ def _compute_p1(M, perplexity):
 
 
 def log_entropy(beta, d):
+	# The entropy does not depend on a constant offset of d; this prevents underflow
+	d = d - np.min(d)
 	p = np.exp(-beta*d)
 	sum_p = np.sum(p)
 	# Shannon entropy H = np.sum(-p*np.log2(p)) 
@@ -70,13 +72,13 @@ def perplexity_bandwidth(d, perplexity):
 	# Compute upper and lower bounds of beta from [VC13, eq. (7) (8)]
 	# These are constants appearing the bounds
 	dM = np.max(d)
-	d1 = np.min(d[d>0])
+	d1 = np.min(d)
 	delta2 = d - d1
 	delta2 = np.min(delta2[delta2>0])
 	deltaM = dM - d1
 
 	# lower bound VC13 (7)
-	beta1 = max(M*np.log(M/perplexity)/((M-1)*deltaM), np.sqrt(np.log(M/perplexity)/(dM**4 - d1**4)))
+	beta1 = max(M*np.log(M/perplexity)/((M-1)*deltaM), np.sqrt(np.log(M/perplexity)/(dM**2 - d1**2)))
 	# upper bound VC13 (8)
 	beta2 = 1/delta2*np.log(p1/(1-p1)*(M - 1))
 	
-- 
2.43.0


From 552c06b35bfbe344ebcb2843ca3dd046be80fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 037/114] fix: local_linear with Xt returned as many models as
 samples

---
 psdr/local_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 331b1fb..bf65ebe 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -177,7 +177,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 	Y = np.hstack([np.ones((M, 1)), X])
 	
 	# Coefficients in linear models
-	A = np.zeros((M, m+1))
+	A = np.zeros((len(Xt), m+1))
 	for i, xi in enumerate(Xt):
 		d = cdist(X, xi.reshape(1,-1), 'sqeuclidean').flatten()
 		if perplexity:
-- 
2.43.0


From bef917d4eaf33738560cff58ec2c63ba638193ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 038/114] fix: Xia bandwidth heuristic depends on the
 dimension, not the number of samples

---
 psdr/local_linear.py | 2 +-
 psdr/opg.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index bf65ebe..8b5dfa8 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -169,7 +169,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		perplexity = None
 		if bandwidth == 'xia':
 			# Bandwidth from Xia 2007, [Li18, eq. 11.5] 
-			bandwidth = 2.34*M**(-1./(max(M, 3) +6))
+			bandwidth = 2.34*M**(-1./(max(m, 3) +6))
 
 
 	# Storage for the gradients
diff --git a/psdr/opg.py b/psdr/opg.py
index 57d0f5d..5b57bb5 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -120,7 +120,7 @@ class OuterProductGradient(ActiveSubspace):
 			bandwidth = self.bandwidth
 
 		# Step 3: Estimate gradients
-		z_grads = local_linear_grads(Z, fX, perplexity = self.perplexity, bandwidth = self.bandwidth)
+		z_grads = local_linear_grads(Z, fX, perplexity = self.perplexity, bandwidth = bandwidth)
 
 		# Step 4: identify the active subspace
 		ActiveSubspace.fit(self, z_grads)
-- 
2.43.0


From ae05adabc18b3b7aeb93054ae89f05b7eea2168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 039/114] fix: outer product gradient did not invert the
 standardization of X

---
 psdr/opg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index 5b57bb5..b52a91e 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -127,9 +127,9 @@ class OuterProductGradient(ActiveSubspace):
 			
 		if self.standardize:
 			# Undo the coordiante change introduced by standardization 
-			Dinv2 = np.diag(std**(-0.5))
-			U = Dinv2.dot(self.U)
+			Dinv = np.diag(1./std)
+			U = Dinv.dot(self.U)
 			Q, R = np.linalg.qr(U, mode = 'reduced')
 			self._U = Q
-			self._U = self._fix_subspace_signs_grads(self._U, z_grads)		
+			self._U = self._fix_subspace_signs_grads(self._U, z_grads.dot(Dinv))		
 		
-- 
2.43.0


From 412b0bc2f011aebb806bba64acdcd2c05dc65197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 040/114] fix: subspace directions with zero average slope were
 set to zero

---
 psdr/subspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 425b2b5..ee66d45 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -274,7 +274,10 @@ class SubspaceBasedDimensionReduction(object):
 		return U.dot(np.diag(np.sign(sgn)))	
 
 	def _fix_subspace_signs_grads(self, U, grads):
-		return U.dot(np.diag(np.sign(np.mean(grads.dot(U), axis = 0))))
+		sgn = np.sign(np.mean(grads.dot(U), axis = 0))
+		# If the average slope is zero, keep the current orientation
+		sgn[sgn == 0] = 1
+		return U.dot(np.diag(sgn))
 
 	
 	def approximate_lipschitz(self, X = None, fX = None, grads = None,  dim = None):
-- 
2.43.0


From 5ff3b184d560592aed0c74def2ece4507a863c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 041/114] fix: extent of a convex hull lost accuracy for short
 and long directions

---
 psdr/domains/convexhull.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index f468984..80dae7f 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -90,12 +90,15 @@ class _Extent:
 			return np.inf
 		kwargs['warm_start'] = False
 		self.x_norm.value = self.domain.normalize(x)
-		self.p_norm.value = self.domain.normalize(x+p)-self.domain.normalize(x)
+		# the direction is scaled to length one so that the accuracy of the solver does not depend on its length
+		p_norm = self.domain._normalize_der().dot(p)
+		scale = np.linalg.norm(p_norm)
+		self.p_norm.value = p_norm/scale
 
 		#self.prob.solve(verbose = True)
 		self.prob.solve(**merge(self.domain.kwargs, kwargs))
 		try:
-			return float(self.beta.value)
+			return float(self.beta.value)/scale
 		except Exception as e:
 			print(e)
 			return 0
-- 
2.43.0


From c927179465b67502b2906f27c6ac42b85c2b0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 042/114] fix: affine ridge approximations with bounds used the
 direction of the opposite bound

---
 psdr/polyridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index ea99544..16c943c 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -382,9 +382,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 				b = inf_norm_fit(XX, fX)
 		elif self.bound == 'lower':
 			# fX >= XX b
-			b = bound_fit(XX, fX, norm = self.norm)
+			b = bound_fit(-XX, -fX, norm = self.norm)
 		elif self.bound == 'upper':
-			b = bound_fit(-XX, -fX, norm = self.norm)	 	
+			b = bound_fit(XX, fX, norm = self.norm)	 	
 
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
-- 
2.43.0


From 4f0a46725d6d044792bd8ef8112b644ae94468f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 043/114] fix: affine ridge approximation of constant data
 returned NaN

---
 psdr/polyridge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 16c943c..7c2f475 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -371,7 +371,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		XX = np.hstack([dom.normalize(X), np.ones((X.shape[0],1))])
 
 		# Normalize the output
-		fX = (fX - np.min(fX))/(np.max(fX) - np.min(fX))
+		fX = fX - np.min(fX)
+		if np.max(fX) > 0:
+			fX = fX/np.max(fX)
 
 		if self.bound is None:
 			if self.norm == 1:
@@ -389,7 +391,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
 		U = dom._normalize_der().dot(U)
-		# Force to have unit norm
+		# Force to have unit norm; for constant data every direction is optimal
+		if np.linalg.norm(U) == 0:
+			U[0] = 1.
 		U /= np.linalg.norm(U)
 		return U	
 
-- 
2.43.0


From 16f26792db75fc4be3354d980aa50320d9716d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 044/114] fix: ridge directions with zero average slope were
 set to zero

---
 psdr/polyridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 7c2f475..90e9140 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -103,7 +103,7 @@ class IllposedException(Exception):
 def orth(U):
 	""" Orthgonalize, but keep directions"""
 	U, R = np.linalg.qr(U, mode = 'reduced')
-	U = np.dot(U, np.diag(np.sign(np.diag(R)))) 
+	U = np.dot(U, np.diag(np.where(np.diag(R) < 0, -1., 1.))) 
 	return U
 
 def inf_norm_fit(A, b):
@@ -440,7 +440,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
 			grads = self.profile.grad(Y)
-			self._U = U = U.dot(np.diag(np.sign(np.mean(grads, axis = 0))))
+			self._U = U = U.dot(np.diag(np.where(np.mean(grads, axis = 0) < 0, -1., 1.)))
 		
 		# Step 3: final fit	
 		self.coef = self._fit_coef(X, fX, U)
-- 
2.43.0


From 1e8bd4dcb13d2e0b210005dd1c6bce8d29e432f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 045/114] fix: psdr.exceptions.UnderdeterminedException was not
 the exception raised by ridge approximations

---
 psdr/polyridge.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 90e9140..dc05d40 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -91,11 +91,8 @@ class PolynomialRidgeFunction(RidgeFunction):
 
 
 ################################################################################
-# Two types of custom errors raised by PolynomialRidgeApproximation
+# Custom error raised by PolynomialRidgeApproximation
 ################################################################################
-class UnderdeterminedException(Exception):
-	pass
-
 class IllposedException(Exception):
 	pass
 
-- 
2.43.0


From 7e60d12fd049c77d59c7c9925e54f2b162cafa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 046/114] fix: orthogonality constraint on the search direction
 of ridge approximations with several dimensions

---
 psdr/polyridge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index dc05d40..33034f5 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -650,7 +650,8 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			N = len(self.basis)
 			n = self.subspace_dimension
 			U = U_c[:m*n].reshape(m,n)
-			constraints = [ pU_pc[k*m:(k+1)*m].__rmatmul__(U.T) == np.zeros(n) for k in range(n)]
+			# (U is flattened row by row)
+			constraints = [ pU_pc[k:m*n:n].__rmatmul__(U.T) == np.zeros(n) for k in range(n)]
 			return constraints
 
 		# setup lower/upper bound into SLP solver
-- 
2.43.0


From 1167c9674601b9d2e7e4de49743474b8695ed5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 047/114] fix: gauss_newton only updated the norm of the
 gradient if verbose

---
 psdr/gn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index ca2da09..4160657 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -216,7 +216,8 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 
 		normdx = np.linalg.norm(dx)
 		F_eval = F(x)
-		grad = F_eval.T @ f_eval_new
+		grad = F_eval.T @ f_eval
+		normgrad = np.linalg.norm(grad)
 		
 
 		#########################################################################
@@ -227,7 +228,6 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 			cond = s[0] / s[-1]
 		
 		if verbose >= 1:
-			normgrad = np.linalg.norm(grad)
 			print(
 				'    %3d  |  %1.4e  |  %8.2e  |  %8.2e  |  %8.2e  |  %8.2e' % (
 				it, normf, normdx, cond, alpha, normgrad))
-- 
2.43.0


From 2fe235a30fdb785203c8c766b00c05aeaeab46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 048/114] fix: ridge approximations with as many ridge
 directions as inputs raised an IndexError

---
 psdr/gn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index 4160657..38d9cbb 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -222,7 +222,10 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 
 		#########################################################################
 		# Printing section 
-		if s[-1] == 0:
+		if len(s) == 0:
+			# no degrees of freedom; e.g., if the whole space is the optimal subspace
+			cond = 1.
+		elif s[-1] == 0:
 			cond = np.inf
 		else:	
 			cond = s[0] / s[-1]
-- 
2.43.0


From 95b81aa311b36b571afb5034936a27a16854bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 049/114] fix: polynomial_ridge_approximation failed for a
 single output given as a vector

---
 psdr/polyridge_vec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge_vec.py b/psdr/polyridge_vec.py
index 5052603..0d29d94 100644
--- a/psdr/polyridge_vec.py
+++ b/psdr/polyridge_vec.py
@@ -140,7 +140,8 @@ def polynomial_ridge_approximation(X, fX, dimension, degree, fixed_subspace = No
 	# TODO: Dimension checks
 
 	M, m = X.shape
-	fX = np.atleast_2d(fX)
+	# a single output may be given as a vector
+	fX = np.asarray(fX).reshape(M, -1)
 
 	if U0 is None:
 		A = np.hstack([initialize_subspace(X = X, fX = fXi) for fXi in fX.T]) 
-- 
2.43.0


From bc0c2892aa17a786d849faa0985910e4ecec89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 050/114] fix: derivatives of polynomial ridge functions failed
 for lists

---
 psdr/polyridge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 33034f5..a1d2b53 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -38,12 +38,13 @@ class PolynomialRidgeFunction(RidgeFunction):
 
 	def DV(self, X, U = None):
 		if U is None: U = self.U
-		
+		X = np.array(X)	
 		Y = (U.T @ X.T).T
 		return self.basis.DV(Y)
 
 	def DDV(self, X, U = None):
 		if U is None: U = self.U
+		X = np.array(X)	
 		Y = (U.T @ X.T).T
 		return self.basis.DDV(Y)
 
@@ -52,6 +53,7 @@ class PolynomialRidgeFunction(RidgeFunction):
 		return Vc
 	
 	def grad(self, X):
+		X = np.array(X)
 		if len(X.shape) == 1:
 			one_d = True
 			X = X.reshape(1,-1)	
@@ -69,6 +71,7 @@ class PolynomialRidgeFunction(RidgeFunction):
 			return Df
 
 	def hessian(self, X):
+		X = np.array(X)
 		if len(X.shape) == 1:
 			one_d = True
 			X = X.reshape(1,-1)	
-- 
2.43.0


From 34d048dfd0cd94b737c44835afbb6c3cc64cb088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 051/114] fix: sign of the directions of ridge approximations
 used coordinates before the rotation

---
 psdr/polyridge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index a1d2b53..53ddfcc 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -439,7 +439,8 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		# Step 2: Flip signs such that average slope is positive in the coordinate directions
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
-			grads = self.profile.grad(Y)
+			# The profile is now a function of the rotated coordinates
+			grads = self.profile.grad((U.T @ X.T).T)
 			self._U = U = U.dot(np.diag(np.where(np.mean(grads, axis = 0) < 0, -1., 1.)))
 		
 		# Step 3: final fit	
-- 
2.43.0


From 4614c2ea360349c417315d8718ca97d88559ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 052/114] fix: gauss_newton made no progress on problems with
 residuals larger than 1/ftol

---
 psdr/gn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index 38d9cbb..26bed56 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -202,8 +202,9 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 		if np.inner(grad, dx) >= 0:
 			dx = -grad
 		
-		# Back tracking line search
-		x_new, alpha, f_eval_new = linesearch(f, grad, dx, x, trajectory=trajectory)
+		# Back tracking line search; this compares the norm of f and hence needs the gradient of ||f||
+		normf = np.linalg.norm(f_eval)
+		x_new, alpha, f_eval_new = linesearch(f, grad/normf if normf > 0 else grad, dx, x, trajectory=trajectory)
 		
 
 		normf = np.linalg.norm(f_eval_new)	
-- 
2.43.0


From 0f8548244ac55032558fcf45461c7325dea0b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 053/114] fix: gauss_newton took huge steps for rank deficient
 Jacobians

---
 psdr/gn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index 26bed56..aab086a 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -174,7 +174,9 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 		# Scipy seems to properly check for proper allocation of working space, reporting an error with gelsd
 		# so we specify using gelss (an SVD based solver)
 		def gnsolver(F_eval, f_eval):
-			dx, _, _, s = sp.linalg.lstsq(F_eval, -f_eval, lapack_driver = 'gelss')
+			# The default cutoff does not reveal the rank of an exactly rank deficient Jacobian in floating point
+			cond = np.finfo(float).eps*max(F_eval.shape)
+			dx, _, _, s = sp.linalg.lstsq(F_eval, -f_eval, cond = cond, lapack_driver = 'gelss')
 			return dx, s
 
 	x = np.copy(x0)
-- 
2.43.0


From dd85cafd153a1e0f8398977756d963134cbd43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 054/114] fix: Lipschitz matrices were inaccurate for small
 data and failed for constant data

---
 psdr/lipschitz.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index f3029b6..07b97b0 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -139,15 +139,14 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			grads = np.zeros((0, len(self)))
 	
 		# Scale the output units for numerical stability	
-		try:	
-			scale1 = np.max(fX) - np.min(fX)
-		except ValueError:
-			scale1 = 1.
-		try:
-			scale2 = np.max([np.linalg.norm(grad) for grad in grads])
-		except ValueError:
-			scale2 = 1.
-		scale = max(scale1, scale2)
+		scale = 0.
+		if len(fX) > 0:
+			scale = max(scale, np.max(fX) - np.min(fX))
+		if len(grads) > 0:
+			scale = max(scale, np.max([np.linalg.norm(grad) for grad in grads]))
+		if scale == 0:
+			# Constant data
+			scale = 1.
 	
 		if self.epsilon is not None:
 			epsilon = self.epsilon/scale
-- 
2.43.0


From 52a5dcea6381d0af6c65671a475db8b44df60c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 055/114] fix: LipschitzConstant used a scaled epsilon, and
 failed for one or repeated samples

---
 psdr/lipschitz.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 07b97b0..35e2c7f 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -627,10 +627,12 @@ class LipschitzConstant(LipschitzMatrix):
 
 	def _fit(self, X, fX, grads, epsilon, scale):
 		L = 0
-		if len(X) > 0:
-			L_samp = np.max([ (abs(fX[i] - fX[j]) - epsilon )/ np.linalg.norm(X[i] - X[j]) 
-				for i,j in combinations(range(len(X)), 2)])
-			L = max(L, L_samp)
+		# The data is not scaled here, whereas epsilon is
+		epsilon = epsilon*scale
+		for i, j in combinations(range(len(X)), 2):
+			# Pairs that are within epsilon (e.g., repeated samples) do not constrain the constant
+			if abs(fX[i] - fX[j]) > epsilon:
+				L = max(L, (abs(fX[i] - fX[j]) - epsilon)/np.linalg.norm(X[i] - X[j]))
 
 		if len(grads) > 0:
 			L_grad = np.max([np.linalg.norm(grad) for grad in grads])
-- 
2.43.0


From 2546a550f7c0d1f7086ad7a29ba241cd45777ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 056/114] fix: the data of fitted Lipschitz matrices was not
 available

---
 psdr/lipschitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 35e2c7f..27d377e 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -137,6 +137,8 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			grads = np.array(grads).reshape(-1,len(self))
 		else:
 			grads = np.zeros((0, len(self)))
+
+		self._X, self._fX, self._grads = X, fX, grads
 	
 		# Scale the output units for numerical stability	
 		scale = 0.
-- 
2.43.0


From 53055c144f0ef5ff79509ddf9077be3903a00dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 057/114] fix: Lipschitz uncertainty failed for lists

---
 psdr/lipschitz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 27d377e..a557a3f 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -399,7 +399,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		lb = -np.inf*np.ones(Xtest.shape[0])
 		ub = np.inf*np.ones(Xtest.shape[0])
 
-		fX = fX.flatten()
+		fX = np.array(fX).flatten()
 
 		LX = self.L.dot(X.T).T
 		LXtest = self.L.dot(Xtest.T).T
@@ -454,10 +454,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		ub: float
 			Upper bound
 		"""
+		X = np.atleast_2d(np.array(X))
+		fX = np.array(fX).flatten()
+
 		lower_bound = LowerBound(self.L, X, fX)
 		upper_bound = UpperBound(self.L, X, fX)
-		
-		fX = fX.flatten()
 	
 		# Force these to be far apart
 		#X0 = initial_sample(domain, self.L, Nsamp = Nsamp) 
-- 
2.43.0


From d4db8a2647b5c7ec5b6cc5d075c601834c8db218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 058/114] fix: uncertainty of the epsilon-Lipschitz matrix on a
 domain ignored epsilon

---
 psdr/lipschitz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index a557a3f..e7ca623 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -487,7 +487,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			x = minimax(upper_bound, x0, domain = domain, verbose = verbose, trust_region = False)
 			ubs.append(np.min(-upper_bound(x)))
 			#print(lbs[-1], ubs[-1])
-		return float(np.min(lbs)), float(np.max(ubs))
+		lb, ub = float(np.min(lbs)), float(np.max(ubs))
+		if self.epsilon is None:
+			return lb, ub
+		else:
+			return lb - self.epsilon, ub + self.epsilon
 
 #		# Attempts at making a parallel interface
 #		else:
-- 
2.43.0


From 757ecd311922c65e63d58e8a440b5d709dcb65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 059/114] fix: directions of a diagonal Lipschitz matrix were
 kept when fitting again

---
 psdr/lipschitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index e7ca623..ea27274 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -618,6 +618,8 @@ class DiagonalLipschitzMatrix(CoordinateBasedDimensionReduction, LipschitzMatrix
 		# Unlike the matrix case, we do not rotate coordinates
 		self._H = scale**2 * H
 		self._L = scale * np.diag(np.sqrt(np.diag(H)))
+		# Discard the important directions of a previous fit
+		self._U = None
 		
 		self._score = np.diag(self._L).copy()		
 		#self._U = np.eye(len(self._score))[:,np.argsort(-self._score)] 
-- 
2.43.0


From 72f682592c1ce857b0906c06ff0eee06ebc7c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 060/114] fix: uncertainty failed for a given Lipschitz
 constant

---
 psdr/lipschitz.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index ea27274..6761bfb 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -649,6 +649,15 @@ class LipschitzConstant(LipschitzMatrix):
 
 		self._L = L
 
+	def uncertainty(self, X, fX, Xtest):
+		# If the constant was given, the dimension is only known now
+		self._init_dim(X = np.atleast_2d(np.array(X)))
+		return LipschitzMatrix.uncertainty(self, X, fX, Xtest)
+
+	def uncertainty_domain(self, X, fX, domain, **kwargs):
+		self._init_dim(X = np.atleast_2d(np.array(X)))
+		return LipschitzMatrix.uncertainty_domain(self, X, fX, domain, **kwargs)
+
 	@property
 	def H(self):
 		return self._L**2 * np.eye(len(self))
-- 
2.43.0


From 1050b0cbc2fe8bb71d3187ececeda13717cdf73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 061/114] fix: partial epsilon-Lipschitz matrix constrained
 pairs of samples within epsilon

---
 psdr/lipschitz_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index d465cb9..f817fbd 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -161,7 +161,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		for i in range(len(X)):
 			for j in range(i+1, len(X)):
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
 				rhs = cp.quad_form(UTy, J) + alpha*( y.dot(y) - UTy.dot(UTy))
@@ -203,7 +203,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			for j in range(i+1, len(X)):
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2 
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2 
 				# y.T @ U.T @ J @  U @ y + alpha* y.T @ (I - U @ U.T) @ y
 				lhs -= UTy.dot(J.dot(UTy)) + alpha*(y.dot(y) - UTy.dot(UTy)) # 0th order term
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
-- 
2.43.0


From fa9c6a21119b362c859128141128192afbc03e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 062/114] fix: linearisation of the trailing block of the
 partial Lipschitz matrix

---
 psdr/lipschitz_partial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index f817fbd..56a93d6 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -209,7 +209,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
 				rhs = (2*Up.T.__rmatmul__(J.dot(UTy))).__matmul__(y) + cp.quad_form(UTy, Jp) # 1st order term
 				#rhs = 2*Up.T.__matmul__(y).__rmatmul__(J.dot(UTy)) + cp.quad_form(UTy, Jp)
-				rhs += -2*alpha*(Up.T.__matmul__(y)).__rmatmul__(J.dot(UTy).T) + alphap*(y.dot(y) - UTy.dot(UTy))
+				rhs += -2*alpha*(Up.T.__matmul__(y)).__rmatmul__(UTy.T) + alphap*(y.dot(y) - UTy.dot(UTy))
 				constraints.append(lhs <= rhs)
 
 		Pperp = np.eye(m) - U.dot(U.T) 
-- 
2.43.0


From 50c1e7d45cf5d031b53ac73e86332dc1edd7e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 063/114] fix: partial Lipschitz matrix L was NaN if J is
 singular

---
 psdr/lipschitz_partial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index 56a93d6..26e10eb 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -86,6 +86,9 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 		# Flip to descending order
 		ew = ew[::-1]
 		ev = ev[:,::-1]
+		# Remove negative eigenvalues due to rounding, as L contains their square root
+		ew = np.maximum(ew, 0)
+		alpha = max(alpha, 0.)
 		# Rotate onto the domaint subspace, so J becomes diagonal
 		J = np.diag(ew)
 		# NB: since J is symmetric, its eigenvectors are orthogonal and hence
-- 
2.43.0


From 09d32a1f967750ef7c1402bf097033c77f33259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 064/114] fix: partial Lipschitz matrix failed if the
 linearised problem is unbounded

---
 psdr/lipschitz_partial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index 26e10eb..dbcb25a 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -253,7 +253,13 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			print("%4d | %14.10e |          |          | %7.2e | %7.2e | %7.2e |" % (0, obj, np.max(lam), np.min(lam), alpha))	
 
 		for it in range(self.maxiter):
-			dU, dJ, dalpha = self._U_descent(U, J, alpha, X, fX, grads, epsilon)
+			try:
+				dU, dJ, dalpha = self._U_descent(U, J, alpha, X, fX, grads, epsilon)
+			except ValueError:
+				# the linearized problem may be unbounded; J and alpha remain optimal for U
+				if self.verbose:
+					print("stopped as no search direction was found")
+				break
 
 			if np.linalg.norm(dU) < self.tol_dx:
 				if self.verbose:
-- 
2.43.0


From b030056b5b62ada88d717d1bbb87474a90ff586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 065/114] fix: local_linear failed by default if there are no
 more than m+1 samples

---
 psdr/local_linear.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 8b5dfa8..3e6a203 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -161,7 +161,11 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		Xt = X
 
 	if perplexity is None and bandwidth is None:
-		perplexity = min(m+1, M)
+		if M > m+1:
+			perplexity = m+1
+		else:
+			# Perplexity M: all the samples have the same weight 
+			bandwidth = 0.
 	if perplexity is not None:
 		bandwidth = None
 		assert perplexity >= 2 and perplexity < M, "Perplexity must be in the interval [2,M)"
-- 
2.43.0


From 3131c4f41fa17b02774bec45f52ccb20b7dce5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 066/114] fix: partial Lipschitz matrix required an orthonormal
 initial subspace

---
 psdr/lipschitz_partial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index dbcb25a..7ba7c35 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -75,7 +75,8 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 				# Checks on dimension of U0
 				assert self.U0.shape[0] == X.shape[1]
 				assert self.U0.shape[1] == self.rank
-				U0 = self.U0
+				# an orthonormal basis for the initial subspace
+				U0, _ = np.linalg.qr(self.U0)
 		
 			U, J, alpha = self._optimize(U0, X, fX/scale, grads/scale, epsilon)
 		else:
-- 
2.43.0


From 4557ef533a769a799476723bc53f93b1dc8ec2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 067/114] fix: gradients of the Lipschitz bounds failed if L is
 not square

---
 psdr/lipschitz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 6761bfb..ad6787d 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -686,7 +686,7 @@ class LowerBound(BaseFunction):
 	def grad(self, x):
 		y = np.dot(self.L, x)
 		norms = cdist(y.reshape(1,-1), self.Y, 'euclidean').flatten()
-		G = np.zeros([self.Y.shape[0], x.shape[0]] )
+		G = np.zeros(self.Y.shape)
 		I = (norms > 0)
 		G[I,:] = -(  (y - self.Y[I]).T /norms[I]).T
 		G = self.L.T.dot(G.T).T
@@ -706,7 +706,7 @@ class UpperBound(BaseFunction):
 	def grad(self, x):
 		y = np.dot(self.L, x)
 		norms = cdist(y.reshape(1,-1), self.Y, 'euclidean').flatten()
-		G = np.zeros([self.Y.shape[0], x.shape[0]] )
+		G = np.zeros(self.Y.shape)
 		I = (norms > 0)
 		G[I,:] = -((y - self.Y[I]).T/norms[I]).T
 		G = self.L.T.dot(G.T).T
-- 
2.43.0


From f70027f3349601cc351d2af6c7e63d036c530ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 068/114] fix: Voronoi vertices for rank-deficient metrics and
 equality constraints

---
 psdr/geometry/geometry.py |   4 +-
 psdr/geometry/vertex.py   | 107 ++++++++++++++++++++++----------------
 2 files changed, 66 insertions(+), 45 deletions(-)

diff --git a/psdr/geometry/geometry.py b/psdr/geometry/geometry.py
index f2b1f48..942d4b7 100644
--- a/psdr/geometry/geometry.py
+++ b/psdr/geometry/geometry.py
@@ -63,9 +63,11 @@ def unique_points(X):
 		List of points with no points close to each other
 	"""
 	D = squareform(pdist(X))
+	# Points are close relative to the extent of the set
+	tol = 1e-8*np.max(D, initial = 0)
 	I = np.ones(len(X), dtype = np.bool)
 	for i in range(len(X)-1):
-		I[i] = ~np.isclose(np.min(D[i,i+1:]), 0)
+		I[i] = np.min(D[i,i+1:]) > tol
 	return I
 
 
diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 2d747a1..f66d79d 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -46,71 +46,45 @@ def voronoi_vertex(domain, Xhat, L = None):
 	This approach may offer some speedup, but I trust Q-hull more than my own implementation.
 
 	"""
+	Xhat = np.atleast_2d(np.array(Xhat))
+
 	if len(domain) == 1:
 		return voronoi_vertex_1d(domain, Xhat)
 	
 	assert np.all(domain.isinside(Xhat))
 
-
 	if L is None:
 		L = np.eye(len(domain))
-		Linv = np.eye(len(domain))
-	else:
-		U, s, VT = np.linalg.svd(L)
-		Linv = VT.T @ np.diag(1./s) @ U.T
-
-
 
 	# Half spaces from the domain
 	A, b = domain.A_aug, domain.b_aug
 
-	if len(Xhat) == 1:
-		halfspaces = np.hstack([A, -b.reshape(-1,1)])
-		hs = HalfspaceIntersection(halfspaces, Xhat[0])
-		return hs.intersections	
+	# Coordinates z on the affine subspace on which the domain lies, x = x0 + Q z
+	x0 = Xhat[0]
+	A_eq = np.vstack([domain.A_eq, np.eye(len(domain))[domain.lb == domain.ub]])
+	Q = np.eye(len(domain)) if len(A_eq) == 0 else scipy.linalg.null_space(A_eq)
+	A, b = A @ Q, b - A @ x0
+	Zhat = (Xhat - x0) @ Q
 
 	Yhat = (L @ Xhat.T).T
+	scale = np.max(cdist(Yhat, Yhat))
 	LV = []
-	for k, xhat in enumerate(Xhat):
+	for k in range(len(Xhat)):
+		# Half spaces (in z) of points closer to Xhat[k] in the metric given by L; 
+		# posing these on the domain allows L to be rank-deficient
 		Ak = Yhat - Yhat[k] 
-		#Ak = np.vstack([L @ (Xhat[j] - xhat) for j in range(len(Xhat)) if j != k])
-		center = 0.5 * (Yhat[k] + Yhat)
-		#center = np.vstack([ 0.5*L @ (xhat + Xhat[j]) for j in range(len(Xhat)) if j != k]) 
+		center = 0.5 * (Yhat[k] + Yhat) - L @ x0
 		bk = np.sum(Ak * center, axis = 1)
 		
-		# If two Xhat are the same, we can end up with a situation 
+		# If two Xhat are the same in this metric, we can end up with a situation 
 		# where the constraint stops  so we filter these out
-		I = np.argwhere(np.sum(Ak**2, axis = 1) > 0).flatten()
-		Ak, bk = Ak[I], bk[I]
-	
-		halfspaces = np.hstack([np.vstack([A @ Linv , Ak  ]) , -np.hstack([b, bk]).reshape(-1,1)])
-
-		try:
-			hs = HalfspaceIntersection(halfspaces, xhat)
-		except QhullError:
-			# The point xhat isn't strictly inside the constraints, so we try with a point that is
-			# Here we use the code from scipy documentation 
-			norm_vector = np.reshape(np.linalg.norm(halfspaces[:, :-1], axis=1),(halfspaces.shape[0], 1))
-			cc = np.zeros((halfspaces.shape[1],))
-			cc[-1] = -1
-			AA = np.hstack((halfspaces[:, :-1], norm_vector))
-			bb = -halfspaces[:, -1:]
-			
-			# Solve the linear program with CVXOPT as scipy's linprog reports ill-conditioning 
-			sol = solvers.lp(matrix(cc), matrix(AA), matrix(bb))
-			xhat2 = np.array(sol['x'][:-1]).flatten()
-			
-			try:
-				hs = HalfspaceIntersection(halfspaces, xhat2)
-			except QhullError as e:
-				raise e
-
+		I = np.argwhere(np.sqrt(np.sum(Ak**2, axis = 1)) > 1e-12*scale).flatten()
+		Ak, bk = Ak[I] @ L @ Q, bk[I]
 
 		# TODO: Do we want to keep indexing information, or only return the vertices 
-		LV.append(np.copy(hs.intersections))
+		LV.append(halfspace_vertices(np.vstack([A, Ak]), np.hstack([b, bk]), Zhat[k]))
 
-	LV = np.vstack(LV)
-	V = (Linv @ LV.T).T
+	V = x0 + np.vstack(LV) @ Q.T
 	I = unique_points(V)
 	V = V[I]
 	
@@ -118,6 +92,51 @@ def voronoi_vertex(domain, Xhat, L = None):
 	V = V[I]
 	return V
 
+def halfspace_vertices(A, b, z):
+	r""" Vertices of the polytope A z <= b 
+
+	Parameters
+	----------
+	A: np.ndarray (M, n)
+		Normals of the half spaces
+	b: np.ndarray (M,)
+		Offsets of the half spaces
+	z: np.ndarray (n,)
+		Point inside (or on the boundary) of the polytope
+	"""
+	n = len(z)
+	# Normalize, discarding constraints that do not apply to this subspace
+	norms = np.linalg.norm(A, axis = 1)
+	I = norms > 1e-12*np.max(norms, initial = 0)
+	A, b = A[I]/norms[I].reshape(-1,1), b[I]/norms[I]
+
+	if n == 0:
+		return np.zeros((1,0))
+
+	if n == 1:
+		# Qhull only works on two or more dimensions
+		a = A.flatten()
+		return np.array([[np.max(-b[a<0])], [np.min(b[a>0])]])
+
+	halfspaces = np.hstack([A, -b.reshape(-1,1)])
+	try:
+		slack = b - A @ z
+		if np.min(slack) > 1e-8*np.max(slack):
+			return np.copy(HalfspaceIntersection(halfspaces, z).intersections)
+	except QhullError:
+		pass
+
+	# The point z isn't strictly inside the constraints, so we try with a point that is
+	# Here we use the code from scipy documentation 
+	cc = np.zeros((halfspaces.shape[1],))
+	cc[-1] = -1
+	AA = np.hstack((A, np.ones((len(A), 1))))
+	
+	# Solve the linear program with CVXOPT as scipy's linprog reports ill-conditioning 
+	sol = solvers.lp(matrix(cc), matrix(AA), matrix(b - A @ z))
+	z2 = z + np.array(sol['x'][:-1]).flatten()
+	return np.copy(HalfspaceIntersection(halfspaces, z2).intersections)
+
 def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 	r""" Constructs a subset of the Voronoi vertices on a given domain 
 
-- 
2.43.0


From ef7cfcf3903f64660e4314ed8dc0a3612da6fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 069/114] fix: evaluating a Gaussian process at a single point
 or a list failed

---
 psdr/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/gp.py b/psdr/gp.py
index 0116d93..0e0a783 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -363,6 +363,7 @@ class GaussianProcess(BaseFunction):
 		self._ell = ell
 
 	def eval(self, Xnew, return_cov = False):
+		Xnew = np.atleast_2d(np.array(Xnew))
 		Y = np.dot(self.L, self.X.T).T
 		Ynew = np.dot(self.L, Xnew.T).T
 		dij = cdist(Ynew, Y, 'sqeuclidean')	
-- 
2.43.0


From 339ed52d90c601765e674258c4311e164262ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 070/114] fix: fitting a Gaussian process failed if the
 optimizer left the range of floating point numbers

---
 psdr/gp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/psdr/gp.py b/psdr/gp.py
index 0e0a783..e15c0df 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -181,7 +181,15 @@ class GaussianProcess(BaseFunction):
 		m = X.shape[1]	
 
 
-		L = self._make_L(ell)
+		with np.errstate(over = 'ignore', invalid = 'ignore'):
+			L = self._make_L(ell)
+		if not np.all(np.isfinite(L)) and not return_alpha_beta:
+			# The optimizer took a step outside of the range of floating point numbers
+			obj, grad = np.inf, np.nan*np.ones(len(ell))
+			if return_obj and return_grad:
+				return obj, grad
+			return obj if return_obj else grad
+
 		# Compute the squared distance
 		Y = np.dot(L, X.T).T
 		dij = pdist(Y, 'sqeuclidean') 
-- 
2.43.0


From a41d0ba6d45da9679885e381adf766f107d510ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 071/114] fix: one-dimensional Voronoi vertices included points
 between the samples and the boundary

---
 psdr/geometry/vertex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index f66d79d..12ad1ca 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -28,7 +28,7 @@ def voronoi_vertex_1d(domain, Xhat, L = None):
 	lb = domain.corner(np.array([-1]))
 	ub = domain.corner(np.array([1]))
 	
-	X = np.sort(np.hstack([Xhat.flatten(), ub, lb]))
+	X = np.sort(Xhat.flatten())
 	# mid point between X
 	V = 0.5*(X[1:] + X[:-1])
 	# add boundaries
-- 
2.43.0


From 7e3a85cbc35c6cff7c93a971e0b6271e6ea551a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 072/114] fix: sampling Voronoi vertices stopped early with
 linearly dependent active constraints

---
 psdr/geometry/vertex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 12ad1ca..74d6049 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -263,7 +263,8 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			nullspace = np.hstack(nullspace)
 			# If there are no active constraints, don't do anything
 			if nullspace.shape[1]>0:
-				Q, R = scipy.linalg.qr(nullspace, overwrite_a = True, mode = 'economic')
+				# These constraints can be linearly dependent
+				Q = scipy.linalg.orth(nullspace)
 				h[i] -= Q.dot(Q.T.dot(h[i]))
 				if np.isclose(np.linalg.norm(h[i]), 0) and randomize:
 					# If L is low-rank we can have situations where h[i]	
@@ -311,6 +312,8 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			alpha_c = (b - AX0)/Ah
 		alpha_c[~np.isfinite(alpha_c)] = np.inf
 		alpha_c[alpha_c <= 0] = np.inf
+		# The search direction is in the nullspace of the active constraints
+		alpha_c[active] = np.inf
 		# When the step size is near zero, the above formula is inaccurate
 		# causing points to emerge outside of the domain. Hence, we zero the
 		# step size for these points.
-- 
2.43.0


From 8a9cf2c37e72179d9dc972c6b2c72a778d8e3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 073/114] fix: sampling Voronoi vertices depended on the units
 of the metric

---
 psdr/geometry/vertex.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 74d6049..775007d 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -241,6 +241,9 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 		# set the search direction to move away from the closest point
 		h = X0 - Xhat[I[:,0]]
 		h = LTL.dot(h.T).T
+		# only the direction matters; normalized so the tolerances below do not depend on units
+		norms = np.linalg.norm(h, axis = 1).reshape(-1,1)
+		h /= np.where(norms > 0, norms, 1)
 			 
 
 		# which inequality constraints on the domain are active
@@ -256,7 +259,7 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 
 			# constraints from other points in the domain
 			for j in range(1, min(k+1, len(Xhat))):
-				if np.isclose(D[i,I[i,0]], D[i,I[i,j]]):	
+				if np.isclose(D[i,I[i,0]], D[i,I[i,j]], atol = 0):	
 					nullspace += [LTL.dot(Xhat[I[i,0]] - Xhat[I[i,j]]).reshape(-1,1)]
 					#h[i] += (X0[i] - Xhat[I[i,j]])
 
@@ -264,7 +267,8 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			# If there are no active constraints, don't do anything
 			if nullspace.shape[1]>0:
 				# These constraints can be linearly dependent
-				Q = scipy.linalg.orth(nullspace)
+				norms = np.linalg.norm(nullspace, axis = 0)
+				Q = scipy.linalg.orth(nullspace/np.where(norms > 0, norms, 1), rcond = 1e-10)
 				h[i] -= Q.dot(Q.T.dot(h[i]))
 				if np.isclose(np.linalg.norm(h[i]), 0) and randomize:
 					# If L is low-rank we can have situations where h[i]	
@@ -297,7 +301,7 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			numerator = -np.sum( (L.dot(X0.T).T - p0)*n, axis = 1)
 			
 			alpha_c = np.inf*np.ones(alpha.shape)
-			act = ~np.isclose(np.abs(nh), 0) 
+			act = np.abs(nh) > 1e-8*np.linalg.norm(n, axis = 1)*np.linalg.norm(L, 2)
 			alpha_c[act] = numerator[act]/nh[act]
 			# When xhat is the closest point, we get a divide by zero error
 			# We cannot move backwards, so these are also set to infinity
-- 
2.43.0


From 5c1985974f030f5198d66d619ae60fe6f0b8a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 074/114] fix: maximin Latin hypercube failed for one sample
 and returned None without an improvement

---
 psdr/sample/latin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/latin.py b/psdr/sample/latin.py
index ce5b445..5dd1b84 100644
--- a/psdr/sample/latin.py
+++ b/psdr/sample/latin.py
@@ -91,10 +91,12 @@ def _latin_hypercube_maximin_box(domain, N, maxiter = 1000):
 		xi = (xi[1:]+xi[0:-1])/2.
 		xs.append(xi)
 	
-	score_best = tuple(np.zeros(N))
-	X_best = None
 	# Generate random initial permutations
 	perms_best = np.vstack([np.random.permutation(N) for i in range(len(domain))])
+	X_best = np.array([ [xs[i][j] for j in perms_best[i]] for i in range(len(domain))]).T
+	if N == 1:
+		return X_best
+	score_best = _score_maximin(X_best)
 	
 	for it in range(maxiter):
 		# Generate new permutation of the permutations
-- 
2.43.0


From f688094e054ccabf022f2069945fedf2aaed8286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 075/114] fix: initial samples and maximin designs failed for a
 single point

---
 psdr/sample/initial.py | 6 +++---
 psdr/sample/maximin.py | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/initial.py b/psdr/sample/initial.py
index 0abf86b..22ad8c6 100644
--- a/psdr/sample/initial.py
+++ b/psdr/sample/initial.py
@@ -39,7 +39,7 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	if L.shape[0] == L.shape[1]:
 		err = np.linalg.norm(L[0,0]*np.eye(L.shape[0]) - L)
 		if np.isclose(err, 0):
-			return domain.sample(Nsamp)
+			return np.array(domain.sample(Nsamp)).reshape(-1, len(domain))
 
 	# If there is only one point in the domain,
 	# we simply return that one point
@@ -73,10 +73,10 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	# Create a domain using these points
 	Ldom = ConvexHullDomain(Lcs)
 	# Determine which points were used
-	Y = Ldom.sample(Nsamp)
+	Y = np.array(Ldom.sample(Nsamp)).reshape(-1, len(Ldom))
 
 	# Convert back to the ambient space
-	X = np.zeros((Nsamp, len(domain)))
+	X = np.zeros((len(Y), len(domain)))
 	for i, y in enumerate(Y):
 		# Determine the combination coefficients for these samples
 		alpha = Ldom.coefficients(y)
diff --git a/psdr/sample/maximin.py b/psdr/sample/maximin.py
index 0408bf8..46fc5a8 100644
--- a/psdr/sample/maximin.py
+++ b/psdr/sample/maximin.py
@@ -91,6 +91,10 @@ def maximin_block(domain, Nsamp, L = None, xtol = 1e-6, verbose = False, maxiter
 	else:
 		X = np.array(X0)
 
+	if Nsamp == 1:
+		# there is no other point to move away from
+		return X
+
 	if verbose:
 		printer = IterationPrinter(it = '4d', maximin = '16.8e', dx = '10.3e')
 		printer.print_header(it = 'iter', maximin = 'maximin dist.', dx = 'Δx')
-- 
2.43.0


From e880c3559d672c054fc4bce597ac31342cdd2544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 076/114] fix: rank of a metric depended on its units

---
 psdr/sample/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/util.py b/psdr/sample/util.py
index 559d241..8d13ff2 100644
--- a/psdr/sample/util.py
+++ b/psdr/sample/util.py
@@ -19,8 +19,9 @@ def low_rank_L(L):
 	L = np.atleast_2d(L)
 	_, s, VT = scipy.linalg.svd(L)
 	
-	I = np.argwhere(~np.isclose(s,0)).flatten()
-	if np.all(I):
+	# singular values that are zero relative to the largest
+	I = np.argwhere(s > 1e-10*np.max(s)).flatten()
+	if len(I) == L.shape[0]:
 		return L
 	else:
 		U = VT.T[:,I]
-- 
2.43.0


From 4a4396d3f26792ee3593f240f7bb921290f4554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 077/114] fix: Poisson disk sampling on a grid failed for
 points on the boundary and flat domains, and printed its state

---
 psdr/sample/poisson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index 527cee8..956c0ce 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -83,7 +83,7 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 		if L[i,:].dot(c1) > L[i,:].dot(c2):
 			c1, c2 = c2, c1
 		grid_start[i] = L[i,:].dot(c1)
-		grid_dims[i] = int(np.ceil((L[i,:].dot(c2) - L[i,:].dot(c1))/grid_size))
+		grid_dims[i] = int(np.floor((L[i,:].dot(c2) - L[i,:].dot(c1))/grid_size)) + 1
 
 	# Setup the grid
 	grid = np.zeros(grid_dims, dtype = np.uint32)
@@ -92,7 +92,8 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 		""" location of x on the grid"""
 		Lx = L.dot(x).flatten()
 		idx = np.floor((Lx - grid_start)/grid_size)
-		return idx.astype(np.int)
+		# points on the boundary can leave the grid by rounding
+		return np.clip(idx, 0, grid_dims - 1).astype(np.int)
 
 	X = [domain.sample()]
 	active = [True]
@@ -107,7 +108,6 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 			break
 		
 		LX = L.dot(np.array(X).T).T
-		print(active)
 		success = False
 		for it in range(Ntries):
 			# Generate a random direction
-- 
2.43.0


From d628a78be1fc3bd6ecd4c459437b6a16e2545fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 078/114] fix: stretch sampling replaced the existing samples
 with the candidate for the first metric

---
 psdr/sample/stretch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/stretch.py b/psdr/sample/stretch.py
index a2ad68f..de575be 100644
--- a/psdr/sample/stretch.py
+++ b/psdr/sample/stretch.py
@@ -46,10 +46,10 @@ def stretch_sample_domain(domain, X, Ls, verbose = False):
 		xd = []
 		for k, L in enumerate(Ls):
 			try:
-				X, d = _maximin_block_candidate(domain, X, L)
+				x, d = _maximin_block_candidate(domain, X, L)
 			except (SolverError, EmptyDomainException):
-				pass
-			xd.append( list([X, d, L, k]))
+				continue
+			xd.append( list([x, d, L, k]))
 		#xd = [list(_maximin_block_candidate(domain, X, L)) + [L, k] for k, L in enumerate(Ls)]
 		if len(xd) == 0:
 			break
-- 
2.43.0


From f16d4f08fa1d87841f0611a7507b4e7a43566c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 079/114] fix: projection designs failed for polytopes, few
 points, and metrics of several rows, and did not stop without feasible
 designs

---
 psdr/sample/projection.py | 42 +++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 025393c..51363e5 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -1,6 +1,8 @@
 from __future__ import print_function
 
 import numpy as np
+from scipy.spatial import Delaunay
+from scipy.spatial.qhull import QhullError
 from scipy.spatial.distance import pdist, squareform
 from satyrn import picosat
 
@@ -77,7 +79,9 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			I = np.argsort(y.flatten())
 			neighbors = [ None for j in range(Nsamp)]
 			for j in range(Nsamp):
-				if j == 0:
+				if Nsamp == 1:
+					neighbors[I[j]] = np.array([], dtype = np.int)
+				elif j == 0:
 					neighbors[I[j]] = np.array([I[j+1]], dtype = np.int)
 				elif j == Nsamp - 1:
 					neighbors[I[j]] = np.array([I[j-1]], dtype = np.int)
@@ -85,11 +89,15 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 					neighbors[I[j]] = np.array([ I[j-1], I[j+1] ], dtype = np.int)
 			
 		else:
-			delaunay = Delaunay(y)
-			indices, indptr = delaunay.vertex_neighbor_vertices
-			# Convert the Delaunay data structure into a list of neighbors
-			# https://stackoverflow.com/a/23700182
-			neighbors = [indptr[indices[k]:indices[k+1]] for k in range(len(y))]
+			try:
+				delaunay = Delaunay(y)
+				indices, indptr = delaunay.vertex_neighbor_vertices
+				# Convert the Delaunay data structure into a list of neighbors
+				# https://stackoverflow.com/a/23700182
+				neighbors = [indptr[indices[k]:indices[k+1]] for k in range(len(y))]
+			except QhullError:
+				# Too few points (or points on a plane); every other point may be a neighbor
+				neighbors = [np.delete(np.arange(Nsamp), k) for k in range(Nsamp)]
 		
 		# Now construct the inequality constraints for each point's Voronoi cell
 		for j, neigh in enumerate(neighbors):
@@ -101,11 +109,8 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 				A.append( n.T.dot(L.T).dot(L))
 				b.append( n.T.dot(L.T).dot(L).dot(p) )
 			
-			As[i][j] = np.vstack(A)
-			bs[i][j] = np.hstack(b)
-			dom = domain.add_constraints(A = As[i][j], b = bs[i][j])
-			assert dom.isinside(X[j])
-			assert np.sum(dom.isinside(X)) == 1	
+			As[i][j] = np.vstack([np.zeros((0,len(domain)))] + A)
+			bs[i][j] = np.hstack([np.zeros(0)] + b)
 
 
 	def encode(metric, order, value):
@@ -124,7 +129,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	def subdomain_sample(idx):
 		# The point in the domain that is nearest to the target position
 		subdom = subdomain(idx)
-		A = np.vstack([Ls])
+		A = Lall
 		b = np.hstack([y[i] for y, i in zip(ys, idx)])
 		return subdom.constrained_least_squares(A, b)
 			
@@ -151,7 +156,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	geo_cnf += [ [encode(0, value, value)]  for value in range(Nsamp)]
 
 
-	score_best = tuple([0. for i in range(Nsamp)])
+	score_best = tuple([-1. for i in range(Nsamp)])
 	perms_best = []
 	X_best = None
 
@@ -210,7 +215,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 				consubdoms = [subdom.add_constraints(A_eq = Lall, b_eq = Lall.dot(x)) for subdom, x in zip(subdoms, X)]
 				X = np.vstack([consubdom.sample() for consubdom in consubdoms])
 				mask = np.ones(Nsamp, dtype = np.bool)
-				for it2 in range(100):
+				for it2 in range(100 if Nsamp > 1 else 0):
 					max_move = 0
 					for i in range(Nsamp):
 						# Remove the current iterate 
@@ -295,8 +300,8 @@ def _voronoi_cell_point(coord, domain, Ls, ys):
 				A.append(n.T.dot(L))
 				b.append(n.dot(p))
 
-	A = np.vstack(A)
-	b = np.hstack(b)
+	A = np.vstack([np.zeros((0,len(domain)))] + A)
+	b = np.hstack([np.zeros(0)] + b)
 	subdom = domain.add_constraints(A = A, b = b) 
 
 	# Left and right hand sides of least squares problem
@@ -373,7 +378,7 @@ def projection_design(domain, M, Ls, ys = None, maxiter = 1000, verbose = True,
 	it = 0
 	sat_solves = 0
 	X_best = None
-	score_best = tuple([0. for i in range(M)])
+	score_best = tuple([-1. for i in range(M)])
 	perms_best = None
 	d_best = None
 
@@ -402,6 +407,9 @@ def projection_design(domain, M, Ls, ys = None, maxiter = 1000, verbose = True,
 				raise
 			except StopIteration:
 				pass
+		else:
+			# There are no designs left to try
+			break
 		
 		# Convert the solution format into a permutation matrix
 		sol = np.array(sol)
-- 
2.43.0


From 207b6f398bbea07a14374c72909b25938a213ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 080/114] fix: Poisson disk sampling on a grid missed neighbors

---
 psdr/sample/poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index 956c0ce..f349fa0 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -122,7 +122,7 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 				idxc = grid_coord(xc)
 				neighbors = []
 				grid_rad = int(2*np.ceil(np.sqrt(L.shape[0])))+1
-				for idx in itertools.product(*[ (j+k for k in range(-grid_rad, grid_rad+1)) for j in idxc]):
+				for idx in itertools.product(*[ range(j - grid_rad, j + grid_rad + 1) for j in idxc]):
 					try:
 						if min(idx) < 0: raise IndexError
 						n = grid[idx]
-- 
2.43.0


From 85979f13406b5ae503e40da57f8d0c91ba88f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 081/114] fix: sampling Voronoi vertices moved through the
 hyperplane on which a point starts

---
 psdr/geometry/vertex.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 775007d..ecbc71f 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -258,10 +258,12 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 				if active[i,j] : nullspace += [A[j].reshape(-1,1)]
 
 			# constraints from other points in the domain
-			for j in range(1, min(k+1, len(Xhat))):
-				if np.isclose(D[i,I[i,0]], D[i,I[i,j]], atol = 0):	
-					nullspace += [LTL.dot(Xhat[I[i,0]] - Xhat[I[i,j]]).reshape(-1,1)]
-					#h[i] += (X0[i] - Xhat[I[i,j]])
+			for j in range(1, len(Xhat)):
+				if not np.isclose(D[i,I[i,0]], D[i,I[i,j]], atol = 0):	
+					# the remaining points are further away
+					break
+				nullspace += [LTL.dot(Xhat[I[i,0]] - Xhat[I[i,j]]).reshape(-1,1)]
+				#h[i] += (X0[i] - Xhat[I[i,j]])
 
 			nullspace = np.hstack(nullspace)
 			# If there are no active constraints, don't do anything
@@ -301,11 +303,10 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			numerator = -np.sum( (L.dot(X0.T).T - p0)*n, axis = 1)
 			
 			alpha_c = np.inf*np.ones(alpha.shape)
-			act = np.abs(nh) > 1e-8*np.linalg.norm(n, axis = 1)*np.linalg.norm(L, 2)
-			alpha_c[act] = numerator[act]/nh[act]
-			# When xhat is the closest point, we get a divide by zero error
-			# We cannot move backwards, so these are also set to infinity
-			alpha_c[alpha_c < 0 ] = np.inf
+			# We never reach the hyperplane when moving away from it (or when xhat is the closest point).
+			# If we start on a hyperplane, the numerator can be negative by rounding 
+			act = nh > 1e-8*np.linalg.norm(n, axis = 1)*np.linalg.norm(L, 2)
+			alpha_c[act] = np.maximum(numerator[act], 0)/nh[act]
 			alpha = np.minimum(alpha, alpha_c)
 
 		# (2) Find intersection with the domain
-- 
2.43.0


From e48c849b4a46f42861b6ccaf572943825e9f95ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 082/114] fix: initial samples failed for badly scaled metrics

---
 psdr/sample/initial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/sample/initial.py b/psdr/sample/initial.py
index 22ad8c6..8bb8fdf 100644
--- a/psdr/sample/initial.py
+++ b/psdr/sample/initial.py
@@ -64,6 +64,9 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	cs = np.array([domain.corner(U @ z) for z in zs])
 	# Multiply by the low-rank Lipschitz matrix 
 	Lcs = (L @ cs.T).T
+	# Center and scale these as the tolerances below are absolute; this does not change the combination coefficients
+	Lcs = Lcs - np.mean(Lcs, axis = 0)
+	Lcs /= max(np.max(np.abs(Lcs)), np.finfo(float).tiny)
 	# Remove duplicates (although done in ConvexHullDomain, we need these unique points to reconstruct the points) 
 	I = unique_points(Lcs)
 	cs = cs[I]
-- 
2.43.0


From bd1ba4bef8fa67dc0ffd0a97c5b45f08ff626d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 083/114] fix: minimax clustering stopped if no coordinate of
 the centers increased

---
 psdr/sample/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 4e5955a..188bcdd 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -375,7 +375,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
 		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
-		dx = np.max(Xhat_new - Xhat)	
+		dx = np.max(np.abs(Xhat_new - Xhat))	
 		Xhat = Xhat_new
 
 		if dx < xtol:
-- 
2.43.0


From 348b0a9dd9effe7f3f1c6f63bcf9361e44ec35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 084/114] fix: minimax clustering did not move a single point

---
 psdr/sample/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 188bcdd..7f11b47 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -345,7 +345,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 
 	# movement cluster centers
 	dx = np.nan
-	I_old = np.zeros(len(X))
+	I_old = -np.ones(len(X))
 
 	if verbose:
 		printer = IterationPrinter(it = '4d', obj = '12.6e', move = '9.3e')
-- 
2.43.0


From 86cccf6bdb6d26a7a1b8b6cda08ba18e30fd760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 085/114] fix: minimax clustering left the domain for rank
 deficient metrics, failed for empty clusters, and changed the solver options

---
 psdr/sample/minimax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 7f11b47..2ccd4a5 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -315,8 +315,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 		N0 = min(N*100, int(1e4))
 	N0 = int(N0)
 
-	if 'warm_start' not in solver_opts:
-		solver_opts['warm_start'] = True
+	solver_opts = {'warm_start': True, **solver_opts}
 
 	if L is None:
 		L = np.eye(len(domain))
@@ -373,7 +372,10 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 			break
 
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
-		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) for i in range(N)]
+		# If L is rank deficient, centers are not unique and need to be constrained to the domain;
+		# points that are not closest to any sample stay where they are
+		dom = domain if np.linalg.matrix_rank(L) < len(domain) else None
+		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts, domain = dom) if np.any(I == i) else Xhat[i] for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
 		dx = np.max(np.abs(Xhat_new - Xhat))	
 		Xhat = Xhat_new
-- 
2.43.0


From 5ee89fb561eb395d4299a22de8ce04ed4d4a7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 086/114] fix: minimax clustering particles started from the
 first random samples rather than well separated ones

---
 psdr/sample/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 2ccd4a5..2d56ab5 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -172,7 +172,7 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 		Xhat[0] = domain.sample(1)
 		for j in range(1,N):
 			Xt = domain.sample(10*N)
-			k = np.argmax(np.min(cdist( (L @ Xhat[:j].T).T, (L @ Xt.T).T)))
+			k = np.argmax(np.min(cdist( (L @ Xhat[:j].T).T, (L @ Xt.T).T), axis = 0))
 			Xhat[j] = Xt[k]
 		return Xhat
 	
-- 
2.43.0


From daf5378d4292a2e29bc2ba3b07fd26da61fb0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 087/114] fix: minimax clustering particles left domains that
 are not boxes

---
 psdr/sample/minimax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 2d56ab5..d86dd88 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -225,10 +225,10 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 			
 
 			# Construct random convex combination
-			A1 = a1*np.random.uniform(size = Xhat_new.shape)
-			A2 = a2*np.random.uniform(size = Xhat_new.shape)
-			A3 = a3*np.random.uniform(size = Xhat_new.shape)
-			A4 = a4*np.random.uniform(size = Xhat_new.shape)
+			A1 = a1*np.random.uniform(size = (N,1))
+			A2 = a2*np.random.uniform(size = (N,1))
+			A3 = a3*np.random.uniform(size = (N,1))
+			A4 = a4*np.random.uniform(size = (N,1))
 				
 
 			A_sum = A1 + A2 + A3 + A4
-- 
2.43.0


From d0d1581d5dd6bad9c95e8636057e7368f0ff9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 088/114] fix: minimax cover failed without a metric or
 samples, used the transpose of the metric and failed if the bounds do not
 bracket

---
 psdr/sample/minimax.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index d86dd88..8f0549b 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -111,17 +111,20 @@ def minimax_optimal_cover(domain, r, L = None, X = None, **kwargs):
 	if 'verbose' not in kwargs:
 		kwargs['verbose'] = False
 
+	if L is None:
+		L = np.eye(len(domain))
+
 	if X is None:
-		X = sobol_sequence(domain, 1e4)
+		X = sobol_sequence(domain, int(1e4))
 
 	@lru_cache(maxsize = None)
 	def design(N):
 		return minimax_cluster(domain, N, L = L, X = X, **kwargs)
 	
-	Y = (L.T @ X.T).T
+	Y = (L @ X.T).T
 	def maximin_distance(N):
 		Xhat = design(N)
-		Yhat = (L.T @ Xhat.T).T
+		Yhat = (L @ Xhat.T).T
 		return np.max(np.min(cdist(Yhat, Y), axis = 0))
 		
 	domain_volume = domain.volume()
@@ -131,6 +134,15 @@ def minimax_optimal_cover(domain, r, L = None, X = None, **kwargs):
 	N0 = int(np.floor((1/r)**len(domain) * (domain_volume/ball_volume) * np.abs(np.linalg.det(L))))
 	N1 = int(np.floor((3/r)**len(domain) * (domain_volume/ball_volume) * np.abs(np.linalg.det(L))))
 	
+	N0 = max(N0, 1)
+	if maximin_distance(N0) < r:
+		return design(N0)
+
+	# These designs are not optimal, so the upper bound might not be sufficient
+	N1 = max(N1, N0 + 1)
+	while maximin_distance(N1) >= r:
+		N1 *= 2
+
 	# Do a simple bisection search
 	N = _int_bisect(lambda N: r - maximin_distance(N), N0, N1)
 	return design(N)
-- 
2.43.0


From 69c16e257dbcaa0d316f99f82da77050a787d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 089/114] fix: scaled minimax designs were scored with the
 Voronoi vertices of the original design

---
 psdr/sample/minimax_scale.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/minimax_scale.py b/psdr/sample/minimax_scale.py
index 1491d9b..a7b7b0f 100644
--- a/psdr/sample/minimax_scale.py
+++ b/psdr/sample/minimax_scale.py
@@ -41,7 +41,7 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 	@lru_cache()	
 	def score_design_full(alpha):
 		Xtmp = scale_design(alpha)
-		V = voronoi_vertex(domain, Xhat, L = L)
+		V = voronoi_vertex(domain, Xtmp, L = L)
 		D = cdist(Xtmp, V, L = L)
 		d = np.max(np.min(D, axis = 0))
 		if verbose:
@@ -51,7 +51,7 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 	@lru_cache()
 	def score_design_sample(alpha):
 		Xtmp = scale_design(alpha)
-		V = voronoi_vertex_sample(domain, Xhat, X0, L = L)
+		V = voronoi_vertex_sample(domain, Xtmp, X0, L = L)
 		D = cdist(Xtmp, V, L = L)
 		d = np.max(np.min(D, axis = 0))
 		if verbose:
-- 
2.43.0


From 0bc0dcb9f3ebb1ee5b38a50a00d3554ffc029f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 090/114] fix: scaled minimax designs could be worse than the
 original design and used different centers

---
 psdr/sample/minimax_scale.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/minimax_scale.py b/psdr/sample/minimax_scale.py
index a7b7b0f..9132aad 100644
--- a/psdr/sample/minimax_scale.py
+++ b/psdr/sample/minimax_scale.py
@@ -35,8 +35,11 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 			full = False
 		
 
+	# The center can be random, so we fix it here
+	center = np.array(domain.center)
+
 	def scale_design(alpha):
-		return alpha*(Xhat - np.outer(np.ones(M), domain.center)) + domain.center
+		return alpha*(Xhat - np.outer(np.ones(M), center)) + center
 
 	@lru_cache()	
 	def score_design_full(alpha):
@@ -72,7 +75,8 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 		printer.print_iter()
 	try:
 		res = minimize_scalar(score_design, (alpha_vec[k-1], alpha_vec[k], alpha_vec[k+1]), bounds =[0,1], options = {'maxiter': 10})
-		alpha = res.x
+		# This search is local and might not improve on the points above
+		alpha = res.x if res.fun < score_vec[k] else alpha_vec[k]
 	except (ValueError, IndexError) :
 		alpha = alpha_vec[k]
 
-- 
2.43.0


From e3f1503552156caddd846b4cf91084c52e38a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 091/114] fix: minimax_lloyd overwrote the initial design

---
 psdr/sample/minimax_lloyd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/minimax_lloyd.py b/psdr/sample/minimax_lloyd.py
index a63f090..197ad23 100644
--- a/psdr/sample/minimax_lloyd.py
+++ b/psdr/sample/minimax_lloyd.py
@@ -86,7 +86,10 @@ def minimax_lloyd(domain, M, L = None, maxiter = 100, Xhat = None, verbose = Tru
 	M0 = 10*len(domain)*M
 	X0 = domain.sample(M0)
 
-	if Xhat is None:
+	if Xhat is not None:
+		# this is updated in place below
+		Xhat = np.array(Xhat, dtype = float)
+	else:
 		if verbose: print(10*'='+" Building Coffeehouse Design " + 10*'=')
 		Xhat = maximin_coffeehouse(domain, M, L, verbose = verbose)
 		if verbose: print('\n'+10*'='+" Building Maximin Design " + 10*'=')
-- 
2.43.0


From 0b42bba5d81084fd2b1d55b51a495259c0292e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 092/114] fix: sequential sampler did not evaluate the initial
 samples

---
 psdr/sample/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index 5d48efe..25fd27a 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -140,10 +140,11 @@ class SequentialMaximinSampler(Sampler):
 
 		# Now we evaluate the function at these new points
 		# (this takes advantage of potential vectorization of fun)
-		fXnew = self._fun.eval(Xnew)
 		if self._fX is None:
-			self._fX = fXnew
+			# This includes the initial samples if these have not been evaluated
+			self._fX = self._fun.eval(self._X)
 		else:
+			fXnew = self._fun.eval(np.array(Xnew))
 			if len(fXnew.shape) > 1:
 				self._fX = np.vstack([self._fX, fXnew])
 			else:
-- 
2.43.0


From 276d65793a67328a2045eafbce9096fd35eb7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 093/114] fix: sequential sampler failed by a missing import

---
 psdr/sample/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index 25fd27a..14d9004 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -16,6 +16,7 @@ from ..geometry import sample_sphere, unique_points, sample_simplex
 from ..domains import LinIneqDomain, ConvexHullDomain
 
 from .initial import initial_sample
+from .seqmaximin import seq_maximin_sample
 
 __all__ = ['Sampler', 'SequentialMaximinSampler', 'StretchedSampler']
 
-- 
2.43.0


From e3f01f2759344bd022975cafa13b36d03eeef84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 094/114] fix: sampling Voronoi vertices moved points on the
 boundary out of the domain

---
 psdr/geometry/vertex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index ecbc71f..08512a7 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -247,7 +247,8 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			 
 
 		# which inequality constraints on the domain are active
-		active = np.isclose(A.dot(X0.T).T , b)
+		# (including those of points that are, by rounding, outside)
+		active = np.isclose(A.dot(X0.T).T , b) | (A.dot(X0.T).T > b)
 		
 		for i in range(X0.shape[0]):
 			# For each point, project onto the feasible directions
-- 
2.43.0


From 02c9b16fa5db0024190d34b3999d2d0e9b3be6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 095/114] fix: cells of projection designs depended on the
 units of the metrics

---
 psdr/sample/projection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 51363e5..1cc846f 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -106,8 +106,11 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			for k in neigh:
 				p = 0.5*(X[j] + X[k]) 	# point on separating hyperplane
 				n = (X[k] - X[j]).reshape(-1,1) 		# normal vector to hyperplane
-				A.append( n.T.dot(L.T).dot(L))
-				b.append( n.T.dot(L.T).dot(L).dot(p) )
+				a = n.T.dot(L.T).dot(L)
+				# normalized, so that the tolerances of solvers do not depend on the units of L
+				a /= max(np.linalg.norm(a), np.finfo(float).tiny)
+				A.append(a)
+				b.append(a.dot(p))
 			
 			As[i][j] = np.vstack([np.zeros((0,len(domain)))] + A)
 			bs[i][j] = np.hstack([np.zeros(0)] + b)
@@ -297,8 +300,10 @@ def _voronoi_cell_point(coord, domain, Ls, ys):
 			if j != k:
 				n = y[k] - y[j]
 				p = 0.5*(y[j] + y[k])
-				A.append(n.T.dot(L))
-				b.append(n.dot(p))
+				# normalized, so that the tolerances of solvers do not depend on the units of L
+				scale = max(np.linalg.norm(n.dot(L)), np.finfo(float).tiny)
+				A.append(n.dot(L)/scale)
+				b.append(n.dot(p)/scale)
 
 	A = np.vstack([np.zeros((0,len(domain)))] + A)
 	b = np.hstack([np.zeros(0)] + b)
-- 
2.43.0


From 0a9195d8773900a13a50a0a5f4036e5a426ab114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 096/114] fix: projection designs failed for points on the
 boundary of their cells

---
 psdr/sample/projection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 1cc846f..31985fd 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -5,6 +5,7 @@ from scipy.spatial import Delaunay
 from scipy.spatial.qhull import QhullError
 from scipy.spatial.distance import pdist, squareform
 from satyrn import picosat
+from cvxpy.error import SolverError
 
 try:
     from functools import lru_cache
@@ -216,7 +217,14 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			if Lall.shape[0] < len(domain):
 				# If the Ls do not completely fix each of the samples, iterate to find maximin design
 				consubdoms = [subdom.add_constraints(A_eq = Lall, b_eq = Lall.dot(x)) for subdom, x in zip(subdoms, X)]
-				X = np.vstack([consubdom.sample() for consubdom in consubdoms])
+				X0, X = X, []
+				for x0, consubdom in zip(X0, consubdoms):
+					try:
+						X.append(consubdom.sample())
+					except SolverError:
+						# Without interior this can be too difficult to sample numerically; x0 is inside
+						X.append(x0)
+				X = np.vstack(X)
 				mask = np.ones(Nsamp, dtype = np.bool)
 				for it2 in range(100 if Nsamp > 1 else 0):
 					max_move = 0
-- 
2.43.0


From b2b802138feacd0aa2de9a3a30b40b0c93bb4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 097/114] fix: tensor product bases keep their own copy of the
 points their scaling belongs to

---
 psdr/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 4efd9cc..2248611 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -103,7 +103,7 @@ class PolynomialTensorBasis(Basis):
 	def __init__(self, degree, X = None, dim = None):
 		self.degree = int(degree)
 		if X is not None:
-			self.X = np.atleast_2d(X)
+			self.X = np.copy(np.atleast_2d(X))
 			self.dim = self.X.shape[1]
 			self.set_scale(self.X)
 		elif dim is not None:
-- 
2.43.0


From f5dba16e145323ea75d0708ef7b8ead231bb2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:48 +0000
Subject: [PATCH 098/114] fix: accept lists where the documentation promises
 array-like arguments

---
 psdr/geometry/cdist.py    | 3 +++
 psdr/local_linear.py      | 5 ++++-
 psdr/sample/initial.py    | 1 +
 psdr/sample/minimax.py    | 2 ++
 psdr/sample/seqmaximin.py | 2 ++
 5 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/psdr/geometry/cdist.py b/psdr/geometry/cdist.py
index 5ec8906..9f83379 100644
--- a/psdr/geometry/cdist.py
+++ b/psdr/geometry/cdist.py
@@ -4,12 +4,15 @@ import scipy.spatial.distance
 def cdist(X1, X2, L = None):
 	r""" A convience wrapper around a weighted l2-norm distance calculation
 	"""
+	X1 = np.asarray(X1)
+	X2 = np.asarray(X2)
 	if len(X1.shape) == 1:
 		X1 = np.reshape(X1,(1,-1))
 	if len(X2.shape) == 1:
 		X2 = np.reshape(X2,(1,-1))
 
 	if L is not None:
+		L = np.asarray(L)
 		X1 = (L @ X1.T).T
 		X2 = (L @ X2.T).T
 
diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 3e6a203..cc81521 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -153,12 +153,15 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		A[:,0] is the constant term and A[:,1:m+1] is the linear coefficients.
 	"""
 
+	X = np.asarray(X)
 	M, m = X.shape
-	fX = fX.flatten()
+	fX = np.array(fX).flatten()
 	assert len(fX) == M, "Number of function evaluations does not match number of samples"
 
 	if Xt is None:
 		Xt = X
+	else:
+		Xt = np.asarray(Xt)
 
 	if perplexity is None and bandwidth is None:
 		if M > m+1:
diff --git a/psdr/sample/initial.py b/psdr/sample/initial.py
index 8bb8fdf..51871fd 100644
--- a/psdr/sample/initial.py
+++ b/psdr/sample/initial.py
@@ -34,6 +34,7 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	X0: np.ndarray(Nsamp, m)
 		Samples that are well-distributed in L metric in domain
 	"""
+	L = np.asarray(L)
 	# If we are sampling with a scalar multiple of the identity matrix,
 	# we can do no better than random sampling on the original domain
 	if L.shape[0] == L.shape[1]:
diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 8f0549b..e29cd7e 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -331,6 +331,8 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 
 	if L is None:
 		L = np.eye(len(domain))
+	else:
+		L = np.asarray(L)
 
 	# Samples from the domain to cluster
 	# TODO: Should these be distributed with respect to the L norm?
diff --git a/psdr/sample/seqmaximin.py b/psdr/sample/seqmaximin.py
index 2da0295..15d2f2e 100644
--- a/psdr/sample/seqmaximin.py
+++ b/psdr/sample/seqmaximin.py
@@ -57,6 +57,8 @@ def seq_maximin_sample(domain, Xhat, Ls = None, Nsamp = int(1e3), X0 = None, sla
 	"""
 	if Ls is None:
 		Ls = [np.eye(len(domain))]
+	else:
+		Ls = [np.asarray(L) for L in Ls]
 
 	# If we have no samples we pick a corner in the direction
 	# of the dominant singular vector of the stacked L matrices
-- 
2.43.0


From 732e81aeb2e961d14c3dda4de229756af55c5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 099/114] fix: Lipschitz utilities handle singular matrices,
 zero gradients, repeated points, and terminate

---
 psdr/lipschitz_utils.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/psdr/lipschitz_utils.py b/psdr/lipschitz_utils.py
index e9e0a71..5807bd2 100644
--- a/psdr/lipschitz_utils.py
+++ b/psdr/lipschitz_utils.py
@@ -102,7 +102,13 @@ def dist_grad_constraints_slow(H, grads):
 		# DLAED4 uses a much more sophisticated algorithm, but we use
 		# brenth simply as a fall back when the LAPACK version doesn't work 
 		
-		dist[k] = brenth(obj, left, right[k])
+		try:
+			with np.errstate(divide = 'ignore', invalid = 'ignore'):
+				dist[k] = brenth(obj, left, right[k], xtol = eps*max(np.abs(left), np.abs(right[k])))
+		except ValueError:
+			# The interval does not bracket the root, e.g., if H is singular, the gradient is zero,
+			# or the gradient is orthogonal to an eigenvector of the smallest eigenvalue of H
+			dist[k] = -np.linalg.eigvalsh(H - np.outer(grads[k], grads[k]))[0]
 
 	return -dist
 
@@ -169,12 +175,16 @@ def project_evals(H, X, fX):
 	P = (X[I] - X[J])
 	lhs = (fX[I] - fX[J])**2
 	pp2 = _vec_norm(P)
-	while True:
+	# Coincident points provide no constraint
+	K = (pp2 > 0)
+	P, lhs, pp2 = P[K], lhs[K], pp2[K]
+	while len(P) > 0:
 		pHp = _quad_form(H, P)
-		update = (lhs - pHp)/pp2**2
+		# Violations below the rounding errors of the constraint cannot be removed
+		update = np.where(lhs - pHp > 1e-13*(lhs + np.linalg.norm(H)*pp2), (lhs - pHp)/pp2**2, 0)
 		k = np.argmax(update)
-		if update[k] > 1e-13:
-			H += update[k] * np.outer(P[k], P[k])
+		if update[k] > 0:
+			H = H + update[k] * np.outer(P[k], P[k])
 		else:
 			break
 	
@@ -204,7 +214,8 @@ def project_grads(H, grads):
 	while True: 
 		dist = dist_grad_constraints(H, grads)
 		k = np.nanargmin(dist)
-		if dist[k] >= 0: break
+		# Violations below the rounding errors of the projection cannot be removed
+		if dist[k] >= -1e-12*(np.linalg.norm(H) + np.sum(grads[k]**2)): break
 		g = grads[k]
 		ew, V = np.linalg.eigh(H - np.outer(g,g))
 		H = np.outer(g, g) + V @ np.diag(np.maximum(0, ew)) @ V.T
-- 
2.43.0


From d6b0415c5cbd6356838becaa3036f90102c4fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 100/114] fix: the nonlinearity measure is independent of
 units, ignores repeated samples, and is zero for constants

---
 psdr/nonlin.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/psdr/nonlin.py b/psdr/nonlin.py
index 3bb026a..ebe8aeb 100644
--- a/psdr/nonlin.py
+++ b/psdr/nonlin.py
@@ -40,18 +40,29 @@ def measure_nonlinearity(X, fX, **kwargs):
 	Pnorm = np.sqrt(_vec_norm(P))
 	fdiff = (fX[i] - fX[j]).flatten()
 
+	# Repeated samples provide no information
+	I = (Pnorm > 0) | (fdiff != 0)
+	P, Pnorm, fdiff = P[I], Pnorm[I], fdiff[I]
+	
+	# A constant function is linear
+	if np.all(fdiff == 0):
+		return 0., np.zeros(m)
+
 	# Compute standard Lipschitz constant
 	L0 = np.max(np.abs(fdiff)/Pnorm)
 
-	# Compute Lipschitz constant when subtracting 	
+	# Compute Lipschitz constant when subtracting;
+	# slopes are scaled to order one such that the accuracy of the solver does not depend on units
+	P = P/Pnorm.reshape(-1,1)
+	slope = fdiff/Pnorm/L0
 	a = cp.Variable(m)
 	L = cp.Variable(1)
 	constraints = [ 
-		fdiff + P @ a <= L * Pnorm,
-		fdiff + P @ a >= -L * Pnorm 
+		slope + P @ a <= L,
+		slope + P @ a >= -L 
 	]
 	prob = cp.Problem(cp.Minimize(L), constraints)
 	prob.solve(**kwargs)
 
-	return float(L.value/L0), a.value
+	return float(L.value), L0*a.value
 
-- 
2.43.0


From 2b913bbd5f864dc153939b7de8ce42e1d32035cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 101/114] fix: PGF columns must all have the same length;
 prepared contours list their points

---
 psdr/pgf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index b7914ef..ca0b89b 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -10,7 +10,7 @@ class PGF:
 		self.columns = []
 
 	def add(self, name, column):
-		if len(self.columns) > 1:
+		if len(self.columns) > 0:
 			assert len(self.columns[0]) == len(column)
 
 		self.columns.append(deepcopy(column))
@@ -66,7 +66,8 @@ def save_contour(fname, cs, fmt = 'matlab', simplify = 1e-3, **kwargs):
 			fout.write("%15.15e\t%15.15e\n" % (x,y))
 
 	def write_path_prepared(fout, x_vec, y_vec, z):
-		fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x0,y0,z))
+		for x, y in zip(x_vec, y_vec):
+			fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x,y,z))
 		fout.write("\t\t\t\n")
 
 	if fmt == 'matlab':
-- 
2.43.0


From 31e13bd66ecad48370bfb969d954ae75aa83cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 102/114] fix: shadow plots accept lists, need no axis, and
 name the response file properly

---
 psdr/ridge.py    | 12 +++++++++---
 psdr/subspace.py |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index 923c0fa..9a541a4 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -1,6 +1,7 @@
 """Ridge function approximation from function values"""
 # (c) 2017 Jeffrey M. Hokanson (jeffrey@hokanson.us)
 
+import os
 import numpy as np
 
 from .function import BaseFunction
@@ -18,6 +19,10 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 		else:
 			assert dim == self.U.shape[1]
 
+		if X is None:
+			X = self.X
+		X = np.atleast_2d(X)
+
 		ax = SubspaceBasedDimensionReduction.shadow_plot(self, X = X, fX = fX, dim = dim, ax = ax, pgfname = pgfname)
 
 		# Draw the response surface
@@ -34,14 +39,15 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 				ax.plot(xx, yy, 'r-')
 
 			if pgfname is not None:	
-				pgfname2 = pgfname[:pgfname.rfind('.')] + '_response' + pgfname[pgfname.rfind('.'):]
+				root, ext = os.path.splitext(pgfname)
+				pgfname2 = root + '_response' + ext
 				pgf = PGF()
 				pgf.add('x', xx)
 				pgf.add('fx', yy )
 				pgf.write(pgfname2)
 					
 
-		elif dim == 2:	
+		elif dim == 2 and ax is not None:	
 			Y = np.dot(self.U.T, X.T).T
 			lb0 = np.min(Y[:,0])
 			ub0 = np.max(Y[:,0])
@@ -63,7 +69,7 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 				linewidths = 0.5)
 		
 
-		else: 
+		elif dim > 2: 
 			raise NotImplementedError("Cannot draw shadow plots in more than two dimensions")	
 
 		return ax		
diff --git a/psdr/subspace.py b/psdr/subspace.py
index ee66d45..b86520d 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -82,11 +82,13 @@ class SubspaceBasedDimensionReduction(object):
 	
 		# Check dimensions
 		X = np.atleast_2d(X)
+		fX = np.array(fX).flatten()
 		assert X.shape[1] == len(self), "Samples do not match dimension of space"	
 
 		if U is None:
 			U = self.U
 		else:
+			U = np.asarray(U)
 			if len(U.shape) == 1:
 				U = U.reshape(len(self),1)
 			else:
-- 
2.43.0


From 78e74e114f293e9e2855424e2bba151f2d8d516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:54 +0000
Subject: [PATCH 103/114] fix: polynomial ridge functions know their dimension,
 so that they can be plotted

---
 psdr/polyridge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 53ddfcc..c778ad0 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -27,6 +27,7 @@ class PolynomialRidgeFunction(RidgeFunction):
 		self.basis = basis
 		self.coef = np.copy(coef)
 		self._U = np.array(U)
+		self._dimension = len(self._U)
 		self.domain = None
 
 	
-- 
2.43.0


From f58591fb265727df663aca8c1907cbf55e3f440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 104/114] fix: distances to gradient constraints were wrong for
 singular squared Lipschitz matrices

---
 psdr/lipschitz_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psdr/lipschitz_utils.py b/psdr/lipschitz_utils.py
index 5807bd2..c4d6294 100644
--- a/psdr/lipschitz_utils.py
+++ b/psdr/lipschitz_utils.py
@@ -81,8 +81,8 @@ def dist_grad_constraints_slow(H, grads):
 	# Determine the left and right intervals for root searching
  	
 	# This avoids evaluating on the asymptote of the secular equation
-	# and pushes slightly to the right (this is confusing because ew[-1] is negative). 
-	left = ew[-1]*(1 - eps)
+	# and pushes slightly to the right, far enough such that the function values remain bounded
+	left = ew[-1] + eps*(np.max(np.abs(ew)) + np.sum(Ugrads2, axis = 1))
 
 	# the right bound is ew[-1] + || g ||_2^2 
 	right = ew[-1] + np.sum(Ugrads2, axis = 1)
@@ -104,8 +104,8 @@ def dist_grad_constraints_slow(H, grads):
 		
 		try:
 			with np.errstate(divide = 'ignore', invalid = 'ignore'):
-				dist[k] = brenth(obj, left, right[k], xtol = eps*max(np.abs(left), np.abs(right[k])))
-		except ValueError:
+				dist[k] = brenth(obj, left[k], right[k], xtol = eps*max(np.abs(left[k]), np.abs(right[k])))
+		except (ValueError, RuntimeError):
 			# The interval does not bracket the root, e.g., if H is singular, the gradient is zero,
 			# or the gradient is orthogonal to an eigenvector of the smallest eigenvalue of H
 			dist[k] = -np.linalg.eigvalsh(H - np.outer(grads[k], grads[k]))[0]
-- 
2.43.0


From b0060765b305e4365174f984e3aac4f0305bdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 105/114] fix: OpenAeroStruct failed for a single sample in a
 matrix; names for any number of control points

---
 psdr/demos/oas.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/demos/oas.py b/psdr/demos/oas.py
index c1fe4ab..235c0df 100644
--- a/psdr/demos/oas.py
+++ b/psdr/demos/oas.py
@@ -27,9 +27,9 @@ class OpenAeroStruct(Function):
 
 def build_oas_design_domain(n_cp = 3):
 	# Twist
-	domain_twist = BoxDomain(-1*np.ones(n_cp), 1*np.ones(n_cp), names = ['twist %d' % (i,) for i in range(1,4)] )
+	domain_twist = BoxDomain(-1*np.ones(n_cp), 1*np.ones(n_cp), names = ['twist %d' % (i,) for i in range(1,n_cp+1)] )
 	# Thick
-	domain_thick = BoxDomain(0.005*np.ones(n_cp), 0.05*np.ones(n_cp), names = ['thickness %d' % (i,) for i in range(1,4)] )
+	domain_thick = BoxDomain(0.005*np.ones(n_cp), 0.05*np.ones(n_cp), names = ['thickness %d' % (i,) for i in range(1,n_cp+1)] )
 	# Root Chord
 	domain_root_chord = BoxDomain(0.7, 1.3, names = ['root chord'])
 	# Taper ratio
@@ -95,6 +95,9 @@ def oas_func(x, version = 'v1', workdir = None, verbose = False, keep_data = Fal
 			print("exited with error code %d" % p.returncode)
 
 	Y = np.loadtxt(workdir + '/my.output')
+	if len(np.shape(x)) == 2:
+		# A file with a single line is read as a vector
+		Y = Y.reshape(len(x), -1)
 
 	if not keep_data:
 		shutil.rmtree(workdir) 
-- 
2.43.0


From 2d83051c7f120a6ded9052f7560351eabbef377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:49 +0000
Subject: [PATCH 106/114] fix: polynomial bases failed or truncated for integer
 points and lists

---
 psdr/basis.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 2248611..8902732 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -183,13 +183,13 @@ class PolynomialTensorBasis(Basis):
 		elif X is None:
 			raise NotImplementedError
 
-		X = X.reshape(-1, self.dim)
+		X = np.asarray(X).reshape(-1, self.dim)
 		X = self._scale(np.array(X))
 		M = X.shape[0]
 		assert X.shape[1] == self.dim, "Expected %d dimensions, got %d" % (self.dim, X.shape[1])
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
-		V = np.ones((M, len(self.indices)), dtype = X.dtype)
+		V = np.ones((M, len(self.indices)), dtype = np.result_type(X.dtype, float))
 		
 		for j, alpha in enumerate(self.indices):
 			for k in range(self.dim):
@@ -217,7 +217,7 @@ class PolynomialTensorBasis(Basis):
 		Vc: np.array (M,)
 			Product of Vandermonde matrix and :math:`\mathbf c`
 		"""
-		X = X.reshape(-1, self.dim)
+		X = np.asarray(X).reshape(-1, self.dim)
 		X = self._scale(np.array(X))
 		M = X.shape[0]
 		c = np.array(c)
@@ -270,13 +270,13 @@ class PolynomialTensorBasis(Basis):
 			Derivative of Vandermonde matrix where :code:`Vp[i,j,:]`
 			is the gradient of :code:`V[i,j]`. 
 		"""
-		X = X.reshape(-1, self.dim)
+		X = np.asarray(X).reshape(-1, self.dim)
 		X = self._scale(np.array(X))
 		M = X.shape[0]
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
 		N = len(self.indices)
-		DV = np.ones((M, N, self.dim), dtype = X.dtype)
+		DV = np.ones((M, N, self.dim), dtype = np.result_type(X.dtype, float))
 
 		try:
 			dscale = self._dscale()
@@ -321,13 +321,13 @@ class PolynomialTensorBasis(Basis):
 			Second derivative of Vandermonde matrix where :code:`Vpp[i,j,:,:]`
 			is the Hessian of :code:`V[i,j]`. 
 		"""
-		X = X.reshape(-1, self.dim)
+		X = np.asarray(X).reshape(-1, self.dim)
 		X = self._scale(np.array(X))
 		M = X.shape[0]
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
 		N = len(self.indices)
-		DDV = np.ones((M, N, self.dim, self.dim), dtype = X.dtype)
+		DDV = np.ones((M, N, self.dim, self.dim), dtype = np.result_type(X.dtype, float))
 
 		try:
 			dscale = self._dscale()
@@ -503,7 +503,7 @@ class ArnoldiPolynomialBasis(Basis):
 	def arnoldi_X(self, X):
 		r""" Generate a Vandermonde matrix corresponding to a different set of points
 		"""
-		W = np.zeros((X.shape[0], len(self.indices)), dtype = X.dtype)
+		W = np.zeros((X.shape[0], len(self.indices)), dtype = np.result_type(X.dtype, float))
 
 		iteridx = enumerate(self.indices)
 		# As the first column is the ones vector, we treat it as a special case
@@ -528,7 +528,7 @@ class ArnoldiPolynomialBasis(Basis):
 		if X is None or np.array_equal(X, self.X):
 			return self.Q
 		else:
-			return self.arnoldi_X(X)
+			return self.arnoldi_X(np.asarray(X))
 
 
 	def DV(self, X = None):
@@ -536,6 +536,7 @@ class ArnoldiPolynomialBasis(Basis):
 			X = self.X
 			V = self.Q
 		else:
+			X = np.asarray(X)
 			V = self.arnoldi_X(X)
 
 		M = X.shape[0]
-- 
2.43.0


From 1809caa43f5b086caa1fda8894131c6098979a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:49 +0000
Subject: [PATCH 107/114] fix: ridge function plots showed the response at
 other points for directions not orthonormal

---
 psdr/ridge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index 9a541a4..871de3c 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -32,7 +32,8 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 			ub = np.max(Y)
 			
 			xx = np.linspace(lb, ub, 500)
-			Uxx = np.hstack([self.U*xxi for xxi in xx]).T
+			# The columns of U need not be orthonormal
+			Uxx = np.outer(xx, np.linalg.pinv(self.U))
 			yy = self.eval(Uxx)
 
 			if ax is not None:
@@ -60,7 +61,7 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 			xx1 = np.linspace(lb1, ub1, 50)
 			XX0, XX1 = np.meshgrid(xx0, xx1)
 			UXX = np.vstack([XX0.flatten(), XX1.flatten()])
-			XX = np.dot(self.U, UXX).T
+			XX = np.dot(np.linalg.pinv(self.U).T, UXX).T
 			YY = self.eval(XX).reshape(XX0.shape)
 			
 			ax.contour(xx0, xx1, YY, 
-- 
2.43.0


From 3daa0155f437a314122c81b3937ebd61944715ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:08 +0000
Subject: [PATCH 108/114] fix: random directions of flat tensor products and of
 hulls with fixed coordinates stay in the domain

---
 psdr/domains/convexhull.py |  6 ++++--
 psdr/domains/tensor.py     | 10 ++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 80dae7f..e754698 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -323,8 +323,10 @@ class ConvexHullDomain(LinQuadDomain):
 	@cached_property
 	def _A_eq_basis(self):
 		try: 
-			if len(self.A_eq) == 0: raise AttributeError
-			Qeq = orth(self.A_eq.T)
+			# Coordinates where the lower and upper bounds coincide cannot be moved along either
+			A_eq = np.vstack([self.A_eq, np.eye(len(self))[self.lb == self.ub]])
+			if len(A_eq) == 0: raise AttributeError
+			Qeq = orth(A_eq.T)
 		except AttributeError:
 			Qeq = np.zeros((len(self),0))
 		
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index b442246..cb120ef 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -2,6 +2,11 @@ from __future__ import division
 
 import numpy as np
 import itertools
+from scipy.linalg import block_diag
+try:
+	from functools import cached_property
+except ImportError:
+	from backports.cached_property import cached_property
 
 from ..misc import merge
 from .euclidean import EuclideanDomain
@@ -83,6 +88,11 @@ class TensorProductDomain(EuclideanDomain):
 	def __len__(self):
 		return sum([len(dom) for dom in self.domains])
 
+	@cached_property
+	def _A_eq_basis(self):
+		# The domains may be flat without this appearing in A_eq (e.g., a convex hull of colinear points)
+		return block_diag(*[dom._A_eq_basis for dom in self.domains])
+
 
 	################################################################################		
 	# Normalization related functions
-- 
2.43.0


From 6dcdeab1652f9301bd22dba07931bea8511b290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 109/114] fix: sequential_lp(verbose = True) failed when
 started at a solution

---
 psdr/seqlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/seqlp.py b/psdr/seqlp.py
index 3ffce95..85b13dc 100644
--- a/psdr/seqlp.py
+++ b/psdr/seqlp.py
@@ -183,6 +183,7 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 		domain_constraints = domain._build_constraints(x + p)
 
 		stop = False
+		constraint_violation = 0.
 		for it2 in range(bt_maxiter):
 			active_constraints = nonlinear_constraints + domain_constraints + search_step_constraints
 
-- 
2.43.0


From f89043c341ba90a982d4ad9f46b3224f20c00bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:54 +0000
Subject: [PATCH 110/114] fix: constrained and 1- and infinity-norm polynomial
 fits were inaccurate for small data and failed for large data

---
 psdr/poly.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/poly.py b/psdr/poly.py
index b0f321f..bc0a3d7 100644
--- a/psdr/poly.py
+++ b/psdr/poly.py
@@ -25,8 +25,11 @@ def linear_fit(A, b, norm = 2, bound = None):
 	if norm == 2 and bound == None:
 		return scipy.linalg.lstsq(A, b)[0]
 	else:
+		# Scale the data, as the tolerances of the solver are (partly) absolute
+		scale = np.max(np.abs(b))
+		if scale == 0: scale = 1.
 		x = cp.Variable(A.shape[1])
-		residual = x.__rmatmul__(A) - b
+		residual = x.__rmatmul__(A) - b/scale
 		if norm == 1:   	 obj = cp.norm1(residual)
 		elif norm == 2: 	 obj = cp.norm(residual)
 		elif norm == np.inf: obj = cp.norm_inf(residual)
@@ -41,7 +44,7 @@ def linear_fit(A, b, norm = 2, bound = None):
 		# Now actually solve the problem
 		problem = cp.Problem(cp.Minimize(obj), constraint)
 		problem.solve(feastol = 1e-10, reltol = 1e-8, abstol = 1e-8, solver = cp.ECOS)
-		return x.value
+		return scale*x.value
 
 
 class PolynomialFunction(BaseFunction):
-- 
2.43.0


From 751f281f57abfb124b0325c415140c7a63edd4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:55 +0000
Subject: [PATCH 111/114] fix: constrained and 1- and infinity-norm ridge fits
 were inaccurate for small data and failed for large data

---
 psdr/polyridge.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index c778ad0..777e311 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -107,6 +107,11 @@ def orth(U):
 	U = np.dot(U, np.diag(np.where(np.diag(R) < 0, -1., 1.))) 
 	return U
 
+def _data_scale(b):
+	r""" Size of the data, with which we scale since the tolerances of the solvers are (partly) absolute """
+	scale = np.max(np.abs(b))
+	return scale if scale > 0 else 1.
+
 def inf_norm_fit(A, b):
 	r""" Solve inf-norm linear optimization problem
 
@@ -117,11 +122,12 @@ def inf_norm_fit(A, b):
 	"""
 	with warnings.catch_warnings():
 		warnings.simplefilter('ignore', PendingDeprecationWarning)
+		scale = _data_scale(b)
 		x = cp.Variable(A.shape[1])
-		obj = cp.norm_inf(A @ x - b.flatten())
+		obj = cp.norm_inf(A @ x - b.flatten()/scale)
 		problem = cp.Problem(cp.Minimize(obj))
 		problem.solve(solver = 'ECOS')
-		return x.value
+		return scale*x.value
 
 def one_norm_fit(A, b):
 	r""" solve 1-norm linear optimization problem
@@ -133,11 +139,12 @@ def one_norm_fit(A, b):
 	"""
 	with warnings.catch_warnings():
 		warnings.simplefilter('ignore', PendingDeprecationWarning)
+		scale = _data_scale(b)
 		x = cp.Variable(A.shape[1])
-		obj = cp.norm1(x.__rmatmul__(A) - b)
+		obj = cp.norm1(x.__rmatmul__(A) - b/scale)
 		problem = cp.Problem(cp.Minimize(obj))
 		problem.solve(solver = 'ECOS')
-		return x.value
+		return scale*x.value
 
 def two_norm_fit(A,b):
 	r""" solve 2-norm linear optimization problem
@@ -159,8 +166,9 @@ def bound_fit(A, b, norm = 2):
 	"""
 	with warnings.catch_warnings():
 		warnings.simplefilter('ignore', PendingDeprecationWarning)
+		scale = _data_scale(b)
 		x = cp.Variable(A.shape[1])
-		residual = x.__rmatmul__(A) - b
+		residual = x.__rmatmul__(A) - b/scale
 		if norm == 1:
 			obj = cp.norm1(residual)
 		elif norm == 2:
@@ -174,7 +182,7 @@ def bound_fit(A, b, norm = 2):
 		#problem.solve(eps = 1e-10, solver = cp.SCS)
 		#problem.solve(feastol = 1e-10, solver = cp.CVXOPT)
 		# TODO: The solution doesn't obey the constraints for 1 and inf norm, but does for 2-norm.
-		return x.value
+		return scale*x.value
 
 
 class PolynomialRidgeApproximation(PolynomialRidgeFunction):
-- 
2.43.0


From 52e2a0f3c8fe7fd0b808f7f12697d057dd09d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:55 +0000
Subject: [PATCH 112/114] fix: compatible data of Lipschitz approximations were
 inaccurate for small data and failed for large data

---
 psdr/lipschitz_approx.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz_approx.py b/psdr/lipschitz_approx.py
index f21f907..6f1581b 100644
--- a/psdr/lipschitz_approx.py
+++ b/psdr/lipschitz_approx.py
@@ -28,6 +28,13 @@ def lipschitz_approximation_compatible_data(L, X, fX, norm = 1, **kwargs):
 	# Set default arguments
 	kwargs = merge(DEFAULT_CVXPY_KWARGS, kwargs)
 
+	# Shift and scale the data, as the tolerances of the solver are (partly) absolute
+	shift = np.mean(fX)
+	scale = np.max(fX) - np.min(fX)
+	if scale == 0: scale = 1.
+	L = L/scale
+	fX = (fX - shift)/scale
+
 	y = cp.Variable(len(fX))
 	y.value = fX
 	obj = cp.norm(y - fX, norm)
@@ -36,12 +43,14 @@ def lipschitz_approximation_compatible_data(L, X, fX, norm = 1, **kwargs):
 
 	# np.linalg.norm(L @ (X[i] - X[j]), 2)
 	rhs = np.sqrt(np.sum( (L @ (X[I] - X[J]).T)**2, axis = 0))
+	# The values stay in the range of the data, whose length is now one
+	rhs = np.minimum(rhs, 2.)
 	constraints = [cp.abs(y[I] - y[J]) <= rhs]
 
 	prob = cp.Problem(cp.Minimize(obj), constraints)
 	prob.solve(**kwargs)
 
-	return y.value	
+	return shift + scale*y.value	
 
 
 class LipschitzApproximation(LipschitzMatrix, RidgeFunction):
-- 
2.43.0


From e443b0f79a78a6266beaa86cb2009135323f507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:55 +0000
Subject: [PATCH 113/114] fix: shadow envelopes of values much smaller than one
 did not enclose the samples

---
 psdr/subspace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index b86520d..a485a6f 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -198,19 +198,24 @@ class SubspaceBasedDimensionReduction(object):
 
 		A = scipy.sparse.coo_matrix((val, (row, col)), shape = (len(y), len(yy)))
 		A = cp.Constant(A)
+		# Shift and scale the values, since the accuracy of the solver is (partly) absolute
+		fX = fX.flatten()
+		shift, scale = np.mean(fX), np.max(fX) - np.min(fX)
+		if scale == 0: scale = 1.
+		fX = (fX - shift)/scale
 		ub = cp.Variable(len(yy))
 		#ub0 = [ max(max(fX[j == i]), max(fX[j== i+1]))  for i in np.arange(0,ngrid-1)] +[max(fX[j == ngrid - 1])]
 		#ub.value = np.array(ub0).flatten()
 		prob = cp.Problem(cp.Minimize(cp.sum(ub)), [A*ub >= fX.flatten()])
 		prob.solve(**solver_kwargs)
-		ub = ub.value
+		ub = shift + scale*ub.value if ub.value is not None else None
 		
 		lb = cp.Variable(len(yy))
 		#lb0 = [ min(min(fX[j == i]), min(fX[j== i+1]))  for i in np.arange(0,ngrid-1)] +[min(fX[j == ngrid - 1])]
 		#lb.value = np.array(lb0).flatten()
 		prob = cp.Problem(cp.Maximize(cp.sum(lb)), [A*lb <= fX.flatten()])
 		prob.solve(**solver_kwargs)
-		lb = lb.value
+		lb = shift + scale*lb.value if lb.value is not None else None
 
 		if ax is not None:
 			ax.fill_between(yy, lb, ub, **kwargs) 
-- 
2.43.0


From f88c9b5ad6483ea7a9968508463a1f56e169e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:43 +0000
Subject: [PATCH 114/114] fix: two-norm ridge fits of small data stopped at the
 initial subspace

---
 psdr/polyridge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 777e311..2ba374f 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -528,7 +528,8 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		return U_new
 	
 	def _fit_varpro(self, X, fX, U0, **kwargs):
-	
+		# Scale the data, since the stopping criteria of the optimization are (partly) absolute
+		fX_scaled = fX/_data_scale(fX)
 
 		def gn_solver(J_flat, r):
 			Y, s, ZT = scipy.linalg.svd(J_flat, full_matrices = False, lapack_driver = 'gesvd')
@@ -538,10 +539,10 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			return Delta_flat, s[:-n**2]
 
 		def jacobian(U_flat):
-			return self._varpro_jacobian(X, fX, U_flat)
+			return self._varpro_jacobian(X, fX_scaled, U_flat)
 
 		def residual(U_flat):
-			return self._varpro_residual(X, fX, U_flat)	
+			return self._varpro_residual(X, fX_scaled, U_flat)	
 
 		U0_flat = U0.flatten() 
 		U_flat, info = gauss_newton(residual, jacobian, U0_flat,
-- 
2.43.0

