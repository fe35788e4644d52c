From b166f22b4cbff1574afddb5142240386b9988249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 01/98] fix: constrained_least_squares shifted the right hand
 side in the wrong direction when the domain was not centered

---
 psdr/domains/euclidean.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 4f38fed..63c09c3 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -338,7 +338,8 @@ class EuclideanDomain(Domain):
 		except ValueError:
 			raise ValueError("dimension of b in least squares problem doesn't match A")
 
-		return self._constrained_least_squares(A, b, **kwargs)	
+		local_kwargs = merge(self.kwargs, kwargs)
+		return self._constrained_least_squares(A, b, **local_kwargs)
 	
 	def _constrained_least_squares(self, A, b, **kwargs):
 		if not self.is_linquad_domain:
@@ -356,7 +357,7 @@ class EuclideanDomain(Domain):
 		c = self._center()	
 			
 		# \| A x - b\|_2 
-		obj = cp.norm( (A @ D) @ x_norm - b - (A @ c) )
+		obj = cp.norm( (A @ D) @ x_norm - b + (A @ c) )
 		constraints = self._build_constraints_norm(x_norm)
 		problem = cp.Problem(cp.Minimize(obj), constraints)
 		problem.solve(**kwargs)
-- 
2.43.0


From cf3249419cad7645652f47c42e50fb74d19b44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 02/98] fix: scale the centers of quadratic constraints when
 normalizing a domain

---
 psdr/domains/euclidean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 63c09c3..c609f65 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -995,7 +995,8 @@ class EuclideanDomain(Domain):
 	@property
 	def ys_norm(self):
 		c = self._center()
-		return [y - c for y in self.ys]	
+		D = self._normalize_der()
+		return [D.dot(y - c) for y in self.ys]
 
 	@property
 	def rhos_norm(self):
-- 
2.43.0


From c853973294cea2620ad6f1b2c69b8e817e58db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 03/98] fix: extent returned steps leaving the domain for
 points on the boundary and ignored equality constraints

---
 psdr/domains/euclidean.py | 60 ++++++++++++++++++++-------------------
 psdr/domains/linineq.py   |  3 --
 psdr/domains/point.py     |  3 +-
 psdr/domains/unbounded.py |  3 ++
 4 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index c609f65..b3d82da 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -484,6 +484,7 @@ class EuclideanDomain(Domain):
 			x = np.array(x).reshape(len(self))
 		except ValueError:
 			raise ValueError("Starting point not the same dimension as the domain")
+		p = np.array(p).reshape(len(self))
 
 		assert self.isinside(x), "Starting point must be inside the domain" 
 		return self._extent(x, p)
@@ -1158,36 +1159,30 @@ class EuclideanDomain(Domain):
 		"""Check the extent from the box constraints"""
 		alpha = np.inf
 		
-		# If on the boundary, the direction needs to point inside the domain
-		# otherwise we cannot move
-		if np.any(p[self.lb == x] < 0):
-			return 0.
-		if np.any(p[self.ub == x] > 0):
-			return 0.	
-		
-		# To prevent divide-by-zero we ignore directions we are not moving in
-		I = np.nonzero(p)
-
-		# Check upper bounds
-		y = (self.ub - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))	
+		# Check upper bounds; if x is on the boundary (or outside within the tolerance),
+		# the direction needs to point inside the domain otherwise we cannot move
+		I = p > 0
+		if np.any(I):
+			alpha = min(alpha, np.min((self.ub - x)[I]/p[I]))
 
 		# Check lower bounds
-		y = (self.lb - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))
+		I = p < 0
+		if np.any(I):
+			alpha = min(alpha, np.min((self.lb - x)[I]/p[I]))
 		
-		return alpha
+		return max(alpha, 0.)
 
 	def _extent_ineq(self, x, p):
 		""" check the extent from the inequality constraints """
 		alpha = np.inf
-		# positive extent
-		with np.errstate(divide = 'ignore'):
-			y = (self.b - np.dot(self.A, x)	)/np.dot(self.A, p)
-		if np.sum(y>0) > 0:
-			alpha = min(alpha, np.min(y[y>0]))
+		# only the constraints we move towards (beyond rounding errors) limit the extent
+		Ap = np.dot(self.A, p)
+		I = Ap > 1e-14*np.dot(np.abs(self.A), np.abs(p))
+		if np.any(I):
+			slack = (self.b - np.dot(self.A, x))[I]
+			# a point outside by less than the tolerance may only make a negligible step 
+			slack[slack < 0] = np.finfo(float).eps
+			alpha = min(alpha, np.min(slack/Ap[I]))
 
 		return alpha
 	
@@ -1202,9 +1197,16 @@ class EuclideanDomain(Domain):
 			b = 2*Lp.T.dot(Lxy)
 			c = Lxy.T.dot(Lxy) - rho**2
 			
-			roots = np.roots([a,b,c])
-			real_roots = roots[np.isreal(roots)]
-			pos_roots = real_roots[real_roots>=0]
-			if len(pos_roots) > 0:
-				alpha = min(alpha, min(pos_roots))
-		return alpha
+			# If we are not moving with respect to this constraint, it does not limit the extent
+			if a == 0:
+				continue
+
+			# As x is inside, we leave the constraint at the larger of the two roots;
+			# we choose the form of this root that does not suffer from cancellation
+			d = np.sqrt(max(b**2 - 4*a*c, 0.))
+			if b > 0:
+				root = -2*c/(b + d)
+			else:
+				root = (-b + d)/(2*a)
+			alpha = min(alpha, root)
+		return max(alpha, 0.)
diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index e5e0072..419b87c 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -49,9 +49,6 @@ class LinIneqDomain(LinQuadDomain):
 	def _isinside(self, X, tol = TOL):
 		return self._isinside_bounds(X, tol = tol) & self._isinside_ineq(X, tol = tol) & self._isinside_eq(X, tol = tol)
 
-	def _extent(self, x, p):
-		return min(self._extent_bounds(x, p), self._extent_ineq(x, p))
-	
 	def _normalized_domain(self, **kwargs):
 		names_norm = [name + ' (normalized)' for name in self.names]
 		return LinIneqDomain(lb = self.lb_norm, ub = self.ub_norm, A = self.A_norm, b = self.b_norm, 
diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index b1cebcc..b6b23e6 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -38,7 +38,8 @@ class PointDomain(BoxDomain):
 		return np.copy(self._x)
 
 	def _extent(self, x, p, **kwargs):
-		return 0
+		# We cannot move away from the point
+		return 0. if np.any(p != 0) else np.inf
 
 	def _isinside(self, X, tol = TOL):
 		Pcopy = np.tile(self._x.reshape(1,-1), (X.shape[0],1))
diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 40c41e2..29cdf6b 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -47,6 +47,9 @@ class UnboundedDomain(EuclideanDomain):
 	def _unnormalize(self, X_norm):
 		return X_norm
 
+	def _extent(self, x, p):
+		return np.inf
+
 	def _isinside(self, X, tol = None):
 		if X.shape[1]== len(self):
 			return np.ones(X.shape[0],dtype = np.bool)
-- 
2.43.0


From 8639fa3dabb63b74cd1c300c59f4896faf2cb58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 04/98] fix: Lipschitz matrix fit no longer fails with a divide
 by zero error inside of CVXOPT

---
 psdr/lipschitz.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 4f8311e..5e3059e 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -346,7 +346,15 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			if name in self.kwargs:
 				cvxopt.solvers.options[name] = self.kwargs[name]
 
-		sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
+		while True:
+			try:
+				sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
+				break
+			except ZeroDivisionError:
+				# As noted above, too small tolerances can yield divide by zero errors
+				if cvxopt.solvers.options['feastol'] > 1e-6: raise
+				for name in ['abstol', 'reltol', 'feastol']:
+					cvxopt.solvers.options[name] *= 10
 		alpha = sol['x']
 		H = np.sum([ alpha_i * Ei for alpha_i, Ei in zip(alpha, Es)], axis = 0)
 		return H
-- 
2.43.0


From 3501c713876461189369de30f0376e821d86036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 05/98] fix: sweep modified the direction provided by the
 caller

---
 psdr/domains/euclidean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index b3d82da..096fa84 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -419,6 +419,7 @@ class EuclideanDomain(Domain):
 			p = np.random.randn(len(self))
 		else:
 			assert len(p) == len(self), "Length of direction vector 'p' does not match the domain"
+			p = np.array(p)
 
 		if corner:
 			# Two end points for search
@@ -427,7 +428,7 @@ class EuclideanDomain(Domain):
 		else:
 			# Orthogonalize search direction against equality constraints 
 			Qeq = self._A_eq_basis
-			p -= Qeq.dot(Qeq.T.dot(p))
+			p = p - Qeq.dot(Qeq.T.dot(p))
 
 			a1 = self.extent(x, p)
 			c1 = x + a1*p
-- 
2.43.0


From aa887736b48526de1a383b148a4291d2a8cda446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 06/98] fix: tensor product domains dropped quadratic
 constraints and failed with unbounded factors

---
 psdr/domains/tensor.py    | 24 ++++++++++++++++++++++++
 psdr/domains/unbounded.py |  1 +
 2 files changed, 25 insertions(+)

diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index c22f574..e7347f5 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -160,6 +160,30 @@ class TensorProductDomain(EuclideanDomain):
 	def b_eq(self):
 		return np.concatenate([dom.b_eq for dom in self.domains])
 
+	@property
+	def Ls(self):
+		Ls = []
+		for dom, I in zip(self.domains, self._slices):
+			for L in dom.Ls:
+				L_tmp = np.zeros((L.shape[0], len(self)))
+				L_tmp[:,I] = L
+				Ls.append(L_tmp)
+		return Ls
+
+	@property
+	def ys(self):
+		ys = []
+		for dom, I in zip(self.domains, self._slices):
+			for y in dom.ys:
+				y_tmp = np.zeros(len(self))
+				y_tmp[I] = y
+				ys.append(y_tmp)
+		return ys
+
+	@property
+	def rhos(self):
+		return [rho for dom in self.domains for rho in dom.rhos]
+
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 29cdf6b..2f97eb6 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -20,6 +20,7 @@ class UnboundedDomain(EuclideanDomain):
 	"""
 	def __init__(self, dimension, names = None):
 		self._dimension = dimension
+		self.kwargs = {}
 		self._init_names(names)
 
 		self._unbounded = True
-- 
2.43.0


From 9acf6587cd74f5c29183287faf6c637450023344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 07/98] fix: convex hull domains ignored their remaining
 constraints in extent and bounds in to_linineq

---
 psdr/domains/convexhull.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index babea3a..e18b0e4 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -79,7 +79,8 @@ class _Extent:
 			self.domain._X_norm.T @ self.alpha == self.p_norm * self.beta + self.x_norm,
 			cp.sum(self.alpha) == 1
 		] 
-		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.x_norm) 
+		# the end of the step has to satisfy the remaining constraints
+		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.p_norm * self.beta + self.x_norm) 
 		
 		self.prob = cp.Problem(self.obj, self.constraints)
 
@@ -195,7 +196,7 @@ class ConvexHullDomain(LinQuadDomain):
 		dom_hull = LinQuadDomain(A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names, **kwargs)
 		dom_hull.vertices = np.copy(vertices)
 		# Add back in non-hull constraints
-		dom = dom_hull.add_constraints(A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
+		dom = dom_hull.add_constraints(lb = self.lb, ub = self.ub, A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
 				Ls = self.Ls, ys = self.ys, rhos = self.rhos)
 		return dom
 
@@ -248,7 +249,7 @@ class ConvexHullDomain(LinQuadDomain):
 	def _build_constraints(self, x):
 		
 		alpha = cp.Variable(len(self.X), name = 'alpha')
-		constraints = [x == alpha @ self._X.T,  alpha >=0, cp.sum(alpha) == 1]
+		constraints = [x == alpha @ self._X,  alpha >=0, cp.sum(alpha) == 1]
 		constraints += LinQuadDomain._build_constraints(self, x)
 		return constraints
 		
-- 
2.43.0


From 0d842b90ab8768fc2fc61a91302d79fdf72a20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 08/98] fix: log-normal domain bounds ignored offset and
 scaling, and its density used the variance as standard deviation

---
 psdr/domains/lognormal.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7973b80..ca09968 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -35,6 +35,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 	"""	
 	def __init__(self, mean, cov = 1., offset = 0., scaling = 1., truncate = None, names = None):
 		self.tol = 1e-6
+		self.kwargs = {}
 		self.normal_domain = NormalDomain(mean, cov, truncate = truncate)
 		assert len(self.normal_domain) == 1, "Only defined for one-dimensional distributions"
 
@@ -52,8 +53,10 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			self._lb = self.offset + self.scaling*np.exp(self.normal_domain.norm_lb)
 			self._ub = self.offset + self.scaling*np.exp(self.normal_domain.norm_ub)
 		else:
-			self._lb = 0.*np.ones(1)
-			self._ub = np.inf*np.ones(1)
+			self._lb = self.offset*np.ones(1)
+			self._ub = np.sign(self.scaling)*np.inf*np.ones(1)
+		if self.scaling < 0:
+			self._lb, self._ub = self._ub, self._lb
 
 		self._init_names(names)
 
@@ -75,6 +78,12 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			return self
 
 	def _pdf(self, X):
-		X_norm = (X - self.offset)/self.scaling
-		p = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*self.cov*np.sqrt(2*np.pi))
+		X_norm = ((X - self.offset)/self.scaling).flatten()
+		p = np.zeros(X_norm.shape)
+		I = X_norm > 0
+		p[I] = np.exp(-(np.log(X_norm[I]) - self.mean)**2/(2*self.cov))/(X_norm[I]*np.sqrt(2*np.pi*self.cov))
+		if self.truncate is not None:
+			p /= (1 - self.truncate)
+			# probability is zero for those points outside of the domain
+			p *= self.isinside(X)
 		return p
-- 
2.43.0


From d0fa672631d8d677fd9eb4056a62eac29fdf4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 09/98] fix: normalized_domain lost the hull of convex hull
 domains and failed for unbounded domains

---
 psdr/domains/convexhull.py | 6 ++++++
 psdr/domains/unbounded.py  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index e18b0e4..3b8e59f 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -172,6 +172,12 @@ class ConvexHullDomain(LinQuadDomain):
 	def _is_box_domain(self):
 		return False
 
+	def _normalized_domain(self, **kwargs):
+		names_norm = [name + ' (normalized)' for name in self.names]
+		return ConvexHullDomain(self._X_norm, lb = self.lb_norm, ub = self.ub_norm, A = self.A_norm, b = self.b_norm, 
+			A_eq = self.A_eq_norm, b_eq = self.b_eq_norm, Ls = self.Ls_norm, ys = self.ys_norm, rhos = self.rhos_norm,
+			names = names_norm, tol = self.tol, **merge(self.kwargs, kwargs))
+
 	def __str__(self):
 		ret = "<ConvexHullDomain on R^%d based on %d points" % (len(self), len(self._X_norm))
 		if len(self._Ls) > 0:
diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 2f97eb6..db43c3b 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -51,6 +51,10 @@ class UnboundedDomain(EuclideanDomain):
 	def _extent(self, x, p):
 		return np.inf
 
+	def _normalized_domain(self, **kwargs):
+		names_norm = [name + ' (normalized)' for name in self.names]
+		return UnboundedDomain(len(self), names = names_norm)
+
 	def _isinside(self, X, tol = None):
 		if X.shape[1]== len(self):
 			return np.ones(X.shape[0],dtype = np.bool)
-- 
2.43.0


From 23917999502793eab15750a66b504c50fef369a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 10/98] fix: intersecting with a convex hull domain dropped the
 hull

---
 psdr/domains/linquad.py |  7 +++++++
 psdr/domains/tensor.py  | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index f4c00bd..5107541 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -360,6 +360,13 @@ class LinQuadDomain(EuclideanDomain):
 			return BoxDomain(lb = lb, ub = ub, names = self.names)
 
 	def __and__(self, other):
+		# convex hulls are not described by the constraints below
+		from .convexhull import ConvexHullDomain
+		if isinstance(other, ConvexHullDomain):
+			other = other.to_linineq()
+		elif isinstance(other, TensorProductDomain):
+			other = other._explicit_constraints()
+
 		if isinstance(other, LinQuadDomain) or (isinstance(other, TensorProductDomain) and other.is_linquad_domain):
 			return self.add_constraints(lb = other.lb, ub = other.ub,
 				A = other.A, b = other.b, A_eq = other.A_eq, b_eq = other.b_eq,
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index e7347f5..1beaaeb 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -184,10 +184,18 @@ class TensorProductDomain(EuclideanDomain):
 	def rhos(self):
 		return [rho for dom in self.domains for rho in dom.rhos]
 
+	def _explicit_constraints(self):
+		r""" Replace convex hulls with their equivalent linear constraints
+		"""
+		from .convexhull import ConvexHullDomain
+		if any([isinstance(dom, ConvexHullDomain) for dom in self.domains]):
+			return TensorProductDomain([dom.to_linineq() if isinstance(dom, ConvexHullDomain) else dom for dom in self.domains])
+		return self
+
 	def add_constraints(self, *args, **kwargs):
 		if self.is_linquad_domain:
 			from .linquad import LinQuadDomain
-			return LinQuadDomain.add_constraints(self, *args, **kwargs)
+			return LinQuadDomain.add_constraints(self._explicit_constraints(), *args, **kwargs)
 		else:
 			raise NotImplementedError
 
-- 
2.43.0


From b2417119cd990e1fa2d5f51ce4578eed458a23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 11/98] fix: box domains returned infinite or truncated corners
 and is_empty changed is_point and is_unbounded

---
 psdr/domains/box.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/psdr/domains/box.py b/psdr/domains/box.py
index a008969..67e1313 100644
--- a/psdr/domains/box.py
+++ b/psdr/domains/box.py
@@ -5,7 +5,7 @@ from scipy.spatial.distance import pdist
 
 from .domain import TOL
 from .linineq import LinIneqDomain
-from ..exceptions import EmptyDomainException
+from ..exceptions import EmptyDomainException, UnboundedDomainException
 
 
 class BoxDomain(LinIneqDomain):
@@ -34,8 +34,9 @@ class BoxDomain(LinIneqDomain):
 			return self._empty
 		except AttributeError:
 			self._empty = np.any(self.lb > self.ub)
-			self._point = False
-			self._unbounded = False
+			if self._empty:
+				self._point = False
+				self._unbounded = False
 			return self._empty
 	
 	@property
@@ -64,11 +65,14 @@ class BoxDomain(LinIneqDomain):
 
 	def _corner(self, p, **kwargs):
 		# Since the domain is a box, we can find the corners simply by looking at the sign of p
-		x = np.copy(self.lb)
-		I = (p>=0)
-		x[I] = self.ub[I]
-		if not self.isinside(x):
+		if np.any(self.lb > self.ub + TOL):
 			raise EmptyDomainException
+		x = np.where(p >= 0, self.ub, self.lb).astype(float)
+		# If we are not moving in a coordinate, any finite value will do 
+		I = (p == 0) & ~np.isfinite(x)
+		x[I] = np.where(np.isfinite(self.lb[I]), self.lb[I], 0.)
+		if not np.all(np.isfinite(x)):
+			raise UnboundedDomainException
 		return x
 
 	def _extent(self, x, p):
-- 
2.43.0


From 58c233a0598fd89badfa6cd9a8b5f8d1708d9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 12/98] fix: point domains ignored the tolerance when testing
 if a point is inside

---
 psdr/domains/point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index b6b23e6..927527e 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -43,7 +43,7 @@ class PointDomain(BoxDomain):
 
 	def _isinside(self, X, tol = TOL):
 		Pcopy = np.tile(self._x.reshape(1,-1), (X.shape[0],1))
-		return np.all(X == Pcopy, axis = 1)	
+		return np.all(np.abs(X - Pcopy) <= tol, axis = 1)
 
 	def _sample(self, draw = 1):
 		return np.tile(self._x.reshape(1,-1), (draw, 1))
-- 
2.43.0


From 1716aed7f18e2512798b43eb694bfa43ee2a0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 13/98] fix: bounds were dropped from optimization if a domain
 had both finite and infinite bounds

---
 psdr/domains/euclidean.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 096fa84..5cf1406 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -957,15 +957,17 @@ class EuclideanDomain(Domain):
 	
 	@property
 	def lb_norm(self):
-		lb_norm = self.normalize(self.lb)
+		# infinite bounds must not enter the normalization, where they yield nans in the other coordinates
 		I = ~np.isfinite(self.lb)
+		lb_norm = self.normalize(np.where(I, 0., self.lb))
 		lb_norm[I] = -np.inf
 		return lb_norm
 
 	@property
 	def ub_norm(self):
-		ub_norm = self.normalize(self.ub)
+		# infinite bounds must not enter the normalization, where they yield nans in the other coordinates
 		I = ~np.isfinite(self.ub)
+		ub_norm = self.normalize(np.where(I, 0., self.ub))
 		ub_norm[I] = np.inf
 		return ub_norm
 
-- 
2.43.0


From 0c06e0f01cf8d21ac02b98c6b8ddf7456062f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 14/98] fix: is_unbounded failed on one dimensional domains

---
 psdr/domains/euclidean.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 5cf1406..4b07fc2 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -113,7 +113,10 @@ class EuclideanDomain(Domain):
 	@cached_property
 	def is_unbounded(self):
 		try:
-			U = ortho_group.rvs(len(self))
+			if len(self) > 1:
+				U = ortho_group.rvs(len(self))
+			else:
+				U = np.ones((1,1))
 			for u in U:
 				x1 = self.corner(u)
 				x2 = self.corner(-u)
-- 
2.43.0


From bd666f3c9ee7f2c168f25ff0b9383e9c8cd6ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 15/98] fix: corner did not notice the domain contains a line

---
 psdr/domains/convexhull.py |  2 ++
 psdr/domains/euclidean.py  | 12 ++++++++++++
 psdr/domains/tensor.py     |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 3b8e59f..25a935d 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -224,6 +224,8 @@ class ConvexHullDomain(LinQuadDomain):
 	def __len__(self):
 		return self._X.shape[1]
 
+	def _contains_line(self, p):
+		return False
 
 	def _sample(self, draw = 1):
 		if len(self.X) == 1:
diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 4b07fc2..91f54ae 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -305,10 +305,22 @@ class EuclideanDomain(Domain):
 		elif problem.status not in ['optimal', 'optimal_inaccurate']:
 			raise SolverError("CVXPY exited with status '%s'" % problem.status)
 
+		# The robust KKT solver of CVXOPT yields a finite point if we can move along an entire line  
+		if self._contains_line(p):
+			raise UnboundedDomainException
+
 		# If we have found a solution, then the domain is not empty
 		self._empty = False
 		return self.unnormalize(np.array(x_norm.value).reshape(len(self)))
 		
+	def _contains_line(self, p):
+		r""" True if p has a component in a direction not restricted by any constraint
+		"""
+		I = np.isfinite(self.lb) | np.isfinite(self.ub)
+		C = np.vstack([np.eye(len(self))[I], self.A, self.A_eq] + list(self.Ls))
+		if len(C) == 0:
+			return np.any(p != 0)
+		return np.linalg.norm(p - np.linalg.pinv(C) @ (C @ p)) > 1e-10*np.linalg.norm(p)
 
 
 	def constrained_least_squares(self, A, b, **kwargs):
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index 1beaaeb..d8531f4 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -80,6 +80,9 @@ class TensorProductDomain(EuclideanDomain):
 		return min(alpha)
 
 
+	def _contains_line(self, p):
+		return any([dom._contains_line(p[I]) for dom, I in zip(self.domains, self._slices)])
+
 	def __len__(self):
 		return sum([len(dom) for dom in self.domains])
 
-- 
2.43.0


From 5d6461ecd63c34b0f9a6648d5eb9aa205c92a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 16/98] fix: convex hulls blocked steps inside a tensor product
 that do not change their coordinates

---
 psdr/domains/convexhull.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 25a935d..b42a45a 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -85,6 +85,9 @@ class _Extent:
 		self.prob = cp.Problem(self.obj, self.constraints)
 
 	def __call__(self, x, p, **kwargs):
+		# If we are not moving, the convex hull does not limit the step (e.g., inside a tensor product)
+		if np.all(np.asarray(p) == 0):
+			return np.inf
 		kwargs['warm_start'] = False
 		self.x_norm.value = self.domain.normalize(x)
 		self.p_norm.value = self.domain.normalize(x+p)-self.domain.normalize(x)
-- 
2.43.0


From 098836bc87545859229923e9deca0b05395d0d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 17/98] fix: center was only defined for domains with linear
 constraints so sample_boundary failed

---
 psdr/domains/euclidean.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 91f54ae..d8bd3ac 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -834,13 +834,18 @@ class EuclideanDomain(Domain):
 	def _A_eq_basis(self):
 		r""" This contains an orthogonal basis for the directions that are *not* allowed to be moved along
 		"""
-		try: 
-			if len(self.A_eq) == 0: raise AttributeError
-			Qeq = orth(self.A_eq.T)
-		except AttributeError:
-			Qeq = np.zeros((len(self),0))
-		return Qeq
+		# We cannot move along coordinates where the lower and upper bounds are equal
+		A_eq = np.vstack([self.A_eq, np.eye(len(self))[self.lb == self.ub]])
+		if len(A_eq) == 0:
+			return np.zeros((len(self),0))
+		return orth(A_eq.T)
+
 
+	@property
+	def center(self):
+		r""" A point inside the domain away from (most of) its boundary
+		"""
+		return self._corner_center()
 
 	def _corner_center(self):
 		# Otherwise we pick points on the boundary and then initialize
-- 
2.43.0


From 7d8132559eac5caea958f52cbf65608d5dcc7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 18/98] fix: quadrature rules of empty domains did not
 terminate

---
 psdr/domains/euclidean.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index d8bd3ac..909c9d4 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -735,6 +735,10 @@ class EuclideanDomain(Domain):
 			if self.truncate is not None:
 				raise NotImplementedError
 
+		# Without any points inside the domain, the loop below would not terminate
+		if self.is_empty:
+			raise EmptyDomainException
+
 		# If we have a single point in the domain, we can't really integrate
 		if self.is_point:
 			return self.sample().reshape(1,-1), np.ones(1) 
-- 
2.43.0


From 7e3e04bff6232d1f75a308c80458e3e3cdf447fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 19/98] fix: random_direction did not terminate for domains
 with fixed coordinates

---
 psdr/domains/convexhull.py | 6 +-----
 psdr/domains/tensor.py     | 5 +++++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index b42a45a..8d00517 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -316,11 +316,7 @@ class ConvexHullDomain(LinQuadDomain):
 
 	@cached_property
 	def _A_eq_basis(self):
-		try: 
-			if len(self.A_eq) == 0: raise AttributeError
-			Qeq = orth(self.A_eq.T)
-		except AttributeError:
-			Qeq = np.zeros((len(self),0))
+		Qeq = LinQuadDomain._A_eq_basis.func(self)
 		
 		# Check if points are colinear; if so add the corresponding equality constraint	
 		Xc = np.mean(self.X, axis = 0)
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index d8531f4..40ef763 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -1,6 +1,7 @@
 from __future__ import division
 
 import numpy as np
+from scipy.linalg import block_diag
 import itertools
 
 from ..misc import merge
@@ -80,6 +81,10 @@ class TensorProductDomain(EuclideanDomain):
 		return min(alpha)
 
 
+	@property
+	def _A_eq_basis(self):
+		return block_diag(*[dom._A_eq_basis for dom in self.domains])
+
 	def _contains_line(self, p):
 		return any([dom._contains_line(p[I]) for dom, I in zip(self.domains, self._slices)])
 
-- 
2.43.0


From 690a07f51949c3b413dedf9b36e8e930e1867bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 20/98] fix: the cached Chebyshev center of a domain was handed
 out to callers

---
 psdr/domains/linineq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index 419b87c..8432cbc 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -118,7 +118,7 @@ class LinIneqDomain(LinQuadDomain):
 		#print(zc.value[0:-1])
 
 		self._radius = radius
-		self._cheb_center = center
+		self._cheb_center = np.copy(center)
 		
 		return center, radius
 		
@@ -133,10 +133,10 @@ class LinIneqDomain(LinQuadDomain):
 	@property
 	def center(self):
 		try:
-			return self._cheb_center
+			return np.copy(self._cheb_center)
 		except:
 			self.chebyshev_center()
-			return self._cheb_center
+			return np.copy(self._cheb_center)
 
 	@property
 	def Ls(self): return []
-- 
2.43.0


From f11188fa0fd7099270c64143570195e84d25670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 21/98] fix: finite difference gradients of multi-output
 functions and of functions with keyword arguments

---
 psdr/function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 84541f1..ece5985 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -201,14 +201,14 @@ class Function(BaseFunction):
 			h = 1e-7
 			grads = []
 			for x in np.atleast_2d(X_norm):
-				fx = self.eval(x)
-				grad = np.zeros(x.shape)
+				fx = self.eval(x, **kwargs)
+				grad = np.zeros((len(fx), len(x)))
 				for i in range(len(x)):
 					ei = np.zeros(x.shape)
 					ei[i] = 1.
-					grad[i] = (self.eval(x + h*ei, **kwargs) - fx)/h
+					grad[:,i] = (self.eval(x + h*ei, **kwargs) - fx)/h
 				# This ensures the dimensions match expectation for 
-				grads.append(np.atleast_2d(grad))
+				grads.append(grad)
 			
 			return self._shape_grad(X_norm, grads)
 
-- 
2.43.0


From a3d11d68bcd16be0b285d71962b0922595dbeadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 22/98] fix: shapes of vectorized gradients for several
 functions or outputs

---
 psdr/function.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index ece5985..2c66585 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -220,9 +220,8 @@ class Function(BaseFunction):
 			X = np.atleast_2d(X)
 			
 			if self.vectorized:
-				# TODO: I don't think this will get dimensions quite right
-				grads = np.array([ np.array(grad(X, **kwargs)) for grad in self._grads])
-				grads = np.transpose(grads, (1,0,2))
+				grads = [np.array(grad(X, **kwargs)).reshape(X.shape[0], -1, len(self.domain)) for grad in self._grads]
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = np.array([ np.vstack([grad(x, **kwargs) for grad in self._grads]) for x in X])
 		
@@ -238,8 +237,8 @@ class Function(BaseFunction):
 				grads = []
 				for fun in self._funs:
 					fXi, gradsi = fun(X, return_grad = True, **kwargs)
-					grads.append(gradsi)
-				grads = np.array([ np.atleast_2d(grad) for grad in grads])
+					grads.append(np.array(gradsi).reshape(X.shape[0], -1, len(self.domain)))
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = []
 				for x in X:
@@ -267,8 +266,8 @@ class Function(BaseFunction):
 			D = self.domain_app._unnormalize_der() 	
 			if self.vectorized:
 				ret = [fun(X, return_grad = True, **kwargs) for fun in self._funs]
-				fX = np.hstack([r[0] for r in ret])
-				grads = np.concatenate([r[1].reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
+				fX = np.hstack([np.array(r[0]).reshape(X.shape[0], -1) for r in ret])
+				grads = np.concatenate([np.array(r[1]).reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
 			else:
 				fX = []
 				grads = []
-- 
2.43.0


From 2602ea49327a534a153250f78516ee5a965999b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 23/98] fix: Function called with return_grad on a list

---
 psdr/function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/function.py b/psdr/function.py
index 2c66585..f0b8416 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -261,6 +261,7 @@ class Function(BaseFunction):
 
 		if self.return_grad:
 			# If the function can return both the value and gradient simultaneously
+			X_norm = np.atleast_1d(X_norm)
 			X = self.domain_app.unnormalize(X_norm)
 			X = np.atleast_2d(X)
 			D = self.domain_app._unnormalize_der() 	
-- 
2.43.0


From 104de06883369e678208075224d3aba7d73c3c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 24/98] fix: roots of polynomials in a basis without scaling

---
 psdr/basis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 4661665..cca6ffc 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -355,7 +355,10 @@ class PolynomialTensorBasis(Basis):
 		if self.dim > 1:
 			raise NotImplementedError
 		r = self.polyroots(coef)
-		return r*(self._ub[0] - self._lb[0])/2.0 + (self._ub[0] + self._lb[0])/2.
+		try:
+			return r*(self._ub[0] - self._lb[0])/2.0 + (self._ub[0] + self._lb[0])/2.
+		except AttributeError:
+			return r
 		 
 
 class MonomialTensorBasis(PolynomialTensorBasis):
@@ -429,7 +432,10 @@ class HermiteTensorBasis(PolynomialTensorBasis):
 		if self.dim > 1:
 			raise NotImplementedError
 		r = hermroots(coef)
-		return r*self._std[0]*np.sqrt(2) + self._mean[0]
+		try:
+			return r*self._std[0]*np.sqrt(2) + self._mean[0]
+		except AttributeError:
+			return r
 
 
 class ArnoldiPolynomialBasis(Basis):
-- 
2.43.0


From 01807edc4e304d4c29b4c73a270c67799e8cf20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 25/98] fix: sweep along a direction in which the domain has no
 extent left the domain

---
 psdr/domains/euclidean.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 909c9d4..e58027b 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -443,18 +443,25 @@ class EuclideanDomain(Domain):
 		else:
 			# Orthogonalize search direction against equality constraints 
 			Qeq = self._A_eq_basis
+			pnorm = np.linalg.norm(p)
 			p = p - Qeq.dot(Qeq.T.dot(p))
 
-			a1 = self.extent(x, p)
-			c1 = x + a1*p
-			a2 = -self.extent(x, -p)
-			c2 = x + a2*p
+			if np.linalg.norm(p) <= 1e-12*pnorm:
+				# Only rounding error remains: there is no way to move along p
+				c1 = c2 = x
+			else:
+				a1 = self.extent(x, p)
+				c1 = x + a1*p
+				a2 = -self.extent(x, -p)
+				c2 = x + a2*p
 		
 		# Samples
 		X = np.array([ (1-alpha)*c1 + alpha*c2 for alpha in np.linspace(0,1,n)])
 
 		# line direction
-		d = (X[1] - X[0])/np.linalg.norm(X[1] - X[0])	
+		d = X[-1] - X[0]
+		if np.any(d != 0):
+			d = d/np.linalg.norm(d)
 		y = X.dot(d)
 		return X, y
 
-- 
2.43.0


From 35cc71e172c9d91c0807b6643b9de28373c8574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 26/98] fix: the direction of affine ridge bounds was found for
 the opposite bound

---
 psdr/polyridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index ea99544..f9e2901 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -382,9 +382,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 				b = inf_norm_fit(XX, fX)
 		elif self.bound == 'lower':
 			# fX >= XX b
-			b = bound_fit(XX, fX, norm = self.norm)
+			b = bound_fit(-XX, -fX, norm = self.norm)
 		elif self.bound == 'upper':
-			b = bound_fit(-XX, -fX, norm = self.norm)	 	
+			b = bound_fit(XX, fX, norm = self.norm)
 
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
-- 
2.43.0


From b50dea89b933aa4cfbb6bd158f3e336693d66b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 27/98] fix: PolynomialRidgeApproximation raises the
 UnderdeterminedException that psdr exports

---
 psdr/polyridge.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index f9e2901..5132336 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -91,11 +91,8 @@ class PolynomialRidgeFunction(RidgeFunction):
 
 
 ################################################################################
-# Two types of custom errors raised by PolynomialRidgeApproximation
+# Custom error raised by PolynomialRidgeApproximation
 ################################################################################
-class UnderdeterminedException(Exception):
-	pass
-
 class IllposedException(Exception):
 	pass
 
-- 
2.43.0


From 2b8ad86adb80b5fe32cf1ac60e9450cb5e48baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 28/98] fix: gauss_newton used an outdated gradient norm unless
 verbose

---
 psdr/gn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index ca2da09..759dc18 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -216,8 +216,8 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 
 		normdx = np.linalg.norm(dx)
 		F_eval = F(x)
-		grad = F_eval.T @ f_eval_new
-		
+		grad = F_eval.T @ f_eval
+		normgrad = np.linalg.norm(grad)
 
 		#########################################################################
 		# Printing section 
@@ -227,7 +227,6 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 			cond = s[0] / s[-1]
 		
 		if verbose >= 1:
-			normgrad = np.linalg.norm(grad)
 			print(
 				'    %3d  |  %1.4e  |  %8.2e  |  %8.2e  |  %8.2e  |  %8.2e' % (
 				it, normf, normdx, cond, alpha, normgrad))
-- 
2.43.0


From 8b2439a746953d2b40340d978095f3658fb6c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 29/98] fix: polynomial ridge approximations with a subspace of
 full dimension failed

---
 psdr/gn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index 759dc18..aed8c05 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -221,7 +221,9 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 
 		#########################################################################
 		# Printing section 
-		if s[-1] == 0:
+		if len(s) == 0:
+			cond = np.nan
+		elif s[-1] == 0:
 			cond = np.inf
 		else:	
 			cond = s[0] / s[-1]
-- 
2.43.0


From 1c980cbdc57ddbe753c53f5751355b2e6759f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 30/98] fix: sequential_lp accepted steps that violate the
 nonlinear constraints

---
 psdr/seqlp.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/psdr/seqlp.py b/psdr/seqlp.py
index 3ffce95..468ebed 100644
--- a/psdr/seqlp.py
+++ b/psdr/seqlp.py
@@ -122,6 +122,14 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 	
 		return kkt_norm
 
+	# Violation of the nonlinear constraints
+	def violation(x):
+		viol = 0.
+		for con, con_lb, con_ub in zip(constraints, constraints_lb, constraints_ub):
+			conx = np.array(con(x))
+			viol += np.sum(np.maximum(con_lb - conx, 0)) + np.sum(np.maximum(conx - con_ub, 0))
+		return viol
+
 	# Start optimizaiton loop
 	x = np.copy(x0)
 	try:
@@ -233,7 +241,10 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 					I = ~(fx_new <= obj_ub)
 					constraint_violation += np.linalg.norm((fx_new - obj_ub)[I], 1)
 
-				if objval_new < objval and np.isclose(constraint_violation, 0., rtol = 1e-10, atol = 1e-10):
+				# The linearized constraints may be violated by the actual step; this must not increase
+				feasible = violation(x_new) <= max(violation(x), 1e-7)
+
+				if objval_new < objval and feasible and np.isclose(constraint_violation, 0., rtol = 1e-10, atol = 1e-10):
 					x = x_new
 					fx = fx_new
 
-- 
2.43.0


From c8a1d683d9a2d983463295adea34cc8e4b5f84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 31/98] fix: sequential_lp failed when verbose if the first
 step does not move

---
 psdr/seqlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/seqlp.py b/psdr/seqlp.py
index 468ebed..9006a96 100644
--- a/psdr/seqlp.py
+++ b/psdr/seqlp.py
@@ -191,6 +191,8 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 		domain_constraints = domain._build_constraints(x + p)
 
 		stop = False
+		px = np.zeros(x.shape)
+		constraint_violation = 0.
 		for it2 in range(bt_maxiter):
 			active_constraints = nonlinear_constraints + domain_constraints + search_step_constraints
 
-- 
2.43.0


From 77131aff8029fa8c0c6a7913f378af00f2cbd49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 32/98] fix: the Lipschitz matrix of constant data was NaN

---
 psdr/lipschitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 5e3059e..739de3b 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -148,6 +148,9 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		except ValueError:
 			scale2 = 1.
 		scale = max(scale1, scale2)
+		# Constant data needs no scaling
+		if scale == 0:
+			scale = 1.
 	
 		if self.epsilon is not None:
 			epsilon = self.epsilon/scale
-- 
2.43.0


From c76a6b071e896d43e1acb60ea6bc9219b2d25a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 33/98] fix: DiagonalLipschitzMatrix failed with the methods
 param and cvxpy

---
 psdr/lipschitz.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 739de3b..9163438 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -206,11 +206,17 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		"""
 		return self._L
 
-	def _build_lipschitz_matrix_cvxpy(self, X, fX, grads, epsilon):
+	def _build_lipschitz_matrix_cvxpy(self, X, fX, grads, epsilon, structure = 'full'):
 		# Constrain H to symmetric positive semidefinite (PSD)
 		H = cp.Variable( (len(self), len(self)), PSD = True)
 		
 		constraints = []		
+		if structure == 'diag':
+			for i in range(len(self)):
+				for j in range(i+1, len(self)):
+					constraints.append(H[i,j] == 0)
+		elif structure != 'full':
+			raise NotImplementedError
 
 		# Sample constraint	
 		for i in range(len(X)):
@@ -234,7 +240,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		return np.array(H.value).reshape(len(self),len(self))
 				
 	
-	def _build_lipschitz_matrix_param(self, X, fX, grads, epsilon):
+	def _build_lipschitz_matrix_param(self, X, fX, grads, epsilon, structure = 'full'):
 		r""" Use an explicit parameterization
 		"""
 
@@ -244,9 +250,12 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		for i in range(len(self)):
 			ei = I[:,i]
 			Es.append(np.outer(ei,ei))
-			for j in range(i+1,len(self)):
-				ej = I[:,j]
-				Es.append(0.5*np.outer(ei+ej,ei+ej))
+			if structure == 'full':
+				for j in range(i+1,len(self)):
+					ej = I[:,j]
+					Es.append(0.5*np.outer(ei+ej,ei+ej))
+			elif structure != 'diag':
+				raise NotImplementedError
 
 		alpha = cp.Variable(len(Es))
 		H = cp.sum([alpha_i*Ei for alpha_i, Ei in zip(alpha, Es)])
-- 
2.43.0


From 24110973caf54e2d4d66d9b2b1be546a5e57f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 34/98] fix: DiagonalLipschitzMatrix.U was not updated when
 fitting other data

---
 psdr/lipschitz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 9163438..d518149 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -625,6 +625,8 @@ class DiagonalLipschitzMatrix(CoordinateBasedDimensionReduction, LipschitzMatrix
 		self._L = scale * np.diag(np.sqrt(np.diag(H)))
 		
 		self._score = np.diag(self._L).copy()		
+		# Determined from the scores when needed
+		self._U = None
 		#self._U = np.eye(len(self._score))[:,np.argsort(-self._score)] 
 
 class LipschitzConstant(LipschitzMatrix):
-- 
2.43.0


From 606c27a42406bc603f005b19c0625b13b7aaa125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 35/98] fix: directions orthogonal to the average gradient were
 set to zero

---
 psdr/subspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 425b2b5..ddc0e22 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -274,7 +274,10 @@ class SubspaceBasedDimensionReduction(object):
 		return U.dot(np.diag(np.sign(sgn)))	
 
 	def _fix_subspace_signs_grads(self, U, grads):
-		return U.dot(np.diag(np.sign(np.mean(grads.dot(U), axis = 0))))
+		sgn = np.sign(np.mean(grads.dot(U), axis = 0))
+		# If the sign is zero, keep the current orientation
+		sgn[sgn == 0] = 1
+		return U.dot(np.diag(sgn))
 
 	
 	def approximate_lipschitz(self, X = None, fX = None, grads = None,  dim = None):
-- 
2.43.0


From df064221388a4f1484355df55d63c5a5d04a145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 36/98] fix: LipschitzConstant applied epsilon in the wrong
 units and ignored all samples if one is repeated

---
 psdr/lipschitz.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index d518149..0d9346d 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -641,10 +641,12 @@ class LipschitzConstant(LipschitzMatrix):
 
 	def _fit(self, X, fX, grads, epsilon, scale):
 		L = 0
-		if len(X) > 0:
-			L_samp = np.max([ (abs(fX[i] - fX[j]) - epsilon )/ np.linalg.norm(X[i] - X[j]) 
-				for i,j in combinations(range(len(X)), 2)])
-			L = max(L, L_samp)
+		# The data is not scaled here
+		epsilon = epsilon*scale
+		for i,j in combinations(range(len(X)), 2):
+			if abs(fX[i] - fX[j]) > epsilon:
+				L_samp = (abs(fX[i] - fX[j]) - epsilon )/ np.linalg.norm(X[i] - X[j])
+				L = max(L, L_samp)
 
 		if len(grads) > 0:
 			L_grad = np.max([np.linalg.norm(grad) for grad in grads])
-- 
2.43.0


From 7c898b88167b082b95a5fd72865bf8bad2e69b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 37/98] fix: the Lipschitz matrix of data with small values was
 inaccurate, as the data was not scaled

---
 psdr/lipschitz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 0d9346d..bd5ffc8 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -142,11 +142,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		try:	
 			scale1 = np.max(fX) - np.min(fX)
 		except ValueError:
-			scale1 = 1.
+			scale1 = 0.
 		try:
 			scale2 = np.max([np.linalg.norm(grad) for grad in grads])
 		except ValueError:
-			scale2 = 1.
+			scale2 = 0.
 		scale = max(scale1, scale2)
 		# Constant data needs no scaling
 		if scale == 0:
-- 
2.43.0


From e97d525d7313e4103dbb7e9a171a186067fb527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 38/98] fix: PartialLipschitzMatrix constrained samples that
 differ by less than epsilon

---
 psdr/lipschitz_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index d465cb9..f817fbd 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -161,7 +161,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		for i in range(len(X)):
 			for j in range(i+1, len(X)):
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
 				rhs = cp.quad_form(UTy, J) + alpha*( y.dot(y) - UTy.dot(UTy))
@@ -203,7 +203,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			for j in range(i+1, len(X)):
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2 
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2 
 				# y.T @ U.T @ J @  U @ y + alpha* y.T @ (I - U @ U.T) @ y
 				lhs -= UTy.dot(J.dot(UTy)) + alpha*(y.dot(y) - UTy.dot(UTy)) # 0th order term
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
-- 
2.43.0


From dbef48388fdd5ee90253ba7e4f440e082be64c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 39/98] fix: PartialLipschitzMatrix.L was NaN if the matrix is
 singular

---
 psdr/lipschitz_partial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index f817fbd..f16a3d3 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -83,8 +83,8 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		# Rotate U
 		ew, ev = np.linalg.eigh(J)
-		# Flip to descending order
-		ew = ew[::-1]
+		# Flip to descending order and force to be positive semidefinite
+		ew = np.maximum(ew[::-1], 0)
 		ev = ev[:,::-1]
 		# Rotate onto the domaint subspace, so J becomes diagonal
 		J = np.diag(ew)
@@ -179,7 +179,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 		problem.solve(**self.solver_kwargs)
 
 		J = np.array(J.value)
-		alpha = float(alpha.value)
+		alpha = max(float(alpha.value), 0.)
 		return J, alpha
 
 	def _U_descent(self, U, J, alpha, X, fX, grads, epsilon):
-- 
2.43.0


From 8f975fed381603a38b0713f66d86d9c8b85c37af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 40/98] fix: PartialLipschitzMatrix failed instead of stopping
 if there is no search direction

---
 psdr/lipschitz_partial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index f16a3d3..7bea9b9 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -250,7 +250,13 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			print("%4d | %14.10e |          |          | %7.2e | %7.2e | %7.2e |" % (0, obj, np.max(lam), np.min(lam), alpha))	
 
 		for it in range(self.maxiter):
-			dU, dJ, dalpha = self._U_descent(U, J, alpha, X, fX, grads, epsilon)
+			try:
+				dU, dJ, dalpha = self._U_descent(U, J, alpha, X, fX, grads, epsilon)
+			except (ValueError, cp.SolverError) as e:
+				# The current iterate satisfies the constraints 
+				if self.verbose:
+					print("stopped: %s" % e)
+				break
 
 			if np.linalg.norm(dU) < self.tol_dx:
 				if self.verbose:
-- 
2.43.0


From 2297dbcc524084ed5bd42bab4a960a4be12ef6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 41/98] fix: voronoi_vertex failed if L is not square or
 singular, or if the only point is on the boundary

---
 psdr/geometry/vertex.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 2d747a1..103120c 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -54,21 +54,12 @@ def voronoi_vertex(domain, Xhat, L = None):
 
 	if L is None:
 		L = np.eye(len(domain))
-		Linv = np.eye(len(domain))
 	else:
-		U, s, VT = np.linalg.svd(L)
-		Linv = VT.T @ np.diag(1./s) @ U.T
-
-
+		L = np.array(L)
 
 	# Half spaces from the domain
 	A, b = domain.A_aug, domain.b_aug
 
-	if len(Xhat) == 1:
-		halfspaces = np.hstack([A, -b.reshape(-1,1)])
-		hs = HalfspaceIntersection(halfspaces, Xhat[0])
-		return hs.intersections	
-
 	Yhat = (L @ Xhat.T).T
 	LV = []
 	for k, xhat in enumerate(Xhat):
@@ -83,7 +74,8 @@ def voronoi_vertex(domain, Xhat, L = None):
 		I = np.argwhere(np.sum(Ak**2, axis = 1) > 0).flatten()
 		Ak, bk = Ak[I], bk[I]
 	
-		halfspaces = np.hstack([np.vstack([A @ Linv , Ak  ]) , -np.hstack([b, bk]).reshape(-1,1)])
+		# As L might not be invertible, we work in the coordinates of the domain
+		halfspaces = np.hstack([np.vstack([A , Ak @ L ]) , -np.hstack([b, bk]).reshape(-1,1)])
 
 		try:
 			hs = HalfspaceIntersection(halfspaces, xhat)
@@ -109,8 +101,7 @@ def voronoi_vertex(domain, Xhat, L = None):
 		# TODO: Do we want to keep indexing information, or only return the vertices 
 		LV.append(np.copy(hs.intersections))
 
-	LV = np.vstack(LV)
-	V = (Linv @ LV.T).T
+	V = np.vstack(LV)
 	I = unique_points(V)
 	V = V[I]
 	
-- 
2.43.0


From f6ddbc3c214a341bee7dc4bc0919adfeaad74f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 42/98] fix: maximin_coffeehouse failed on domains without
 interior

---
 psdr/sample/maximin_coffeehouse.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/psdr/sample/maximin_coffeehouse.py b/psdr/sample/maximin_coffeehouse.py
index e78c0a8..41044b8 100644
--- a/psdr/sample/maximin_coffeehouse.py
+++ b/psdr/sample/maximin_coffeehouse.py
@@ -34,10 +34,8 @@ def maximin_coffeehouse(domain, N, L = None, verbose = True, N0 = None, full = N
 	"""
 
 	if full is None:
-		if len(domain) <= 3:
-			full = True
-		else:
-			full = False
+		# Enumerating the Voronoi vertices requires a domain with an interior
+		full = len(domain) <= 3 and len(domain.A_eq) == 0 and bool(np.all(domain.lb < domain.ub))
 
 	if L is None:
 		L = np.eye(len(domain))
-- 
2.43.0


From 72a9d46daef92fce97add9bdf3c502678e51fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 43/98] fix: LipschitzMatrix.uncertainty_domain ignored
 epsilon, failed on lists and if L is not square

---
 psdr/lipschitz.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index bd5ffc8..4791ab9 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -409,7 +409,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		lb = -np.inf*np.ones(Xtest.shape[0])
 		ub = np.inf*np.ones(Xtest.shape[0])
 
-		fX = fX.flatten()
+		fX = np.array(fX).flatten()
 
 		LX = self.L.dot(X.T).T
 		LXtest = self.L.dot(Xtest.T).T
@@ -464,14 +464,15 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		ub: float
 			Upper bound
 		"""
+		X = np.atleast_2d(np.array(X))
+		fX = np.array(fX).flatten()
+
 		lower_bound = LowerBound(self.L, X, fX)
 		upper_bound = UpperBound(self.L, X, fX)
-		
-		fX = fX.flatten()
 	
 		# Force these to be far apart
 		#X0 = initial_sample(domain, self.L, Nsamp = Nsamp) 
-		X0 = maximin_coffeehouse(domain, Nsamp, L = self.L, N0 = 50)  
+		X0 = maximin_coffeehouse(domain, Nsamp, L = self.L, N0 = 50, verbose = verbose)
 		#X0 = voronoi_vertex_sample(domain, X, X0, L = self.L, randomize = False)
 
 		# Remove duplicates
@@ -496,7 +497,12 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			x = minimax(upper_bound, x0, domain = domain, verbose = verbose, trust_region = False)
 			ubs.append(np.min(-upper_bound(x)))
 			#print(lbs[-1], ubs[-1])
-		return float(np.min(lbs)), float(np.max(ubs))
+
+		lb, ub = float(np.min(lbs)), float(np.max(ubs))
+		if self.epsilon is None:
+			return lb, ub
+		else:
+			return lb - self.epsilon, ub + self.epsilon
 
 #		# Attempts at making a parallel interface
 #		else:
@@ -589,7 +595,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 
 		for i in iterator:
 			dom_eq = domain.add_constraints(A_eq = u.reshape(1,-1), b_eq = ys[i].reshape(1))
-			lbs[i], ubs[i] = self.uncertainty_domain(X, fX, dom_eq, progress = progress - 1, tqdm_kwargs = tqdm_kwargs, **kwargs)
+			lbs[i], ubs[i] = self.uncertainty_domain(X, fX, dom_eq, progress = max(progress - 1, 0), tqdm_kwargs = tqdm_kwargs, **kwargs)
 
 		if ax is not None:
 			ax.fill_between(ys, lbs, ubs, **plot_kwargs)	
@@ -682,7 +688,7 @@ class LowerBound(BaseFunction):
 	def grad(self, x):
 		y = np.dot(self.L, x)
 		norms = cdist(y.reshape(1,-1), self.Y, 'euclidean').flatten()
-		G = np.zeros([self.Y.shape[0], x.shape[0]] )
+		G = np.zeros(self.Y.shape)
 		I = (norms > 0)
 		G[I,:] = -(  (y - self.Y[I]).T /norms[I]).T
 		G = self.L.T.dot(G.T).T
@@ -702,7 +708,7 @@ class UpperBound(BaseFunction):
 	def grad(self, x):
 		y = np.dot(self.L, x)
 		norms = cdist(y.reshape(1,-1), self.Y, 'euclidean').flatten()
-		G = np.zeros([self.Y.shape[0], x.shape[0]] )
+		G = np.zeros(self.Y.shape)
 		I = (norms > 0)
 		G[I,:] = -((y - self.Y[I]).T/norms[I]).T
 		G = self.L.T.dot(G.T).T
-- 
2.43.0


From 36e675ec1b184eeb178178e11193918c328b5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 44/98] fix: perplexity_bandwidth failed if distances repeat

---
 psdr/local_linear.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 3f12067..a221d70 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -40,6 +40,8 @@ def _compute_p1(M, perplexity):
 
 
 def log_entropy(beta, d):
+	# Adding a constant to d does not change the entropy, but avoids underflow
+	d = d - np.min(d)
 	p = np.exp(-beta*d)
 	sum_p = np.sum(p)
 	# Shannon entropy H = np.sum(-p*np.log2(p)) 
@@ -66,12 +68,20 @@ def perplexity_bandwidth(d, perplexity):
 	# TODO: Is perplexity necessarily in this interval
 	#perplexity = min(M, perplexity)
 
+	log_perplexity = np.log(perplexity)
+	# If all the points have the same weight, the perplexity is M, the largest value possible
+	if log_perplexity >= log_entropy(0, d):
+		return 0.
+
 	p1 = _compute_p1(M, perplexity)
 	# Compute upper and lower bounds of beta from [VC13, eq. (7) (8)]
 	# These are constants appearing the bounds
 	dM = np.max(d)
-	d1 = np.min(d[d>0])
+	d1 = np.min(d)
 	delta2 = d - d1
+	# If all the points are at the same distance, they have the same weight for any beta
+	if np.all(delta2 == 0):
+		return 0.
 	delta2 = np.min(delta2[delta2>0])
 	deltaM = dM - d1
 
@@ -80,7 +90,16 @@ def perplexity_bandwidth(d, perplexity):
 	# upper bound VC13 (8)
 	beta2 = 1/delta2*np.log(p1/(1-p1)*(M - 1))
 	
-	log_perplexity = np.log(perplexity)
+	# These bounds require distinct distances; otherwise they might not contain the solution
+	if log_entropy(beta1, d) < log_perplexity:
+		beta1 = 0.
+	beta2 = max(beta1, beta2, 1./deltaM)
+	while log_entropy(beta2, d) > log_perplexity:
+		# Here only the closest points have weight: the perplexity cannot decrease further
+		if beta2*delta2 > 100:
+			return beta2
+		beta2 *= 2
+	
 
 	# TODO: Ideally we would use (root) Newton to find the optimal bandwidth
 	# however Scipy doesn't support bounding intervals for its newton implementation.
@@ -162,12 +181,12 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		perplexity = min(m+1, M)
 	if perplexity is not None:
 		bandwidth = None
-		assert perplexity >= 2 and perplexity < M, "Perplexity must be in the interval [2,M)"
+		assert perplexity >= 2 and perplexity <= M, "Perplexity must be in the interval [2,M]"
 	elif bandwidth is not None:
 		perplexity = None
 		if bandwidth == 'xia':
 			# Bandwidth from Xia 2007, [Li18, eq. 11.5] 
-			bandwidth = 2.34*M**(-1./(max(M, 3) +6))
+			bandwidth = 2.34*M**(-1./(max(m, 3) +6))
 
 
 	# Storage for the gradients
-- 
2.43.0


From 76445a18b71a0316ea9ce2b62c169ad250c403c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 45/98] fix: local_linear returned the wrong number of models
 for other points, and used the number of samples in the bandwidth of Xia

---
 psdr/local_linear.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index a221d70..68a8d56 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -170,12 +170,15 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		A[:,0] is the constant term and A[:,1:m+1] is the linear coefficients.
 	"""
 
+	X = np.atleast_2d(np.array(X))
 	M, m = X.shape
-	fX = fX.flatten()
+	fX = np.array(fX).flatten()
 	assert len(fX) == M, "Number of function evaluations does not match number of samples"
 
 	if Xt is None:
 		Xt = X
+	else:
+		Xt = np.atleast_2d(np.array(Xt))
 
 	if perplexity is None and bandwidth is None:
 		perplexity = min(m+1, M)
@@ -194,7 +197,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 	Y = np.hstack([np.ones((M, 1)), X])
 	
 	# Coefficients in linear models
-	A = np.zeros((M, m+1))
+	A = np.zeros((len(Xt), m+1))
 	for i, xi in enumerate(Xt):
 		d = cdist(X, xi.reshape(1,-1), 'sqeuclidean').flatten()
 		if perplexity:
-- 
2.43.0


From 6739e79b8b4837c5d4282461a3361e0047fdc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 46/98] fix: OuterProductGradient transformed the directions to
 standardized inputs incorrectly

---
 psdr/opg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index 57d0f5d..05f7fc0 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -108,6 +108,8 @@ class OuterProductGradient(ActiveSubspace):
 		if self.standardize:
 			mean = np.mean(X, axis = 0)
 			std = np.std(X, axis = 0)
+			# Inputs that do not vary need no scaling
+			std[std == 0] = 1.
 			Z = (X - mean)/std
 		else:
 			Z = X
@@ -127,9 +129,9 @@ class OuterProductGradient(ActiveSubspace):
 			
 		if self.standardize:
 			# Undo the coordiante change introduced by standardization 
-			Dinv2 = np.diag(std**(-0.5))
+			Dinv2 = np.diag(1./std)
 			U = Dinv2.dot(self.U)
 			Q, R = np.linalg.qr(U, mode = 'reduced')
 			self._U = Q
-			self._U = self._fix_subspace_signs_grads(self._U, z_grads)		
+			self._U = self._fix_subspace_signs_grads(self._U, z_grads/std)		
 		
-- 
2.43.0


From e81a0879e82989b3e98031b64c889af969cfdbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 47/98] fix: measure_nonlinearity returned the negative linear
 fit, and infinity for constant data

---
 psdr/nonlin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/nonlin.py b/psdr/nonlin.py
index 3bb026a..24d0093 100644
--- a/psdr/nonlin.py
+++ b/psdr/nonlin.py
@@ -42,13 +42,16 @@ def measure_nonlinearity(X, fX, **kwargs):
 
 	# Compute standard Lipschitz constant
 	L0 = np.max(np.abs(fdiff)/Pnorm)
+	# A constant function is linear
+	if L0 == 0:
+		return 0., np.zeros(m)
 
 	# Compute Lipschitz constant when subtracting 	
 	a = cp.Variable(m)
 	L = cp.Variable(1)
 	constraints = [ 
-		fdiff + P @ a <= L * Pnorm,
-		fdiff + P @ a >= -L * Pnorm 
+		fdiff - P @ a <= L * Pnorm,
+		fdiff - P @ a >= -L * Pnorm 
 	]
 	prob = cp.Problem(cp.Minimize(L), constraints)
 	prob.solve(**kwargs)
-- 
2.43.0


From aec88e33cff9f4d3ffe2247f6e0e812790b083cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 48/98] fix: PGF.add compares the length of the second column,
 too

---
 psdr/pgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index b7914ef..9a0e032 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -10,7 +10,7 @@ class PGF:
 		self.columns = []
 
 	def add(self, name, column):
-		if len(self.columns) > 1:
+		if len(self.columns) > 0:
 			assert len(self.columns[0]) == len(column)
 
 		self.columns.append(deepcopy(column))
-- 
2.43.0


From ebd421e6a0c40cbc113d0d1c3904959b52ebe359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 49/98] fix: save_contour in format prepared writes the points

---
 psdr/pgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index 9a0e032..ca0b89b 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -66,7 +66,8 @@ def save_contour(fname, cs, fmt = 'matlab', simplify = 1e-3, **kwargs):
 			fout.write("%15.15e\t%15.15e\n" % (x,y))
 
 	def write_path_prepared(fout, x_vec, y_vec, z):
-		fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x0,y0,z))
+		for x, y in zip(x_vec, y_vec):
+			fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x,y,z))
 		fout.write("\t\t\t\n")
 
 	if fmt == 'matlab':
-- 
2.43.0


From dccb4126aa335c83f962d5adbe775b0aef9cb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 50/98] fix: len of a ridge function

---
 psdr/ridge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index 923c0fa..29ca942 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -12,6 +12,9 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 	def U(self):
 		return self._U
 
+	def __len__(self):
+		return self.U.shape[0]
+
 	def shadow_plot(self, X = None, fX = None, dim = None, ax = 'auto', pgfname = None, **kwargs):
 		if dim is None:
 			dim = self.U.shape[1]
-- 
2.43.0


From 0e7fee13d96ee5a3b04cc68877b300b84e607b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 51/98] fix: two-dimensional shadow plots of ridge functions
 without an axis

---
 psdr/ridge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index 29ca942..c7639dc 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -60,10 +60,11 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 			XX = np.dot(self.U, UXX).T
 			YY = self.eval(XX).reshape(XX0.shape)
 			
-			ax.contour(xx0, xx1, YY, 
-				levels = np.linspace(np.min(fX), np.max(fX), 20), 
-				vmin = np.min(fX), vmax = np.max(fX),
-				linewidths = 0.5)
+			if ax is not None:
+				ax.contour(xx0, xx1, YY, 
+					levels = np.linspace(np.min(fX), np.max(fX), 20), 
+					vmin = np.min(fX), vmax = np.max(fX),
+					linewidths = 0.5)
 		
 
 		else: 
-- 
2.43.0


From fd123d84db8aa56eb54bcc1f9e6ebfd3cee6341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 52/98] fix: two-dimensional shadow plots of values in a list

---
 psdr/subspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index ddc0e22..72d8985 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -84,6 +84,9 @@ class SubspaceBasedDimensionReduction(object):
 		X = np.atleast_2d(X)
 		assert X.shape[1] == len(self), "Samples do not match dimension of space"	
 
+		if fX is not None:
+			fX = np.array(fX)
+
 		if U is None:
 			U = self.U
 		else:
-- 
2.43.0


From b087393fc72b47c9581781e31a0403367521522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 53/98] fix: vertices of one-dimensional Voronoi diagrams are
 not between sites and boundary

---
 psdr/geometry/vertex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 103120c..380ebf8 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -28,7 +28,7 @@ def voronoi_vertex_1d(domain, Xhat, L = None):
 	lb = domain.corner(np.array([-1]))
 	ub = domain.corner(np.array([1]))
 	
-	X = np.sort(np.hstack([Xhat.flatten(), ub, lb]))
+	X = np.unique(Xhat)
 	# mid point between X
 	V = 0.5*(X[1:] + X[:-1])
 	# add boundaries
-- 
2.43.0


From d82c264f6caea6e02497f0a4274854447cfaaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 54/98] fix: the search for Voronoi vertices keeps all
 equidistant sites

---
 psdr/geometry/vertex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 380ebf8..f82c1aa 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -227,7 +227,7 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 				if active[i,j] : nullspace += [A[j].reshape(-1,1)]
 
 			# constraints from other points in the domain
-			for j in range(1, min(k+1, len(Xhat))):
+			for j in range(1, len(Xhat)):
 				if np.isclose(D[i,I[i,0]], D[i,I[i,j]]):	
 					nullspace += [LTL.dot(Xhat[I[i,0]] - Xhat[I[i,j]]).reshape(-1,1)]
 					#h[i] += (X0[i] - Xhat[I[i,j]])
-- 
2.43.0


From 2f2fb3c2d680a50d624453a86cd10f81a932b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 55/98] fix: the search for Voronoi vertices with linearly
 dependent constraints

---
 psdr/geometry/vertex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index f82c1aa..890413f 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -235,7 +235,8 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			nullspace = np.hstack(nullspace)
 			# If there are no active constraints, don't do anything
 			if nullspace.shape[1]>0:
-				Q, R = scipy.linalg.qr(nullspace, overwrite_a = True, mode = 'economic')
+				# The constraints may be linearly dependent
+				Q = scipy.linalg.orth(nullspace)
 				h[i] -= Q.dot(Q.T.dot(h[i]))
 				if np.isclose(np.linalg.norm(h[i]), 0) and randomize:
 					# If L is low-rank we can have situations where h[i]	
-- 
2.43.0


From d63c69f2bd44a1f7317ef69915999cb347756bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 56/98] fix: active constraints do not limit the search for
 Voronoi vertices

---
 psdr/geometry/vertex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 890413f..122106a 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -284,6 +284,8 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			alpha_c = (b - AX0)/Ah
 		alpha_c[~np.isfinite(alpha_c)] = np.inf
 		alpha_c[alpha_c <= 0] = np.inf
+		# As the direction is orthogonal to the active constraints, these do not limit the step 
+		alpha_c[active] = np.inf
 		# When the step size is near zero, the above formula is inaccurate
 		# causing points to emerge outside of the domain. Hence, we zero the
 		# step size for these points.
-- 
2.43.0


From dbe96999b5533aeab68daa649008dda7508d6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 57/98] fix: the search for Voronoi vertices does not depend on
 units

---
 psdr/geometry/vertex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 122106a..f8ea7a4 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -187,6 +187,10 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 	else:
 		L = np.array(L)
 		assert L.shape[1] == m, "Number of columns doesn't match dimension of the space"
+		# The vertices do not depend on the scale of the metric, but the tolerances below do
+		Lnorm = np.linalg.norm(L, 2)
+		if Lnorm > 0:
+			L = L/Lnorm
 
 	Lrank = np.linalg.matrix_rank(L)
 
@@ -269,7 +273,7 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			numerator = -np.sum( (L.dot(X0.T).T - p0)*n, axis = 1)
 			
 			alpha_c = np.inf*np.ones(alpha.shape)
-			act = ~np.isclose(np.abs(nh), 0) 
+			act = np.abs(nh) > 1e-8*np.linalg.norm(n, axis = 1)*np.linalg.norm(L.dot(h.T).T, axis = 1)
 			alpha_c[act] = numerator[act]/nh[act]
 			# When xhat is the closest point, we get a divide by zero error
 			# We cannot move backwards, so these are also set to infinity
-- 
2.43.0


From afb1dc6641b069bb249ff20e6c0facde5c8b7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 58/98] fix: rank of a metric does not depend on its units

---
 psdr/sample/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/util.py b/psdr/sample/util.py
index 559d241..9646c96 100644
--- a/psdr/sample/util.py
+++ b/psdr/sample/util.py
@@ -19,7 +19,7 @@ def low_rank_L(L):
 	L = np.atleast_2d(L)
 	_, s, VT = scipy.linalg.svd(L)
 	
-	I = np.argwhere(~np.isclose(s,0)).flatten()
+	I = np.argwhere(s > 1e-8*np.max(s)).flatten()
 	if np.all(I):
 		return L
 	else:
-- 
2.43.0


From 8eec1dd68fa4d6fa55e35efdac18f8e74d983cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 59/98] fix: directions in the kernel of the metric are not
 stopped by sites

---
 psdr/geometry/vertex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index f8ea7a4..77293ac 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -273,7 +273,7 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			numerator = -np.sum( (L.dot(X0.T).T - p0)*n, axis = 1)
 			
 			alpha_c = np.inf*np.ones(alpha.shape)
-			act = np.abs(nh) > 1e-8*np.linalg.norm(n, axis = 1)*np.linalg.norm(L.dot(h.T).T, axis = 1)
+			act = np.abs(nh) > 1e-8*np.linalg.norm(n, axis = 1)*np.linalg.norm(h, axis = 1)
 			alpha_c[act] = numerator[act]/nh[act]
 			# When xhat is the closest point, we get a divide by zero error
 			# We cannot move backwards, so these are also set to infinity
-- 
2.43.0


From 4cd6c2acb2d2aee2d44e7a45b424b4e30a53465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 60/98] fix: Latin hypercube searches of one point or no
 iterations

---
 psdr/sample/latin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/latin.py b/psdr/sample/latin.py
index ce5b445..612cde7 100644
--- a/psdr/sample/latin.py
+++ b/psdr/sample/latin.py
@@ -91,10 +91,14 @@ def _latin_hypercube_maximin_box(domain, N, maxiter = 1000):
 		xi = (xi[1:]+xi[0:-1])/2.
 		xs.append(xi)
 	
-	score_best = tuple(np.zeros(N))
-	X_best = None
 	# Generate random initial permutations
 	perms_best = np.vstack([np.random.permutation(N) for i in range(len(domain))])
+	X_best = np.array([ [xs[i][j] for j in perms_best[i]] for i in range(len(domain))]).T
+	score_best = _score_maximin(X_best)
+
+	# With one point there is nothing to exchange	
+	if N < 2:
+		return X_best
 	
 	for it in range(maxiter):
 		# Generate new permutation of the permutations
-- 
2.43.0


From 7de76358912ff7a01b57a3b25232a2aaaecf7d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 61/98] fix: grid Poisson disk sampling looks for neighbors
 around the point

---
 psdr/sample/poisson.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index 527cee8..1d0eec5 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -122,14 +122,10 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 				idxc = grid_coord(xc)
 				neighbors = []
 				grid_rad = int(2*np.ceil(np.sqrt(L.shape[0])))+1
-				for idx in itertools.product(*[ (j+k for k in range(-grid_rad, grid_rad+1)) for j in idxc]):
-					try:
-						if min(idx) < 0: raise IndexError
-						n = grid[idx]
-						if n != 0:
-							neighbors.append(n-1)
-					except IndexError:
-						pass
+				for idx in itertools.product(*[range(max(0, j-grid_rad), min(n, j+grid_rad+1)) for j, n in zip(idxc, grid_dims)]):
+					n = grid[idx]
+					if n != 0:
+						neighbors.append(n-1)
 				if len(neighbors) > 0:
 					d = cdist(L.dot(xc).reshape(1,-1), LX[neighbors])
 				else:
-- 
2.43.0


From e67b9cfb39acf36791c81a7ca21a45cbba1aa560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 62/98] fix: grid Poisson disk sampling of points on the
 boundary

---
 psdr/sample/poisson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index 1d0eec5..50b719f 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -83,7 +83,7 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 		if L[i,:].dot(c1) > L[i,:].dot(c2):
 			c1, c2 = c2, c1
 		grid_start[i] = L[i,:].dot(c1)
-		grid_dims[i] = int(np.ceil((L[i,:].dot(c2) - L[i,:].dot(c1))/grid_size))
+		grid_dims[i] = max(1, int(np.ceil((L[i,:].dot(c2) - L[i,:].dot(c1))/grid_size)))
 
 	# Setup the grid
 	grid = np.zeros(grid_dims, dtype = np.uint32)
@@ -92,7 +92,8 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 		""" location of x on the grid"""
 		Lx = L.dot(x).flatten()
 		idx = np.floor((Lx - grid_start)/grid_size)
-		return idx.astype(np.int)
+		# Points on the boundary of the domain are in the outermost cells
+		return np.clip(idx, 0, grid_dims - 1).astype(np.int)
 
 	X = [domain.sample()]
 	active = [True]
-- 
2.43.0


From ba5aeeba2725007d83566de074cdbae1f7ce3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 63/98] fix: grid Poisson disk sampling does not print

---
 psdr/sample/poisson.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index 50b719f..c8dff1e 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -108,7 +108,6 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 			break
 		
 		LX = L.dot(np.array(X).T).T
-		print(active)
 		success = False
 		for it in range(Ntries):
 			# Generate a random direction
-- 
2.43.0


From 9dfc401935bb61de56532eb41e4dcb931bdfee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 64/98] fix: stretch_sample_domain keeps the existing samples

---
 psdr/sample/stretch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/stretch.py b/psdr/sample/stretch.py
index a2ad68f..98682d5 100644
--- a/psdr/sample/stretch.py
+++ b/psdr/sample/stretch.py
@@ -46,10 +46,10 @@ def stretch_sample_domain(domain, X, Ls, verbose = False):
 		xd = []
 		for k, L in enumerate(Ls):
 			try:
-				X, d = _maximin_block_candidate(domain, X, L)
+				x, d = _maximin_block_candidate(domain, X, L)
+				xd.append( list([x, d, L, k]))
 			except (SolverError, EmptyDomainException):
 				pass
-			xd.append( list([X, d, L, k]))
 		#xd = [list(_maximin_block_candidate(domain, X, L)) + [L, k] for k, L in enumerate(Ls)]
 		if len(xd) == 0:
 			break
-- 
2.43.0


From bf0abaca8e13211da2e63e71d735abdb63f9d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 65/98] fix: SequentialMaximinSampler finds seq_maximin_sample

---
 psdr/sample/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index 5d48efe..edb516c 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -16,6 +16,7 @@ from ..geometry import sample_sphere, unique_points, sample_simplex
 from ..domains import LinIneqDomain, ConvexHullDomain
 
 from .initial import initial_sample
+from .seqmaximin import seq_maximin_sample
 
 __all__ = ['Sampler', 'SequentialMaximinSampler', 'StretchedSampler']
 
-- 
2.43.0


From 007d4f133a8174ab85c11287fe3b999227f69091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:38 +0000
Subject: [PATCH 66/98] fix: maximin_block accepts integer initial points

---
 psdr/sample/maximin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/maximin.py b/psdr/sample/maximin.py
index 0408bf8..d1bcaf6 100644
--- a/psdr/sample/maximin.py
+++ b/psdr/sample/maximin.py
@@ -89,7 +89,7 @@ def maximin_block(domain, Nsamp, L = None, xtol = 1e-6, verbose = False, maxiter
 	if X0 is None:
 		X = initial_sample(domain, L, Nsamp)
 	else:
-		X = np.array(X0)
+		X = np.array(X0, dtype = float)
 
 	if verbose:
 		printer = IterationPrinter(it = '4d', maximin = '16.8e', dx = '10.3e')
-- 
2.43.0


From 2d65c999abf5efc1e46dea3ad119cd63a1c6c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:38 +0000
Subject: [PATCH 67/98] fix: sampling of domains whose inequality constraints
 are tight did not terminate

---
 psdr/domains/euclidean.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index e58027b..6c5f032 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1,4 +1,5 @@
 import numpy as np
+import itertools
 
 from scipy.stats import ortho_group
 from scipy.linalg import orth
@@ -697,12 +698,18 @@ class EuclideanDomain(Domain):
 		if not self.is_linquad_domain:
 			raise NotImplementedError
 
-		Qeq = self._A_eq_basis
-		while True:
+		# Unless some inequality constraints are known to be tight throughout the domain (see below)
+		Qeq = self.__dict__.get('_A_tight_basis', self._A_eq_basis)
+		for it in itertools.count(1):
 			# Generate a random direction inside 
 			p = np.random.normal(size = (len(self),))
 			# Orthogonalize against equality constarints constraints
 			p = p - Qeq @ (Qeq.T @ p)
+			# rounding errors must not move us into one of these constraints
+			p[np.abs(p) < 1e-14*np.linalg.norm(p)] = 0.
+			# If no direction works, the inequality constraints may allow only a set of lower dimension 
+			if it == 100:
+				Qeq = self._A_tight_basis
 			# check that the direction isn't hitting a constraint
 			if x is None or self.extent(x, p) > 0:
 				break
@@ -851,6 +858,17 @@ class EuclideanDomain(Domain):
 			return np.zeros((len(self),0))
 		return orth(A_eq.T)
 
+	@cached_property
+	def _A_tight_basis(self):
+		r""" The same as _A_eq_basis with those inequality constraints that hold with equality throughout the domain
+		"""
+		rows = [q for q in self._A_eq_basis.T]
+		for a, b in zip(self.A_aug, self.b_aug):
+			if b - a @ self.corner(-a) < self.tol*np.linalg.norm(a):
+				rows.append(a/np.linalg.norm(a))
+		if len(rows) == 0:
+			return np.zeros((len(self),0))
+		return orth(np.array(rows).T)
 
 	@property
 	def center(self):
@@ -935,7 +953,9 @@ class EuclideanDomain(Domain):
 				self._hit_and_run_state = self.closest_point(self._hit_and_run_state + alpha*p)
 				return np.copy(self._hit_and_run_state)	
 		
-		# If we've failed to find a good direction, reinitialize, and recurse
+		# If we've failed to find a good direction, look for inequality constraints that are tight 
+		# (random_direction accounts for these from now on), reinitialize, and recurse
+		self._A_tight_basis
 		self._hit_and_run_state = None
 		return self._hit_and_run(_recurse = _recurse - 1)
 
-- 
2.43.0


From 4e3279215e3bc5919760e8bac4d04c0c984b65d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 68/98] fix: generalized Latin hypercubes on domains that do
 not contain the axes

---
 psdr/sample/projection.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 025393c..946a4ee 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -57,13 +57,11 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		if _lhs:
 			# If constructing an LHS design, we use minimax points in each projection 
 			c1 = domain.corner(L.flatten())
-			a1 = L.dot(c1).flatten()
 			c2 = domain.corner(-L.flatten())
-			a2 = L.dot(c2).flatten()
-			a1, a2 = min(a1, a2), max(a1, a2)
-			avec = np.linspace(a1, a2, Nsamp+1)
+			avec = np.linspace(0, 1, Nsamp+1)
 			avec = 0.5*(avec[1:] + avec[0:-1])
-			X = np.array([L.flatten()*a for a in avec])
+			# The segment between the corners is inside the domain
+			X = np.array([a*c1 + (1-a)*c2 for a in avec])
 		else:
 			# We use maximin points in general as these generalize two and higher dimensional projections
 			X = maximin_block(domain, Nsamp, L)
-- 
2.43.0


From 42b56271d02d85b2158c8b6a2e237afcc751bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 69/98] fix: projection_design did not terminate after the last
 design if that is infeasible

---
 psdr/sample/projection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 946a4ee..1f94353 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -400,6 +400,9 @@ def projection_design(domain, M, Ls, ys = None, maxiter = 1000, verbose = True,
 				raise
 			except StopIteration:
 				pass
+		else:
+			# There is no other design
+			break
 		
 		# Convert the solution format into a permutation matrix
 		sol = np.array(sol)
-- 
2.43.0


From 281ef66d60b35d9f1c5181add5a627d58e500279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 70/98] fix: projection_sample with metrics of several rows

---
 psdr/sample/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 1f94353..07a4b47 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -1,6 +1,7 @@
 from __future__ import print_function
 
 import numpy as np
+from scipy.spatial import Delaunay
 from scipy.spatial.distance import pdist, squareform
 from satyrn import picosat
 
@@ -122,7 +123,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	def subdomain_sample(idx):
 		# The point in the domain that is nearest to the target position
 		subdom = subdomain(idx)
-		A = np.vstack([Ls])
+		A = np.vstack(Ls)
 		b = np.hstack([y[i] for y, i in zip(ys, idx)])
 		return subdom.constrained_least_squares(A, b)
 			
-- 
2.43.0


From 3b205f914573497d7e2daa49c433d7fe087b3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 71/98] fix: minimax_cluster stopped before its points had
 moved

---
 psdr/sample/minimax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 4e5955a..4482237 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -345,7 +345,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 
 	# movement cluster centers
 	dx = np.nan
-	I_old = np.zeros(len(X))
+	I_old = -np.ones(len(X))
 
 	if verbose:
 		printer = IterationPrinter(it = '4d', obj = '12.6e', move = '9.3e')
@@ -375,7 +375,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
 		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
-		dx = np.max(Xhat_new - Xhat)	
+		dx = np.max(np.abs(Xhat_new - Xhat))
 		Xhat = Xhat_new
 
 		if dx < xtol:
-- 
2.43.0


From 583154ac7af6c2b2c356934317613b9fd9dbcaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 72/98] fix: minimax_cluster failed if a cluster is empty

---
 psdr/sample/minimax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 4482237..b3cb712 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -373,7 +373,8 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 			break
 
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
-		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) for i in range(N)]
+		# (clusters can be empty if several centers are in the same position)
+		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) if np.any(I == i) else Xhat[i] for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
 		dx = np.max(np.abs(Xhat_new - Xhat))
 		Xhat = Xhat_new
-- 
2.43.0


From 8ddc06001e78b1b8da22cd3a0d57b8b7d612d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 73/98] fix: minimax_cluster does not change the solver options
 of the caller

---
 psdr/sample/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index b3cb712..a2eae63 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -316,7 +316,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 	N0 = int(N0)
 
 	if 'warm_start' not in solver_opts:
-		solver_opts['warm_start'] = True
+		solver_opts = dict(solver_opts, warm_start = True)
 
 	if L is None:
 		L = np.eye(len(domain))
-- 
2.43.0


From e78b3d893406704efe543fad611ec5f2e7c2a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 74/98] fix: minimax_optimal_cover used the transpose of the
 metric and needed both L and X

---
 psdr/sample/minimax.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index a2eae63..61aec03 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -112,16 +112,19 @@ def minimax_optimal_cover(domain, r, L = None, X = None, **kwargs):
 		kwargs['verbose'] = False
 
 	if X is None:
-		X = sobol_sequence(domain, 1e4)
+		X = sobol_sequence(domain, int(1e4))
+
+	if L is None:
+		L = np.eye(len(domain))
 
 	@lru_cache(maxsize = None)
 	def design(N):
 		return minimax_cluster(domain, N, L = L, X = X, **kwargs)
 	
-	Y = (L.T @ X.T).T
+	Y = (L @ X.T).T
 	def maximin_distance(N):
 		Xhat = design(N)
-		Yhat = (L.T @ Xhat.T).T
+		Yhat = (L @ Xhat.T).T
 		return np.max(np.min(cdist(Yhat, Y), axis = 0))
 		
 	domain_volume = domain.volume()
-- 
2.43.0


From 069d0a2ae81bd517294be1e4718013ccfecf8689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 75/98] fix: minimax_lloyd overwrote the initial design of the
 caller, and rounded integer ones

---
 psdr/sample/minimax_lloyd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/sample/minimax_lloyd.py b/psdr/sample/minimax_lloyd.py
index a63f090..d4c2dc2 100644
--- a/psdr/sample/minimax_lloyd.py
+++ b/psdr/sample/minimax_lloyd.py
@@ -94,6 +94,9 @@ def minimax_lloyd(domain, M, L = None, maxiter = 100, Xhat = None, verbose = Tru
 		# The Shrinkage suggested by Pro17 hasn't been demonstrated to be useful with this initialization, so we avoid it
 		if verbose: print('\n'+10*'='+" Building Minimax Design " + 10*'=')
 
+	# The iteration overwrites the design
+	Xhat = np.array(Xhat, dtype = float)
+
 	x = cp.Variable(len(domain))
 	c = cp.Variable(len(domain))
 	constraints = domain._build_constraints(x)
-- 
2.43.0


From a64bb6e04977f938005569fe2e69a680b1ceef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 76/98] fix: minimax_scale scored scaled designs at the Voronoi
 vertices of the unscaled one

---
 psdr/sample/minimax_scale.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/minimax_scale.py b/psdr/sample/minimax_scale.py
index 1491d9b..a7b7b0f 100644
--- a/psdr/sample/minimax_scale.py
+++ b/psdr/sample/minimax_scale.py
@@ -41,7 +41,7 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 	@lru_cache()	
 	def score_design_full(alpha):
 		Xtmp = scale_design(alpha)
-		V = voronoi_vertex(domain, Xhat, L = L)
+		V = voronoi_vertex(domain, Xtmp, L = L)
 		D = cdist(Xtmp, V, L = L)
 		d = np.max(np.min(D, axis = 0))
 		if verbose:
@@ -51,7 +51,7 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 	@lru_cache()
 	def score_design_sample(alpha):
 		Xtmp = scale_design(alpha)
-		V = voronoi_vertex_sample(domain, Xhat, X0, L = L)
+		V = voronoi_vertex_sample(domain, Xtmp, X0, L = L)
 		D = cdist(Xtmp, V, L = L)
 		d = np.max(np.min(D, axis = 0))
 		if verbose:
-- 
2.43.0


From 5b67871edd31cabf6bbb9bf9372e013be1975bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 77/98] fix: minimax_scale returned worse scales than it had
 tried

---
 psdr/sample/minimax_scale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/minimax_scale.py b/psdr/sample/minimax_scale.py
index a7b7b0f..4b974bf 100644
--- a/psdr/sample/minimax_scale.py
+++ b/psdr/sample/minimax_scale.py
@@ -72,7 +72,8 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 		printer.print_iter()
 	try:
 		res = minimize_scalar(score_design, (alpha_vec[k-1], alpha_vec[k], alpha_vec[k+1]), bounds =[0,1], options = {'maxiter': 10})
-		alpha = res.x
+		# The score is not convex; do not return something worse
+		alpha = min(res.x, alpha_vec[k], key = score_design)
 	except (ValueError, IndexError) :
 		alpha = alpha_vec[k]
 
-- 
2.43.0


From 81f91d6b54e64396ddd66de160bdbff96cffdd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 78/98] fix: maximin designs of one point

---
 psdr/sample/maximin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/sample/maximin.py b/psdr/sample/maximin.py
index d1bcaf6..a3c4fd1 100644
--- a/psdr/sample/maximin.py
+++ b/psdr/sample/maximin.py
@@ -91,6 +91,10 @@ def maximin_block(domain, Nsamp, L = None, xtol = 1e-6, verbose = False, maxiter
 	else:
 		X = np.array(X0, dtype = float)
 
+	# A single point can be anywhere
+	if Nsamp < 2:
+		return X
+
 	if verbose:
 		printer = IterationPrinter(it = '4d', maximin = '16.8e', dx = '10.3e')
 		printer.print_header(it = 'iter', maximin = 'maximin dist.', dx = 'Δx')
-- 
2.43.0


From 3eeaab5db34231f2b8cffc2f2f8b4d8d0e61452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:46 +0000
Subject: [PATCH 79/98] fix: minimax_cluster_pso left domains that are not
 boxes

---
 psdr/sample/minimax.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 61aec03..f76a03e 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -227,11 +227,11 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 					pass
 			
 
-			# Construct random convex combination
-			A1 = a1*np.random.uniform(size = Xhat_new.shape)
-			A2 = a2*np.random.uniform(size = Xhat_new.shape)
-			A3 = a3*np.random.uniform(size = Xhat_new.shape)
-			A4 = a4*np.random.uniform(size = Xhat_new.shape)
+			# Construct random convex combination (one weight per point, otherwise points can leave the domain)
+			A1 = a1*np.random.uniform(size = (N,1))
+			A2 = a2*np.random.uniform(size = (N,1))
+			A3 = a3*np.random.uniform(size = (N,1))
+			A4 = a4*np.random.uniform(size = (N,1))
 				
 
 			A_sum = A1 + A2 + A3 + A4
-- 
2.43.0


From 998863c687193851b26503533862ae153214d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 80/98] fix: minimax_cluster left the domain if the metric is
 rank deficient

---
 psdr/sample/minimax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index f76a03e..6e23d3e 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -377,7 +377,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
 		# (clusters can be empty if several centers are in the same position)
-		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) if np.any(I == i) else Xhat[i] for i in range(N)]
+		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts, domain = domain) if np.any(I == i) else Xhat[i] for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
 		dx = np.max(np.abs(Xhat_new - Xhat))
 		Xhat = Xhat_new
-- 
2.43.0


From bb9d94ac07f53eb4323bf84127a11fa8ebecd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 81/98] fix: voronoi_vertex failed if two points are the same
 up to rounding

---
 psdr/geometry/vertex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 77293ac..f187f55 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -71,7 +71,8 @@ def voronoi_vertex(domain, Xhat, L = None):
 		
 		# If two Xhat are the same, we can end up with a situation 
 		# where the constraint stops  so we filter these out
-		I = np.argwhere(np.sum(Ak**2, axis = 1) > 0).flatten()
+		# (or cannot be told apart: the direction between them is mere rounding)
+		I = np.argwhere(np.sum(Ak**2, axis = 1) > (1e-13*np.max(np.abs(Yhat)))**2).flatten()
 		Ak, bk = Ak[I], bk[I]
 	
 		# As L might not be invertible, we work in the coordinates of the domain
-- 
2.43.0


From 27b607bfa55565f222f390d7e21214e0e2e40d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:48 +0000
Subject: [PATCH 82/98] fix: projection_sample failed if a target leaves no
 freedom, up to rounding

---
 psdr/sample/projection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 07a4b47..88dd24f 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -4,6 +4,7 @@ import numpy as np
 from scipy.spatial import Delaunay
 from scipy.spatial.distance import pdist, squareform
 from satyrn import picosat
+from cvxpy.error import SolverError
 
 try:
     from functools import lru_cache
@@ -127,6 +128,12 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		b = np.hstack([y[i] for y, i in zip(ys, idx)])
 		return subdom.constrained_least_squares(A, b)
 			
+	def consubdom_sample(consubdom, x):
+		# There may be no other point than x, and due to rounding not even that
+		try:
+			return consubdom.sample()
+		except (SolverError, EmptyDomainException):
+			return x
 
 	# Construct the geometric constraints we enforce with the SAT solver
 	# i.e., no repetition	
@@ -207,7 +214,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			if Lall.shape[0] < len(domain):
 				# If the Ls do not completely fix each of the samples, iterate to find maximin design
 				consubdoms = [subdom.add_constraints(A_eq = Lall, b_eq = Lall.dot(x)) for subdom, x in zip(subdoms, X)]
-				X = np.vstack([consubdom.sample() for consubdom in consubdoms])
+				X = np.vstack([consubdom_sample(consubdom, x) for consubdom, x in zip(consubdoms, X)])
 				mask = np.ones(Nsamp, dtype = np.bool)
 				for it2 in range(100):
 					max_move = 0
-- 
2.43.0


From 5ddba4e3b3e080aff059d847e06e2c04e52fd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:59 +0000
Subject: [PATCH 83/98] fix: projection designs and generalized Latin
 hypercubes of one point

---
 psdr/sample/projection.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 88dd24f..9705ecd 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -77,7 +77,9 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			I = np.argsort(y.flatten())
 			neighbors = [ None for j in range(Nsamp)]
 			for j in range(Nsamp):
-				if j == 0:
+				if Nsamp == 1:
+					neighbors[I[j]] = np.array([], dtype = np.int)
+				elif j == 0:
 					neighbors[I[j]] = np.array([I[j+1]], dtype = np.int)
 				elif j == Nsamp - 1:
 					neighbors[I[j]] = np.array([I[j-1]], dtype = np.int)
@@ -93,8 +95,8 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		
 		# Now construct the inequality constraints for each point's Voronoi cell
 		for j, neigh in enumerate(neighbors):
-			A = []
-			b = []
+			A = [np.zeros((0, len(domain)))]
+			b = [np.zeros(0)]
 			for k in neigh:
 				p = 0.5*(X[j] + X[k]) 	# point on separating hyperplane
 				n = (X[k] - X[j]).reshape(-1,1) 		# normal vector to hyperplane
@@ -211,7 +213,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	
 			X = np.vstack([subdomain_sample(tuple(perms[:,order])) for order in range(Nsamp)])
 			
-			if Lall.shape[0] < len(domain):
+			if Lall.shape[0] < len(domain) and Nsamp > 1:
 				# If the Ls do not completely fix each of the samples, iterate to find maximin design
 				consubdoms = [subdom.add_constraints(A_eq = Lall, b_eq = Lall.dot(x)) for subdom, x in zip(subdoms, X)]
 				X = np.vstack([consubdom_sample(consubdom, x) for consubdom, x in zip(consubdoms, X)])
@@ -244,7 +246,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			min_dist = np.min(D, axis = 0)
 			score = tuple(np.sort(min_dist))	
 
-			if score > score_best:
+			if X_best is None or score > score_best:
 				X_best = X
 				score_best = score
 				perms_best = perms
@@ -290,8 +292,8 @@ def _voronoi_cell_point(coord, domain, Ls, ys):
 	M = len(ys[0])
 	Lall = np.vstack(Ls)
 	# Generate inequality constraints based on each
-	A = []
-	b = []
+	A = [np.zeros((0, len(domain)))]
+	b = [np.zeros(0)]
 	for i, (L, y) in enumerate(zip(Ls, ys)):
 		for k in range(M):
 			j = coord[i]
@@ -434,7 +436,7 @@ def projection_design(domain, M, Ls, ys = None, maxiter = 1000, verbose = True,
 		if len(X) == M:
 			# score sample
 			score = _score_maximin(X)
-			if score > score_best:
+			if X_best is None or score > score_best:
 				# TODO: metric should ignore dimensions not fixed by Lall
 				X_best = np.array(X)
 				score_best = score
-- 
2.43.0


From 3530c0c62433300412f76e46770f2c8c04898d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:10 +0000
Subject: [PATCH 84/98] fix: polynomial bases failed if a coordinate does not
 vary

---
 psdr/basis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psdr/basis.py b/psdr/basis.py
index cca6ffc..58a99f8 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -134,6 +134,9 @@ class PolynomialTensorBasis(Basis):
 		"""
 		self._lb = np.min(X, axis = 0)
 		self._ub = np.max(X, axis = 0)
+		# coordinates that do not vary are only shifted
+		I = (self._lb == self._ub)
+		self._lb, self._ub = np.where(I, self._lb - 1., self._lb), np.where(I, self._ub + 1., self._ub)
 
 	def _scale(self, X):
 		r""" Apply the scaling to the input coordinates
@@ -415,6 +418,8 @@ class HermiteTensorBasis(PolynomialTensorBasis):
 	def _set_scale(self, X):
 		self._mean = np.mean(X, axis = 0)
 		self._std = np.std(X, axis = 0)
+		# coordinates that do not vary are only shifted
+		self._std = np.where(np.min(X, axis = 0) == np.max(X, axis = 0), 1., self._std)
 
 	def _scale(self, X):
 		try:
-- 
2.43.0


From 441e38c33edd440a16e1c8e6604284472d01e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:10 +0000
Subject: [PATCH 85/98] fix: GaussianProcess could not be evaluated at a single
 point

---
 psdr/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/gp.py b/psdr/gp.py
index 0116d93..0e0a783 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -363,6 +363,7 @@ class GaussianProcess(BaseFunction):
 		self._ell = ell
 
 	def eval(self, Xnew, return_cov = False):
+		Xnew = np.atleast_2d(np.array(Xnew))
 		Y = np.dot(self.L, self.X.T).T
 		Ynew = np.dot(self.L, Xnew.T).T
 		dij = cdist(Ynew, Y, 'sqeuclidean')	
-- 
2.43.0


From 12ccaed4bf8e8e863f38cce1c87594063a8c15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:03 +0000
Subject: [PATCH 86/98] fix: GaussianProcess.fit failed if the line search
 stepped too far

---
 psdr/gp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/gp.py b/psdr/gp.py
index 0e0a783..7858d94 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -189,6 +189,13 @@ class GaussianProcess(BaseFunction):
 		# Covariance matrix
 		K = np.exp(-0.5*squareform(dij))
 
+		# The line search may step to where the distances overflow
+		if not np.all(np.isfinite(K)) and not return_alpha_beta:
+			grad = np.full(len(ell), np.nan)
+			if return_obj:
+				return (np.inf, grad) if return_grad else np.inf
+			return grad
+
 		# Solve the linear system to compute the coefficients
 		#alpha = np.dot(ev,(1./(ew+tikh))*np.dot(ev.T,y)) 
 		A = np.vstack([np.hstack([K + self.nugget*np.eye(K.shape[0]), self.V]), 
-- 
2.43.0


From 75eda75dd1ee313817ae3aeb300230615aaf4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 87/98] fix: gradient of QuadraticFunction if the matrix is not
 symmetric

---
 psdr/demos/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/polynomial.py b/psdr/demos/polynomial.py
index 3559d39..ec19715 100644
--- a/psdr/demos/polynomial.py
+++ b/psdr/demos/polynomial.py
@@ -80,4 +80,4 @@ class QuadraticFunction(Function):
 		return 	(X.dot(self.quad)*X).sum(axis = 1) + self.linear.dot(X.T) + self.constant
 
 	def _func_grad(self, X):
-		 return 2*X.dot(self.quad) + np.tile(self.linear, (len(X),1))
+		 return X.dot(self.quad + self.quad.T) + np.tile(self.linear, (len(X),1))
-- 
2.43.0


From 9c8ebcccea06ebf32fdc7d093a021354d5078d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 88/98] fix: RobotArm and GolinskiGearbox failed on workers

---
 psdr/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/function.py b/psdr/function.py
index f0b8416..4fd735f 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -117,7 +117,8 @@ class Function(BaseFunction):
 				code = textwrap.dedent(code)
 				
 				# Execute code	
-				scope = {}
+				# with the modules and functions it uses; what it does not use is not shipped
+				scope = {name: value for name, value in fun.__globals__.items() if name != '__name__'}
 				exec(code, scope, scope)
 	
 				# (2) We now pickle this function 
-- 
2.43.0


From 64a3dd163aa0e0eacb7b2f97a0eae33e7d56601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:18 +0000
Subject: [PATCH 89/98] fix: projection_sample failed if the solver calls a
 single point unbounded

---
 psdr/sample/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 9705ecd..8790002 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -15,7 +15,7 @@ from .util import low_rank_L
 from .maximin import maximin_block
 from .latin import _score_maximin
 from ..geometry import voronoi_vertex_sample
-from ..exceptions import EmptyDomainException
+from ..exceptions import EmptyDomainException, UnboundedDomainException
 
 def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs = False):
 	r""" Construct a maximin design with respect to multiple projections
@@ -134,7 +134,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		# There may be no other point than x, and due to rounding not even that
 		try:
 			return consubdom.sample()
-		except (SolverError, EmptyDomainException):
+		except (SolverError, EmptyDomainException, UnboundedDomainException):
 			return x
 
 	# Construct the geometric constraints we enforce with the SAT solver
-- 
2.43.0


From 127bf8682fcb561a126969de3a1d1d43bd22e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:29 +0000
Subject: [PATCH 90/98] fix: affine ridge approximation of constant data
 returned NaN

---
 psdr/polyridge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 5132336..52979ec 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -368,7 +368,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		XX = np.hstack([dom.normalize(X), np.ones((X.shape[0],1))])
 
 		# Normalize the output
-		fX = (fX - np.min(fX))/(np.max(fX) - np.min(fX))
+		fX = fX - np.min(fX)
+		if np.max(fX) > 0:
+			fX = fX/np.max(fX)
 
 		if self.bound is None:
 			if self.norm == 1:
@@ -386,6 +388,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
 		U = dom._normalize_der().dot(U)
+		# If the best fit is constant, any direction will do
+		if not np.any(U):
+			U[0] = 1.
 		# Force to have unit norm
 		U /= np.linalg.norm(U)
 		return U	
-- 
2.43.0


From 062c7dac34248077373487f93b36090121000610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:29 +0000
Subject: [PATCH 91/98] fix: ridge approximations with zero average slope lost
 their subspace

---
 psdr/polyridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 52979ec..db2d5b3 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -438,7 +438,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
 			grads = self.profile.grad(Y)
-			self._U = U = U.dot(np.diag(np.sign(np.mean(grads, axis = 0))))
+			self._U = U = U.dot(np.diag(np.where(np.mean(grads, axis = 0) < 0, -1., 1.)))
 		
 		# Step 3: final fit	
 		self.coef = self._fit_coef(X, fX, U)
-- 
2.43.0


From bb51cbc057a05bc52c8e64b8d7a48a4f8c9bba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:29 +0000
Subject: [PATCH 92/98] fix: polynomial_ridge_approximation only accepted
 matrices of outputs

---
 psdr/polyridge_vec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge_vec.py b/psdr/polyridge_vec.py
index 5052603..e896f84 100644
--- a/psdr/polyridge_vec.py
+++ b/psdr/polyridge_vec.py
@@ -140,7 +140,7 @@ def polynomial_ridge_approximation(X, fX, dimension, degree, fixed_subspace = No
 	# TODO: Dimension checks
 
 	M, m = X.shape
-	fX = np.atleast_2d(fX)
+	fX = np.asarray(fX).reshape(M, -1)
 
 	if U0 is None:
 		A = np.hstack([initialize_subspace(X = X, fX = fXi) for fXi in fX.T]) 
-- 
2.43.0


From 9210491ae2171dde8d12dc1c702cdf3ee802696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:29 +0000
Subject: [PATCH 93/98] fix: polynomial_ridge_approximation failed if the whole
 subspace was fixed

---
 psdr/polyridge_vec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/polyridge_vec.py b/psdr/polyridge_vec.py
index e896f84..eabcd4a 100644
--- a/psdr/polyridge_vec.py
+++ b/psdr/polyridge_vec.py
@@ -160,6 +160,9 @@ def polynomial_ridge_approximation(X, fX, dimension, degree, fixed_subspace = No
 		Uf = Q[:,:nf]
 		Uc = Q[:,nf:]
 		mm = Uc.shape[1]
+		# Nothing is left to choose
+		if n == 0:
+			return Uf
 
 		residual = lambda u: _varpro_residual_fixed(u.reshape(mm,n), X, fX, Basis, degree, Uf, Uc )	
 		jacobian = lambda u: _varpro_jacobian_fixed(u.reshape(mm,n), X, fX, Basis, degree, Uf, Uc)	
-- 
2.43.0


From e9e8c40ff61af1e881965f4d997711415499a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:13 +0000
Subject: [PATCH 94/98] fix: bound-constrained ridge fits failed if the data
 are almost fit exactly

---
 psdr/polyridge.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index db2d5b3..148ea6d 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -153,6 +153,15 @@ def bound_fit(A, b, norm = 2):
 		\min_{x} \| \mathbf{A}\mathbf{x} - \mathbf{b}\|_p
 		\text{such that} \mathbf{A}	\mathbf{x} -\mathbf{b} \ge 0
 	"""
+	# Work with the residual of the unconstrained fit, scaled to be of unit size,
+	# such that the solver copes with data that are (almost) fit exactly
+	x0 = two_norm_fit(A, b)
+	b = b - A @ x0
+	scale = np.max(np.abs(b))
+	if scale == 0:
+		return x0
+	b = b/scale
+
 	with warnings.catch_warnings():
 		warnings.simplefilter('ignore', PendingDeprecationWarning)
 		x = cp.Variable(A.shape[1])
@@ -170,7 +179,7 @@ def bound_fit(A, b, norm = 2):
 		#problem.solve(eps = 1e-10, solver = cp.SCS)
 		#problem.solve(feastol = 1e-10, solver = cp.CVXOPT)
 		# TODO: The solution doesn't obey the constraints for 1 and inf norm, but does for 2-norm.
-		return x.value
+		return x0 + scale*x.value
 
 
 class PolynomialRidgeApproximation(PolynomialRidgeFunction):
-- 
2.43.0


From aa1dcdfd5a6c75931a3518300e63ae3e0952cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:17 +0000
Subject: [PATCH 95/98] fix: ridge approximations were oriented using gradients
 at the wrong points

---
 psdr/polyridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 148ea6d..ca09580 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -446,7 +446,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		# Step 2: Flip signs such that average slope is positive in the coordinate directions
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
-			grads = self.profile.grad(Y)
+			grads = self.profile.grad((U.T @ X.T).T)
 			self._U = U = U.dot(np.diag(np.where(np.mean(grads, axis = 0) < 0, -1., 1.)))
 		
 		# Step 3: final fit	
-- 
2.43.0


From af1fc71fdc911f8b4ce4668907913a7992a56c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:20 +0000
Subject: [PATCH 96/98] fix: building the random domain of MULTI-F failed

---
 psdr/demos/multif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index d3e0016..ef338ff 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -95,14 +95,14 @@ class MULTIF(Function):
 
 def build_multif_domain(truncate = 1e-7, **kwargs):
 	design_domain = buildDesignDomain(output = 'none', **kwargs)
-	random_domain = buildRandomDomain(truncate = truncate, **kwargs)
+	random_domain = buildRandomDomain(truncate = truncate)
 	return design_domain * random_domain
 
 def build_multif_design_domain(output = 'none', **kwargs):
 	return buildDesignDomain(output = output, **kwargs)
 
 def build_multif_random_domain(truncate = 1e-7):
-	return buildRandomDomain(truncate = truncate, **kwargs)
+	return buildRandomDomain(truncate = truncate)
 
 
 def multif(x, level = 0, version = 'v25', su2_maxiter = None, workdir = None, 
-- 
2.43.0


From 5eb7ded621a41276388fd155ac6a804ec40535a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:20 +0000
Subject: [PATCH 97/98] fix: build_golinski_random_domain ignored the
 truncation

---
 psdr/demos/golinski.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/psdr/demos/golinski.py b/psdr/demos/golinski.py
index 90d3e03..9d8b6a6 100755
--- a/psdr/demos/golinski.py
+++ b/psdr/demos/golinski.py
@@ -330,12 +330,12 @@ def build_golinski_design_domain():
 
 # Taken from table 3 of Hu, Zhou, Chen, Parks, 2017 in AIAA journal 
 def build_golinski_random_domain(clip = None):
-	return TensorProductDomain([NormalDomain(0,21e-4**2, clip = clip),
-				NormalDomain(0, 1e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip),
-				NormalDomain(0, 21e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip)])
+	return TensorProductDomain([NormalDomain(0,21e-4**2, truncate = clip),
+				NormalDomain(0, 1e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip),
+				NormalDomain(0, 21e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip)])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 907fa49868cd95724064d28e0a1ce902d6998f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:20 +0000
Subject: [PATCH 98/98] fix: build_oas_design_domain only worked for three
 control points

---
 psdr/demos/oas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/demos/oas.py b/psdr/demos/oas.py
index f5c504b..6b8aaa5 100644
--- a/psdr/demos/oas.py
+++ b/psdr/demos/oas.py
@@ -27,9 +27,9 @@ class OpenAeroStruct(Function):
 
 def build_oas_design_domain(n_cp = 3):
 	# Twist
-	domain_twist = BoxDomain(-1*np.ones(n_cp), 1*np.ones(n_cp), names = ['twist %d' % (i,) for i in range(1,4)] )
+	domain_twist = BoxDomain(-1*np.ones(n_cp), 1*np.ones(n_cp), names = ['twist %d' % (i,) for i in range(1,n_cp+1)] )
 	# Thick
-	domain_thick = BoxDomain(0.005*np.ones(n_cp), 0.05*np.ones(n_cp), names = ['thickness %d' % (i,) for i in range(1,4)] )
+	domain_thick = BoxDomain(0.005*np.ones(n_cp), 0.05*np.ones(n_cp), names = ['thickness %d' % (i,) for i in range(1,n_cp+1)] )
 	# Root Chord
 	domain_root_chord = BoxDomain(0.7, 1.3, names = ['root chord'])
 	# Taper ratio
-- 
2.43.0

