From 437209a899ff6c633b5370fd2022f7c702c8157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 01/37] fix: tqli uses the sign transfer, Wilkinson shift and
 underflow test of the algorithm it implements

---
 src/primate/tqli.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..bef3882 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -3,8 +3,7 @@ import numpy as np
 
 # pythran export sign(float, float)
 def sign(a: float, b: float):
-	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	return abs(a) if b >= 0.0 else -abs(a)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,8 +56,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
 				for i in range(m - 1, it - 1, -1):
@@ -81,7 +79,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 							f = Z[k][i + 1]
 							Z[k][i + 1] = s * Z[k][i] + c * f
 							Z[k][i] = c * Z[k][i] - s * f
-				if r == 0.0 and i >= it:
+				if e[i + 1] == 0.0:
 					continue
 				d[it] -= p
 				e[it] = g
-- 
2.43.0


From 30364317f39de2417dd186bad8f15e06f43b1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 02/37] fix: the tqli tridiagonal solver accepts single
 precision

---
 src/primate/tridiag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/tridiag.py b/src/primate/tridiag.py
index 0430f9c..7ad3642 100644
--- a/src/primate/tridiag.py
+++ b/src/primate/tridiag.py
@@ -10,7 +10,11 @@ def _eigh_tridiag(d: np.ndarray, e: np.ndarray, Z: np.ndarray, method: str = "au
 		eigh_solver = eigvalsh_tridiagonal if np.prod(Z.shape) == 0 else eigh_tridiagonal
 		return eigh_solver(d, e[1:])
 	elif method == "tqli":
+		## The compiled routine is specialized for double precision
+		dtype = np.result_type(d, np.float32)
+		d, e, Z = (np.asarray(x, dtype=np.float64) for x in (d, e, Z))
 		tqli(d, e, Z, maxiter)
+		d, Z = d.astype(dtype, copy=False), Z.astype(dtype, copy=False)
 		return d if np.prod(Z.shape) == 0 else (d, Z)
 	else:
 		try:
-- 
2.43.0


From 671bb97aa3087b98320186be5cbdfaae2cfd0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 03/37] fix: operators initialize their LinearOperator base
 class

---
 src/primate/operators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..8be8499 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(np.dtype(dtype), A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -171,8 +170,7 @@ class Toeplitz(LinearOperator):
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.real(np.fft.fft(self._d))
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
+		super().__init__(np.dtype(dtype), (len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From c3bf2d278b368951518ec8de7007a29fa0cfdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 04/37] fix: Toeplitz products are right for non-symmetric
 operators and when threads share one

---
 src/primate/operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 8be8499..12f6311 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -168,15 +168,15 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
-		self._z = np.zeros(len(c) * 2)  # workspace
+		self._dfft = np.fft.fft(self._d)
 		super().__init__(np.dtype(dtype), (len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
 		assert len(x) == len(self.c), f"Invalid shape of input vector 'x'; must have length {len(self.c)}"
-		self._z[: self.shape[0]] = x.ravel().astype(self.dtype, copy=False)
-		x_fft = np.fft.fft(self._z)
+		z = np.zeros(len(self._d))  # NOTE: not shared, as the operator may be used by several threads at once
+		z[: self.shape[0]] = x.ravel().astype(self.dtype, copy=False)
+		x_fft = np.fft.fft(z)
 		y = np.real(np.fft.ifft(self._dfft * x_fft))
 		return y[: self.shape[0]].astype(self.dtype)
 
-- 
2.43.0


From b3591208fef3af15b85524b8e17bf0864a59fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 05/37] fix: MatrixFunction results depend on neither earlier
 actions, sharing threads nor early termination

---
 src/primate/operators.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 12f6311..bb120e5 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -65,16 +65,6 @@ class MatrixFunction(LinearOperator):
 		self.fun = fun
 
 		self._deg = min(deg, A.shape[0])
-		self._alpha = np.zeros(self._deg + 1, dtype=dtype)
-		self._beta = np.zeros(self._deg + 1, dtype=dtype)
-		self._nodes = np.zeros(self._deg, dtype=dtype)
-		self._weights = np.zeros(self._deg, dtype=dtype)
-
-		# ncv = kwargs.get("ncv", 3)
-		## NOTE: ncv is fixed to deg for matrix function to work
-		## NOTE: todo, change this to not allocate in-case quad is used
-		self._Q = np.zeros((A.shape[0], self._deg), dtype=dtype, order="F")
-		assert self._Q.flags["F_CONTIGUOUS"] and self._Q.flags["WRITEABLE"] and self._Q.flags["OWNDATA"]
 		self._rtol = 1e-8
 		self._orth = self._deg if orth < 0 or orth > self._deg else orth
 		self._A = A
@@ -98,6 +88,17 @@ class MatrixFunction(LinearOperator):
 	def _adjoint(self):
 		return self
 
+	def _krylov(self, x: np.ndarray) -> tuple:
+		"""Expands the Krylov space of `x`, which is overwritten, up to the first invariant subspace."""
+		## NOTE: ncv is fixed to deg for matrix function to work
+		## NOTE: must start from zero, as re-orthogonalization visits columns that were not yet set
+		Q = np.zeros((self.shape[0], self._deg), dtype=self.dtype, order="F")
+		alpha = np.zeros(self._deg + 1, dtype=self.dtype)
+		beta = np.full(self._deg + 1, -1.0, dtype=self.dtype)
+		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, alpha, beta, Q)
+		k = np.count_nonzero(beta[1:] != -1.0)  # each step taken sets its residual norm
+		return alpha[:k], beta[1:k], Q[:, :k]
+
 	def _matvec(self, x: np.ndarray):
 		r"""Estimates the matrix-vector action using the Lanczos method.
 
@@ -109,18 +110,14 @@ class MatrixFunction(LinearOperator):
 		Though mathematically equivalent, this method is computationally distinct from the operation `A.quad(x)`; see `.quad()` for more details.
 		:::
 		"""
-		if self._Q.shape[1] < self._deg:
-			self._Q = np.zeros((self.shape[0], self._deg), dtype=self.dtype, order="F")
-		# self.Q.fill(0)  # this is necessary to prevent orthogonalization
-		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
 		x_norm = np.linalg.norm(x)
-		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
+		alpha, beta, Q = self._krylov(x)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		rw, Y = eigh_tridiag(alpha, beta)  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return x_norm * Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
@@ -134,8 +131,6 @@ class MatrixFunction(LinearOperator):
 		which first applies $x \mapsto f(A)x$ and then performs a dot product.
 		:::
 		"""
-		if self._orth < self._Q.shape[1]:
-			self._Q.resize((self.shape[0], self._deg))
 		x = x.astype(self.dtype)
 		x = np.atleast_2d(x).T if x.ndim == 1 else x
 		x = np.array(x, order="F", copy=None)
@@ -144,9 +139,9 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
-			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			alpha, beta, _ = self._krylov(xc)
+			nodes, weights = quadrature(alpha, beta, quad="gw")
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From 65dcebc6f77d854f4daeb7800e7a17c3266bc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 06/37] fix: Isotropic.fill raises the failure of a worker
 instead of returning a stale block

---
 src/primate/random.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..cb7a3a9 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -133,10 +133,14 @@ class Isotropic:
 	def fill(self):
 		_fill = lambda rng, out, i1, i2: self.iso(rng, out=out[:, i1:i2])  # noqa: E731
 		futures = {}
-		for i in range(self.threads):
-			args = (_fill, self._random_generators[i], self.values, i * self.step, (i + 1) * self.step)
-			futures[self.executor.submit(*args)] = i
-		concurrent.futures.wait(futures)
+		try:
+			for i in range(self.threads):
+				args = (_fill, self._random_generators[i], self.values, i * self.step, (i + 1) * self.step)
+				futures[self.executor.submit(*args)] = i
+		finally:
+			concurrent.futures.wait(futures)
+		for future in futures:
+			future.result()  # re-raises the failure of a worker, if any
 
 	def __del__(self):
 		self.executor.shutdown(False)
-- 
2.43.0


From ca7062894d406ed10f732ead602f982a8d28867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 07/37] fix: means handed out by Mean and Covariance are not
 overwritten by later updates

---
 src/primate/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..237bbed 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -13,12 +13,12 @@ class Mean:
 	def __call__(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def mean(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def update(self, X: Union[float, np.ndarray]) -> None:
 		"""Update sample mean estimates based on new observations.
-- 
2.43.0


From c8cd79f3625bf12b81c47300c14d89e31d95d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 08/37] fix: recorded samples do not alias the buffer they were
 passed in

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..9b3a944 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())  # the caller may reuse its buffer
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
-- 
2.43.0


From a1e05dda3493c787ba015523be55298d5cd9dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 09/37] fix: an empty batch leaves the running mean and
 covariance as they are

---
 src/primate/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 237bbed..b3112b8 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -29,6 +29,8 @@ class Mean:
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
@@ -72,6 +74,8 @@ class Covariance(Mean):
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
-- 
2.43.0


From 10ef0093369164c6555b6550c56703d42036ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 10/37] fix: the control variate estimate is undefined, not an
 error, until its coefficients can be estimated

---
 src/primate/estimators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 9b3a944..2dd8da8 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -167,8 +167,8 @@ class ControlVariableEstimator(MeanEstimator):
 		samples: np.ndarray = np.atleast_1d(samples)
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
-		C = self.cov(ddof=1)
-		if self._estimate_cor:
+		if self._estimate_cor and self.n_samples > len(self.ecv):
+			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
@@ -188,7 +188,7 @@ class ControlVariableEstimator(MeanEstimator):
 
 	@property
 	def estimate(self):
-		if self.n_samples == 0:
+		if self.n_samples == 0 or self.alpha is None:
 			return np.nan
 		cv_est = self.cov.mu[0] - np.dot(self.alpha, self.cov.mu[1:] - self.ecv)
 		# alpha = self.alpha if self.alpha is not None else (C[0, 1] / C[1, 1])
-- 
2.43.0


From 9926791f172c7cdb28cce08610080dab87721f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 11/37] fix: callbacks and callers get a result that is current

---
 src/primate/diagonal.py | 3 ++-
 src/primate/trace.py    | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..3a65331 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -77,9 +77,10 @@ def diag(
 			numer += u * v.ravel()
 			denom += np.square(v.ravel())
 			estimator.update(np.atleast_2d(numer / denom))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			if callback is not None:
 				callback(result)
-		result.estimate = estimator.estimate
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		return (estimator.estimate, result)
 	else:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..c619840 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,7 +107,9 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			callback(result)
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
@@ -307,9 +309,10 @@ def xtrace(
 		## Test for convergence
 		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		result.estimator, result.criterion = estimator, converge
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		callback(result)
 
-	result.estimator = estimator
-	result.estimate = estimator.estimate
-	result.criterion = converge
+	result.estimator, result.criterion = estimator, converge
+	result.estimate, result.nit = estimator.estimate, len(estimator)
 	return (result.estimate, result) if full else result.estimate
-- 
2.43.0


From 2a3b146f54d633b982d7298bff736235cbbd2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 12/37] fix: xtrace honours the requested convergence criterion

---
 src/primate/trace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index c619840..d80e0e3 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -267,14 +267,13 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
 	if converge == "default":
 		converge = CountCriterion(count=n)
 	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
@@ -307,8 +306,11 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		last_estimate, n_last = estimator.estimate, len(estimator)
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		if n_last > 0:
+			estimator.delta = np.atleast_1d(estimator.estimate - last_estimate)
 		result.estimator, result.criterion = estimator, converge
 		result.estimate, result.nit = estimator.estimate, len(estimator)
 		callback(result)
-- 
2.43.0


From d40dd66b6001a23df509250b33a9c86db4148b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 13/37] fix: xtrace scales its estimates when sampling from the
 sphere

---
 src/primate/trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index d80e0e3..1d7dcda 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -286,6 +286,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
+	pdf_name = pdf
 	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
@@ -303,7 +304,7 @@ def xtrace(
 		Z = np.c_[Z, A @ Q[:, -ns:]]
 
 		## Expand the subspace
-		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
+		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf_name)
 
 		## Test for convergence
 		last_estimate, n_last = estimator.estimate, len(estimator)
-- 
2.43.0


From d5033559aba6744ecff76abb8b06962c1d31ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 14/37] fix: lanczos executes in one precision, rather than
 writing its results into discarded copies

---
 src/primate/lanczos.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..641fbde 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -77,13 +77,19 @@ def lanczos(
 	## Basic parameter validation
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
-	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
 	assert deg > 0, "Number of steps must be positive!"
 
 	## Get the dtype; infer it if it's not available
-	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
+	if dtype is not None:
+		f_dtype = np.dtype(dtype)
+	else:
+		f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
 
+	## The compiled procedure is specialized to one precision: matrices must match that of the outputs
+	if hasattr(A, "astype") and A.dtype != f_dtype:
+		A = A.astype(f_dtype)
+
 	## Determine number of projections + lanczos vectors
 	orth: int = deg if orth < 0 or orth > deg else orth
 	ncv: int = np.clip(orth, 2, deg) if not (return_basis) else deg
@@ -92,9 +98,9 @@ def lanczos(
 	## Generate the starting vector if none is specified
 	if v0 is None:
 		rng = np.random.default_rng(seed)
-		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(dt)
+		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(f_dtype)
 	else:
-		v0: np.ndarray = np.array(v0).astype(dt)
+		v0: np.ndarray = np.array(v0).astype(f_dtype)
 	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
 
 	## Allocate the tridiagonal elements + lanczos vectors in column-major storage
-- 
2.43.0


From 8523c7e81902e398ffd4373fb10bd8bc68489e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 15/37] fix: the compiled lanczos reads strided operator
 outputs properly and rejects those of the wrong size

---
 src/primate/include/pylinop.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..eb10363 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,8 +33,11 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
-    // std::copy(output.data(), output.data() + output.size(), out);
+    // NOTE: the copy below is linear in memory, so strided outputs must be made contiguous first
+    auto output = matvec_out.cast< py::array_t< F, py::array::c_style | py::array::forcecast > >();
+    if (static_cast< size_t >(output.size()) != _shape.first){
+      throw std::invalid_argument("Output dimension mismatch; 'matvec' must return as many elements as the operator has rows.");
+    }
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
   }
-- 
2.43.0


From 5ba5376d8305e6ce166469b65e0fdf0d9a754bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 16/37] fix: matrix functions accept matrices whose precision
 differs from the operator's

---
 src/primate/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index bb120e5..8f560b6 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -67,7 +67,8 @@ class MatrixFunction(LinearOperator):
 		self._deg = min(deg, A.shape[0])
 		self._rtol = 1e-8
 		self._orth = self._deg if orth < 0 or orth > self._deg else orth
-		self._A = A
+		## The compiled procedure is specialized to one precision: matrices must match it
+		self._A = A.astype(self.dtype) if hasattr(A, "astype") and A.dtype != self.dtype else A
 
 	@property
 	def degree(self) -> int:
-- 
2.43.0


From 412dc3a6089be4fe3db1fe63a4daaa97e72d28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 17/37] fix: the three-term recurrence rule honours its degree,
 precision and single-node rules

---
 src/primate/fttr.py      | 2 ++
 src/primate/integrate.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..a0d954b 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,6 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
+	if n == 1:
+		return
 	z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..f7c02d9 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,7 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		## The compiled routine is specialized for double precision
+		d, e = (np.asarray(x[:deg], dtype=np.float64) for x in (d, e))
+		theta = np.asarray(eigvalsh_tridiag(d, e, **kwargs), dtype=np.float64)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
 		fttr(theta, d, e, deg, tau)
 	else:
-- 
2.43.0


From 7f5920eda42648912b065ad7ac50e73bda055473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 18/37] fix: matrix functions applied to several vectors give
 one column per vector

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 8f560b6..0e38e15 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -118,7 +118,7 @@ class MatrixFunction(LinearOperator):
 		## TODO: call the lapack function with pre-allocated memory for extra speed
 		rw, Y = eigh_tridiag(alpha, beta)  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return x_norm * Q @ Y @ (np.ravel(self._fun(rw)) * Y[0, :])
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
-- 
2.43.0


From 9b95f4d30658a2da21cfabfc905e56fe8c09e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 19/37] fix: matrix functions reject inputs of the wrong length
 rather than running past their end

---
 src/primate/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 0e38e15..fbd3ed2 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -93,6 +93,7 @@ class MatrixFunction(LinearOperator):
 		"""Expands the Krylov space of `x`, which is overwritten, up to the first invariant subspace."""
 		## NOTE: ncv is fixed to deg for matrix function to work
 		## NOTE: must start from zero, as re-orthogonalization visits columns that were not yet set
+		assert len(x) == self.shape[1], f"Invalid input; must have length {self.shape[1]}"
 		Q = np.zeros((self.shape[0], self._deg), dtype=self.dtype, order="F")
 		alpha = np.zeros(self._deg + 1, dtype=self.dtype)
 		beta = np.full(self._deg + 1, -1.0, dtype=self.dtype)
-- 
2.43.0


From 62e60e26b1ec6cbd27bbd85404ba56500d106dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 20/37] fix: hutchpp reports its samples for operators that
 evaluate quadratic forms

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 1d7dcda..0dddadc 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -165,7 +165,7 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T]).ravel()
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
-- 
2.43.0


From 8381b04aff463730eb60b388deb474144c12cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 21/37] fix: xtrace handles 1 x 1 operators

---
 src/primate/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 0dddadc..1f36052 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -298,7 +298,10 @@ def xtrace(
 		N = pdf(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
-			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
+			if Q.shape[1] == 0:  # qr_insert cannot extend the empty factorization of a 1 x 0 matrix
+				Q, R = np.linalg.qr(Y[:, [j]], mode="reduced")
+			else:
+				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
 			R_inv = update_trinv(R_inv, R[:, -1])
 		W = np.c_[W, N]
 		Z = np.c_[Z, A @ Q[:, -ns:]]
-- 
2.43.0


From 6dc158ab48e81a1b7efbf350f257a34e255838b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 22/37] fix: quadrature by three-term recurrence accepts
 strided arrays

---
 src/primate/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index f7c02d9..bc77f27 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,8 +64,8 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		## The compiled routine is specialized for double precision
-		d, e = (np.asarray(x[:deg], dtype=np.float64) for x in (d, e))
+		## The compiled routine is specialized for contiguous arrays in double precision
+		d, e = (np.ascontiguousarray(x[:deg], dtype=np.float64) for x in (d, e))
 		theta = np.asarray(eigvalsh_tridiag(d, e, **kwargs), dtype=np.float64)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
 		fttr(theta, d, e, deg, tau)
-- 
2.43.0


From 82a5dd967bee7ec3e672d7c04c5c605f19c1ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 23/37] fix: diag and hutchpp accept user-supplied
 distributions, as documented

---
 src/primate/diagonal.py | 2 +-
 src/primate/trace.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 3a65331..66fd8ac 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 1f36052..e17c1b7 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -139,7 +139,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
-- 
2.43.0


From b1c10810c7bde66bbf2cc714f4fa78909e36ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 24/37] fix: hutchpp of operators with fewer than three columns
 divided by zero

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index e17c1b7..7f60219 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -150,7 +150,7 @@ def hutchpp(
 		return 0.0 if not full else (0.0, EstimatorResult())
 
 	## Setup constants
-	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
+	nb = max(N // 3, 1) if m is None else m  # number of samples to dedicate to deflation
 	nb += nb % 3  # ensure nb divides by 3
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
-- 
2.43.0


From f93dc87bc3fd8c6f63b5c75e6a056072e0d730ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 25/37] fix: hutchpp reports the quadratic forms of its vectors
 as samples, not sums over rows

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 7f60219..445b81d 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -165,13 +165,13 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T]).ravel()
+	rng_ests = np.einsum("ij,ij->j", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T]).ravel()
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
 	G = pdf(size=(N, nb)).astype(f_dtype)
 	G -= Q @ (Q.T @ G)
-	defl_ests = np.einsum("...i,...i->...", A @ G, G)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
+	defl_ests = np.einsum("ij,ij->j", A @ G, G)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
 	tr_defl = (1 / nb) * np.sum(defl_ests)
 
 	if not full:
-- 
2.43.0


From d17a408c67367f27016b4293eaffee0fa4a35fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 26/37] fix: matrix functions of the zero vector are zero, not
 f(0) times zero

---
 src/primate/operators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index fbd3ed2..4a1bae4 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -114,6 +114,8 @@ class MatrixFunction(LinearOperator):
 		"""
 		x = x.astype(self.dtype).reshape(-1)
 		x_norm = np.linalg.norm(x)
+		if x_norm == 0:  # spans no Krylov space
+			return np.zeros(self.shape[0], dtype=self.dtype)
 		alpha, beta, Q = self._krylov(x)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
@@ -138,9 +140,12 @@ class MatrixFunction(LinearOperator):
 		x = np.array(x, order="F", copy=None)
 		x_norm_sq = np.square(np.linalg.norm(x, axis=0))
 		y = np.zeros(x.shape[1])
+		assert x.shape[0] == self.shape[1], f"Invalid input; must have length {self.shape[1]}"
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
+			if x_norm_sq == 0:  # spans no Krylov space
+				continue
 			alpha, beta, _ = self._krylov(xc)
 			nodes, weights = quadrature(alpha, beta, quad="gw")
 			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
-- 
2.43.0


From 880c373b738136005ecc2e13f71eb2f7954252ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 27/37] fix: normalize_unit of 1 x 1 operators

---
 src/primate/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 4a1bae4..34c780e 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -187,7 +187,10 @@ def normalize_unit(A: LinearOperator, interval: tuple = (-1, 1)) -> LinearOperat
 	"""Normalizes a linear operator to have its spectra contained in the interval [-1,1]."""
 	A = aslinearoperator(A) if not isinstance(A, LinearOperator) else A
 	assert isinstance(A, LinearOperator), "A must be a linear operator"
-	alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
+	if A.shape[0] == 1:  # out of reach of the iterative solver
+		alpha = (A @ np.ones(1)).item()
+	else:
+		alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
 	I_op = IdentityOperator(A.shape)
 	# np.diff(interval)
 	return (A + alpha * I_op) / (2 * alpha)
-- 
2.43.0


From 0bf7c7ca3f96d25afb317ccd21f22cda2a047292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 28/37] fix: dropping a sampler whose construction failed

Isotropic.__del__ raised AttributeError ('Exception ignored in ...') when
__init__ failed before the executor existed.
---
 src/primate/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index cb7a3a9..1619e50 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -143,6 +143,8 @@ class Isotropic:
 			future.result()  # re-raises the failure of a worker, if any
 
 	def __del__(self):
+		if not hasattr(self, "executor"):  # the construction failed
+			return
 		self.executor.shutdown(False)
 
 
-- 
2.43.0


From bf464c002b1a062742e6c41542db5de185c41af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 29/37] fix: control variate estimators track their last change
 and record samples

Their delta stayed the scalar inf, so the tolerance criterion raised
ValueError on them and could never hold; record=True recorded nothing.
---
 src/primate/estimators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 2dd8da8..366f69d 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -157,7 +157,7 @@ class ControlVariableEstimator(MeanEstimator):
 		self.cov = Covariance(dim=len(ecv) + 1)
 		self._estimate_cor = alpha is None
 		self.n_samples = 0
-		self.delta = np.inf
+		self.delta = np.atleast_1d(np.inf)
 
 	def __len__(self) -> int:
 		return self.n_samples
@@ -165,12 +165,17 @@ class ControlVariableEstimator(MeanEstimator):
 	@typing.no_type_check
 	def update(self, samples: ArrayLike):
 		samples: np.ndarray = np.atleast_1d(samples)
+		old_estimate = self.estimate
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		if self._estimate_cor and self.n_samples > len(self.ecv):
 			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+		delta = np.atleast_1d(self.estimate - old_estimate)
+		self.delta = np.where(np.isnan(delta), np.inf, delta)
+		if self.values is not None:
+			self.values.extend(samples.copy())  # the caller may reuse its buffer
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From 849cb944aa38845e59a51652bf620ebfe5db41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 30/37] fix: control variate estimates are undefined, not an
 error, while the control variables are collinear

update() raised LinAlgError after having counted the samples, so the
rejected update left its traces.
---
 src/primate/estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 366f69d..b1a556c 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -171,7 +171,10 @@ class ControlVariableEstimator(MeanEstimator):
 		if self._estimate_cor and self.n_samples > len(self.ecv):
 			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
-			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			try:
+				self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			except np.linalg.LinAlgError:  # the control variables have not varied enough yet
+				self.alpha = None
 		delta = np.atleast_1d(self.estimate - old_estimate)
 		self.delta = np.where(np.isnan(delta), np.inf, delta)
 		if self.values is not None:
-- 
2.43.0


From ecbfbd9e68d78a29ccdefe8b4cda995892cb8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 31/37] fix: convergence figures with a reference value or
 undefined samples

figure_error(..., mu=...), as in the guide, raised UnboundLocalError and
computed |mu - avg/mu| as relative error; figure_sequence plotted all samples
against the indices of the defined ones.
---
 src/primate/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index ce0578a..8bd07c3 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -77,7 +77,7 @@ def figure_sequence(estimator: Union[Estimator, Sequence], mu: Optional[float] =
 	fig_kwargs = dict(width=400, height=300, title=fig_title)
 	p = figure(**(fig_kwargs | kwargs))
 	p.toolbar_location = None
-	p.scatter(sample_index, sample_vals, size=4.0, color="gray", legend_label="samples")
+	p.scatter(sample_index, sample_vals[valid_samples], size=4.0, color="gray", legend_label="samples")
 	p.title.align = "center"
 	p.legend.location = "top_left"
 	p.yaxis.axis_label = "Estimates"
@@ -147,7 +147,8 @@ def figure_error(
 
 	if mu is not None:
 		cum_abs_error = np.abs(mu - sample_avgs)
-		cum_rel_error = np.abs(mu - sample_avgs / mu)
+		cum_rel_error = np.abs((mu - sample_avgs) / mu)
+		cum_error = cum_abs_error if absolute else cum_rel_error
 	else:
 		est = MeanEstimator(covariance=True)
 		cc = ConfidenceCriterion(confidence=0.95)
-- 
2.43.0


From b9f86bfb069656565d7a5bc0347972ec52dbcf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 32/37] fix: exchangeable estimates of singular operators and
 dependent samples

xtrace and xdiag raised a LinAlgError, or returned NaN, once the images of the sample vectors depended on one another.
---
 src/primate/diagonal.py | 10 ++++++++--
 src/primate/linalg.py   | 28 ++++++++++++++++++++++++++++
 src/primate/trace.py    | 24 ++++++++++++------------
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 66fd8ac..c12bdbf 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -3,6 +3,7 @@ from typing import Callable, Optional, Union
 import numpy as np
 import scipy as sp
 
+from .linalg import loo_directions
 from .random import isotropic
 from .estimators import ConvergenceCriterion, convergence_criterion, MeanEstimator, EstimatorResult
 from .operators import is_valid_operator
@@ -116,6 +117,12 @@ def xdiag(
 	N = pdf(size=(n, m))
 	Y = A @ N
 	Q, R = np.linalg.qr(Y, mode="reduced")
+	rank = np.linalg.matrix_rank(R) if m > 0 else 0
+	if rank < m:  # some images depend on one another
+		Q, s, Vt = np.linalg.svd(Y, full_matrices=False)
+		Q, R, R_inv = Q[:, :rank], s[:rank, np.newaxis] * Vt[:rank], Vt[:rank].T / s[:rank]
+	else:
+		R_inv = np.linalg.inv(R)
 	dNY = diag_prod(N.T, Y.T)
 	del Y
 
@@ -123,8 +130,7 @@ def xdiag(
 	## TODO: see if dtrtri compiles on all platforms, https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
 	Z = A.T @ Q
 	T = Z.T @ N
-	R_inv = np.linalg.inv(R)
-	S = R_inv.T / np.linalg.norm(R_inv, axis=1)
+	S = loo_directions(R, R_inv)
 	QS = Q @ S
 
 	## Vector quantities
diff --git a/src/primate/linalg.py b/src/primate/linalg.py
index 513ccf0..93444a9 100644
--- a/src/primate/linalg.py
+++ b/src/primate/linalg.py
@@ -22,3 +22,31 @@ def update_trinv(B_inv: np.ndarray, b: np.ndarray):
 	B_ast[n, n] = np.reciprocal(b[-1]).item()
 	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])
 	return B_ast
+
+
+def qr_append(Q: np.ndarray, R: np.ndarray, y: np.ndarray) -> tuple:
+	"""Appends the column `y` to a reduced QR factorization; `Q` is extended only if `y` does not lie in its span."""
+	eps = np.finfo(y.dtype if y.dtype.kind == "f" else np.float64).eps
+	y = np.asarray_chkfinite(y, dtype=np.float64)
+	r = Q.T @ y
+	u = y - Q @ r
+	d = Q.T @ u  # a second pass is needed, and enough, to orthogonalize to working precision
+	r, u = r + d, u - Q @ d
+	rho = np.linalg.norm(u)
+	R = np.c_[R, r]
+	if rho <= 10 * len(y) * eps * np.linalg.norm(y):
+		return Q, R
+	return np.c_[Q, u / rho], np.r_[R, np.eye(1, R.shape[1], R.shape[1] - 1) * rho]
+
+
+def loo_directions(R: np.ndarray, R_inv: np.ndarray) -> np.ndarray:
+	"""Unit vectors orthogonal to all columns of `R` except the i-th, for every i; zero if the others span the i-th.
+
+	Here, `R_inv` is the inverse of `R`, or its pseudo-inverse if its columns are dependent.
+	"""
+	if R.shape[0] == R.shape[1]:
+		return R_inv.T / np.linalg.norm(R_inv, axis=1)
+	essential = np.einsum("ij,ji->i", R_inv, R) > 1.0 - 1e-8  # i.e. e_i is in the row space of R
+	S = np.zeros(R.shape)
+	S[:, essential] = R_inv[essential].T / np.linalg.norm(R_inv[essential], axis=1)
+	return S
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 445b81d..343a6a6 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -14,7 +14,7 @@ from .estimators import (
 	MeanEstimator,
 	convergence_criterion,
 )
-from .linalg import update_trinv
+from .linalg import loo_directions, qr_append, update_trinv
 from .operators import is_valid_operator
 from .random import isotropic
 
@@ -205,15 +205,16 @@ def _xtrace(W: np.ndarray, Z: np.ndarray, Q: np.ndarray, R: np.ndarray, R_inv: n
 	W_proj = Q.T @ W
 	# R_inv = solve_triangular(R, np.identity(m)).T  # todo: replace with dtrtri?
 	# S = R_inv / np.linalg.norm(R_inv, axis=0)  # S == 'spherical', makes columns unit norm
-	S = R_inv.T / np.linalg.norm(R_inv, axis=1)
+	S = loo_directions(R, R_inv)
 
 	## Handle the scale
 	if not pdf == "sphere":
 		scale = np.ones(m)[:, np.newaxis]  # this is a column vector
 	else:
 		col_norm = lambda X: np.linalg.norm(X, axis=0)
-		c = n - m + 1
-		scale = c / (n - (col_norm(W_proj)[:, np.newaxis]) ** 2 + (diag_prod(S, W_proj) * col_norm(S)[:, np.newaxis]) ** 2)
+		c = n - len(R) + np.any(S, axis=0)[:, np.newaxis]  # dimensions left by the other vectors
+		scale = n - (col_norm(W_proj)[:, np.newaxis]) ** 2 + (diag_prod(S, W_proj) * col_norm(S)[:, np.newaxis]) ** 2
+		scale = np.divide(c, scale, out=np.zeros((m, 1)), where=c > 0)
 
 	## Intermediate quantities
 	H = Q.T @ Z
@@ -259,8 +260,6 @@ def xtrace(
 	Returns:
 		Estimate the trace of `A`. If `info = True`, additional information about the computation is also returned.
 	"""
-	from scipy.linalg import qr_insert
-
 	assert batch >= 1, "Batch size must be positive."
 	# assert atol >= 0.0 and rtol >= 0.0, "Error tolerances must be positive"
 	# assert cond_tol >= 0.0, "Condition number must be non-negative"
@@ -298,13 +297,14 @@ def xtrace(
 		N = pdf(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
-			if Q.shape[1] == 0:  # qr_insert cannot extend the empty factorization of a 1 x 0 matrix
-				Q, R = np.linalg.qr(Y[:, [j]], mode="reduced")
-			else:
-				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
-			R_inv = update_trinv(R_inv, R[:, -1])
+			Q, R = qr_append(Q, R, Y[:, j])
+			if len(R) == R.shape[1]:
+				R_inv = update_trinv(R_inv, R[:, -1])
+		if len(R) < R.shape[1]:  # some images depend on one another
+			R_inv = np.linalg.pinv(R)
 		W = np.c_[W, N]
-		Z = np.c_[Z, A @ Q[:, -ns:]]
+		if Q.shape[1] > Z.shape[1]:
+			Z = np.c_[Z, A @ Q[:, Z.shape[1] :]]
 
 		## Expand the subspace
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf_name)
-- 
2.43.0


From 733ec5e04122da5838b7236faa36dfe270efa6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 33/37] fix: control variate estimators keep their own copy of
 the expectations and coefficients

---
 src/primate/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index b1a556c..9f62f3b 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -147,10 +147,10 @@ class MeanEstimator(Estimator):
 
 class ControlVariableEstimator(MeanEstimator):
 	def __init__(self, ecv: Union[float, np.ndarray], alpha: Union[float, np.ndarray, None] = None, record: bool = False):
-		ecv: np.ndarray = np.atleast_1d(ecv).ravel()
+		ecv: np.ndarray = np.atleast_1d(ecv).flatten()  # a copy: the caller may reuse its array
 		super().__init__(len(ecv), covariance=False, record=record)
 		if alpha is not None:
-			alpha: np.ndarray = np.atleast_1d(alpha).ravel()
+			alpha: np.ndarray = np.atleast_1d(alpha).flatten()
 			assert len(ecv) == len(alpha), "Coefficients alpha must have same length as the control variables."  # type: ignore
 		self.alpha = alpha
 		self.ecv = ecv
-- 
2.43.0


From 0de4f2c88ddf753f679c00044b51b8b8520e7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 34/37] fix: the fttr quadrature of a zero node has weight one

---
 src/primate/fttr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index a0d954b..d3cde60 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -23,6 +23,8 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	"""
 	n = len(alpha)
 	mu_0 = np.sum(np.abs(theta[:k]))
+	if mu_0 == 0.0:  # a single node at zero; any scale will do, as it cancels out below
+		mu_0 = 1.0
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From 28d4f665e3722b2a40d163017a2843645d4ae22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 35/37] fix: lanczos does not depend on what the caller's
 output arrays hold

---
 src/primate/lanczos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 641fbde..e4b98cf 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -110,6 +110,12 @@ def lanczos(
 	assert isinstance(alpha, np.ndarray) and len(alpha) == deg + 1 and alpha.dtype == f_dtype and alpha.flags["WRITEABLE"]
 	assert isinstance(beta, np.ndarray) and len(beta) == deg + 1 and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
 	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
+	assert alpha.flags["C_CONTIGUOUS"] and beta.flags["C_CONTIGUOUS"], "Output arrays must be contiguous."
+	assert Q.dtype == f_dtype, "The output basis must be of the precision of the computation."
+
+	## The procedure expects zeros, whatever was left in the arrays of the caller
+	for x in (alpha, beta, Q):
+		x.fill(0)
 
 	## Call the procedure
 	_lanczos.lanczos(A, v0, deg, rtol, orth, alpha, beta, Q)
-- 
2.43.0


From 65d654c481e05fb716c805066369a9848cd04589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 36/37] fix: operators of tiny norm are normalized as
 accurately as others

---
 src/primate/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 34c780e..e605425 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -190,7 +190,10 @@ def normalize_unit(A: LinearOperator, interval: tuple = (-1, 1)) -> LinearOperat
 	if A.shape[0] == 1:  # out of reach of the iterative solver
 		alpha = (A @ np.ones(1)).item()
 	else:
-		alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
+		alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False)[0]
+		if 0 < abs(alpha) < np.finfo(alpha.dtype).eps ** (2 / 3):  # where the tolerance of the solver is absolute
+			alpha *= eigsh(A / alpha, k=1, which="LM", return_eigenvectors=False)[0]
+		alpha = alpha.item()
 	I_op = IdentityOperator(A.shape)
 	# np.diff(interval)
 	return (A + alpha * I_op) / (2 * alpha)
-- 
2.43.0


From e3b7fdfe0f4dc6d7beeb0a22089715b35ac8bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 37/37] fix: Lanczos at a tolerance of zero stops once nothing
 is left to normalize

---
 src/primate/include/lanczos.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 13c2d3a..72777c3 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -140,6 +140,7 @@ void lanczos_recurrence(
     if (beta[j+1] < residual_tol || (j+1) == deg) { // additional break prevents overriding qn
       break;
     }
+    if (beta[j+1] == 0) { break; } // nothing is left to normalize, however small the tolerance
     Q.col(n) = v / beta[j+1]; // normalize such that Q stays orthonormal
 
     // Cyclic left-rotate to update the working column indices
-- 
2.43.0

