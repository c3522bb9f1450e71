From dc0de6e1df75a2cc558af8e91fdc32f0e5b8f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 01/31] fix: map the triangle with both barycentric coordinates

The extra axis made both coordinates the whole sample vector, so points left
the triangle unless it was axis aligned.
---
 magpi/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 0f34940..7ea501d 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -309,10 +309,10 @@ def transform_triangle(x: Array, a: Array, b: Array, c: Array) -> Array:
     i, j, k = a, b, c
     assert i.shape == j.shape == k.shape
     x = x % 1.0
-    x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)[..., None]
+    x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)
     d1 = j - i
     d2 = k - i
-    return i + x[..., 0] * d1 + x[..., 1] * d2
+    return i + x[..., 0:1] * d1 + x[..., 1:2] * d2
 
 
 def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
-- 
2.43.0


From c75a95fa973c6ba9a54487bbdcdf2d509fd1fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 02/31] fix: walk the boundary of parallelograms not anchored
 at the origin

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 7ea501d..f8cf9fd 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -103,7 +103,7 @@ class Parallelogram:
 
     def transform_bnd(self, samples: Array) -> Array:
         a, b, c = array([self.a, self.b, self.c])
-        return transform_polyline(samples, (a, a + b, a + b + c, c, a))
+        return transform_polyline(samples, (a, b, b + c - a, c, a))
 
 
 def linear_map(X_ref: Array, X: Array) -> Array:
-- 
2.43.0


From 84a66db103e15c9f4f7d04ee530e699fb504c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 03/31] fix: exclude the derived matrix from Parallelogram
 comparison and hashing

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index f8cf9fd..a69c35d 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -79,7 +79,7 @@ class Parallelogram:
     a: tuple[float, ...]
     b: tuple[float, ...]
     c: tuple[float, ...]
-    B: Array = field(repr=False, init=False)
+    B: Array = field(repr=False, init=False, compare=False)
     dimension = property(lambda self: len(self.a))
 
     def __post_init__(self):
-- 
2.43.0


From 6cd27fe8668c4da1a7490ea0d3f9d00791bff605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 04/31] fix: Hypercube.normal_vec for mixed batches and mixed
 corners

A batch with a single point in the domain was accepted as a whole, and corners
touching a lower and an upper face had no normal.
---
 magpi/domain.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index a69c35d..494596d 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -56,7 +56,7 @@ class Hypercube:
             (bnd_sample > lb - (atol + rtol * abs(lb)))
             & (bnd_sample < ub + (atol + rtol * abs(ub)))
         ).all(axis=-1)
-        if not in_domain.any():
+        if not in_domain.all():
             return None
         on_lb = jnp.isclose(bnd_sample, lb, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
@@ -64,9 +64,8 @@ class Hypercube:
         on_ub = jnp.isclose(bnd_sample, ub, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
         )
-        on_lb = where(jnp.cumsum(on_lb, axis=-1) > 1, 0.0, on_lb)
-        on_ub = where(jnp.cumsum(on_ub, axis=-1) > 1, 0.0, on_ub)
-        n = on_ub - on_lb
+        first = jnp.cumsum(on_lb + on_ub, axis=-1) <= 1
+        n = where(first, on_ub - on_lb, 0.0)
 
         if (norm(n, axis=-1) == 1.0).all():
             return n
-- 
2.43.0


From 5713af2394ccd9f403f647e4fc0ce7d51c717b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 05/31] fix: normalize spherical normals of batches per point

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 494596d..362eae0 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -130,7 +130,7 @@ class _Spherical:
         r, o = array(self.radius), array(self.origin)
         sample = bnd_sample - o
 
-        sample_norm = norm(sample, axis=-1)
+        sample_norm = norm(sample, axis=-1, keepdims=True)
         on_bnd = jnp.isclose(sample_norm, r, rtol=rtol, atol=atol)
         if not on_bnd.all():
             return None
-- 
2.43.0


From ddd9db49b605fdf6c5af61d3d28852dd111e5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 06/31] fix: use one total length in transform_polyline

The sum and the last cumulative sum may differ by rounding, in which case
parameters next to one left the polyline.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 362eae0..9ce87f3 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -318,8 +318,8 @@ def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
     line = stack(points)
     assert len(s.shape) == 0 or len(s.shape) == 1
     segments = norm(line[1:] - line[:-1], axis=1)
-    length = jnp.sum(segments)
     cumlengths = jnp.cumsum(segments)
+    length = cumlengths[-1]
     _s = s % 1
     _s = (_s * length).ravel()
     idx = jnp.argmax(_s[:, None] <= cumlengths, axis=-1)
-- 
2.43.0


From 389aeba9cab8b1630402b5798e9909577136c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 07/31] fix: step ODEs from the start of the interval

The scheme was given the end time, so non-autonomous systems were evaluated
one step too late.
---
 magpi/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/ode.py b/magpi/ode.py
index 6d9fbbe..1814ce7 100644
--- a/magpi/ode.py
+++ b/magpi/ode.py
@@ -54,7 +54,7 @@ def _odeint(df, unroll, method, y, ts, *args):
     def _step(state, t):
         y, t_prev = state
         dt = t - t_prev
-        y = method(df, y, t, dt, *args)
+        y = method(df, y, t_prev, dt, *args)
         return (y, t), y
 
     _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
-- 
2.43.0


From cc5bd2ecdb4b32da50d7aa5726ce1b845d945108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 08/31] fix: scalar minus quaternion

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 4ac0432..eab4ca9 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -61,7 +61,7 @@ class Quaternion:
         return self.__class__(a, q)
 
     def __rsub__(self, other) -> Self:
-        return self - other
+        return -(self - other)
 
     def __mul__(self, other: Self | Scalar) -> Self:
         if isinstance(other, self.__class__):
-- 
2.43.0


From c8aa57ff0ab208cc972c7a45b5b9c791c2723e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 09/31] fix: rebuild quaternions in tree_unflatten without
 validation

Batched leaves and placeholders are legal there (vmap, tree_map).
---
 magpi/quaternions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index eab4ca9..a07ecd2 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -108,7 +108,10 @@ class Quaternion:
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        return cls(children[0], children[1])
+        q = object.__new__(cls)
+        object.__setattr__(q, "_a", children[0])
+        object.__setattr__(q, "_q", children[1])
+        return q
 
 
 def quaternion_right_div(q1: Quaternion, q2: Quaternion) -> Quaternion:
-- 
2.43.0


From 79c3465e3c219ebf4d0b161216de18abf8a3210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 10/31] fix: logarithm of negative real and of small
 quaternions

The direction of the imaginary part was zero in both cases, so exp(log(q)) and
powers lost the sign or the imaginary part.
---
 magpi/quaternions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index a07ecd2..3e1d6ba 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -154,7 +154,11 @@ def quanternion_log(q: Quaternion) -> Quaternion:
     """
     r = abs(q)
     a = log(r)
-    p = sgn(q.imag) * arg(q)
+    v = sgn(q.imag * (1 / r))
+    # any direction is valid for a negative real quaternion
+    e = zeros_like(v).at[0].set(1.0)
+    v = where((norm(v) == 0.0) & (q.real < 0.0), e, v)
+    p = v * arg(q)
     return Quaternion(a, p)
 
 
-- 
2.43.0


From 4c716714833948f97400b8ba9098104490054afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 11/31] fix: from_axis_angle returns a unit quaternion for any
 axis length

---
 magpi/quaternions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 3e1d6ba..10a2b19 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -255,5 +255,6 @@ def from_axis_angle(angle: Scalar, axis: Vec) -> Quaternion:
     Quaternion
     """
     axis_arr = asarray(axis)
+    axis_arr = axis_arr / norm(axis_arr)
     angle = angle / 2
     return Quaternion(cos(angle), axis_arr * sin(angle))
-- 
2.43.0


From 0876a10b3d3a559c86ada7932bcb8705329a26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 12/31] fix: do not truncate the rotation matrix for integer
 angles

---
 magpi/r_fun.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 92e92f1..3b48329 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -399,9 +399,7 @@ def rotate2d(adf: ADF, angle: Scalar, o: Vec2d = (0.0, 0.0)) -> ADF:
     _o = asarray(o)
     _angle = asarray(angle)
     _adf = translate(adf, -_o)
-    M = array(
-        [[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]], dtype=_angle.dtype
-    )
+    M = array([[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]])
 
     def rot_op(x):
         msg = f"Cannot rotate vector of size {x.shape} in 2d. Please pass a 2d vector."
-- 
2.43.0


From fc04b3efc6d1f0a1816da26de3b7b09859a8cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 13/31] fix: rotate3d counter-clockwise like rotate2d

quaternion_rotation already applies the inverse rotation, negating the angle
as well turned the solid the wrong way.
---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 3b48329..4381e93 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -439,7 +439,7 @@ def rotate3d(
     _o = asarray(o)
     _adf = translate(adf, -_o)
 
-    _angle = -asarray(angle)
+    _angle = asarray(angle)
     if _angle.shape == ():
         if rot_axis is None:
             msg = "If only the angle is specified, the rotation axis must be provided"
-- 
2.43.0


From a12ee364b33b8d1b2f5304c1a97d145eea80b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 14/31] fix: finite values and gradients at the center of
 spheres and ellipsoids

---
 magpi/r_fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 4381e93..ba99925 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -270,7 +270,7 @@ def sphere(r: Scalar) -> ADF:
     -------
     ADF
     """
-    return lambda x: (r**2 - norm(x) ** 2) / (2 * r)
+    return lambda x: (r**2 - jnp.sum(asarray(x) ** 2)) / (2 * r)
 
 
 def cylinder(r: Scalar) -> ADF:
@@ -556,6 +556,6 @@ def normalize_1st_order(adf: ADF) -> ADF:
     def normalize(x):
         y = adf(x)
         dy = df(x)
-        return y / sqrt(y**2 + norm(dy) ** 2)
+        return y / sqrt(y**2 + jnp.sum(dy**2))
 
     return normalize
-- 
2.43.0


From 08136fd943dfac0fd85aa3ce12a34c956e1dc6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 15/31] fix: R-functions of nearly equal operands must not be
 NaN

For alpha close to one the radicand cancelled to a negative number.
---
 magpi/r_fun.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index ba99925..7ef58ba 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -86,6 +86,13 @@ class RFun:
         return lambda x: op(adf1(x), adf2(x))
 
 
+def _law_of_cosines(a: Scalar, b: Scalar, alpha: Scalar) -> Scalar:
+    # a**2 + b**2 - 2*alpha*a*b, which must not cancel to a negative number
+    if alpha > 0:
+        return (a - b) ** 2 + 2 * (1 - alpha) * a * b
+    return a**2 + b**2 - 2 * alpha * a * b
+
+
 class RAlpha(RFun):
     """
     Implements the system :math:`R_\\alpha` for some value of `alpha` in (-1, 1].
@@ -101,12 +108,12 @@ class RAlpha(RFun):
 
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b - sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b - sqrt(_law_of_cosines(a, b, self.alpha)))
         )
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b + sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b + sqrt(_law_of_cosines(a, b, self.alpha)))
         )
 
 
@@ -131,7 +138,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b - sqrt(r - 2 * self.alpha * a * b))
+            * (a + b - sqrt(_law_of_cosines(a, b, self.alpha)))
             * r ** (self.m / 2)
         )
 
@@ -140,7 +147,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b + sqrt(r - 2 * self.alpha * a * b))
+            * (a + b + sqrt(_law_of_cosines(a, b, self.alpha)))
             * r ** (self.m / 2)
         )
 
-- 
2.43.0


From b3bea100afdf4283f445a72954db4bfe650aa312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 16/31] fix: derivative by a single argument name

---
 magpi/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 4c80112..a60eb17 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -129,7 +129,7 @@ def derivative(
         setattr(_df, "__signature__", sig)
         return _df
 
-    if isinstance(wrt, int):
+    if isinstance(wrt, (int, str)):
         wrt = [wrt]
 
     if not isinstance(argnums, Sequence):
-- 
2.43.0


From 767524753eeae4c1cef09b08298d3a668d73581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 17/31] fix: derivatives of networks and of functions with
 pytree arguments

Also reject a derivative by an argument which is not passed by position
instead of returning zero.
---
 magpi/calc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index a60eb17..92473a6 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -56,11 +56,14 @@ def value_and_derivative(
 
     def df(*args, **kwargs):
         if isinstance(wrt, int) and argnum is None:
+            msg = "The argument to differentiate must be passed by position."
+            assert 0 <= wrt < len(args), msg
             ei = [
-                ones_like(x) if i == wrt else zeros_like(x) for i, x in enumerate(args)
+                tree_map(ones_like if i == wrt else zeros_like, x)
+                for i, x in enumerate(args)
             ]
         elif isinstance(wrt, int) and argnum is not None:
-            ei = [zeros_like(x) for x in args]
+            ei = [tree_map(zeros_like, x) for x in args]
             ei[argnum] = ei[argnum].at[wrt].set(1.0)
         else:
             ei = wrt
-- 
2.43.0


From 1a0f53f6990f6104d6ade57e2c04ace04e4a3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 18/31] fix: integrate point functions in one dimension

The integrand was called once with all nodes, so constants and array valued
functions failed or gave wrong results.
---
 magpi/integrate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/magpi/integrate.py b/magpi/integrate.py
index 694a1e3..95a3055 100644
--- a/magpi/integrate.py
+++ b/magpi/integrate.py
@@ -135,8 +135,11 @@ def integrate(
     def g(x):
         return f(x, *args, **kwargs)
 
-    F = jnp.apply_along_axis(g, -1, X)
-    
+    if len(domain) > 1:
+        F = jnp.apply_along_axis(g, -1, X)
+    else:
+        F = vmap(g)(X)
+
     return tree.map(lambda z: jnp.tensordot(W, z, len(domain)), F)
 
 
-- 
2.43.0


From 3a08102545eb09bb68c5e690201d7acb8204b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 19/31] fix: never accept samples of zero density

A uniform number of exactly zero accepted them.
---
 magpi/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/sampling.py b/magpi/sampling.py
index 16d116f..652c333 100644
--- a/magpi/sampling.py
+++ b/magpi/sampling.py
@@ -44,7 +44,7 @@ def rejection_sampling(
 
         def not_valid(state):
             _, p, sample = state
-            return p > (pdf(sample) / m)
+            return p >= (pdf(sample) / m)
 
         _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))
         return sample
-- 
2.43.0


From 12632cd0f22d825b01c35ab89daa76a6022a6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 20/31] fix: finite gradients of B-splines with repeated knots

---
 magpi/spline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/magpi/spline.py b/magpi/spline.py
index 09b8d5a..648fe13 100644
--- a/magpi/spline.py
+++ b/magpi/spline.py
@@ -7,15 +7,18 @@ def _base_fun(x: Array, k: int, i: int, t: Array) -> Array:
     if k == 0:
         return jnp.where((t[..., i] <= x) & (x < t[..., i + 1]), 1.0, 0.0)
 
+    # the denominator must be nonzero in both branches for AD
+    d1 = t[..., i + k] - t[..., i]
+    d2 = t[..., i + k + 1] - t[..., i + 1]
     c1: Array = jnp.where(
-        t[..., i + k] == t[..., i],
+        d1 == 0,
         0.0,
-        (x - t[..., i]) / (t[..., i + k] - t[..., i]) * _base_fun(x, k - 1, i, t)
+        (x - t[..., i]) / jnp.where(d1 == 0, 1.0, d1) * _base_fun(x, k - 1, i, t)
     )
     c2: Array = jnp.where(
-        t[..., i + k + 1] == t[..., i + 1],
+        d2 == 0,
         0.0,
-        (t[..., i + k + 1] - x) / (t[..., i + k + 1] - t[..., i + 1]) * _base_fun(x, k - 1, i + 1, t),
+        (t[..., i + k + 1] - x) / jnp.where(d2 == 0, 1.0, d2) * _base_fun(x, k - 1, i + 1, t),
     )
     return c1 + c2
 
-- 
2.43.0


From 40f4ea394ca22e1f561b2c9af5199cd2f105b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:09 +0000
Subject: [PATCH 21/31] fix: argument of (nearly) real quaternions must not be
 NaN

Rounding may push the cosine beyond one under jit.
---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 10a2b19..2017fb2 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -163,7 +163,7 @@ def quanternion_log(q: Quaternion) -> Quaternion:
 
 
 def arg(q: Quaternion) -> Scalar:
-    return arccos(q.real * (1 / abs(q)))
+    return jnp.arctan2(norm(q.imag), q.real)
 
 
 def sgn(v: Array) -> Array:
-- 
2.43.0


From 30c4235a9b2ccc54f47a154b07335a6f85573172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 22/31] fix: curl passes all additional arguments to the field

Keyword arguments were rejected and, in 2d only, non-array arguments too
(because of an inner jit), unlike for divergence and laplace.
---
 magpi/calc.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 92473a6..aa7d52c 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -417,11 +417,11 @@ def curl(f: Callable[..., PyTree]) -> Callable[..., PyTree]:
     f : Callable[..., Array]
     """
 
-    def _curl(x, *args):
+    def _curl(x, *args, **kwargs):
         if x.shape[0] == 2:
-            return curl2d(f)(x, *args)
+            return curl2d(f)(x, *args, **kwargs)
         elif x.shape[0] == 3:
-            return curl3d(f)(x, *args)
+            return curl3d(f)(x, *args, **kwargs)
         else:
             raise ValueError("Dimension must be 2 or 3.")
 
@@ -429,12 +429,12 @@ def curl(f: Callable[..., PyTree]) -> Callable[..., PyTree]:
 
 
 def curl3d(f):
-    def _f(x, *args):
-        def h(x, *args):
-            v = f(x, *args)
+    def _f(x, *args, **kwargs):
+        def h(x):
+            v = f(x, *args, **kwargs)
             return v, v
 
-        J, v = jacfwd(h, 0, has_aux=True)(x, *args)
+        J, v = jacfwd(h, 0, has_aux=True)(x)
         assert is_3d(v), "Function must have 3d output"
 
         def _curl(J):
@@ -450,12 +450,12 @@ def curl3d(f):
 
 
 def curl2d(f):
-    def _f(x, *args):
-        def h(x, *args):
-            v = f(x, *args)
+    def _f(x, *args, **kwargs):
+        def h(x):
+            v = f(x, *args, **kwargs)
             return v, v
 
-        J, v = jacfwd(h, 0, has_aux=True)(x, *args)
+        J, v = jacfwd(h, 0, has_aux=True)(x)
         assert is_2d(v), "Function must have 2d output"
 
         def _curl(J):
@@ -464,7 +464,7 @@ def curl2d(f):
 
         return tree_map(_curl, J)
 
-    return jit(_f)
+    return _f
 
 
 def is_2d(*args) -> bool:
-- 
2.43.0


From c5f6796b2a42c57e74abf84e39d615a445e59002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 23/31] fix: trust region steps into points where the objective
 is undefined shrink the radius

The reduction ratio was NaN there, so that the step was rejected without
changing the radius and the same step was tried until maxiter.
---
 magpi/tr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/magpi/tr.py b/magpi/tr.py
index 76037c9..31224ee 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -161,7 +161,8 @@ class TR(jaxopt_base.IterativeSolver):
             )
             nom = old_value - value
             denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))
-            rho = (nom) / (denom)
+            # a trial point where the objective is undefined is a failed step
+            rho = jnp.where(jnp.isnan(value), -jnp.inf, nom / denom)
             tr_radius = update_tr_radius(
                 state.tr_radius,
                 self.max_tr_radius,
-- 
2.43.0


From 88574ecf8bba31edf0fac1f6fd49fdb08c736b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:17 +0000
Subject: [PATCH 24/31] fix: trust region steps without predicted reduction are
 rejected

---
 magpi/tr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/magpi/tr.py b/magpi/tr.py
index 31224ee..2cc40e7 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -161,8 +161,11 @@ class TR(jaxopt_base.IterativeSolver):
             )
             nom = old_value - value
             denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))
-            # a trial point where the objective is undefined is a failed step
-            rho = jnp.where(jnp.isnan(value), -jnp.inf, nom / denom)
+            # a trial point where the objective is undefined is a failed step, and
+            # so is a step without predicted reduction (inexact products): there
+            # the ratio of two increases would count as success
+            failed = jnp.isnan(value) | (denom < 0)
+            rho = jnp.where(failed, -jnp.inf, nom / denom)
             tr_radius = update_tr_radius(
                 state.tr_radius,
                 self.max_tr_radius,
-- 
2.43.0


From 8486563f1db1f246d7872e1786a85a7361fb91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:32 +0000
Subject: [PATCH 25/31] fix: linear maps and parallelograms with integer
 coordinates

---
 magpi/domain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpi/domain.py b/magpi/domain.py
index 9ce87f3..8fbe8d3 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -107,6 +107,7 @@ class Parallelogram:
 
 def linear_map(X_ref: Array, X: Array) -> Array:
     assert X_ref.shape[0] == X.shape[0]
+    X_ref, X = X_ref * 1.0, X * 1.0
     B = solve_lu(lambda x: X_ref @ x, X)
     return B.T
 
-- 
2.43.0


From d3165ca973e8086b6670509a1abc8af9d18c4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:42 +0000
Subject: [PATCH 26/31] fix: overflow in domains with large integer parameters

---
 magpi/domain.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 8fbe8d3..13b7a9f 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -35,7 +35,7 @@ class Hypercube:
 
     def support(self) -> Array:
         lb, ub = array((self.lb, self.ub))
-        return prod(ub - lb)
+        return prod((ub - lb) * 1.0)
 
     def includes(self, sample: Array) -> Array:
         lb, ub = array((self.lb, self.ub))
@@ -88,7 +88,7 @@ class Parallelogram:
 
     def support(self) -> Array:
         a, b, c = array(self.a), array(self.b), array(self.c)
-        d = stack([b - a, c - a])
+        d = stack([b - a, c - a]) * 1.0
         return sqrt(jnp.linalg.det(d @ d.T))
 
     def transform(self, samples: Array) -> Array:
@@ -149,7 +149,7 @@ class Sphere(_Spherical):
         assert len(array(self.origin).shape) == 1, "Origin must be `tuple[float]`."
 
     def support(self):
-        return 4 / 3 * array(self.radius) ** 3 * pi
+        return 4 / 3 * (array(self.radius) * 1.0) ** 3 * pi
 
     def transform(self, uniform_sample: Array) -> Array:
         r, o = array(self.radius), array(self.origin)
@@ -171,7 +171,7 @@ class Disk(_Spherical):
         assert len(array(self.origin).shape) == 1, "Origin must be `tuple[float]`."
 
     def support(self):
-        return array(self.radius) ** 2 * pi
+        return (array(self.radius) * 1.0) ** 2 * pi
 
     def transform(self, uniform_sample: Array) -> Array:
         r, o = array(self.radius), array(self.origin)
@@ -195,7 +195,7 @@ class Annulus:
         assert len(array(self.origin).shape) == 1, "Origin must be `tuple[float]`."
 
     def support(self):
-        return (array(self.r2) ** 2 - array(self.r1) ** 2) * pi
+        return ((array(self.r2) * 1.0) ** 2 - (array(self.r1) * 1.0) ** 2) * pi
 
     def transform(self, uniform_sample: Array) -> Array:
         r1, r2, o = array(self.r1), array(self.r2), array(self.origin)
@@ -225,7 +225,7 @@ def transform_hypercube_bnd(x: Array, lb: Array, ub: Array) -> Array:
     assert x.shape[-1] == dim - 1, msg
 
     def insert_rules(lb, ub):
-        b = jnp.abs(ub - lb)
+        b = jnp.abs(ub - lb) * 1.0
 
         def support(i):
             return jnp.prod(concatenate([b[:i], b[i + 1 :]]))
@@ -263,6 +263,7 @@ def transform_annulus(x: Array, r1: Array, r2: Array, o: Array) -> Array:
     assert o.shape[-1] == 2
     x = x % 1.0
     theta = 2 * pi * x[..., 0]
+    r1, r2 = r1 * 1.0, r2 * 1.0
     r = sqrt(x[..., 1] * (r2**2 - r1**2) + r1**2)
     x1 = r * cos(theta)
     x2 = r * sin(theta)
-- 
2.43.0


From 8b24e148526039882d9aa14294e6ee921e0be6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 27/31] fix: Simpson's rule on integer nodal points truncated
 the midpoints

---
 magpi/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/integrate.py b/magpi/integrate.py
index 95a3055..baa0923 100644
--- a/magpi/integrate.py
+++ b/magpi/integrate.py
@@ -46,7 +46,7 @@ def simpson(domain: Array) -> tuple[Array, Array]:
     w = w.at[2:-1:2].set(_w[:-1, 2] + _w[1:, 0])
     m = (domain[:-1] + domain[1:]) / 2
     i = jnp.arange(1, len(domain))
-    nodes = jnp.insert(domain, i, m)
+    nodes = jnp.insert(domain * 1.0, i, m)
     return w, nodes
 
 
-- 
2.43.0


From e4aa599573e87fc62877d39c57212d6e707f9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:47 +0000
Subject: [PATCH 28/31] fix: exponential of quaternions with integer components

---
 magpi/quaternions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 2017fb2..e2f49b7 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -167,6 +167,7 @@ def arg(q: Quaternion) -> Scalar:
 
 
 def sgn(v: Array) -> Array:
+    v = v * 1.0
     eps = jnp.finfo(v.dtype).eps
     r = norm(v)
     return lax.cond(
-- 
2.43.0


From 2bcd5c97ff7bf152e937eab957688c147d6b1ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:06 +0000
Subject: [PATCH 29/31] fix: derivatives of quaternion exponential and
 logarithm at real quaternions

---
 magpi/quaternions.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index e2f49b7..bebd727 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -135,9 +135,12 @@ def quanternion_exp(q: Quaternion) -> Quaternion:
     Quaternion
     """
     z = exp(q.real)
-    r = norm(q.imag)
-    a = z * cos(r)
-    p = z * sgn(q.imag) * sin(r)
+    r2 = jnp.sum(q.imag * q.imag)
+    # cos(r) and sin(r) / r are smooth functions of r^2, the root is not
+    small = r2 < _series_limit(r2)
+    r = sqrt(where(small, 1.0, r2))
+    a = z * where(small, 1 - r2 / 2 + r2**2 / 24, cos(r))
+    p = z * where(small, 1 - r2 / 6 + r2**2 / 120, sin(r) / r) * q.imag
     return Quaternion(a, p)
 
 
@@ -154,14 +157,26 @@ def quanternion_log(q: Quaternion) -> Quaternion:
     """
     r = abs(q)
     a = log(r)
-    v = sgn(q.imag * (1 / r))
+    u = q.real * (1 / r)
+    v = q.imag * (1 / r)
+    n2 = jnp.sum(v * v)
+    is_real = n2 == 0.0
+    # angle / n is a smooth function of n^2 next to the positive real axis
+    small = (n2 < _series_limit(n2)) & (u > 0.0)
+    n = sqrt(where(small | is_real, 1.0, n2))
+    w = where(small, u, 1.0)
+    t = n2 / w**2
+    p = v * where(small, (1 - t / 3 + t**2 / 5) / w, jnp.arctan2(n, u) / n)
     # any direction is valid for a negative real quaternion
-    e = zeros_like(v).at[0].set(1.0)
-    v = where((norm(v) == 0.0) & (q.real < 0.0), e, v)
-    p = v * arg(q)
+    e = zeros_like(v).at[0].set(pi)
+    p = where(is_real & (u < 0.0), e, p)
     return Quaternion(a, p)
 
 
+def _series_limit(x: Scalar) -> Scalar:
+    return jnp.sqrt(jnp.finfo(jnp.result_type(x, 1.0)).eps)
+
+
 def arg(q: Quaternion) -> Scalar:
     return jnp.arctan2(norm(q.imag), q.real)
 
-- 
2.43.0


From 0a2b0c138421f3e9dc02987b334be186401d0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 30/31] fix: gradient of bodies of revolution on their axis

---
 magpi/r_fun.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 7ef58ba..0d1e068 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -519,6 +519,12 @@ def project(adf: ADF, normal_vec: Vec, o: Vec = 0.0) -> ADF:
     return translate(proj_op, o)
 
 
+def _radius(r2: Scalar) -> Scalar:
+    # the gradient of the root is not finite on the axis
+    on_axis = r2 == 0
+    return where(on_axis, 0.0, sqrt(where(on_axis, 1.0, r2)))
+
+
 def revolution(adf: ADF, axis: int = 0) -> ADF:
     """Creates the body of revolution from a 2d shape.
 
@@ -532,10 +538,10 @@ def revolution(adf: ADF, axis: int = 0) -> ADF:
     def rev_op(x):
         assert x.shape == (3,), "Revolution only supported in 3d."
         if axis == 0:
-            r = sqrt(x[1] ** 2 + x[2] ** 2)
+            r = _radius(x[1] ** 2 + x[2] ** 2)
             return adf(jnp.stack([x[0], r]))
         elif axis == 1:
-            r = sqrt(x[0] ** 2 + x[2] ** 2)
+            r = _radius(x[0] ** 2 + x[2] ** 2)
             return adf(jnp.stack([r, x[1]]))
         else:
             msg = "`axis` must either be 0 for revolution around x "
-- 
2.43.0


From ccd95cf45f61f075012c5f1ffdb7f168ad6389f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 31/31] fix: rejection sampling did not terminate when rounding
 decided a comparison

---
 magpi/sampling.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/magpi/sampling.py b/magpi/sampling.py
index 652c333..345aec1 100644
--- a/magpi/sampling.py
+++ b/magpi/sampling.py
@@ -30,23 +30,28 @@ def rejection_sampling(
     m : int
     """
 
+    def is_rejected(p, sample):
+        return p >= (pdf(sample) / m)
+
     def draw_sample(key):
         key, samplekey, valkey = random.split(key, 3)
         sample = sample_fn(samplekey)
         p = random.uniform(valkey)
 
         def body(state):
-            key, p, sample = state
+            key, _, _ = state
             key, samplekey, valkey = random.split(key, 3)
             p = random.uniform(valkey)
             sample = sample_fn(samplekey)
-            return key, p, sample
+            return key, is_rejected(p, sample), sample
 
+        # the decision is part of the state: a vectorized loop evaluates its condition
+        # twice and does not terminate if rounding makes the results differ
         def not_valid(state):
-            _, p, sample = state
-            return p >= (pdf(sample) / m)
+            _, rejected, _ = state
+            return rejected
 
-        _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))
+        _, _, sample = lax.while_loop(not_valid, body, (key, is_rejected(p, sample), sample))
         return sample
 
     keys = random.split(key, n)
-- 
2.43.0

