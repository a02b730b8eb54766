From fb877ddb873030aae93db16a46ae4fdfab273cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 01/72] fix: battin1984 groups the denominator of u(B) as in
 equation (55)

---
 src/lamberthub/p_solvers/battin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b0a75a3..67ba104 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -375,7 +375,7 @@ def _u_at_B(B):
     This is equation (55) from the original report [1].
 
     """
-    u = -B / (2 * np.sqrt(1 + B) + 1)
+    u = -B / (2 * (np.sqrt(1 + B) + 1))
     return u
 
 
-- 
2.43.0


From 0928cb2b0de0e5b64cf892585b7c4890e121903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 02/72] fix: battin1984 evaluates the xi continued fraction
 from its first level

---
 src/lamberthub/p_solvers/battin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 67ba104..c2f1950 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -435,7 +435,7 @@ def _xi_at_x(x, levels=125):
         sigma,
         m1,
     ) = (
-        0,
+        1,
         1,
         1,
         1,
@@ -443,7 +443,7 @@ def _xi_at_x(x, levels=125):
 
     while np.abs(u) > 1e-18 and m1 <= levels:
         m1 += 1
-        gamma = (m1 + 3) ** 2 / (4 * (m1 + 3) ** 2 - 1)
+        gamma = (m1 + 2) ** 2 / (4 * (m1 + 2) ** 2 - 1)
         delta = 1 / (1 + gamma * eta * delta)
         u = u * (delta - 1)
         sigma = sigma + u
-- 
2.43.0


From ffcd892f0c4d3ee40aa3a1c45e5255c0ebb3ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 03/72] fix: gauss1809 uses the norm of the final position
 vector in f_dot

---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..b67818d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -153,7 +153,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From 5cf3a40921ce79865b9b5c39d5954848e98a79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 04/72] fix: gauss1809 solves hyperbolic and parabolic
 transfers (cosh instead of cos of the anomaly)

---
 src/lamberthub/p_solvers/gauss.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index b67818d..7a9427d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -129,22 +129,16 @@ def gauss1809(
         raise ValueError("Exceeded maximum number of iterations.")
 
     # Once the value of y has been found, the shape and nature of the orbit can
-    # be determined from the sign of x variable
-    if x > 0:
-        # The orbit is an ellipse, being deltaAnomaly = deltaE
-        deltaAnomaly = 2 * np.arccos(1 - 2 * x)
-    elif x == 0:
-        # The orbit is a parabola
-        pass
-    else:
-        # The orbit is an hyperbola, being deltaAnomaly = deltaF
-        deltaAnomaly = 2 * np.arccosh(1 - 2 * x)
+    # be determined from the sign of the x variable: it is an ellipse if
+    # positive, a parabola if zero and an hyperbola if negative. In all cases
+    # x = (1 - cos(deltaE / 2)) / 2, being deltaE = i * deltaF for hyperbolas.
+    cos_half_anomaly = 1 - 2 * x
 
     # Compute the orbital parameter
     p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
         r1_norm
         + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * np.cos(deltaAnomaly / 2)
+        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * cos_half_anomaly
     )
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
-- 
2.43.0


From e9f37d41a637ad8423aa3ae648fde850e7ffeffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 05/72] fix: gauss1809 rejects converged values which do not
 solve the problem

---
 src/lamberthub/p_solvers/gauss.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 7a9427d..0152396 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -128,6 +128,12 @@ def gauss1809(
     else:
         raise ValueError("Exceeded maximum number of iterations.")
 
+    # The iteration may settle on a value which is not a solution: either because
+    # the truncated series used in Gauss' second equation has not converged or
+    # because y, being the ratio of sector to triangle, has the wrong sign.
+    if not np.abs(x) ** 50 <= rtol or y * np.sin(dtheta) <= 0:
+        raise ValueError("Iteration did not converge to a valid solution.")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of the x variable: it is an ellipse if
     # positive, a parabola if zero and an hyperbola if negative. In all cases
-- 
2.43.0


From 1cb67c872d1b9703d376a2fb2be7bbe28b662c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 06/72] fix: position vector assertions check the final
 position vector too

---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0


From 14773c69e0b7e928cbb62677f8abdaa2639ebd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 07/72] fix: der2011 keeps multi-revolution iterations in the
 requested path region

---
 src/lamberthub/universal_solvers/der.py | 41 +++++++++++++++++++------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 401c1bb..3c62bc0 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -95,8 +95,9 @@ def der2011(
     if M > 0 and tau <= tau_p:
         raise ValueError("No feasible solution, try lower M!")
 
+    x_min = 0.0
     if M > 0:
-        tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
+        x_min, tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
         if tau < tau_min:
             raise ValueError("No feasible solution, try lower M!")
 
@@ -110,6 +111,7 @@ def der2011(
         maxiter,
         atol,
         rtol,
+        x_min,
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
@@ -145,8 +147,13 @@ def _find_path_parameter(
     maxiter,
     atol,
     rtol,
+    x_min,
 ):
-    """Solve for Der's path parameter with the Laguerre method."""
+    """Solve for Der's path parameter with the Laguerre method.
+
+    The minimum time of a multirevolution transfer is attained at ``x_min``,
+    which separates the low path (``x > x_min``) from the high one.
+    """
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
         return 1.0, sigma, 1
 
@@ -159,25 +166,39 @@ def _find_path_parameter(
         x0 = 0.5 if is_low_path else -0.5
 
     if is_elliptic:
-        return _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol)
+        return _solve_elliptic(
+            sigma, tau, M, x0, is_low_path, x_min, maxiter, atol, rtol
+        )
 
     return _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol)
 
 
-def _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic(sigma, tau, M, x0, is_low_path, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation."""
     x, y, numiter, needs_fallback = _solve_elliptic_jit(
         sigma, tau, M, x0, maxiter, atol, rtol
     )
+    # The iteration may leave the path region it started from
+    if M > 0 and (x < x_min if is_low_path else x > x_min):
+        needs_fallback = True
+
     if needs_fallback:
-        return _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol)
+        if M > 0:
+            is_upper_region = is_low_path
+        else:
+            is_upper_region = x0 > 0
+        return _solve_elliptic_bracketed(
+            sigma, tau, M, is_upper_region, x_min, maxiter, atol, rtol
+        )
     return x, y, numiter
 
 
-def _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic_bracketed(
+    sigma, tau, M, is_upper_region, x_split, maxiter, atol, rtol
+):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
-    lower, upper = (-1 + eps, 0.0) if x0 < 0 else (0.0, 1 - eps)
+    lower, upper = (x_split, 1 - eps) if is_upper_region else (-1 + eps, x_split)
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
@@ -440,7 +461,7 @@ def _compute_minimum_energy_time(sigma, M):
 
 
 def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
-    """Compute the normalized minimum time for a multirevolution transfer."""
+    """Compute the path parameter and the normalized time of the fastest transfer."""
 
     def minimum_time_equation(x):
         """Evaluate Der's minimum-time equation."""
@@ -460,7 +481,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         x = 0.1
     else:
         y = _compute_y(sigma, x)
-        return 2 * (1 / x - sigma**3 / y) / 3
+        return x, _tof_elliptic(sigma, x, y, M)
 
     for _ in range(maxiter):
         y = _compute_y(sigma, x)
@@ -468,7 +489,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         dphi = 2 * (1 - x**2) * (1 - sigma**5 * x**3 / y**3) / (3 * x**2)
 
         if np.abs(phi) <= atol + rtol * M * np.pi:
-            return 2 * (1 / x - sigma**3 / y) / 3
+            return x, _tof_elliptic(sigma, x, y, M)
 
         x -= phi / dphi
         x = np.clip(x, 2.220446049250313e-16, 0.999999)
-- 
2.43.0


From 5e8638861ba55707340aea4d51141a5410e453f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 08/72] fix: der2011 derivatives of the elliptic time equation
 for transfers over 180 degrees

---
 src/lamberthub/universal_solvers/der.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 3c62bc0..903cac0 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -324,14 +324,17 @@ def _tof_hyperbolic(sigma, x, y):
 @jit(cache=True, fastmath=True)
 def _tof_elliptic_prime(sigma, x, y, tof):
     """Evaluate the first derivative of Sun's elliptic time equation."""
-    return (3 * x * tof - 2 * (1 - sigma**3 * x / y)) / (1 - x**2)
+    return (3 * x * tof - 2 * (1 - sigma**3 * x / np.abs(y))) / (1 - x**2)
 
 
 @jit(cache=True, fastmath=True)
 def _tof_elliptic_second(sigma, x, y, dtof):
     """Evaluate the second derivative of Sun's elliptic time equation."""
     x_safe = x if x != 0.0 else 2.220446049250313e-16
-    return ((1 + 4 * x_safe**2) * dtof + 2 * (1 - sigma**5 * x_safe**3 / y**3)) / (
+    return (
+        (1 + 4 * x_safe**2) * dtof
+        + 2 * (1 - sigma**5 * x_safe**3 / np.abs(y) ** 3)
+    ) / (
         x_safe * (1 - x_safe**2)
     )
 
@@ -486,7 +489,9 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
     for _ in range(maxiter):
         y = _compute_y(sigma, x)
         phi = minimum_time_equation(x)
-        dphi = 2 * (1 - x**2) * (1 - sigma**5 * x**3 / y**3) / (3 * x**2)
+        dphi = (
+            2 * (1 - x**2) * (1 - sigma**5 * x**3 / np.abs(y) ** 3) / (3 * x**2)
+        )
 
         if np.abs(phi) <= atol + rtol * M * np.pi:
             return x, _tof_elliptic(sigma, x, y, M)
-- 
2.43.0


From c25603abb37a6d471443ac9766fce0966c10f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 09/72] fix: der2011 brackets near-parabolic elliptic transfers
 away from the singular point

---
 src/lamberthub/universal_solvers/der.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 903cac0..356a23d 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -198,13 +198,22 @@ def _solve_elliptic_bracketed(
 ):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
-    lower, upper = (x_split, 1 - eps) if is_upper_region else (-1 + eps, x_split)
+    # The time equation is singular for the parabola, x = 1, and it is only
+    # subject to round-off errors when evaluated that close to it.
+    x_near_parabola = 1 - 1.4901161193847656e-08
+    lower, upper = (
+        (x_split, x_near_parabola) if is_upper_region else (-1 + eps, x_split)
+    )
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
         y = _compute_y(sigma, x)
         return _tof_elliptic(sigma, x, y, M) - tau
 
+    if M == 0 and is_upper_region and elliptic_equation(upper) >= 0:
+        # Elliptic orbit not distinguishable from the parabolic one
+        return upper, _compute_y(sigma, upper), maxiter
+
     try:
         x = brentq(
             elliptic_equation,
-- 
2.43.0


From 67b92aca61ccf1d9372bc569224ac378a15e6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 10/72] fix: mcelreath2025 takes a consistent branch of the
 square root for hyperbolic transfers

---
 src/lamberthub/universal_solvers/mcelreath.py | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index d6f6010..b092593 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -346,6 +346,20 @@ def _tof_at_x(x, r1_norm, r2_norm, m):
     return (2 * u1_star * m + u3).real
 
 
+@jit(cache=True, fastmath=True)
+def _sqrt_alpha(x, denominator):
+    """Evaluate the square root of alpha = 2 * sin(x / 2)**2 / denominator.
+
+    The principal root of alpha can not be used for hyperbolic orbits: alpha is a
+    negative real number, so the branch depends on the sign of an imaginary part
+    which is only made of round-off errors.
+    """
+    sin_half_x = np.sin(0.5 * x)
+    if sin_half_x.real + sin_half_x.imag < 0:
+        sin_half_x = -sin_half_x
+    return sin_half_x * np.sqrt(2 / denominator)
+
+
 @jit(cache=True, fastmath=True)
 def _tof_equation(x, r_norm_sum, m):
     """Evaluate the reference scaled transfer-time function (complex result)."""
@@ -353,7 +367,7 @@ def _tof_equation(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _sqrt_alpha(x, r_norm_sum - 2 * m * u0_star)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1_star = np.sin(0.5 * x) * alpha_sqrt_inv
@@ -368,7 +382,7 @@ def _tof_equation_full(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _sqrt_alpha(x, r_norm_sum - 2 * m * u0_star)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1 = np.sin(x) * alpha_sqrt_inv
@@ -436,7 +450,7 @@ def _alpha_and_universal_values(x, r1_norm, r2_norm, m):
     u0 = np.cos(x)
     u0_star = np.cos(x / 2)
     alpha = (1 - u0) / (r1_norm + r2_norm - 2 * m * u0_star)
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _sqrt_alpha(x, r1_norm + r2_norm - 2 * m * u0_star)
     u1_star = np.sin(x / 2) / alpha_sqrt
     u3 = (x - np.sin(x)) / (alpha * alpha_sqrt)
     return alpha, u1_star, u0_star, u3
-- 
2.43.0


From 0e27d8d2d9fd93202b3974e856109ec93a7cc619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 11/72] fix: mcelreath2025 keeps multi-revolution iterations in
 the requested branch

---
 src/lamberthub/universal_solvers/mcelreath.py | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index b092593..24f4552 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -191,6 +191,10 @@ def _find_multi_revolution_x(
             + two_pi_revs
         )
 
+    # The empirical guess may lie out of the interval for tiny transfer angles
+    if not lo < x_min < hi:
+        x_min = 0.5 * (lo + hi)
+
     x_min, minimum_iterations = _solve_minimum_x(
         np.complex128(x_min), tof, r_norm_sum, m, M, lo, hi, maxiter
     )
@@ -208,6 +212,15 @@ def _find_multi_revolution_x(
         tof, tof_min, x_min, r_norm_sum, m, dtheta, M
     )
     x_0 = np.complex128(g_short if is_low_path else g_long)
+
+    # The location of the minimum separates both branches
+    if is_low_path:
+        hi = x_min
+    else:
+        lo = x_min
+    if not lo < x_0.real < hi:
+        x_0 = np.complex128(0.5 * (lo + hi))
+
     x, desired_iterations = _solve_desired_x(
         x_0, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol
     )
@@ -221,9 +234,9 @@ def _find_multi_revolution_x(
 def _solve_minimum_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter):
     """Solve for the multi-revolution minimum transfer-time location."""
     two_pi_revs = 2 * np.pi * M
-    tolerance = 1e-2
+    tolerance = 1e-8
     for numiter in range(1, maxiter + 1):
-        tof_current, tof_prime, tof_2prime, tof_3prime = _tof_equation_full(
+        _, tof_prime, tof_2prime, tof_3prime = _tof_equation_full(
             x, r_norm_sum, m
         )
         step = (
@@ -234,11 +247,11 @@ def _solve_minimum_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter):
 
         if _outside_bounds(x, lo, hi):
             x = x_old - tof_prime / tof_2prime
+            if _outside_bounds(x, lo, hi):
+                boundary = lo if tof_prime.real > 0 else hi
+                x = x_old + 0.5 * (boundary - x_old)
 
         err = abs((x - x_old) / (x - two_pi_revs + 2 * np.pi))
-        relative_gap = (tof - tof_current.real) / tof
-        if relative_gap < 1e-4:
-            tolerance = 1e-8
         if err < tolerance:
             return x.real, numiter
 
@@ -262,11 +275,13 @@ def _multi_revolution_initial_guesses(tof, tof_min, x_min, r_norm_sum, m, dtheta
 
     b_short = -two_pi * (M + next_revs) * gamma + 1
     c_short = two_pi**2 * M * next_revs * gamma - x_min
-    x_short = (-b_short + np.sqrt(b_short**2 - 4 * gamma * c_short)) / (2 * gamma)
+    disc_short = max(0.0, b_short**2 - 4 * gamma * c_short)
+    x_short = (-b_short + np.sqrt(disc_short)) / (2 * gamma)
 
     b_long = two_pi * (M + next_revs) * gamma + 1
     c_long = -(two_pi**2) * M * next_revs * gamma - x_min
-    x_long = (-b_long + np.sqrt(b_long**2 + 4 * gamma * c_long)) / (-2 * gamma)
+    disc_long = max(0.0, b_long**2 + 4 * gamma * c_long)
+    x_long = (-b_long + np.sqrt(disc_long)) / (-2 * gamma)
 
     return x_short, x_long
 
-- 
2.43.0


From a3e0b32de34b126d2076948e5bbd5e45747ca398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 12/72] fix: negrete2024 contour for hyperbolic transfers
 encloses only the root

The contour ran from the lower bracket to z = 0 and crossed branch cuts and
the point where y vanishes, so that hyperbolic transfers got a wrong root.
---
 src/lamberthub/universal_solvers/negrete.py | 52 +++++++++++++++++----
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc51967..26ee33a 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -264,19 +264,53 @@ def _tof_at_z(z, mu, r1_norm, r2_norm, A):
 
 @jit(cache=True, fastmath=True)
 def _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof):
-    """Build a negative-z contour for hyperbolic single-revolution transfers."""
+    """Build a negative-z contour for hyperbolic single-revolution transfers.
+
+    The time of flight decreases with z from the parabolic one at z = 0. For
+    transfer angles lower than 180 degrees it vanishes at a finite z, where y
+    becomes negative.
+    """
+    z_high = 0.0
     z_low = -1.0
-    success = False
-    for _ in range(64):
+    z_floor = 0.0
+    for _ in range(128):
         y = _y_at_z(np.complex128(z_low), r1_norm, r2_norm, A).real
-        if y > 0.0 and _tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
-            success = True
+        if y > 0.0:
+            if _tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
+                break
+            z_high = z_low
+        else:
+            z_floor = z_low
+        z_low = 2.0 * z_low if z_floor == 0.0 else 0.5 * (z_high + z_floor)
+    else:
+        return 0.0, 0.0, False
+
+    # Locate the root until a circle around it leaves out the point where y vanishes
+    # and the branch cuts of the square roots, whose arguments rotate with the
+    # imaginary part of sqrt(-z)
+    z_left = z_low
+    for _ in range(64):
+        if z_floor < 0.0:
+            z_mid = 0.5 * (z_low + z_floor)
+            if _y_at_z(np.complex128(z_mid), r1_norm, r2_norm, A).real > 0.0:
+                z_low = z_mid
+            else:
+                z_floor = z_mid
+
+        z_mid = 0.5 * (z_left + z_high)
+        if _tof_at_z(z_mid, mu, r1_norm, r2_norm, A) < tof:
+            z_left = z_mid
+        else:
+            z_high = z_mid
+
+        center = 0.5 * (z_left + z_high)
+        radius = min(0.5 * abs(center), np.sqrt(abs(center)))
+        if z_floor < 0.0:
+            radius = min(radius, 0.5 * (center - z_floor))
+        if z_high - z_left < 0.5 * radius:
             break
-        z_low *= 2.0
 
-    center = 0.5 * z_low
-    radius = abs(center) * (1.0 - 1e-6)
-    return center, radius, success
+    return center, radius, True
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From 0144b205060808174438caaffef02a33aa8a1c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 13/72] fix: negrete2024 refines each multi-revolution root
 with a contour which leaves out the other

---
 src/lamberthub/universal_solvers/negrete.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 26ee33a..dc2b799 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -161,11 +161,13 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     if r1r > r2r:
         r1r, r2r = r2r, r1r
 
+    # Keep the refinement contour of each root away from the other root
+    z_mid = 0.5 * (r1r + r2r)
     refined_lo = _refine_single_root(
-        r1r, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        r1r, z_min, z_mid, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
     refined_hi = _refine_single_root(
-        r2r, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        r2r, z_mid, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
     if refined_lo > refined_hi:
         refined_lo, refined_hi = refined_hi, refined_lo
-- 
2.43.0


From 9a9d424905cd753d05153e631a1fb50b28fc1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 14/72] fix: negrete2024 evaluates the Stumpff functions by
 series where the closed forms cancel

---
 src/lamberthub/universal_solvers/negrete.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc2b799..9a6e634 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -339,7 +339,7 @@ def _y_at_z(z, r1_norm, r2_norm, A):
 @jit(cache=True, fastmath=True)
 def _c2(z):
     """Evaluate the second Stumpff function for a complex scalar z."""
-    if abs(z) < 1e-8:
+    if abs(z) < 1.0:
         return _stumpff_series(z, 2)
     return (1.0 - np.cos(np.sqrt(z))) / z
 
@@ -347,7 +347,7 @@ def _c2(z):
 @jit(cache=True, fastmath=True)
 def _c3(z):
     """Evaluate the third Stumpff function for a complex scalar z."""
-    if abs(z) < 1e-8:
+    if abs(z) < 1.0:
         return _stumpff_series(z, 3)
     sqrt_z = np.sqrt(z)
     return (sqrt_z - np.sin(sqrt_z)) / (z * sqrt_z)
-- 
2.43.0


From 8d4e6395dca713bf8075faa4bff198c600cf7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 15/72] fix: negrete2024 raises when the quadrature does not
 attain the time of flight

---
 src/lamberthub/universal_solvers/negrete.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 9a6e634..ae344bb 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -125,9 +125,10 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
         I0 = moments[0]
         I1 = moments[1]
         z = _real_solution(I1 / I0, atol, rtol)
-        return _refine_single_root(
+        z = _refine_single_root(
             z, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
         )
+        return _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)
 
     z_min = (2.0 * M * np.pi) ** 2
     z_max = (2.0 * (M + 1) * np.pi) ** 2
@@ -171,7 +172,8 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     )
     if refined_lo > refined_hi:
         refined_lo, refined_hi = refined_hi, refined_lo
-    return refined_lo if is_low_path else refined_hi
+    z = refined_lo if is_low_path else refined_hi
+    return _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)
 
 
 @jit(cache=True, fastmath=True)
@@ -323,6 +325,16 @@ def _real_solution(z, atol, rtol):
     return z.real
 
 
+@jit(cache=True, fastmath=True)
+def _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol):
+    """Return a root if the quadrature was accurate enough to attain the time."""
+    residual = _tof_at_z(z, mu, r1_norm, r2_norm, A) - tof
+    if _y_at_z(np.complex128(z), r1_norm, r2_norm, A).real > 0.0:
+        if abs(residual) <= (max(atol, 1e-8) + rtol) * tof:
+            return z
+    raise ValueError("Contour integral did not converge to a solution!")
+
+
 @jit(cache=True, fastmath=True)
 def _get_A(r1_norm, r2_norm, dtheta):
     """Compute Vallado's geometry parameter for the transfer angle."""
-- 
2.43.0


From 5a9ce56cc8d86d1a89f7ed873250a6dc5bef85f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 16/72] fix: prograde and retrograde are opposite directions
 for polar transfer planes

For a normal vector without vertical component both of them took the long way,
while izzo2015 and the velocities of thorne2004 assumed the short one for
prograde motion.
---
 src/lamberthub/utils/angles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 3a1318a..103a187 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -51,7 +51,7 @@ def get_transfer_angle(r1, r2, is_prograde):
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-        dtheta = theta0 if alpha > 0 else 2 * np.pi - theta0
+        dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
 
@@ -90,7 +90,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
     if is_prograde is True:
-        i_h = i_h if alpha > 0 else -i_h
+        i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
 
-- 
2.43.0


From c3567aae4b1c7acd1e154e493c62816280f76d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 17/72] fix: avanzini2008 solves transfers within the
 fundamental plane

The line of nodes was the null vector, so that the orbit was always solved as
if the initial position was along the X axis, and the inclination of a
retrograde one was 0 instead of 180 degrees.
---
 src/lamberthub/ecc_solvers/utils.py | 2 +-
 src/lamberthub/utils/angles.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b44ec73..401f0bd 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -512,7 +512,7 @@ def coe_at_eccT(ecc_T, r1, r2, sense):
     inc, raan = get_orbit_inc_and_raan_from_position_vectors(r1, r2, sense)
 
     # Get a vector in the direction of the line of nodes
-    n = np.cross(np.array([0, 0, 1]), i_h)
+    n = np.array([np.cos(raan), np.sin(raan), 0.0])
     px = r1.dot(n)
     py = r1.dot(cross(i_h, n)) / norm(i_h)
     argp = (np.arctan2(py, px) - nu_1) % (2 * np.pi)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 103a187..403b850 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -127,7 +127,7 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     # If the orbit is coplanar with fundamental plane, neither inc or raan are
     # defined. TODO: use atol and rtol instead of pure floating zero comparison
     if i_h[0] == 0 and i_h[1] == 0:
-        inc, raan = 0, 0
+        inc, raan = 0.0 if i_h[2] > 0 else np.pi, 0.0
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-- 
2.43.0


From db14c65a676a531be50d12a28926f6eaa8d35946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 18/72] fix: rv2coe finds the true anomaly of parabolic orbits

The semi-major axis divided by zero for unit eccentricity, and both anomalies
were dominated by rounding errors next to it. The eccentricity vector gives the
true anomaly of any conic.
---
 src/lamberthub/utils/elements.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index a36e43f..f75a5e3 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -20,7 +20,6 @@ import numpy as np
 from numpy import cos, cross, sin, sqrt
 
 from lamberthub.linalg import dot
-from lamberthub.utils.angles import E_to_nu, H_to_nu
 
 
 @jit(cache=True)
@@ -231,7 +230,6 @@ def rv2coe(k, r, v, tol=1e-8):
     h = cross(r, v)
     n = cross(np.array([0.0, 0.0, 1.0]), h)
     r_norm = sqrt(dot(r, r))
-    v_norm = sqrt(dot(v, v))
     h_norm = sqrt(dot(h, h))
     e = ((dot(v, v) - k / r_norm) * r - dot(r, v) * v) / k
     ecc = sqrt(dot(e, e))
@@ -255,17 +253,7 @@ def rv2coe(k, r, v, tol=1e-8):
         argp = 0
         nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
-        a = p / (1 - (ecc**2))
-        ka = k * a
-        if a > 0:
-            e_se = dot(r, v) / sqrt(ka)
-            e_ce = r_norm * dot(v, v) / k - 1
-            nu = E_to_nu(np.arctan2(e_se, e_ce), ecc)
-        else:
-            e_sh = dot(r, v) / sqrt(-ka)
-            e_ch = r_norm * (v_norm**2) / k - 1
-            nu = H_to_nu(np.log((e_ch + e_sh) / (e_ch - e_sh)) / 2, ecc)
-
+        nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
         px = dot(r, n)
         py = dot(r, cross(h, n)) / h_norm
-- 
2.43.0


From e78966f7273ed4f237262eff4bc925f3badc0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 19/72] fix: rv2coe measures the angles of retrograde
 equatorial orbits along the motion

---
 src/lamberthub/utils/elements.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index f75a5e3..baa49db 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -237,11 +237,12 @@ def rv2coe(k, r, v, tol=1e-8):
     inc = np.arccos(h[2] / h_norm)
 
     circular = ecc < tol
-    equatorial = abs(inc) < tol
+    equatorial = inc < tol or np.pi - inc < tol
+    sense = np.sign(h[2])  # Negative for retrograde equatorial orbits
 
     if equatorial and not circular:
         raan = 0
-        argp = np.arctan2(e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
+        argp = np.arctan2(sense * e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
     elif not equatorial and circular:
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
@@ -251,7 +252,7 @@ def rv2coe(k, r, v, tol=1e-8):
     elif equatorial and circular:
         raan = 0
         argp = 0
-        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
+        nu = np.arctan2(sense * r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
-- 
2.43.0


From 3d4a553c1511cb3daf80b36317bc3606fe381294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 20/72] fix: izzo2015 evaluates the time of flight at each
 iterate when looking for its minimum

Halley's iterations kept the time of the initial guess, so that feasible
multi-revolution transfers close to the minimum time were rejected.
---
 src/lamberthub/universal_solvers/izzo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..1ae165f 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -248,8 +248,7 @@ def _compute_T_min(ll, M, maxiter, atol, rtol):
         else:
             # Set x_i > 0 to avoid problems at ll = -1
             x_i = 0.1
-            T_i = _tof_equation(x_i, 0.0, ll, M)
-            x_T_min = _halley(x_i, T_i, ll, atol, rtol, maxiter)
+            x_T_min = _halley(x_i, ll, M, atol, rtol, maxiter)
             T_min = _tof_equation(x_T_min, 0.0, ll, M)
 
     return [x_T_min, T_min]
@@ -295,7 +294,7 @@ def _initial_guess(T, ll, M, is_low_path):
 
 
 @jit(cache=True, fastmath=True)
-def _halley(p0, T0, ll, atol, rtol, maxiter):
+def _halley(p0, ll, M, atol, rtol, maxiter):
     """Find a minimum of time of flight equation using the Halley method.
 
     Note
@@ -306,11 +305,12 @@ def _halley(p0, T0, ll, atol, rtol, maxiter):
     """
     for _ in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
-        fder = _tof_equation_p(p0, y, T0, ll)
-        fder2 = _tof_equation_p2(p0, y, T0, fder, ll)
+        T = _tof_equation_y(p0, y, 0.0, ll, M)
+        fder = _tof_equation_p(p0, y, T, ll)
+        fder2 = _tof_equation_p2(p0, y, T, fder, ll)
         if fder2 == 0:
             raise RuntimeError("Derivative was zero")
-        fder3 = _tof_equation_p3(p0, y, T0, fder, fder2, ll)
+        fder3 = _tof_equation_p3(p0, y, T, fder, fder2, ll)
 
         # Halley step (cubic)
         p = p0 - 2 * fder * fder2 / (2 * fder2**2 - fder * fder3)
-- 
2.43.0


From 0e7806cda22425936e89ddb258db0434598fc1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 21/72] fix: izzo2015 validates its input and accepts
 full_output as the rest of solvers

---
 src/lamberthub/universal_solvers/izzo.py | 45 +++++++++++++++++++-----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 1ae165f..0bfc13d 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,13 +1,20 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
+from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -19,6 +26,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -43,6 +51,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations and time per iteration are also returned.
 
     Returns
     -------
@@ -50,8 +60,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -80,8 +92,23 @@ def izzo2015(
 
     """
     # Check that input parameters are safe
-    # assert_parameters_are_valid(mu, r1, r2, tof, M)
+    assert_parameters_are_valid(mu, r1, r2, tof, M)
+    dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
+
+    tic = time.perf_counter() if full_output else 0.0
+    v1, v2, numiter = _solve(
+        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+    )
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+
+    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
+
+@jit(cache=True, fastmath=True)
+def _solve(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+    """Solve for the velocity vectors and the number of iterations."""
     # Chord
     c = r2 - r1
     c_norm, r1_norm, r2_norm = norm(c), norm(r1), norm(r2)
@@ -112,7 +139,7 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -126,7 +153,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return v1, v2, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -163,10 +190,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -332,7 +359,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -347,7 +374,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 54bb8eebcada95c1bf1c60771eabb42b7e74cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 22/72] fix: position vectors collinear up to rounding errors
 have a transfer angle of 0 or 180 degrees

Their cross product is just noise, so that the transfer plane was arbitrary.
---
 src/lamberthub/utils/angles.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 403b850..bbdbe82 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -8,6 +8,9 @@ from lamberthub.linalg import cross, dot, norm
 K_AXIS = np.array([0.0, 0.0, 1.0])
 """Unitary vector along the Z-axis of the fundamental plane."""
 
+COLLINEAR_TOL = 1e-15
+"""Sine of the angle between two vectors considered to be collinear ones."""
+
 
 @jit(cache=True, fastmath=True)
 def get_transfer_angle(r1, r2, is_prograde):
@@ -31,11 +34,11 @@ def get_transfer_angle(r1, r2, is_prograde):
         Transfer angle in radians.
 
     """
-    # Check if both position vectors are collinear. If so, check if the transfer
-    # angle is 0 or pi.
+    # Check if both position vectors are collinear up to rounding errors, that is,
+    # if these do not define a plane. If so, check if the transfer angle is 0 or pi.
     cross_r1r2 = cross(r1, r2)
-    if np.all(cross_r1r2 == 0):
-        return 0 if np.all(np.sign(r1) == np.sign(r2)) else np.pi
+    if norm(cross_r1r2) <= COLLINEAR_TOL * norm(r1) * norm(r2):
+        return 0.0 if dot(r1, r2) > 0 else np.pi
 
     # Solve for a unitary vector normal to the vector plane. Its direction and
     # sense the one given by the cross product (right-hand) from r1 to r2.
-- 
2.43.0


From 762e87d3475fab16479db4950112f6627b2ebc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 23/72] fix: transfer angle between nearly collinear vectors is
 not a nan nor loses precision

The cosine may round to a value greater than one, and it does not change with
angles lower than 1e-8.
---
 src/lamberthub/utils/angles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index bbdbe82..02bd10f 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -48,9 +48,7 @@ def get_transfer_angle(r1, r2, is_prograde):
     alpha = dot(K_AXIS, h)
 
     # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2.
-    r1_norm = norm(r1)
-    r2_norm = norm(r2)
-    theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
+    theta0 = np.arctan2(norm(cross_r1r2), dot(r1, r2))
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-- 
2.43.0


From 5bc2968af879726efeafdb3b41593371324d3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 24/72] fix: solvers which cannot deal with collinear position
 vectors reject them

gooding1990, battin1984, arora2013, thorne2004, delatorre2018 returned nan or
arbitrary velocities when the transfer plane is not defined.
---
 src/lamberthub/ecc_solvers/utils.py         | 6 +++++-
 src/lamberthub/p_solvers/battin.py          | 6 +++++-
 src/lamberthub/regularization/delatorre.py  | 8 +++++++-
 src/lamberthub/series_solvers/thorne.py     | 8 +++++++-
 src/lamberthub/universal_solvers/arora.py   | 2 ++
 src/lamberthub/universal_solvers/gooding.py | 2 ++
 6 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 401f0bd..a47f619 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -26,7 +26,10 @@ from lamberthub.utils.angles import (
     get_orbit_normal_vector,
     get_transfer_angle,
 )
-from lamberthub.utils.assertions import assert_transfer_angle_not_zero
+from lamberthub.utils.assertions import (
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.kepler import kepler_from_nu
 
 
@@ -63,6 +66,7 @@ def get_geometry(r1, r2, is_prograde):
     # Compute angles
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index c2f1950..3d15afa 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,7 +6,10 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+)
 
 
 def battin1984(
@@ -90,6 +93,7 @@ def battin1984(
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Compute the auxiliary lambda parameter. The variable _lambda is used here
     # as lambda is a reserved keyword in Python for declaring inline functions.
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f176ad6..bf774e3 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,7 +6,11 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def delatorre2018(
@@ -78,6 +82,8 @@ def delatorre2018(
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index daa81ec..4aafc23 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,7 +8,11 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def thorne2004(
@@ -97,6 +101,8 @@ def thorne2004(
 
     # Compute the cosine of the transfer angle and check
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Thorne uses the upper sign for transfers greater than 180 degrees and the
     # lower sign for transfers lower than 180 degrees in equations (1)-(5).
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 447ef50..96c6fa3 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -10,6 +10,7 @@ from scipy.optimize import brentq, minimize_scalar
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -93,6 +94,7 @@ def arora2013(
     # Compute the transfer angle and the transfer angle parameter
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     d = 1 if dtheta <= np.pi else -1
 
     # Compute the characteristic length and time variables
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5d5a76a..c8d39a9 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -9,6 +9,7 @@ from numpy.linalg import norm
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -105,6 +106,7 @@ def gooding1990(
     # exception its value is found to be the zero.
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
+    assert_transfer_angle_not_pi(theta)
 
     # Include additional revolutions if necessary.
     dtheta = 2.0 * np.pi * M + theta
-- 
2.43.0


From b44b7db2e2a23973a4b78c9e20c9697ec8694031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 25/72] fix: gauss1809, battin1984 and vallado2013 reject
 multi-revolution problems

They returned the direct transfer instead, silently.
---
 src/lamberthub/p_solvers/battin.py          | 6 ++++++
 src/lamberthub/p_solvers/gauss.py           | 6 ++++++
 src/lamberthub/universal_solvers/vallado.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 3d15afa..ca27517 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -86,6 +86,12 @@ def battin1984(
     Technology).
 
     """
+    # Check proper value of multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Battin is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 0152396..092aa1a 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -86,6 +86,12 @@ def gauss1809(
     Fundamentals of astrodynamics. Courier Dover Publications.
 
     """
+    # Check proper value of multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Gauss is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 344f24f..14b9625 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -86,6 +86,12 @@ def vallado2013(
     (Vol. 12). Springer Science & Business Media.
 
     """
+    # Check proper value of multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Vallado is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
-- 
2.43.0


From 1f80e230cd55f3c0833db490d1f81357b284ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 26/72] fix: arora2013 approaches the limit of hyperbolic
 transfers by bisection instead of sitting on it

---
 src/lamberthub/universal_solvers/arora.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 96c6fa3..7a9f9b2 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -306,8 +306,8 @@ def arora2013(
         if k > np.sqrt(2) and tof > tof_p:
             k = np.sqrt(2) - 1e-12
 
-        if tof < tof_p and d > 0 and (1 - tau * k) < 0:
-            k = 1 / tau - 1e-12
+        if tof < tof_p and d > 0 and (1 - tau * k) <= 0:
+            k = (k - deltak + 1 / tau) / 2
 
     if not converged:
         raise RuntimeError("Failed to converge")
-- 
2.43.0


From 854d651189296e195498e3d786d39f6934a69841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 27/72] fix: gooding1990 raises when it does not converge and
 accepts the minimum time of flight

---
 src/lamberthub/universal_solvers/gooding.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index c8d39a9..9c935f2 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -450,9 +450,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # desired range
             if np.abs(xmold - xm) < rtol * np.abs(xmold) + atol:
                 break
-
-        # Check last
-        if (numiter + 1) == maxiter:
+        else:
             raise ValueError("Exceeded max iterations!")
 
         # Now proceed from T(min) to full starter
@@ -466,7 +464,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # Found minimum time condition
             x = xm
             n = 1
-            return n, x, None, numiter
+            return n, x, xpl, numiter, 0.0
 
         else:
             n = 3
@@ -553,7 +551,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
 def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
     """Run the Halley iteration for the independent variable in Gooding's method.
 
-    Returns (x, numiter) once convergence is reached or maxiter is exhausted.
+    Returns (x, numiter) once convergence is reached.
     """
     xold = x
     for numiter in range(1, maxiter + 1):
@@ -564,11 +562,12 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             xold = x
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
-        x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and x_rtol <= rtol:
+        # The relative tolerance can not be attained by values close to x = 0
+        x_atol = np.abs(x - xold)
+        if x_atol <= atol and x_atol <= rtol * max(np.abs(xold), 1.0):
             return x, numiter
 
-    return x, maxiter
+    raise RuntimeError("Exceeded maximum number of iterations!")
 
 
 def vlamb(
-- 
2.43.0


From 69b8d1e70cee6340b4f60aac9bb346588939a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 28/72] fix: inclination from position vectors does not lose
 precision for nearly equatorial planes

---
 src/lamberthub/utils/angles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 02bd10f..88e1542 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -132,7 +132,7 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-        inc = np.arccos(i_h[2] / norm(i_h))
+        inc = np.arctan2(np.sqrt(i_h[0] ** 2 + i_h[1] ** 2), i_h[2])
 
         # Compute the RAAN using a vector in the direction and sense of the line
         # of nodes. Because RAAN is bounded between [0, 2pi], the arctan2
-- 
2.43.0


From 7d604df197135454f43db0c0f1d5d1bf86fc3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 29/72] fix: benchmark report writes backslashes verbatim

---
 scripts/generate_benchmark_report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 73523d4..9dad410 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -271,7 +271,8 @@ def update_readme(readme_path, section):
             rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
             flags=re.DOTALL,
         )
-        updated = pattern.sub(generated_content, content)
+        # A function keeps any backslash in the content from being an escape sequence
+        updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-- 
2.43.0


From 3bbbe23eb6f4614b3ead506ea9c2f8db46fae97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 30/72] fix: pan2016 time of flight of parabolas, which do not
 hide nearly rectilinear hyperbolas

---
 src/lamberthub/p_solvers/pan.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 42a1b4a..cee07df 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -295,7 +295,8 @@ def _tof_from_elements(mu, theta, elements):
             raise ValueError("Invalid elliptic semi-major axis.")
         return _elliptic_tof(mu, semi_major_axis, eccentricity, f1, f2)
 
-    if np.isclose(eccentricity, 1.0):
+    # The default relative tolerance is too wide for nearly rectilinear hyperbolas
+    if np.isclose(eccentricity, 1.0, rtol=0.0):
         p = semi_major_axis * (1 - eccentricity**2)
         return _parabolic_tof(mu, p, f1, f2)
 
@@ -331,7 +332,9 @@ def _parabolic_tof(mu, semi_latus_rectum, f1, f2):
     if semi_latus_rectum <= 0:
         raise ValueError("Invalid parabolic semi-latus rectum.")
     D1, D2 = np.tan(f1 / 2), np.tan(f2 / 2)
-    return np.sqrt(semi_latus_rectum**3 / (2 * mu)) * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
+    if D2 <= D1:
+        raise ValueError("Invalid parabolic transfer direction.")
+    return np.sqrt(semi_latus_rectum**3 / mu) / 2 * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
 
 
 def _true_to_eccentric_anomaly(true_anomaly, eccentricity):
-- 
2.43.0


From 4faded4dc340d1c7c15e0a1b404ecd13c8b98a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 31/72] fix: delatorre2018 evaluates the Stumpff functions by
 series where the closed forms cancel

---
 src/lamberthub/regularization/delatorre.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index bf774e3..b87556f 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -264,19 +264,19 @@ def _stumpff1(z):
 
 def _stumpff2(z):
     """Evaluate the second Stumpff function."""
-    if z > 1e-8:
+    if z > 1:
         return (1 - np.cos(np.sqrt(z))) / z
-    if z < -1e-8:
+    if z < -1:
         return (np.cosh(np.sqrt(-z)) - 1) / (-z)
     return _stumpff(2, z)
 
 
 def _stumpff3(z):
     """Evaluate the third Stumpff function."""
-    if z > 1e-8:
+    if z > 1:
         sqrt_z = np.sqrt(z)
         return (sqrt_z - np.sin(sqrt_z)) / (z * sqrt_z)
-    if z < -1e-8:
+    if z < -1:
         sqrt_neg_z = np.sqrt(-z)
         return (np.sinh(sqrt_neg_z) - sqrt_neg_z) / (-z * sqrt_neg_z)
     return _stumpff(3, z)
-- 
2.43.0


From 62c0b82f7b6ea54edf51a92ab084fc02778897ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 32/72] fix: der2011 dependent variable of parabolic transfers

---
 src/lamberthub/universal_solvers/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 356a23d..1dd63c4 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -155,7 +155,7 @@ def _find_path_parameter(
     which separates the low path (``x > x_min``) from the high one.
     """
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
-        return 1.0, sigma, 1
+        return 1.0, _compute_y(sigma, 1.0), 1
 
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
-- 
2.43.0


From 480f299c28e8816aaa532976a6804927500304cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 33/72] fix: izzo2015 derivatives of the time of flight for
 parabolic transfers

---
 src/lamberthub/universal_solvers/izzo.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0bfc13d..fb3d37c 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -14,6 +14,9 @@ from lamberthub.utils.assertions import (
     assert_transfer_angle_not_zero,
 )
 
+PARABOLIC_TOL = 1e-7
+"""Distance to x = 1 below which the derivatives take their parabolic limit."""
+
 
 def izzo2015(
     mu,
@@ -247,18 +250,24 @@ def _tof_equation_y(x, y, T0, ll, M):
 @jit(cache=True, fastmath=True)
 def _tof_equation_p(x, y, T, ll):
     """First derivative of Izzo's time-of-flight equation."""
+    if np.abs(1 - x) < PARABOLIC_TOL:
+        return 2 / 5 * (ll**5 - 1)
     return (3 * T * x - 2 + 2 * ll**3 * x / y) / (1 - x**2)
 
 
 @jit(cache=True, fastmath=True)
 def _tof_equation_p2(x, y, T, dT, ll):
     """Second derivative of Izzo's time-of-flight equation."""
+    if np.abs(1 - x) < PARABOLIC_TOL:
+        return (6 * (1 - ll**2) * ll**5 - 8 * dT) / 7
     return (3 * T + 5 * x * dT + 2 * (1 - ll**2) * ll**3 / y**3) / (1 - x**2)
 
 
 @jit(cache=True, fastmath=True)
 def _tof_equation_p3(x, y, _, dT, ddT, ll):
     """Third derivative of Izzo's time-of-flight equation."""
+    if np.abs(1 - x) < PARABOLIC_TOL:
+        return (2 * (1 - ll**2) * ll**5 * (1 - 5 * ll**2) - 5 * ddT) / 3
     return (7 * x * ddT + 8 * dT - 6 * (1 - ll**2) * ll**5 * x / y**5) / (1 - x**2)
 
 
-- 
2.43.0


From 33ec781adae0c98cd016d2dc06ed4ac358293b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 34/72] fix: mcelreath2025 does not divide by zero for
 parabolic transfers

---
 src/lamberthub/universal_solvers/mcelreath.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 24f4552..f7f6bc1 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -96,9 +96,7 @@ def mcelreath2025(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    _, _, u0_star, _ = _alpha_and_universal_values(
-        np.complex128(x), r1_norm, r2_norm, m
-    )
+    u0_star = np.cos(0.5 * np.complex128(x))
     p = (
         r1_norm
         * r2_norm
-- 
2.43.0


From 8387203335c399ff0e831d75cb06ca19bf8a40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 35/72] fix: negrete2024 solves nearly parabolic transfers with
 a contour around z = 0

---
 src/lamberthub/universal_solvers/negrete.py | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index ae344bb..6e377ec 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -108,6 +108,19 @@ def negrete2024(
 def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     """Find the universal anomaly root from contour-integral moments."""
     if M == 0:
+        # Nearly parabolic orbits require a contour which encloses z = 0
+        radius = _parabolic_radius(r1_norm, r2_norm, A)
+        if (
+            _tof_at_z(-0.1 * radius, mu, r1_norm, r2_norm, A)
+            < tof
+            < _tof_at_z(0.1 * radius, mu, r1_norm, r2_norm, A)
+        ):
+            moments = _contour_integrals(
+                0.0, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
+            )
+            z = _real_solution(moments[1] / moments[0], atol, rtol)
+            return _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)
+
         tp = _tof_at_z(0.0, mu, r1_norm, r2_norm, A)
         if tof < tp:
             center, radius, ok = _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof)
@@ -266,6 +279,17 @@ def _tof_at_z(z, mu, r1_norm, r2_norm, A):
     return ((chi**3 * _c3(zc) + A * np.sqrt(y)) / np.sqrt(mu)).real
 
 
+@jit(cache=True, fastmath=True)
+def _parabolic_radius(r1_norm, r2_norm, A):
+    """Find the radius of a contour around z = 0 far from the point where y vanishes."""
+    radius = 1.0
+    for _ in range(128):
+        if _y_at_z(np.complex128(-2.0 * radius), r1_norm, r2_norm, A).real > 0.0:
+            break
+        radius *= 0.5
+    return radius
+
+
 @jit(cache=True, fastmath=True)
 def _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof):
     """Build a negative-z contour for hyperbolic single-revolution transfers.
-- 
2.43.0


From 6b694264e9845473deccd73dc72e5c0fe06288fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 36/72] fix: pan2016 converges on the time of flight, not on
 the length of the last step

---
 src/lamberthub/p_solvers/pan.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index cee07df..0f81d6b 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -217,7 +217,6 @@ def _safe_tof_residual(mu, geometry, omega, tof):
 
 def _bezier_root(function, lower, upper, maxiter, atol, rtol):
     """Solve a monotonic scalar equation with non-rational Bézier updates."""
-    previous = upper
     f_lower, f_upper = function(lower), function(upper)
 
     for numiter in range(1, maxiter + 1):
@@ -225,18 +224,17 @@ def _bezier_root(function, lower, upper, maxiter, atol, rtol):
         root = np.clip(root, lower, upper)
         f_root = function(root)
 
-        if np.abs(f_root) <= atol or np.abs(root - previous) <= atol + rtol * np.abs(
-            root
-        ):
+        # A short step does not mean being close to the root, as the time of flight
+        # may change abruptly with the argument of periapsis
+        if np.abs(f_root) <= atol:
             return root, numiter
 
-        previous = root
         if f_lower * f_root <= 0:
             upper, f_upper = root, f_root
         else:
             lower, f_lower = root, f_root
 
-    root = brentq(function, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter)
+    root = brentq(function, lower, upper, xtol=np.finfo(float).eps, maxiter=maxiter)
     return root, maxiter
 
 
-- 
2.43.0


From ec8c3d238b9ba46d3df74f247dd59fed450eae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 37/72] fix: avanzini2008 does not take a flat secant for a
 solution

---
 src/lamberthub/ecc_solvers/avanzini.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 23dda8e..82f8c70 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -210,7 +210,10 @@ def _secant(f, x0, args, maxiter, atol, rtol):
     f1 = f(x1, *args)
     for i in range(1, maxiter + 1):
         if f1 == f0:
-            return (x1 + x0) * 0.5, i
+            # A flat secant is only a solution if the function vanishes too
+            if abs(f1) <= atol:
+                return (x1 + x0) * 0.5, i
+            break
         x_new = x1 - f1 * (x1 - x0) / (f1 - f0)
         if abs(x_new - x1) <= atol + rtol * abs(x_new):
             return x_new, i
-- 
2.43.0


From af332a5ec13062321b50a1779d1c4cd300d6eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 38/72] fix: mcelreath2025 solves nearly parabolic transfers by
 power series

---
 src/lamberthub/universal_solvers/mcelreath.py | 46 +++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index f7f6bc1..01b864a 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -139,6 +139,10 @@ def _find_single_revolution_x(tof, r_norm_sum, m, dtheta, maxiter, atol, rtol):
     if abs(tof - tof_p) <= atol + rtol * abs(tof_p):
         return np.complex128(0.0), 1
 
+    # The equations below cancel for orbits which are almost a parabola
+    if abs(tof - tof_p) <= 1e-2 * tof_p:
+        return _find_near_parabolic_x(tof, tof_p, r_norm_sum, m, maxiter, rtol)
+
     if tof > tof_p:
         tof_theta = _tof_equation(np.complex128(dtheta), r_norm_sum, m)
         beta = np.sqrt((tof - tof_p) / (tof_theta.real - tof_p))
@@ -166,6 +170,48 @@ def _find_single_revolution_x(tof, r_norm_sum, m, dtheta, maxiter, atol, rtol):
     return _solve_desired_x(x_0, tof, r_norm_sum, m, 0, lo, hi, maxiter, rtol)
 
 
+@jit(cache=True, fastmath=True)
+def _find_near_parabolic_x(tof, tof_p, r_norm_sum, m, maxiter, rtol):
+    """Find the single-revolution root next to x = 0 by solving for x**2."""
+    tolerance = rtol if rtol < 1e-10 else 1e-10
+    d = 0.5 * r_norm_sum - m
+    scale = 8 * d / (abs(m) + 8 * d)
+
+    w_old, f_old = 0.0, tof_p - tof
+    w = 0.1 * scale if f_old < 0 else -0.1 * scale
+    f = _near_parabolic_tof(w, r_norm_sum, m) - tof
+    for numiter in range(1, maxiter + 1):
+        step = -f * (w - w_old) / (f - f_old) if f != f_old else 0.0
+        w_old, f_old = w, f
+        w = w + step
+        if abs(step) <= tolerance * scale:
+            return np.sqrt(np.complex128(w)), numiter
+        f = _near_parabolic_tof(w, r_norm_sum, m) - tof
+
+    raise RuntimeError("Failed to converge")
+
+
+@jit(cache=True, fastmath=True)
+def _near_parabolic_tof(w, r_norm_sum, m):
+    """Evaluate the scaled transfer-time function at w = x**2 by power series."""
+    # Series of sin(x / 2) / (x / 2) and (x - sin(x)) / x**3
+    sinc, term_1 = 1.0, 1.0
+    s3, term_3 = 1 / 6, 1 / 6
+    for k in range(1, 16):
+        term_1 *= -w / 4 / ((2 * k) * (2 * k + 1))
+        term_3 *= -w / ((2 * k + 2) * (2 * k + 3))
+        sinc += term_1
+        s3 += term_3
+
+    # 1 - cos(x / 2) by the sine of the quarter angle, also by its series
+    sinc_4, term_4 = 1.0, 1.0
+    for k in range(1, 16):
+        term_4 *= -w / 16 / ((2 * k) * (2 * k + 1))
+        sinc_4 += term_4
+    d = 0.5 * r_norm_sum - m + m * w / 8 * sinc_4**2
+    return 2 * m * np.sqrt(d) + d**1.5 * 8 * s3 / sinc**3
+
+
 @jit(cache=True, fastmath=True)
 def _find_multi_revolution_x(
     tof, r_norm_sum, m, dtheta, M, is_low_path, maxiter, atol, rtol
-- 
2.43.0


From 2c1d64a59ede2786276f5debb5b7b168fec10b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 39/72] fix: der2011 evaluates the time of flight by series
 next to the parabola

---
 src/lamberthub/universal_solvers/der.py | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 1dd63c4..68dd86c 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -250,6 +250,10 @@ def _solve_hyperbolic_bracketed(sigma, tau, maxiter, atol, rtol):
         y = _compute_y(sigma, x)
         return _tof_hyperbolic(sigma, x, y) - tau
 
+    if hyperbolic_equation(lower) <= 0:
+        # Hyperbolic orbit not distinguishable from the parabolic one
+        return lower, _compute_y(sigma, lower), maxiter
+
     while hyperbolic_equation(upper) > 0:
         upper *= 2
 
@@ -301,9 +305,29 @@ def _acoth_sun(u):
     return -np.arccosh(-u)
 
 
+@jit(cache=True, fastmath=True)
+def _tof_near_parabola(sigma, x, y):
+    """Evaluate Sun's normalized time of flight by Battin's hypergeometric series.
+
+    The closed forms cancel for orbits which are almost a parabola, x = 1.
+    """
+    eta = np.abs(y) - sigma * x
+    u = (1 - sigma - x * eta) / 2
+    series, term = 1.0, 1.0
+    k = 0
+    while np.abs(term) > 1e-17 and k < 100:
+        term *= (3 + k) / (2.5 + k) * u
+        series += term
+        k += 1
+    return (4 * eta**3 * series / 3 + 4 * sigma * eta) / 2
+
+
 @jit(cache=True, fastmath=True)
 def _tof_elliptic(sigma, x, y, M):
     """Evaluate Sun's normalized elliptic time of flight."""
+    if M == 0 and np.abs(x - 1) < 0.1:
+        return _tof_near_parabola(sigma, x, y)
+
     one_minus_x2 = 1 - x**2
     one_minus_y2 = 1 - y**2
     numerator = (
@@ -319,6 +343,9 @@ def _tof_elliptic(sigma, x, y, M):
 @jit(cache=True, fastmath=True)
 def _tof_hyperbolic(sigma, x, y):
     """Evaluate Sun's normalized hyperbolic time of flight."""
+    if np.abs(x - 1) < 0.1:
+        return _tof_near_parabola(sigma, x, y)
+
     x2_minus_one = x**2 - 1
     y2_minus_one = y**2 - 1
     numerator = (
-- 
2.43.0


From 95efcb9f78f63938ef69c7bf26a3f93f15f6e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 40/72] fix: negrete2024 brackets the root when no contour
 isolates it accurately

---
 src/lamberthub/universal_solvers/negrete.py | 144 +++++++++++++++-----
 1 file changed, 111 insertions(+), 33 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 6e377ec..af1b387 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -107,6 +107,19 @@ def negrete2024(
 @jit(cache=True, fastmath=True)
 def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     """Find the universal anomaly root from contour-integral moments."""
+    z, is_real = _find_z_by_contours(
+        mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol
+    )
+    if not (is_real and _is_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)):
+        z = _find_z_by_bisection(mu, r1_norm, r2_norm, A, tof, M, is_low_path)
+    return _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)
+
+
+@jit(cache=True, fastmath=True)
+def _find_z_by_contours(
+    mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol
+):
+    """Find a candidate root and whether it is a real one."""
     if M == 0:
         # Nearly parabolic orbits require a contour which encloses z = 0
         radius = _parabolic_radius(r1_norm, r2_norm, A)
@@ -118,8 +131,8 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
             moments = _contour_integrals(
                 0.0, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
             )
-            z = _real_solution(moments[1] / moments[0], atol, rtol)
-            return _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)
+            z = moments[1] / moments[0]
+            return z.real, _is_real(z, atol, rtol)
 
         tp = _tof_at_z(0.0, mu, r1_norm, r2_norm, A)
         if tof < tp:
@@ -135,13 +148,12 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
         moments = _contour_integrals(
             center, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
         )
-        I0 = moments[0]
-        I1 = moments[1]
-        z = _real_solution(I1 / I0, atol, rtol)
-        z = _refine_single_root(
-            z, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        z = moments[1] / moments[0]
+        if not _is_real(z, atol, rtol):
+            return z.real, False
+        return _refine_single_root(
+            z.real, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
         )
-        return _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)
 
     z_min = (2.0 * M * np.pi) ** 2
     z_max = (2.0 * (M + 1) * np.pi) ** 2
@@ -165,10 +177,8 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     root1 = (-b + sqrt_disc) / (2.0 * a)
     root2 = (-b - sqrt_disc) / (2.0 * a)
 
-    if abs(root1.imag) > atol + rtol * abs(root1.real) or abs(
-        root2.imag
-    ) > atol + rtol * abs(root2.real):
-        raise ValueError("No feasible solution, try lower M!")
+    if not (_is_real(root1, atol, rtol) and _is_real(root2, atol, rtol)):
+        return root1.real, False
 
     r1r = root1.real
     r2r = root2.real
@@ -177,16 +187,70 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
 
     # Keep the refinement contour of each root away from the other root
     z_mid = 0.5 * (r1r + r2r)
-    refined_lo = _refine_single_root(
+    refined_lo, is_real_lo = _refine_single_root(
         r1r, z_min, z_mid, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
-    refined_hi = _refine_single_root(
+    refined_hi, is_real_hi = _refine_single_root(
         r2r, z_mid, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
-    if refined_lo > refined_hi:
-        refined_lo, refined_hi = refined_hi, refined_lo
-    z = refined_lo if is_low_path else refined_hi
-    return _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol)
+    if not (z_min < refined_lo < z_mid < refined_hi < z_max):
+        return z_mid, False
+    if is_low_path:
+        return refined_lo, is_real_lo
+    return refined_hi, is_real_hi
+
+
+@jit(cache=True, fastmath=True)
+def _find_z_by_bisection(mu, r1_norm, r2_norm, A, tof, M, is_low_path):
+    """Find the root along the real axis when no contour isolates it accurately."""
+    if M == 0:
+        z_low, z_high = -1.0, 4.0 * np.pi**2
+        is_increasing = True
+        for _ in range(128):
+            if _real_tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
+                break
+            z_high = z_low
+            z_low = 2.0 * z_low
+    else:
+        z_low = (2.0 * M * np.pi) ** 2
+        z_high = (2.0 * (M + 1) * np.pi) ** 2
+        z_min = _minimum_tof_z(z_low, z_high, mu, r1_norm, r2_norm, A)
+        if tof < _tof_at_z(z_min, mu, r1_norm, r2_norm, A):
+            raise ValueError("No feasible solution, try lower M!")
+        is_increasing = not is_low_path
+        if is_low_path:
+            z_high = z_min
+        else:
+            z_low = z_min
+
+    for _ in range(128):
+        z = 0.5 * (z_low + z_high)
+        is_short = _real_tof_at_z(z, mu, r1_norm, r2_norm, A) < tof
+        if is_short == is_increasing:
+            z_low = z
+        else:
+            z_high = z
+    return 0.5 * (z_low + z_high)
+
+
+@jit(cache=True, fastmath=True)
+def _minimum_tof_z(z_low, z_high, mu, r1_norm, r2_norm, A):
+    """Find the z value of the minimum time of flight by golden-section search."""
+    golden = 0.5 * (np.sqrt(5.0) - 1.0)
+    z_a = z_high - golden * (z_high - z_low)
+    z_b = z_low + golden * (z_high - z_low)
+    tof_a = _tof_at_z(z_a, mu, r1_norm, r2_norm, A)
+    tof_b = _tof_at_z(z_b, mu, r1_norm, r2_norm, A)
+    for _ in range(64):
+        if tof_a < tof_b:
+            z_high, z_b, tof_b = z_b, z_a, tof_a
+            z_a = z_high - golden * (z_high - z_low)
+            tof_a = _tof_at_z(z_a, mu, r1_norm, r2_norm, A)
+        else:
+            z_low, z_a, tof_a = z_a, z_b, tof_b
+            z_b = z_low + golden * (z_high - z_low)
+            tof_b = _tof_at_z(z_b, mu, r1_norm, r2_norm, A)
+    return z_a if tof_a < tof_b else z_b
 
 
 @jit(cache=True, fastmath=True)
@@ -200,10 +264,11 @@ def _refine_single_root(
         moments = _contour_integrals(
             center, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
         )
-        I0 = moments[0]
-        I1 = moments[1]
-        z = _real_solution(I1 / I0, atol, rtol)
-    return z
+        root = moments[1] / moments[0]
+        z = root.real
+        if not _is_real(root, atol, rtol):
+            return z, False
+    return z, True
 
 
 @jit(cache=True, fastmath=True)
@@ -279,6 +344,14 @@ def _tof_at_z(z, mu, r1_norm, r2_norm, A):
     return ((chi**3 * _c3(zc) + A * np.sqrt(y)) / np.sqrt(mu)).real
 
 
+@jit(cache=True, fastmath=True)
+def _real_tof_at_z(z, mu, r1_norm, r2_norm, A):
+    """Evaluate the time of flight at a z value, null where y is not positive."""
+    if _y_at_z(np.complex128(z), r1_norm, r2_norm, A).real <= 0.0:
+        return 0.0
+    return _tof_at_z(z, mu, r1_norm, r2_norm, A)
+
+
 @jit(cache=True, fastmath=True)
 def _parabolic_radius(r1_norm, r2_norm, A):
     """Find the radius of a contour around z = 0 far from the point where y vanishes."""
@@ -342,21 +415,26 @@ def _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof):
 
 
 @jit(cache=True, fastmath=True)
-def _real_solution(z, atol, rtol):
-    """Return a contour root if its imaginary component is negligible."""
-    if abs(z.imag) > atol + rtol * abs(z.real):
-        raise ValueError("Contour integral did not return a real solution!")
-    return z.real
+def _is_real(z, atol, rtol):
+    """Check if the imaginary component of a contour root is negligible."""
+    return abs(z.imag) <= atol + rtol * abs(z.real)
 
 
 @jit(cache=True, fastmath=True)
-def _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol):
-    """Return a root if the quadrature was accurate enough to attain the time."""
+def _is_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol):
+    """Check if the quadrature was accurate enough to attain the time of flight."""
+    if not _y_at_z(np.complex128(z), r1_norm, r2_norm, A).real > 0.0:
+        return False
     residual = _tof_at_z(z, mu, r1_norm, r2_norm, A) - tof
-    if _y_at_z(np.complex128(z), r1_norm, r2_norm, A).real > 0.0:
-        if abs(residual) <= (max(atol, 1e-8) + rtol) * tof:
-            return z
-    raise ValueError("Contour integral did not converge to a solution!")
+    return abs(residual) <= (max(atol, 1e-8) + rtol) * tof
+
+
+@jit(cache=True, fastmath=True)
+def _assert_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol):
+    """Return a root if it attains the time of flight."""
+    if not _is_root(z, mu, r1_norm, r2_norm, A, tof, atol, rtol):
+        raise ValueError("Contour integral did not converge to a solution!")
+    return z
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From a563239fe4591002dbea674011e7e81aaeb0dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 41/72] fix: arora2013 takes the relative tolerance into
 account

---
 src/lamberthub/universal_solvers/arora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 7a9f9b2..f05416c 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -280,7 +280,7 @@ def arora2013(
         tofc = _get_TOF(k, tau, S, W)
 
         # Check computed time of flight matches target one
-        if np.abs(tof - tofc) <= atol:
+        if np.abs(tof - tofc) <= atol + rtol * tof:
             converged = True
             break
 
-- 
2.43.0


From 8829577eff1481c82a7e295c0fbb8334f0477dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 42/72] fix: vallado2013 bisects towards positive y instead of
 a dimensionally wrong formula

---
 src/lamberthub/universal_solvers/vallado.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 14b9625..ef9985d 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -113,14 +113,10 @@ def vallado2013(
         y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
         if A > 0.0:
-            # Readjust xi_low until y > 0.0
+            # Readjust psi_low until y > 0.0
             while y < 0.0:
                 psi_low = psi
-                psi = (
-                    0.8
-                    * (1.0 / c3(psi))
-                    * (1.0 - (r1_norm * r2_norm) * np.sqrt(c2(psi)) / A)
-                )
+                psi = (psi_up + psi_low) / 2
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
         X = _X_at_psi(psi, y)
-- 
2.43.0


From 1ab7d4089116b466366bbfcb6b21ac443c1223c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 43/72] fix: gauss1809 raises ValueError when its iteration
 diverges

---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 092aa1a..5cb998a 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -230,7 +230,7 @@ def _get_w(mu, tof, r1_norm, r2_norm, dtheta):
     return w
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, error_model="numpy")
 def _gauss_first_equation(y, s, w):
     """Evaluates Gauss' first equation.
 
-- 
2.43.0


From aabee91bd5b67f03c52b74e96eda8d62a259a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 44/72] fix: avanzini2008 raises RuntimeError instead of
 ZeroDivisionError where there is no orbit

---
 src/lamberthub/ecc_solvers/avanzini.py | 3 +++
 src/lamberthub/ecc_solvers/utils.py    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 82f8c70..7127296 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -209,6 +209,9 @@ def _secant(f, x0, args, maxiter, atol, rtol):
     x1 = x0 + 1e-4 if x0 >= 0 else x0 - 1e-4
     f1 = f(x1, *args)
     for i in range(1, maxiter + 1):
+        if not np.isfinite(f1):
+            # There is no orbit for this value of the independent variable
+            break
         if f1 == f0:
             # A flat secant is only a solution if the function vanishes too
             if abs(f1) <= atol:
diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index a47f619..aeb5f01 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -245,7 +245,7 @@ def p_at_eccT(ecc_T, r1_norm, r2_norm, c_norm, dtheta, p_F):
     return p
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def a_at_eccT(ecc_T, ecc_F, p):
     """
     Computes the semi-major axis of the transfer orbit.
-- 
2.43.0


From e2b0f4618adc4db0a542743d8ab60efb308b5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 45/72] fix: jiang2016 solves transfers next to the minimum
 energy one

---
 src/lamberthub/p_solvers/jiang.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index f754adc..9e63b49 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -248,7 +248,7 @@ def _elliptic_alpha_beta(a, s, c, theta, long_period):
         Signed elliptic beta angle in radians.
 
     """
-    alpha = 2 * np.arcsin(np.sqrt(s / (2 * a)))
+    alpha = 2 * np.arcsin(np.sqrt(min(s / (2 * a), 1.0)))
     if long_period:
         alpha = 2 * np.pi - alpha
 
@@ -319,12 +319,17 @@ def _find_and_solve_elliptic(
     Combines bracket expansion and the Newton-bisection iteration into a single
     JIT-compiled function, removing all Python closure overhead.
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    # The time of flight changes as the square root of a - a_min next to a_min,
+    # so any margin would leave out transfers close to the minimum energy one.
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
+    # It is the minimum energy transfer up to rounding errors
+    if (long_period and f_lower >= 0) or (not long_period and f_lower <= 0):
+        return lower, 1
+
     while f_lower * f_upper > 0:
         upper *= 2
         f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
@@ -359,8 +364,9 @@ def _find_and_solve_elliptic(
             x_new = (lower + upper) / 2
 
         f_new = _tof_elliptic(mu, x_new, s, c, theta, long_period) - tof
-        if np.abs(f_new) <= atol or (
-            np.abs(x_new - x) <= atol + rtol * np.abs(x_new)
+        margin = max(1 - a_min / x_new, 1.4901161193847656e-08)
+        if np.abs(f_new) <= atol + rtol * tof or (
+            np.abs(x_new - x) <= (atol + rtol * np.abs(x_new)) * margin
             and np.abs(f_new) <= np.abs(f_x)
         ):
             return x_new, numiter
@@ -414,7 +420,7 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
             x_new = (lower + upper) / 2
 
         f_new = _tof_hyperbolic(mu, x_new, s, c, theta) - tof
-        if np.abs(f_new) <= atol or (
+        if np.abs(f_new) <= atol + rtol * tof or (
             np.abs(x_new - x) <= atol + rtol * np.abs(x_new)
             and np.abs(f_new) <= np.abs(f_x)
         ):
@@ -459,8 +465,9 @@ def _get_elliptic_bracket(mu, tof, a_min, s, c, theta, long_period):
     dynamic upper bound so the solver is scale independent.
 
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    # The time of flight changes as the square root of a - a_min next to a_min,
+    # so any margin would leave out transfers close to the minimum energy one.
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     def residual(axis):
-- 
2.43.0


From 43029655e69fa3de0492f8f7ac7b46243099af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 46/72] fix: thorne2004 solves transfers next to the minimum
 energy one

---
 src/lamberthub/series_solvers/thorne.py | 36 ++++++++++++++++---------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 4aafc23..e094c29 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -223,22 +223,32 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         lower = -s / 2
         upper = -np.finfo(float).eps * s
         lower = expand_lower_hyperbolic_bound(mu, s, c, tof, mp, lower)
-    elif tof < t_min:
-        branch = "A"
-        lower = s / 2 * (1 + np.finfo(float).eps)
-        upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
     else:
-        branch = "B"
-        lower = s / 2 * (1 + np.finfo(float).eps)
+        branch = "A" if tof < t_min else "B"
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
-
-    def f(a):
-        """Compute the time-of-flight residual for the semimajor axis."""
-        return lagrange_tof(mu, s, c, a, mp, branch) - tof
-
-    a, r = brentq(
-        f, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter, full_output=True
+        # The time of flight changes as the square root of a - s / 2 next to the
+        # minimum energy transfer, so iterate on that root instead of on a.
+        lower, upper = 0.0, np.sqrt(2 * upper / s - 1)
+
+    def semimajor_axis(z):
+        """Compute the semimajor axis from the iteration variable."""
+        return z if branch == "H" else s / 2 * (1 + z**2)
+
+    def f(z):
+        """Compute the time-of-flight residual for the iteration variable."""
+        return lagrange_tof(mu, s, c, semimajor_axis(z), mp, branch) - tof
+
+    if branch != "H":
+        # It is the minimum energy transfer up to rounding errors
+        f_min = f(0.0)
+        if (branch == "A" and f_min <= 0) or (branch == "B" and f_min >= 0):
+            return s / 2, branch, 1
+
+    xtol = atol if branch == "H" else atol / s
+    z, r = brentq(
+        f, lower, upper, xtol=xtol, rtol=rtol, maxiter=maxiter, full_output=True
     )
+    a = semimajor_axis(z)
     if r.converged is False:
         raise ValueError("Exceeded maximum number of iterations!")
 
-- 
2.43.0


From 9d4b77804a6faf3869b4b6572b2b955a95727d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 47/72] fix: der2011 bracket of direct transfers next to the
 minimum energy one

---
 src/lamberthub/universal_solvers/der.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 68dd86c..9b71a42 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -201,16 +201,20 @@ def _solve_elliptic_bracketed(
     # The time equation is singular for the parabola, x = 1, and it is only
     # subject to round-off errors when evaluated that close to it.
     x_near_parabola = 1 - 1.4901161193847656e-08
-    lower, upper = (
-        (x_split, x_near_parabola) if is_upper_region else (-1 + eps, x_split)
-    )
+    if M == 0:
+        # The time of flight decreases monotonically: there are no path regions
+        lower, upper = -1 + eps, x_near_parabola
+    elif is_upper_region:
+        lower, upper = x_split, x_near_parabola
+    else:
+        lower, upper = -1 + eps, x_split
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
         y = _compute_y(sigma, x)
         return _tof_elliptic(sigma, x, y, M) - tau
 
-    if M == 0 and is_upper_region and elliptic_equation(upper) >= 0:
+    if M == 0 and elliptic_equation(upper) >= 0:
         # Elliptic orbit not distinguishable from the parabolic one
         return upper, _compute_y(sigma, upper), maxiter
 
-- 
2.43.0


From fb3775591c4866f629b91f0dce956acbaf9940d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 48/72] fix: thorne2004 tolerance of elliptic transfers is not
 below rounding errors

---
 src/lamberthub/series_solvers/thorne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index e094c29..f2b29c7 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -244,7 +244,7 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         if (branch == "A" and f_min <= 0) or (branch == "B" and f_min >= 0):
             return s / 2, branch, 1
 
-    xtol = atol if branch == "H" else atol / s
+    xtol = atol if branch == "H" else max(atol / s, np.finfo(float).eps)
     z, r = brentq(
         f, lower, upper, xtol=xtol, rtol=rtol, maxiter=maxiter, full_output=True
     )
-- 
2.43.0


From a6ddd9fa0f7c8602ceadaa50bf5d4e329278548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 49/72] fix: arora2013 rejects multi-revolution problems below
 the parabolic time of flight

---
 src/lamberthub/universal_solvers/arora.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index f05416c..30f865c 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -121,6 +121,10 @@ def arora2013(
     # Compute the parabolic time of flight
     tof_p = S * np.sqrt(1 - np.sqrt(2) * tau) * (tau + np.sqrt(2)) / 3
 
+    # No orbit completes revolutions in less than the parabolic time of flight
+    if M > 0 and tof <= tof_p:
+        raise ValueError("No feasible solution, try lower M!")
+
     # Compare actual and parabolic TOF to generate the initial guess
     if tof <= tof_p:
         # The final orbit is expected to be hyperbolic. The initial guess is
-- 
2.43.0


From 73642cf113e912b3115c988ee76603352024944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 50/72] fix: avanzini2008 evaluates the time of flight by
 series next to the parabola

---
 src/lamberthub/ecc_solvers/utils.py | 35 +++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index aeb5f01..33d0af6 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -370,6 +370,32 @@ def get_true_anomalies(w, dtheta):
     return nu_1, nu_2
 
 
+@jit(cache=True, fastmath=True)
+def _near_parabolic_tof(D, x):
+    """
+    Computes the time since periapsis passage in nearly parabolic orbits, divided
+    by 2 * sqrt(q**3 / (mu * (1 + ecc))), where q is the periapsis radius.
+
+    Parameters
+    ----------
+    D: float
+        Tangent of half the true anomaly.
+    x: float
+        Ratio (1 - ecc) / (1 + ecc). The series converges if abs(x) * D**2 < 1.
+
+    Returns
+    -------
+    t: float
+        Non-dimensional time since periapsis passage.
+
+    """
+    t, term = 0.0, D
+    for k in range(20):
+        t += (k + 1) * term * (1 / (2 * k + 1) + D**2 / (2 * k + 3))
+        term *= -x * D**2
+    return t
+
+
 @jit(cache=True, fastmath=True)
 def kepler_tof_at_eccT(ecc_T, mu, geometry):
     """
@@ -404,6 +430,15 @@ def kepler_tof_at_eccT(ecc_T, mu, geometry):
     w = w_at_eccT(ecc_T, ecc_F, w_c)
     nu_1, nu_2 = get_true_anomalies(w, dtheta)
 
+    # Kepler's equation of elliptic and hyperbolic orbits cancels next to the
+    # parabola, where the time of flight is computed by its power series.
+    D_1, D_2 = np.tan(nu_1 / 2), np.tan(nu_2 / 2)
+    x = (1 - ecc) / (1 + ecc)
+    if D_1 < D_2 and abs(x) * max(D_1**2, D_2**2) < 0.1:
+        return 2 * np.sqrt((p / (1 + ecc)) ** 3 / (mu * (1 + ecc))) * (
+            _near_parabolic_tof(D_2, x) - _near_parabolic_tof(D_1, x)
+        )
+
     # Compute the change in mean motion from corresponding Kepler's
     # equation, that is elliptical, parabolic or hyperbolic.
     M_1, M_2 = [kepler_from_nu(nu, ecc) for nu in [nu_1, nu_2]]
-- 
2.43.0


From 51cafe42fbbde286d065ee54e79c9c3eb40e551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 51/72] fix: arguments which are not finite are rejected

---
 src/lamberthub/utils/assertions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 7cff373..b000f79 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -41,8 +41,8 @@ def assert_gravitational_parameter_is_positive(mu):
     ValueError
 
     """
-    # Check positive gravitational parameter
-    if mu <= 0:
+    # Check positive gravitational parameter, neither nan nor infinite
+    if not (mu > 0 and np.isfinite(mu)):
         raise ValueError("Gravitational parameter must be positive!")
     else:
         return True
@@ -64,6 +64,9 @@ def assert_position_vector_is_valid(r):
     if r.shape != (3,):
         raise ValueError("Vector must be three-dimensional!")
 
+    if not np.all(np.isfinite(r)):
+        raise ValueError("Position vector must have finite components!")
+
     if np.all(r == 0):
         raise ValueError("Position vector cannot be the null vector [0,0,0]!")
 
@@ -109,7 +112,7 @@ def assert_time_of_flight_is_positive(tof):
     ValueError
 
     """
-    if tof <= 0:
+    if not (tof > 0 and np.isfinite(tof)):
         raise ValueError("Time of flight must be positive!")
     else:
         return True
-- 
2.43.0


From 5d9c756232119c350267d0632ee5a176c9e01a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 52/72] fix: flags are told by their truth value, not by being
 the True object

---
 src/lamberthub/ecc_solvers/avanzini.py        | 2 +-
 src/lamberthub/p_solvers/battin.py            | 2 +-
 src/lamberthub/p_solvers/gauss.py             | 2 +-
 src/lamberthub/p_solvers/jiang.py             | 2 +-
 src/lamberthub/p_solvers/pan.py               | 2 +-
 src/lamberthub/regularization/delatorre.py    | 2 +-
 src/lamberthub/series_solvers/thorne.py       | 6 +++---
 src/lamberthub/universal_solvers/arora.py     | 4 ++--
 src/lamberthub/universal_solvers/der.py       | 2 +-
 src/lamberthub/universal_solvers/gooding.py   | 4 ++--
 src/lamberthub/universal_solvers/izzo.py      | 6 +++---
 src/lamberthub/universal_solvers/mcelreath.py | 2 +-
 src/lamberthub/universal_solvers/negrete.py   | 2 +-
 src/lamberthub/universal_solvers/vallado.py   | 2 +-
 src/lamberthub/utils/angles.py                | 4 ++--
 15 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 7127296..4c603a2 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -139,7 +139,7 @@ def avanzini2008(
     # Compute the velocity vectors from the classic orbital elements
     (_, v1), (_, v2) = [coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]]
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index ca27517..3afa51b 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -167,7 +167,7 @@ def battin1984(
     v1 = -r11 * (s11 * (r1 - r2) - t11 * r1 / r1_norm)
     v2 = -r11 * (s11 * (r1 - r2) + t11 * r2 / r2_norm)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 5cb998a..ce294c2 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -167,7 +167,7 @@ def gauss1809(
     v1 = (r2 - f * r1) / g
     v2 = f_dot * r1 + g_dot * v1
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 9e63b49..f75c396 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -122,7 +122,7 @@ def jiang2016(
         tpi = 0.0
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p)
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 0f81d6b..192ace7 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -140,7 +140,7 @@ def pan2016(
     elements = _elements_at_omega(geometry, omega)
     v1, v2 = _reconstruct_velocities(mu, geometry, elements)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_planar_geometry(r1, r2, theta, is_prograde):
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index b87556f..98cd3ab 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -103,7 +103,7 @@ def delatorre2018(
     tac = time.perf_counter()
     tpi = (tac - tic) / numiter
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _find_z(P, Q, mu, tof, M, is_low_path, maxiter, atol, rtol):
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index f2b29c7..75f2553 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -120,7 +120,7 @@ def thorne2004(
     y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
     v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def get_parabolic_tof(mu, s, c, mp):
@@ -320,7 +320,7 @@ def get_lambda(r1, r2, s, c, is_prograde):
     if i_h[2] < 0:
         ll = -ll
 
-    return -ll if is_prograde is False else ll
+    return ll if is_prograde else -ll
 
 
 def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
@@ -337,7 +337,7 @@ def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
     else:
         i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
 
-    if is_prograde is False:
+    if not is_prograde:
         ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
 
     gamma = np.sqrt(mu * s / 2)
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 30f865c..78fadc1 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -329,7 +329,7 @@ def arora2013(
     v1 = (r2_hat - f * r1_hat) / g * (L_ref / T_ref)
     v2 = (g_dot * r2_hat - r1_hat) / g * (L_ref / T_ref)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
@@ -398,7 +398,7 @@ def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
     if abs(tof - tof_min) <= atol:
         return k_min
 
-    lower, upper = (k_min, k_right) if is_low_path is True else (k_left, k_min)
+    lower, upper = (k_min, k_right) if is_low_path else (k_left, k_min)
     return brentq(
         lambda k: tof_at(k) - tof,
         lower,
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 9b71a42..f1adfc3 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -117,7 +117,7 @@ def der2011(
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, c_norm, m, n, x, y)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 9c935f2..f6230f4 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -136,7 +136,7 @@ def gooding1990(
     v1 = vr1 * i_r1 + vt1 * i_t1
     v2 = vr2 * i_r2 + vt2 * i_t2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -661,7 +661,7 @@ def vlamb(
 
     # Filter the solution
     if n_sol > 1:
-        if is_low_path is True:
+        if is_low_path:
             x_sol = np.max([x1_sol, x2_sol])
         else:
             x_sol = np.min([x1_sol, x2_sol])
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index fb3d37c..0aabb47 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -106,7 +106,7 @@ def izzo2015(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -136,7 +136,7 @@ def _solve(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
 
     # Correct transfer angle parameter and tangential vectors regarding orbit's
     # inclination
-    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if is_prograde is False else (ll, i_t1, i_t2)
+    ll, i_t1, i_t2 = (ll, i_t1, i_t2) if is_prograde else (-ll, -i_t1, -i_t2)
 
     # Non dimensional time of flight
     T = np.sqrt(2 * mu / s**3) * tof
@@ -322,7 +322,7 @@ def _initial_guess(T, ll, M, is_low_path):
         # Filter out the solution
         x_0 = (
             np.max(np.array([x_0l, x_0r]))
-            if is_low_path is True
+            if is_low_path
             else np.min(np.array([x_0l, x_0r]))
         )
 
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 01b864a..8acced3 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -115,7 +115,7 @@ def mcelreath2025(
     v1 = v_c * i_c + v_r * i_r1
     v2 = v_c * i_c - v_r * i_r2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index af1b387..de85a69 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -101,7 +101,7 @@ def negrete2024(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index ef9985d..dcc67a2 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -144,7 +144,7 @@ def vallado2013(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 88e1542..d444f5f 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -51,7 +51,7 @@ def get_transfer_angle(r1, r2, is_prograde):
     theta0 = np.arctan2(norm(cross_r1r2), dot(r1, r2))
 
     # Fix the value of theta if necessary
-    if is_prograde is True:
+    if is_prograde:
         dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
@@ -90,7 +90,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
 
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
-    if is_prograde is True:
+    if is_prograde:
         i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
-- 
2.43.0


From ed536e3f2a943894a8e07c87a681c1339b35b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 53/72] fix: parameters are cast to double precision, integer
 and single precision ones overflowed

---
 src/lamberthub/ecc_solvers/avanzini.py        |  2 ++
 src/lamberthub/linalg.py                      |  8 +++--
 src/lamberthub/p_solvers/battin.py            |  2 ++
 src/lamberthub/p_solvers/gauss.py             |  2 ++
 src/lamberthub/p_solvers/jiang.py             |  2 ++
 src/lamberthub/p_solvers/pan.py               |  2 ++
 src/lamberthub/regularization/delatorre.py    |  2 ++
 src/lamberthub/series_solvers/thorne.py       |  2 ++
 src/lamberthub/universal_solvers/arora.py     |  2 ++
 src/lamberthub/universal_solvers/der.py       |  2 ++
 src/lamberthub/universal_solvers/gooding.py   |  2 ++
 src/lamberthub/universal_solvers/izzo.py      |  2 ++
 src/lamberthub/universal_solvers/mcelreath.py |  2 ++
 src/lamberthub/universal_solvers/negrete.py   |  2 ++
 src/lamberthub/universal_solvers/vallado.py   |  2 ++
 src/lamberthub/utils/arguments.py             | 36 +++++++++++++++++++
 16 files changed, 70 insertions(+), 2 deletions(-)
 create mode 100644 src/lamberthub/utils/arguments.py

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 4c603a2..be78431 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -41,6 +41,7 @@ from lamberthub.ecc_solvers.utils import (
     get_fundamental_ellipse_properties,
     get_geometry,
 )
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import assert_parameters_are_valid
 from lamberthub.utils.elements import coe2rv
 
@@ -112,6 +113,7 @@ def avanzini2008(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     # Start by computing an auxiliary set of geometric parameters
     geometry = get_geometry(r1, r2, is_prograde)
diff --git a/src/lamberthub/linalg.py b/src/lamberthub/linalg.py
index 591521d..bd6356f 100644
--- a/src/lamberthub/linalg.py
+++ b/src/lamberthub/linalg.py
@@ -26,7 +26,11 @@ def dot(v1, v2):
     this issue: https://github.com/numba/numba/issues/8676
 
     """
-    return v1[0] * v2[0] + v1[1] * v2[1] + v1[2] * v2[2]
+    return (
+        float(v1[0]) * float(v2[0])
+        + float(v1[1]) * float(v2[1])
+        + float(v1[2]) * float(v2[2])
+    )
 
 
 @jit(cache=True, fastmath=True)
@@ -46,7 +50,7 @@ def cross(v1, v2):
         Resultant vector of the cross product between the two vectors.
 
     """
-    return np.cross(v1, v2)
+    return np.cross(v1.astype(np.float64), v2.astype(np.float64))
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 3afa51b..881d2f5 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,6 +6,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -94,6 +95,7 @@ def battin1984(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index ce294c2..e9ca206 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -7,6 +7,7 @@ import numpy as np
 from numpy.linalg import norm
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -94,6 +95,7 @@ def gauss1809(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     # Norm of the initial and final position vectors
     r1_norm, r2_norm = [norm(r) for r in [r1, r2]]
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index f75c396..b1054b3 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -7,6 +7,7 @@ import numpy as np
 from numpy.linalg import norm
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -86,6 +87,7 @@ def jiang2016(
         )
 
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 192ace7..703956d 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -8,6 +8,7 @@ from scipy.optimize import brentq
 
 from lamberthub.universal_solvers.vallado import vallado2013
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -89,6 +90,7 @@ def pan2016(
         )
 
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index 98cd3ab..a76ca64 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,6 +6,7 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -76,6 +77,7 @@ def delatorre2018(
 
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     tic = time.perf_counter()
 
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 75f2553..1e9fac9 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,6 +8,7 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -94,6 +95,7 @@ def thorne2004(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     # Norm of the initial and final position vectors
     r1_norm, r2_norm, c_norm = [norm(r) for r in [r1, r2, r2 - r1]]
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 78fadc1..d44cf1d 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -8,6 +8,7 @@ from numpy.linalg import norm
 from scipy.optimize import brentq, minimize_scalar
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -84,6 +85,7 @@ def arora2013(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     # Norm of the initial and final position vectors
     r1_norm, r2_norm, c_norm = [norm(r) for r in [r1, r2, (r2 - r1)]]
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index f1adfc3..831447a 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -8,6 +8,7 @@ from numpy.linalg import norm
 from scipy.optimize import brentq
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -80,6 +81,7 @@ def der2011(
 
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     r1_norm, r2_norm, c_norm = [norm(vec) for vec in (r1, r2, r2 - r1)]
     psi = get_transfer_angle(r1, r2, is_prograde)
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index f6230f4..f41fd61 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -7,6 +7,7 @@ import numpy as np
 from numpy.linalg import norm
 
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -97,6 +98,7 @@ def gooding1990(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     # Norm of the initial and final position vectors.
     r1_norm, r2_norm = [norm(r) for r in [r1, r2]]
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0aabb47..da34b5b 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -8,6 +8,7 @@ from numpy import cross, pi
 
 from lamberthub.linalg import norm
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -96,6 +97,7 @@ def izzo2015(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
     assert_transfer_angle_not_pi(dtheta)
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 8acced3..606904c 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -6,6 +6,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_zero,
@@ -78,6 +79,7 @@ def mcelreath2025(
         and Dynamical Astronomy, 137, 22.
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index de85a69..03f9da5 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -7,6 +7,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_zero,
@@ -78,6 +79,7 @@ def negrete2024(
         Using Contour Integrals.
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index dcc67a2..85b13f2 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -6,6 +6,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import assert_parameters_are_valid
 from lamberthub.utils.stumpff import c2, c3
 
@@ -94,6 +95,7 @@ def vallado2013(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof = cast_to_double(mu, r1, r2, tof)
 
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
diff --git a/src/lamberthub/utils/arguments.py b/src/lamberthub/utils/arguments.py
new file mode 100644
index 0000000..944b433
--- /dev/null
+++ b/src/lamberthub/utils/arguments.py
@@ -0,0 +1,36 @@
+"""Utilities related to the arguments of the solvers."""
+
+import numpy as np
+
+
+def cast_to_double(mu, r1, r2, tof):
+    """Cast the parameters of Lambert's problem to double precision.
+
+    The squares and cubes of integer or single precision quantities overflow
+    easily, for example when distances are expressed in meters.
+
+    Parameters
+    ----------
+    mu : float
+        Gravitational parameter.
+    r1 : np.array
+        Initial position vector.
+    r2 : np.array
+        Final position vector.
+    tof : float
+        Time of flight.
+
+    Returns
+    -------
+    mu : float
+        Gravitational parameter.
+    r1 : np.array
+        Initial position vector.
+    r2 : np.array
+        Final position vector.
+    tof : float
+        Time of flight.
+
+    """
+    r1, r2 = [np.ascontiguousarray(r, dtype=np.float64) for r in (r1, r2)]
+    return float(mu), r1, r2, float(tof)
-- 
2.43.0


From feb73884aea337b8a1c2d79e0e0a5b1ec7239cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 54/72] fix: README line endings are left as they are by the
 benchmark report

---
 scripts/generate_benchmark_report.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 9dad410..5dc1664 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -263,12 +263,13 @@ def build_section(reports):
 
 def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
-    content = readme_path.read_text(encoding="utf-8")
+    # Bytes instead of text, so that the line endings are left as they are
+    content = readme_path.read_bytes().decode("utf-8")
     if START_MARKER in content and END_MARKER in content:
         generated_content = section.split(f"{START_MARKER}\n\n", maxsplit=1)[1]
         generated_content = f"{START_MARKER}\n\n{generated_content}"
         pattern = re.compile(
-            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
+            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}(?:\r?\n)?",
             flags=re.DOTALL,
         )
         # A function keeps any backslash in the content from being an escape sequence
@@ -276,7 +277,7 @@ def update_readme(readme_path, section):
     else:
         updated = content.rstrip() + "\n\n" + section
 
-    readme_path.write_text(updated, encoding="utf-8")
+    readme_path.write_bytes(updated.encode("utf-8"))
 
 
 def main():
-- 
2.43.0


From 52d425c36e8c05da6ec1cf634a58aeee12ba1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 55/72] fix: README section of the benchmark report is told by
 a pair of markers, not by any two

---
 scripts/generate_benchmark_report.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 5dc1664..4878ab9 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -265,13 +265,16 @@ def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
     # Bytes instead of text, so that the line endings are left as they are
     content = readme_path.read_bytes().decode("utf-8")
-    if START_MARKER in content and END_MARKER in content:
+    # The section is the text between a start marker and its end marker, neither of
+    # which counts when it is on its own
+    start, end = re.escape(START_MARKER), re.escape(END_MARKER)
+    pattern = re.compile(
+        rf"{start}(?:(?!{start}).)*?{end}(?:\r?\n)?",
+        flags=re.DOTALL,
+    )
+    if pattern.search(content):
         generated_content = section.split(f"{START_MARKER}\n\n", maxsplit=1)[1]
         generated_content = f"{START_MARKER}\n\n{generated_content}"
-        pattern = re.compile(
-            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}(?:\r?\n)?",
-            flags=re.DOTALL,
-        )
         # A function keeps any backslash in the content from being an escape sequence
         updated = pattern.sub(lambda _: generated_content, content)
     else:
-- 
2.43.0


From a65f529ad9a40f6946fa72f25dd6acbb9626367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 56/72] fix: benchmark report ranks each run of a solver on its
 own

---
 scripts/generate_benchmark_report.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 4878ab9..f6478f6 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -152,33 +152,31 @@ def machine_summary(report):
 
 
 def _rank_within_case(benchmarks):
-    """Return a dict mapping (case_key, solver_name) -> rank within that case."""
+    """Return a dict mapping id(benchmark) -> rank within that case."""
     by_case: dict[tuple, list] = {}
     for b in benchmarks:
         by_case.setdefault(case_key(b), []).append(b)
 
     ranks = {}
-    for key, entries in by_case.items():
+    for entries in by_case.values():
         sorted_entries = sorted(entries, key=lambda b: b["stats"]["median"])
         for rank, entry in enumerate(sorted_entries, start=1):
-            ranks[(key, solver_name(entry))] = rank
+            ranks[id(entry)] = rank
     return ranks
 
 
 def _speedup_within_case(benchmarks):
-    """Return a dict mapping (case_key, solver_name) -> speedup vs slowest."""
+    """Return a dict mapping id(benchmark) -> speedup vs slowest."""
     by_case: dict[tuple, list] = {}
     for b in benchmarks:
         by_case.setdefault(case_key(b), []).append(b)
 
     speedups = {}
-    for key, entries in by_case.items():
+    for entries in by_case.values():
         slowest = max(e["stats"]["median"] for e in entries)
         for entry in entries:
             median = entry["stats"]["median"]
-            speedups[(key, solver_name(entry))] = (
-                slowest / median if median > 0 else 1.0
-            )
+            speedups[id(entry)] = slowest / median if median > 0 else 1.0
     return speedups
 
 
@@ -240,9 +238,8 @@ def build_section(reports):
                 case = benchmark["params"]["case"]
                 name = solver_name(benchmark)
                 stats = benchmark["stats"]
-                key = case_key(benchmark)
-                rank = ranks.get((key, name), 0)
-                speedup = speedups.get((key, name), 1.0)
+                rank = ranks[id(benchmark)]
+                speedup = speedups[id(benchmark)]
                 lines.append(
                     f"| {rank} | "
                     f"`{name}` | "
-- 
2.43.0


From 49775f7d5060fc0d9850ddcc4437e21052c2540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 57/72] fix: mcelreath2025 iterations for the minimum and for
 the solution share the limit

---
 src/lamberthub/universal_solvers/mcelreath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 606904c..bc9747d 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -268,7 +268,7 @@ def _find_multi_revolution_x(
         x_0 = np.complex128(0.5 * (lo + hi))
 
     x, desired_iterations = _solve_desired_x(
-        x_0, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol
+        x_0, tof, r_norm_sum, m, M, lo, hi, maxiter - minimum_iterations, rtol
     )
     total = minimum_iterations + desired_iterations
     if total < 1:
-- 
2.43.0


From e0b1d54a8232dce87bb261db411f682dabde1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 58/72] fix: negrete2024 falls back to bisection when the
 contour integrals vanish

---
 src/lamberthub/universal_solvers/negrete.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 03f9da5..6af937e 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -133,6 +133,8 @@ def _find_z_by_contours(
             moments = _contour_integrals(
                 0.0, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
             )
+            if moments[0] == 0.0:
+                return 0.0, False
             z = moments[1] / moments[0]
             return z.real, _is_real(z, atol, rtol)
 
@@ -150,6 +152,8 @@ def _find_z_by_contours(
         moments = _contour_integrals(
             center, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
         )
+        if moments[0] == 0.0:
+            return center, False
         z = moments[1] / moments[0]
         if not _is_real(z, atol, rtol):
             return z.real, False
@@ -173,6 +177,9 @@ def _find_z_by_contours(
     b = I3 * I0 - I1 * I2
     c = I2**2 - I1 * I3
 
+    if a == 0.0:
+        return center, False
+
     # Closed-form quadratic; coefficients are complex.
     disc = b * b - 4.0 * a * c
     sqrt_disc = np.sqrt(disc)
@@ -266,6 +273,8 @@ def _refine_single_root(
         moments = _contour_integrals(
             center, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
         )
+        if moments[0] == 0.0:
+            return z, False
         root = moments[1] / moments[0]
         z = root.real
         if not _is_real(root, atol, rtol):
-- 
2.43.0


From ec7eec1f64c6628585232cf449211c31e1ae75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 59/72] fix: negrete2024 needs both multi-revolution roots to
 tell their branches

---
 src/lamberthub/universal_solvers/negrete.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 6af937e..7d79807 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -204,6 +204,12 @@ def _find_z_by_contours(
     )
     if not (z_min < refined_lo < z_mid < refined_hi < z_max):
         return z_mid, False
+    # A value which is not a root leaves no certainty about the branch of the other
+    if not (
+        _is_root(refined_lo, mu, r1_norm, r2_norm, A, tof, atol, rtol)
+        and _is_root(refined_hi, mu, r1_norm, r2_norm, A, tof, atol, rtol)
+    ):
+        return z_mid, False
     if is_low_path:
         return refined_lo, is_real_lo
     return refined_hi, is_real_hi
-- 
2.43.0


From 25ab409ba7facedd097bdf03556308c7b028c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 60/72] fix: solvers raise instead of returning velocities
 which are not finite

---
 src/lamberthub/ecc_solvers/avanzini.py        |  6 +++++-
 src/lamberthub/p_solvers/battin.py            |  2 ++
 src/lamberthub/p_solvers/gauss.py             |  2 ++
 src/lamberthub/p_solvers/jiang.py             |  2 ++
 src/lamberthub/p_solvers/pan.py               |  2 ++
 src/lamberthub/regularization/delatorre.py    |  2 ++
 src/lamberthub/series_solvers/thorne.py       |  2 ++
 src/lamberthub/universal_solvers/arora.py     |  2 ++
 src/lamberthub/universal_solvers/der.py       |  2 ++
 src/lamberthub/universal_solvers/gooding.py   |  2 ++
 src/lamberthub/universal_solvers/izzo.py      |  2 ++
 src/lamberthub/universal_solvers/mcelreath.py |  2 ++
 src/lamberthub/universal_solvers/negrete.py   |  2 ++
 src/lamberthub/universal_solvers/vallado.py   |  6 +++++-
 src/lamberthub/utils/assertions.py            | 21 +++++++++++++++++++
 15 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index be78431..f3e29cd 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -42,7 +42,10 @@ from lamberthub.ecc_solvers.utils import (
     get_geometry,
 )
 from lamberthub.utils.arguments import cast_to_double
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_velocities_are_finite,
+)
 from lamberthub.utils.elements import coe2rv
 
 
@@ -141,6 +144,7 @@ def avanzini2008(
     # Compute the velocity vectors from the classic orbital elements
     (_, v1), (_, v2) = [coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]]
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 881d2f5..fa339c5 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -10,6 +10,7 @@ from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
+    assert_velocities_are_finite,
 )
 
 
@@ -169,6 +170,7 @@ def battin1984(
     v1 = -r11 * (s11 * (r1 - r2) - t11 * r1 / r1_norm)
     v2 = -r11 * (s11 * (r1 - r2) + t11 * r2 / r2_norm)
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index e9ca206..eed9aab 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -12,6 +12,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -169,6 +170,7 @@ def gauss1809(
     v1 = (r2 - f * r1) / g
     v2 = f_dot * r1 + g_dot * v1
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index b1054b3..62ab425 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -12,6 +12,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -124,6 +125,7 @@ def jiang2016(
         tpi = 0.0
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p)
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 703956d..0124747 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -13,6 +13,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -142,6 +143,7 @@ def pan2016(
     elements = _elements_at_omega(geometry, omega)
     v1, v2 = _reconstruct_velocities(mu, geometry, elements)
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index a76ca64..bf8ad57 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -11,6 +11,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -105,6 +106,7 @@ def delatorre2018(
     tac = time.perf_counter()
     tpi = (tac - tic) / numiter
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 1e9fac9..3fe4db4 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -13,6 +13,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -122,6 +123,7 @@ def thorne2004(
     y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
     v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index d44cf1d..fdc7717 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -13,6 +13,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -331,6 +332,7 @@ def arora2013(
     v1 = (r2_hat - f * r1_hat) / g * (L_ref / T_ref)
     v2 = (g_dot * r2_hat - r1_hat) / g * (L_ref / T_ref)
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 831447a..eb58a5d 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -13,6 +13,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -119,6 +120,7 @@ def der2011(
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, c_norm, m, n, x, y)
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index f41fd61..7e32a83 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -12,6 +12,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -138,6 +139,7 @@ def gooding1990(
     v1 = vr1 * i_r1 + vt1 * i_t1
     v2 = vr2 * i_r2 + vt2 * i_t2
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index da34b5b..f4b6db2 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -13,6 +13,7 @@ from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 PARABOLIC_TOL = 1e-7
@@ -108,6 +109,7 @@ def izzo2015(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index bc9747d..00300a7 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -10,6 +10,7 @@ from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -117,6 +118,7 @@ def mcelreath2025(
     v1 = v_c * i_c + v_r * i_r1
     v2 = v_c * i_c - v_r * i_r2
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 7d79807..38ee694 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -11,6 +11,7 @@ from lamberthub.utils.arguments import cast_to_double
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_zero,
+    assert_velocities_are_finite,
 )
 
 
@@ -103,6 +104,7 @@ def negrete2024(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 85b13f2..8895cf5 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -7,7 +7,10 @@ import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.arguments import cast_to_double
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_velocities_are_finite,
+)
 from lamberthub.utils.stumpff import c2, c3
 
 
@@ -146,6 +149,7 @@ def vallado2013(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
+    assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index b000f79..d39f3b3 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -173,3 +173,24 @@ def assert_transfer_angle_not_pi(dtheta):
         raise ValueError("Transfer angle was found to be 180 degrees!")
     else:
         return True
+
+
+def assert_velocities_are_finite(v1, v2):
+    """Check if the velocity vectors of a solution are finite.
+
+    Parameters
+    ----------
+    v1: np.array
+        Initial velocity vector.
+    v2: np.array
+        Final velocity vector.
+
+    Raises
+    ------
+    ValueError
+
+    """
+    if not (np.all(np.isfinite(v1)) and np.all(np.isfinite(v2))):
+        raise ValueError("No finite solution was found!")
+    else:
+        return True
-- 
2.43.0


From 6961bd4947fa9c77ac0de31fcfa1e9ee22305433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 61/72] fix: battin1984 geometry does not cancel next to 180
 and 360 degrees, nor divides by zero

---
 src/lamberthub/p_solvers/battin.py | 93 ++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index fa339c5..3ffb895 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -111,12 +111,15 @@ def battin1984(
     # angle, being positive if lower than 180 degrees or negative if greater.
     # Therefore, Battin's lambda variable is the so-called transfer angle
     # parameter.
-    _lambda = _get_lambda(c_norm, semiperimeter, dtheta)
+    _lambda = _get_lambda(r1_norm, r2_norm, semiperimeter, dtheta)
+    one_minus_lambda, one_plus_lambda = _get_lambda_complements(
+        _lambda, c_norm, semiperimeter
+    )
 
     # Solve for the new auxiliary variables developed by Battin. Equations (30)
     # and (31) from the report [1] apply here.
-    ll = _get_ll(_lambda)
-    m = _get_m(mu, tof, semiperimeter, _lambda)
+    ll = _get_ll(one_minus_lambda, one_plus_lambda)
+    m = _get_m(mu, tof, semiperimeter, one_plus_lambda)
 
     # The non-dimensional transfer time is computed using equation (54) from
     # Battin's report [1]. The non-dimensional time for the parabolic case is
@@ -162,9 +165,9 @@ def battin1984(
     else:
         raise ValueError("Exceeded maximum number of iterations!")
 
-    r11 = (1 + _lambda) ** 2 / (4 * tof * _lambda)
+    r11 = one_plus_lambda**2 / (4 * tof * _lambda)
     s11 = y * (1 + x)
-    t11 = (m * semiperimeter * (1 + _lambda) ** 2) / s11
+    t11 = (m * semiperimeter * one_plus_lambda**2) / s11
 
     # Compute the initial and final velocity vectors
     v1 = -r11 * (s11 * (r1 - r2) - t11 * r1 / r1_norm)
@@ -174,7 +177,7 @@ def battin1984(
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _battin_first_equation(y, ll, m):
     """Battin's first equation.
 
@@ -202,7 +205,7 @@ def _battin_first_equation(y, ll, m):
     return x
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _battin_second_equation(u, h1, h2):
     """Battin's second equation.
 
@@ -232,13 +235,15 @@ def _battin_second_equation(u, h1, h2):
 
 
 @jit(cache=True, fastmath=True)
-def _get_lambda(c, s, dtheta):
+def _get_lambda(r1_norm, r2_norm, s, dtheta):
     """Compute the transfer angle parameter.
 
     Parameters
     ----------
-    c: float
-        The norm of the chord vector.
+    r1_norm: float
+        The norm of the initial position vector.
+    r2_norm: float
+        The norm of the final position vector.
     s: float
         The semiperimeter.
     dtheta: float
@@ -251,22 +256,60 @@ def _get_lambda(c, s, dtheta):
 
     Notes
     -----
-    This is inline equation in the very first page of report [1].
+    This is inline equation in the very first page of report [1]. It does not
+    subtract the chord from the semiperimeter, which are almost the same for
+    transfer angles close to 180 degrees.
 
     """
-    _lambda = np.sqrt(s * (s - c)) / s
-    _lambda = np.abs(_lambda) if dtheta < np.pi else -np.abs(_lambda)
+    _lambda = np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) / s
     return _lambda
 
 
 @jit(cache=True, fastmath=True)
-def _get_ll(_lambda):
-    """Computes the l variable.
+def _get_lambda_complements(_lambda, c, s):
+    """Compute the complements to one of the transfer angle parameter.
 
     Parameters
     ----------
     _lambda: float
         The transfer angle parameter.
+    c: float
+        The norm of the chord vector.
+    s: float
+        The semiperimeter.
+
+    Returns
+    -------
+    one_minus_lambda: float
+        One minus the transfer angle parameter.
+    one_plus_lambda: float
+        One plus the transfer angle parameter.
+
+    Notes
+    -----
+    Their product is the ratio of the chord to the semiperimeter, from which the
+    smallest one is computed as otherwise it is subject to cancellation.
+
+    """
+    if _lambda > 0:
+        one_plus_lambda = 1 + _lambda
+        one_minus_lambda = c / s / one_plus_lambda
+    else:
+        one_minus_lambda = 1 - _lambda
+        one_plus_lambda = c / s / one_minus_lambda
+    return one_minus_lambda, one_plus_lambda
+
+
+@jit(cache=True, fastmath=True)
+def _get_ll(one_minus_lambda, one_plus_lambda):
+    """Computes the l variable.
+
+    Parameters
+    ----------
+    one_minus_lambda: float
+        One minus the transfer angle parameter.
+    one_plus_lambda: float
+        One plus the transfer angle parameter.
 
     Returns
     -------
@@ -278,12 +321,12 @@ def _get_ll(_lambda):
     This is equation (30) from original report.
 
     """
-    ll = ((1 - _lambda) / (1 + _lambda)) ** 2
+    ll = (one_minus_lambda / one_plus_lambda) ** 2
     return ll
 
 
 @jit(cache=True, fastmath=True)
-def _get_m(mu, tof, s, _lambda):
+def _get_m(mu, tof, s, one_plus_lambda):
     """Computes the m auxiliary variable.
 
     Parameters
@@ -294,8 +337,8 @@ def _get_m(mu, tof, s, _lambda):
         The time of flight.
     s: float
         The semiperimeter of the orbit.
-    _lambda: float
-        The transfer angle parameter.
+    one_plus_lambda: float
+        One plus the transfer angle parameter.
 
     Returns
     -------
@@ -307,11 +350,11 @@ def _get_m(mu, tof, s, _lambda):
     This is equation (31) from official report [1].
 
     """
-    m = (8 * mu * tof**2) / (s**3 * (1 + _lambda) ** 6)
+    m = (8 * mu * tof**2) / (s**3 * one_plus_lambda**6)
     return m
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _get_h_coefficients(x, ll, m):
     """Evaluates the h1 and h2 coefficients.
 
@@ -370,7 +413,7 @@ def _u_at_h(h1, h2):
     return u
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _u_at_B(B):
     """Evaluates u auxiliary variable at given B.
 
@@ -393,7 +436,7 @@ def _u_at_B(B):
     return u
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _B_at_h(h1, h2):
     """Evaluates B auxiliary variable at given h coefficients.
 
@@ -418,7 +461,7 @@ def _B_at_h(h1, h2):
     return B
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _xi_at_x(x, levels=125):
     """Evaluates the xi function at a particular value of x.
 
@@ -466,7 +509,7 @@ def _xi_at_x(x, levels=125):
     return xi
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _K_at_u(u, levels=1000):
     """Evaluates the K function at a particular value of u.
 
-- 
2.43.0


From 3af642f06d2c67b09c47303ca0fb9b0b0d685214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 62/72] fix: der2011 geometry does not cancel next to 180
 degrees

---
 src/lamberthub/universal_solvers/der.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index eb58a5d..4de77b9 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -90,7 +90,8 @@ def der2011(
     assert_transfer_angle_not_pi(psi)
 
     m = r1_norm + r2_norm + c_norm
-    n = r1_norm + r2_norm - c_norm
+    # Same as r1_norm + r2_norm - c_norm, which cancels close to 180 degrees
+    n = 4 * r1_norm * r2_norm * np.cos(psi / 2) ** 2 / m
     sigma = _compute_sigma(r1_norm, r2_norm, m, psi)
     tau = _compute_normalized_time(mu, m, tof)
     tau_p = _compute_parabolic_time(sigma)
-- 
2.43.0


From ad37b92e489c9b9d8458cbe85314067af20dfb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 63/72] fix: thorne2004 iterates on the square root of the
 semimajor axis of hyperbolas

---
 src/lamberthub/series_solvers/thorne.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 3fe4db4..8e68f14 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -224,9 +224,10 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
 
     if tof < t_p:
         branch = "H"
-        lower = -s / 2
-        upper = -np.finfo(float).eps * s
-        lower = expand_lower_hyperbolic_bound(mu, s, c, tof, mp, lower)
+        lower = expand_lower_hyperbolic_bound(mu, s, c, tof, mp, -s / 2)
+        # The time of flight changes as the square root of a for fast transfers,
+        # so iterate on that root instead of on a, which may be very small.
+        lower, upper = np.sqrt(2 * np.finfo(float).eps), np.sqrt(-2 * lower / s)
     else:
         branch = "A" if tof < t_min else "B"
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
@@ -236,7 +237,7 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
 
     def semimajor_axis(z):
         """Compute the semimajor axis from the iteration variable."""
-        return z if branch == "H" else s / 2 * (1 + z**2)
+        return -s / 2 * z**2 if branch == "H" else s / 2 * (1 + z**2)
 
     def f(z):
         """Compute the time-of-flight residual for the iteration variable."""
@@ -248,7 +249,7 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         if (branch == "A" and f_min <= 0) or (branch == "B" and f_min >= 0):
             return s / 2, branch, 1
 
-    xtol = atol if branch == "H" else max(atol / s, np.finfo(float).eps)
+    xtol = max(atol / s, np.finfo(float).eps)
     z, r = brentq(
         f, lower, upper, xtol=xtol, rtol=rtol, maxiter=maxiter, full_output=True
     )
-- 
2.43.0


From 82d04f91cc6480ecc460b2c60a2a72b52820968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 64/72] fix: mcelreath2025 raises RuntimeError where rounding
 errors hide the solution

---
 src/lamberthub/universal_solvers/mcelreath.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 00300a7..b61e196 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -94,9 +94,12 @@ def mcelreath2025(
     tof = np.sqrt(mu) * tof
 
     tic = time.perf_counter() if full_output else 0.0
-    x, numiter = _find_x(
-        tof, r1_norm, r2_norm, m, dtheta, M, is_low_path, maxiter, atol, rtol
-    )
+    try:
+        x, numiter = _find_x(
+            tof, r1_norm, r2_norm, m, dtheta, M, is_low_path, maxiter, atol, rtol
+        )
+    except ZeroDivisionError as exc:
+        raise RuntimeError("Failed to converge") from exc
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     u0_star = np.cos(0.5 * np.complex128(x))
@@ -370,6 +373,9 @@ def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol):
 
         err = abs((x - x_old) / (x - two_pi_revs + 2 * np.pi))
         if err < tolerance:
+            # The time of flight of very fast transfers cancels
+            if abs(residual) > 0.1 * tof:
+                break
             return _clean_root(x), numiter
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 516a94ffae684767157e7d39e197d569c1cc9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 65/72] fix: avanzini2008 raises RuntimeError instead of
 ZeroDivisionError for singular geometries

---
 src/lamberthub/ecc_solvers/avanzini.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index f3e29cd..7ef82fc 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -130,9 +130,12 @@ def avanzini2008(
     # variable, so this root solver is the one required rather than the pure N-R
     # one.
     tic = time.perf_counter() if full_output else 0.0
-    x_sol, numiter = _secant(
-        _f, 0.0, (eccT_at_x, mu, geometry, tof), maxiter, atol, rtol
-    )
+    try:
+        x_sol, numiter = _secant(
+            _f, 0.0, (eccT_at_x, mu, geometry, tof), maxiter, atol, rtol
+        )
+    except ZeroDivisionError as exc:
+        raise RuntimeError("Failed to converge") from exc
 
     # Compute the time per iteration
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
-- 
2.43.0


From bbe828fe85f8736b259a37f3427894bc29498715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 66/72] fix: arora2013 does not divide by zero for singular
 geometries

---
 src/lamberthub/universal_solvers/arora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index fdc7717..1dc9eff 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -444,7 +444,7 @@ def _get_gammas(F_i, F_n, F_star):
     return gamma1, gamma2, gamma3
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _get_x(F_0, F_1, F_i, F_star, Z, alpha):
     """Computes Sundman transformation variable.
 
-- 
2.43.0


From 45887b02eee20b45d64da5c3e3038a45173c00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 67/72] fix: gauss1809 parameter comes from the ratio of areas,
 it cancelled for fast transfers

---
 src/lamberthub/p_solvers/gauss.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index eed9aab..25b80b0 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -143,18 +143,10 @@ def gauss1809(
     if not np.abs(x) ** 50 <= rtol or y * np.sin(dtheta) <= 0:
         raise ValueError("Iteration did not converge to a valid solution.")
 
-    # Once the value of y has been found, the shape and nature of the orbit can
-    # be determined from the sign of the x variable: it is an ellipse if
-    # positive, a parabola if zero and an hyperbola if negative. In all cases
-    # x = (1 - cos(deltaE / 2)) / 2, being deltaE = i * deltaF for hyperbolas.
-    cos_half_anomaly = 1 - 2 * x
-
-    # Compute the orbital parameter
-    p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
-        r1_norm
-        + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * cos_half_anomaly
-    )
+    # Once the value of y has been found, which is the ratio of the areas of sector
+    # and triangle, the orbital parameter comes from the constant areal velocity.
+    # This expression does not cancel for any nature of the orbit.
+    p = (y * r1_norm * r2_norm * np.sin(dtheta) / tof) ** 2 / mu
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
     f = 1 - r2_norm * (1 - np.cos(dtheta)) / p
-- 
2.43.0


From ed0341ec82d91f9a02a0da06318803465a90b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 68/72] fix: izzo2015 raises ValueError or RuntimeError for
 singular geometries

---
 src/lamberthub/universal_solvers/izzo.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index f4b6db2..ae4dca6 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -104,9 +104,12 @@ def izzo2015(
     assert_transfer_angle_not_pi(dtheta)
 
     tic = time.perf_counter() if full_output else 0.0
-    v1, v2, numiter = _solve(
-        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
-    )
+    try:
+        v1, v2, numiter = _solve(
+            mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+        )
+    except ZeroDivisionError as exc:
+        raise RuntimeError("Failed to converge") from exc
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     assert_velocities_are_finite(v1, v2)
@@ -177,7 +180,8 @@ def _reconstruct(x, y, r1, r2, ll, gamma, rho, sigma):
 def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     """Computes all x, y for given number of revolutions."""
     # For abs(ll) == 1 the derivative is not continuous
-    assert abs(ll) < 1
+    if not abs(ll) < 1:
+        raise ValueError("Positions are too close to collinear!")
 
     M_max = np.floor(T / pi)
     T_00 = np.arccos(ll) + ll * np.sqrt(1 - ll**2)  # T_xM
-- 
2.43.0


From 490ee9fb2a6ac8b9c41fc0c7a16f42db9582901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 69/72] fix: jiang2016 raises where there is no bracket and its
 parameter does not cancel

---
 src/lamberthub/p_solvers/jiang.py | 39 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 62ab425..376eb8c 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -97,6 +97,8 @@ def jiang2016(
     r1_norm, r2_norm = norm(r1), norm(r2)
     c = norm(r2 - r1)
     s = (r1_norm + r2_norm + c) / 2
+    if not c < s:
+        raise ValueError("Transfer angle was found to be 180 degrees!")
 
     tof_parabolic = _tof_parabolic(mu, s, c, theta)
 
@@ -129,7 +131,7 @@ def jiang2016(
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _tof_parabolic(mu, s, c, theta):
     """Compute Jiang's parabolic branch time from equation (3).
 
@@ -160,7 +162,7 @@ def _tof_parabolic(mu, s, c, theta):
     return np.sqrt(2 / mu) * (s**1.5 - beta_sign * (s - c) ** 1.5) / 3
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _tof_elliptic(mu, a, s, c, theta, long_period):
     """Evaluate the elliptic Lagrange time equation.
 
@@ -194,7 +196,7 @@ def _tof_elliptic(mu, a, s, c, theta, long_period):
     return np.sqrt(a**3 / mu) * ((alpha - np.sin(alpha)) - (beta - np.sin(beta)))
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _tof_hyperbolic(mu, a, s, c, theta):
     """Evaluate the hyperbolic Lagrange time equation.
 
@@ -226,7 +228,7 @@ def _tof_hyperbolic(mu, a, s, c, theta):
     return np.sqrt((-a) ** 3 / mu) * ((np.sinh(alpha) - alpha) - (np.sinh(beta) - beta))
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _elliptic_alpha_beta(a, s, c, theta, long_period):
     """Compute elliptic alpha and beta from Jiang's equation (6).
 
@@ -261,7 +263,7 @@ def _elliptic_alpha_beta(a, s, c, theta, long_period):
     return alpha, beta
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _hyperbolic_alpha_beta(a, s, c, theta):
     """Compute hyperbolic alpha and beta from Jiang's equation (11).
 
@@ -290,7 +292,7 @@ def _hyperbolic_alpha_beta(a, s, c, theta):
     return alpha, beta
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _beta_sign(theta):
     """Return the beta sign selected by the transfer angle.
 
@@ -314,7 +316,7 @@ def _beta_sign(theta):
     return 1.0 if theta <= np.pi else -1.0
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _find_and_solve_elliptic(
     mu, tof, a_min, s, c, theta, long_period, maxiter, atol, rtol
 ):
@@ -335,6 +337,8 @@ def _find_and_solve_elliptic(
         return lower, 1
 
     while f_lower * f_upper > 0:
+        if upper > 1e16 * max(a_min, 1.0):
+            raise ValueError("Semi-major axis could not be bracketed!")
         upper *= 2
         f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
 
@@ -380,7 +384,7 @@ def _find_and_solve_elliptic(
     raise ValueError("Exceeded maximum number of iterations!")
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     """Find hyperbolic bracket and solve with safeguarded Newton steps (JIT).
 
@@ -392,7 +396,12 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     upper = -eps * max(s, c, 1.0)
 
     while (_tof_hyperbolic(mu, lower, s, c, theta) - tof) < 0:
+        if lower < -1e16 * max(s, 1.0):
+            raise ValueError("Semi-major axis could not be bracketed!")
         lower *= 2
+    # The orbit is so energetic that its semi-major axis almost vanishes
+    if (_tof_hyperbolic(mu, upper, s, c, theta) - tof) > 0:
+        raise ValueError("Semi-major axis could not be bracketed!")
 
     x = (lower + upper) / 2
     f_lower_iter = _tof_hyperbolic(mu, lower, s, c, theta) - tof
@@ -622,7 +631,7 @@ def _numerical_derivative(function, x, lower, upper):
     return (function(x_plus) - function(x_minus)) / (x_plus - x_minus)
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _elliptic_p(a, r1_norm, r2_norm, c, s, theta, long_period):
     """Compute the elliptic semi-latus rectum from Jiang's equation (14).
 
@@ -650,11 +659,11 @@ def _elliptic_p(a, r1_norm, r2_norm, c, s, theta, long_period):
 
     """
     alpha, beta = _elliptic_alpha_beta(a, s, c, theta, long_period)
-    factor = 4 * a * (s - r1_norm) * (s - r2_norm) / c**2
+    factor = 4 * a * r1_norm * r2_norm * np.sin(theta / 2) ** 2 / c**2
     return factor * np.sin((alpha + beta) / 2) ** 2
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _hyperbolic_p(a, r1_norm, r2_norm, c, s, theta):
     """Compute the hyperbolic semi-latus rectum from Jiang's equation (15).
 
@@ -680,11 +689,11 @@ def _hyperbolic_p(a, r1_norm, r2_norm, c, s, theta):
 
     """
     alpha, beta = _hyperbolic_alpha_beta(a, s, c, theta)
-    factor = -4 * a * (s - r1_norm) * (s - r2_norm) / c**2
+    factor = -4 * a * r1_norm * r2_norm * np.sin(theta / 2) ** 2 / c**2
     return factor * np.sinh((alpha + beta) / 2) ** 2
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _parabolic_p(r1_norm, r2_norm, c, s, theta):
     """Compute the parabolic semi-latus rectum as the elliptic limiting value.
 
@@ -713,11 +722,11 @@ def _parabolic_p(r1_norm, r2_norm, c, s, theta):
     Jiang's beta sign convention.
 
     """
-    factor = 2 * (s - r1_norm) * (s - r2_norm) / c**2
+    factor = 2 * r1_norm * r2_norm * np.sin(theta / 2) ** 2 / c**2
     return factor * (np.sqrt(s) + _beta_sign(theta) * np.sqrt(s - c)) ** 2
 
 
-@jit(cache=True, fastmath=True)
+@jit(cache=True, fastmath=True, error_model="numpy")
 def _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p):
     """Reconstruct endpoint velocities from Jiang's equations (17) and (18).
 
-- 
2.43.0


From d133b241789c313768d46073c6393ebf8a1e0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 70/72] fix: vallado2013 does not loop forever where rounding
 errors hide the solution

---
 src/lamberthub/universal_solvers/vallado.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 8895cf5..94db850 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -122,6 +122,8 @@ def vallado2013(
             while y < 0.0:
                 psi_low = psi
                 psi = (psi_up + psi_low) / 2
+                if psi == psi_low:
+                    raise RuntimeError("Failed to converge")
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
         X = _X_at_psi(psi, y)
-- 
2.43.0


From 17d344a8b989a41183277c38fef4c60a896476c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 71/72] fix: delatorre2018 does not loop forever for transfer
 angles not distinguishable from zero

---
 src/lamberthub/regularization/delatorre.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index bf8ad57..0341fdb 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -137,6 +137,8 @@ def _initial_bracket(P, Q, mu, tof):
     if Q > 0:
         z_floor = -(np.arccosh(P / Q) ** 2)
         z_low = z_floor + max(1e-12, abs(z_floor) * 1e-12)
+        if not np.isfinite(z_low):
+            raise ValueError("Transfer angle was found to be 0 degrees!")
 
     while _tof_equation_y(P, Q, mu, z_low, 0) > tof:
         z_low *= 2
-- 
2.43.0


From 073c523beb0eaafa0057ff275b7204bcc234f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 72/72] fix: avanzini2008 raises RuntimeError when the orbit it
 finds degenerates to a line

---
 src/lamberthub/ecc_solvers/avanzini.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 7ef82fc..ac40220 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -145,7 +145,12 @@ def avanzini2008(
     p, ecc, inc, raan, argp, nu_1, nu_2 = coe_at_eccT(ecc_T, r1, r2, is_prograde)
 
     # Compute the velocity vectors from the classic orbital elements
-    (_, v1), (_, v2) = [coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]]
+    try:
+        (_, v1), (_, v2) = [
+            coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]
+        ]
+    except ZeroDivisionError as exc:
+        raise RuntimeError("Failed to converge") from exc
 
     assert_velocities_are_finite(v1, v2)
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
-- 
2.43.0

