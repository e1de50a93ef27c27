From b5dcfec5d69a9216541251f70f5ae850cfc20d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 01/33] fix: wrap() returned an angle that is not equivalent to
 its input (operator precedence)

---
 pyqlaw/_transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_transformations.py b/pyqlaw/_transformations.py
index 5bb72df..42c1bf8 100644
--- a/pyqlaw/_transformations.py
+++ b/pyqlaw/_transformations.py
@@ -26,4 +26,4 @@ def rotmat3(phi):
 
 def wrap(alpha):
 	"""Wrap angle to be between -pi and pi"""
-	return (alpha + np.pi) % 2.0 * np.pi - np.pi
\ No newline at end of file
+	return (alpha + np.pi) % (2.0 * np.pi) - np.pi
\ No newline at end of file
-- 
2.43.0


From 6466d37d4ec75a9ae294e7b3ac67f5d9cd2c075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 02/33] fix: argument of periapsis was nan or measured from the
 wrong axis

arccos of a cosine beyond one by round-off gave nan (periapsis on the node line),
and nearly equatorial or nearly circular states were measured from the x-axis
although the node was not there.
---
 pyqlaw/_elements.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 7351e6a..8ee72dc 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -89,19 +89,15 @@ def get_omega(state, mu):
     v = state[3:6]
     # angular momentum
     h = np.cross(r,v)
-    # normal direction of xy-plane
-    zdir = np.array([0, 0, 1])
-    ndir = np.cross(zdir, h)
     # compute eccentricity vector
     ecc = (1/mu) * np.cross(v,h) - r/la.norm(r)
+    # in-plane axes, along and perpendicular to the node used for RAAN
+    raan = get_raan(state)
+    ndir = np.array([np.cos(raan), np.sin(raan), 0.0])
+    mdir = np.cross(h, ndir) / la.norm(h)
 
     # compute argument of periapsis
-    if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:
-        omega = np.arccos( np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)) )
-        if ecc[2] < 0:
-            omega = 2*np.pi - omega
-    else:
-        omega = np.arctan2(ecc[1], ecc[0])
+    omega = np.arctan2(np.dot(mdir,ecc), np.dot(ndir,ecc)) % (2*np.pi)
     return omega
 
 
-- 
2.43.0


From 1d433992f987f86d1ba38a52945b059532730bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 03/33] fix: mee2kep lost the periapsis direction of equatorial
 orbits

---
 pyqlaw/_elements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 8ee72dc..ea6ded5 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -260,7 +260,10 @@ def mee2kep(oe_mee):
     e = np.sqrt(f**2 + g**2)
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
-    om = np.arctan2(g*h-f*k, f*h+g*k)
+    if h == 0.0 and k == 0.0:
+        om = np.arctan2(g,f)    # equatorial: node is undefined, measure periapsis from RAAN = 0
+    else:
+        om = np.arctan2(g*h-f*k, f*h+g*k)
     ta = l - raan - om
     return np.array([a,e,i,raan,om,ta])
 
-- 
2.43.0


From 082bde937fb1902c4bc84cf2cfb6de248239ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 04/33] fix: purely out-of-plane control raised
 ZeroDivisionError

---
 pyqlaw/_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_lyapunov.py b/pyqlaw/_lyapunov.py
index 6df8dd5..e9cc231 100644
--- a/pyqlaw/_lyapunov.py
+++ b/pyqlaw/_lyapunov.py
@@ -12,7 +12,7 @@ def _u_to_thrust_angles(u_float):
     u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )
     u = u_float/u_float_norm
     alpha = np.arctan2(-u[0],-u[1])
-    beta = np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))
+    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))
     return u, alpha, beta
 
 
-- 
2.43.0


From 441ba749f7bf27056f85797b876e637772831562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 05/33] fix: true anomaly in the MEE-a equations of motion was
 off by pi for f < 0

---
 pyqlaw/_eom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_eom.py b/pyqlaw/_eom.py
index 443f548..3dec612 100644
--- a/pyqlaw/_eom.py
+++ b/pyqlaw/_eom.py
@@ -84,7 +84,7 @@ def eom_mee_with_a_gauss(t, state, param):
     # compute additional parameters
     ecc = np.sqrt(f**2 + g**2)
     ang_mom = np.sqrt(sma*mu*(1-ecc**2))
-    ta = l - np.arctan(g/f)
+    ta = l - np.arctan2(g,f)
     r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))
     p = sma*(1 - ecc**2)
 
-- 
2.43.0


From 3390909cc6b5b414bcc50932a45d9be769e056fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 06/33] fix: semimajor-axis rate of the MEE-a control law had
 the wrong quadrant for f < 0

---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 944bdbe..b64f5ac 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -222,7 +222,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
         e = sym.sqrt(f**2 + g**2)
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
-        ta = l - sym.atan(g/f)
+        ta = l - sym.atan2(g,f)
         r = ang_mom**2/(mu*(1+e*sym.cos(ta)))
         s_squared = 1 + h**2 + k**2
 
-- 
2.43.0


From 0e98def56a177cc87981085370c2d86f903bdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 07/33] fix: Keplerian control law was nan when node or
 periapsis is at its target

The derivative of acos(cos(x)) is 0/0 at x = 0 (and in a neighbourhood of it
numerically), also for elements of zero weight.
---
 pyqlaw/_symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index b64f5ac..35b962b 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -51,8 +51,8 @@ def symbolic_qlaw_keplerian(cse = True):
         # -------- compute quotient Q -------- #
         doe = [
             a-aT, e-eT, i-iT, 
-            sym.acos(sym.cos(ra - raT)),
-            sym.acos(sym.cos(om - omT)),
+            sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),
+            sym.atan2(sym.sin(om - omT), sym.cos(om - omT)),
             #sym.acos(sym.cos(ta - taT)),
         ]
 
-- 
2.43.0


From 1f71d43ffa0547dc07eca55dd6b280b35d3eff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 08/33] fix: Keplerian control law was nan for nearly circular
 orbits

The second cube-root term cancels to exactly zero below e of about 2e-3, where
its derivative is infinite. It equals 1/(3*term1).
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 35b962b..dcc6650 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -60,7 +60,7 @@ def symbolic_qlaw_keplerian(cse = True):
         radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME
         cos_ta_xx_sqrt = sym.sqrt((1/4)*((1-e**2)/e**3)**2 + 1/27)
         ta_xx_term1 = ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
-        ta_xx_term2 = (-(1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
+        ta_xx_term2 = 1/(3*ta_xx_term1)     # conjugate root, free of cancellation for small e
         cos_ta_xx = ta_xx_term1 - ta_xx_term2 - 1/e
         r_xx = p / (1 + e*cos_ta_xx)
         omdot_i = f/(e*h)*sym.sqrt(
-- 
2.43.0


From d5d76c3f5ac7aee4e83cf9e9e2f67839e064fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 09/33] fix: Keplerian semimajor-axis scaling must use |a - aT|

As documented and as in the MEE law; non-even n_petro otherwise gives nan or a
scaling below one when raising the orbit.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index dcc6650..8ddc5dc 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -81,7 +81,7 @@ def symbolic_qlaw_keplerian(cse = True):
         # compute periapsis radius constraint P
         p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))
         # compute scaling for each element Soe
-        soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
+        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
         # compute quotient Q
         #sum_term = 0
         #for idx in range(5):
-- 
2.43.0


From 95baf6bb4862af6b6ab1b0660404b10fbdc0ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 10/33] fix: rkf45 was only first order accurate

The stages k_i already contain the step size but were multiplied by it again
(harmless only for h = 1), and one weight was mistyped (2197/4101).
---
 pyqlaw/_integrate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 81d41ae..60c2b69 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -42,12 +42,12 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
         (np.array); state-vector at time t+h
     """
     k1 = h * rhs(t, y, p)
-    k2 = h * rhs(t + 1/4 * h,   y + 1/4*h * k1, p)
-    k3 = h * rhs(t + 3/8 * h,   y + 3/32*h*k1 + 9/32*h*k2, p)
-    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)
-    k5 = h * rhs(t + h,         y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)
-    k6 = h * rhs(t + 1/2*h,     y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)
-    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
+    k2 = h * rhs(t + 1/4 * h,   y + 1/4*k1, p)
+    k3 = h * rhs(t + 3/8 * h,   y + 3/32*k1 + 9/32*k2, p)
+    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
+    k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
+    k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
+    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
     h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From aaee0c480c77cf4e591bc79d54327eead5147b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 11/33] fix: rkf45 raised ZeroDivisionError when its error
 estimate is exactly zero

---
 pyqlaw/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 60c2b69..4003fc2 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -49,5 +49,6 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
     k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
     y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
-    h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
+    err = max(np.linalg.norm(z_next - y_next), 1e-300)     # error estimate may vanish
+    h_next = h*0.84*(tol/err)**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From 8867085869ab51e63daebc9a1a7720fea04d02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 12/33] fix: solving in Keplerian elements modified the
 caller's initial state in-place

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f3e9539..77a50df 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -340,7 +340,7 @@ class QLaw:
 
         # initialize values for propagation
         t_iter = 0.0
-        oe_iter = self.oe0
+        oe_iter = np.array(self.oe0, dtype=float)   # copy, as elements may be modified in-place
         mass_iter = self.mass0
         battery_iter = self.battery_initial
 
-- 
2.43.0


From 26f16d2fa7d29fc3ed641e1190999447ee6a7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 13/33] fix: outcome of a previous solve leaked into the next
 one on the same object

---
 pyqlaw/_qlaw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 77a50df..34d87a3 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -356,6 +356,8 @@ class QLaw:
         self.battery = [self.battery_initial,]
         n_relaxed_cleared = 0
         n_nan_angles = 0
+        self.converge = False
+        self.exitcode = 0
 
         if self.verbosity >= 2:
             self.disable_tqdm = True
-- 
2.43.0


From a1907984eb320f85293dfa9440f6682f9f5437ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 14/33] fix: battery was charged for the wrong duration with
 the rkf45 integrator

The step just flown was overwritten by the proposed next step before the battery
update; the proposal itself is never used, as steps are fixed.
---
 pyqlaw/_qlaw.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 34d87a3..3d3cc71 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -546,7 +546,6 @@ class QLaw:
                 if throttle == 1:
                     mass_iter -= self.mdot*t_step_local  # update mass
                 oe_iter = oe_next
-                t_step_local = max(self.step_min, min(self.step_max,h_next))
             else:
                 raise ValueError("integrator name invalid!")
             
-- 
2.43.0


From f2f79012b597f9bddee75a0d6f42a5c538f6f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 15/33] fix: duty cycle was ignored when propagating backward
 in time

---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 3d3cc71..b3bbd8a 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -400,11 +400,11 @@ class QLaw:
                 t_step_local = self.t_step
 
             # evaluate duty cycle
-            if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
+            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
                 duty = False            # turn off duty cycle
                 t_last_OFF = t_iter     # latest time when we turn off
             
-            if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
+            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-- 
2.43.0


From 920bb3079c61b1b05a78c6b489d11d1ee33c5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 16/33] fix: solve crashed when the battery starts at its
 minimum capacity

---
 pyqlaw/_qlaw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index b3bbd8a..6d0d11b 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -368,6 +368,7 @@ class QLaw:
         t_last_ON  = 0.0
         t_last_OFF = 0.0
         charging = False
+        alpha, beta = 0.0, 0.0      # angles stored until first thrusting step
 
         # iterate until nmax
         idx = 0
-- 
2.43.0


From f5fc12632c59abe3947a1639e411bb52f55c9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 17/33] fix: Sundman steps with negative step size went forward
 by almost a revolution

The eccentric anomaly at the end of the step is not wrapped, so the mean anomaly
difference never needs a revolution added.
---
 pyqlaw/_qlaw.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 6d0d11b..56bb4b8 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -393,10 +393,7 @@ class QLaw:
                 # compute mean anomaly
                 M0 = E0 - ecc_iter*np.sin(E0)
                 M1 = E1 - ecc_iter*np.sin(E1)
-                if M1 > M0:
-                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
-                else:
-                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
+                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
             else:
                 t_step_local = self.t_step
 
-- 
2.43.0


From 72e4d9b971999b2d08935b0f1a448313b96f9d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 18/33] fix: effectivity thresholds were inverted when
 propagating backward in time

---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 56bb4b8..e50cdc3 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -640,8 +640,8 @@ class QLaw:
                     self.wp, self.woe
                 )
             )
-        # we return max and min since qdot is defined to be positive
-        return max(qdot_list), min(qdot_list)
+        # we return largest and smallest magnitude since qdot is defined to be positive forward in time (negative backward)
+        return max(qdot_list, key=abs), min(qdot_list, key=abs)
     
 
     def interpolate_states(self, kind="quadratic"):
-- 
2.43.0


From b8531446464939f318cf312742380621847e7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 19/33] fix: steps could draw more than the available battery
 energy after a partial recharge

The step was only shortened to the battery floor before the first depletion. It
was also shortened while the thruster is off, where the battery is charging.
---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index e50cdc3..a0dd9bd 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -414,7 +414,7 @@ class QLaw:
             
             # overwrite time-step to time until we hit bottom of battery capacity
             elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and\
-                (charging is False):
+                (duty is True) and (charging is False or self.require_full_recharge is False):
                 t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
 
             # check if battery is full
-- 
2.43.0


From 340bc542f8a60b0c57857041c37fad2c652c8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 20/33] fix: eta_r of an unsupported type was silently ignored

---
 pyqlaw/_qlaw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index a0dd9bd..05595a6 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -338,6 +338,9 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        if not (isinstance(eta_r, float) or callable(eta_r)):
+            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
+
         # initialize values for propagation
         t_iter = 0.0
         oe_iter = np.array(self.oe0, dtype=float)   # copy, as elements may be modified in-place
-- 
2.43.0


From 2472371ea45b1219888b13e992056fb4a89532fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 21/33] fix: targets with the wrong number of elements were
 accepted

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 05595a6..0dcb437 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -280,7 +280,7 @@ class QLaw:
         """
         assert len(oe0)==6, "oe6 must have 6 components"
         assert mass_min >= 1e-2, "mass should be above 0.01 to avoid numerical difficulties"
-        #assert len(oeT)==5, "oeT must have 5 components"
+        assert len(oeT) in (5,6), "oeT must have 5 (or 6) components"
         # weight parameters
         if woe is None:
             self.woe = np.array([1.0,1.0,1.0,1.0,1.0])
-- 
2.43.0


From 0b15391a9cfa09e8879ccc1ce48765ceaf487c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 22/33] fix: exported states of Keplerian solves were converted
 as if they were MEE-a

---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 0dcb437..116aa1d 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -21,6 +21,7 @@ from ._convergence import (
 )
 from ._elements import (
     kep2sv,
+    kep2mee,
     mee_with_a2sv,
     get_orbit_coordinates, 
     mee_with_a2mee,
@@ -733,12 +734,13 @@ class QLaw:
         Args:
             filepath (str): filepath to json filename to save the dictionary
         """
+        oe2mee = kep2mee if self.elements_type == "keplerian" else mee_with_a2mee
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
             "times": self.times,
             "canonical_units": canonical_units,
-            "states": [list(mee_with_a2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
+            "states": [list(oe2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
         _controls = copy.deepcopy(self.controls)
         _controls.append([0,0,0])   # final step to match time-steps
-- 
2.43.0


From 0f2885606645f013021af8c3cc69cf816081161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 23/33] fix: J2 acceleration was only correct at unit radius

---
 pyqlaw/_perturbations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2ead376..2d7d3e6 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -43,10 +43,11 @@ def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
     r = np.linalg.norm(rECI)
     coeff = -3*mu*J2*Re**2/(2*r**5)
     rPA = T_ECI2PA @ rECI
+    zr = rPA[2] / r
     a_J2_PA = coeff * np.array([
-        (1 - 5*rPA[2]**2) * rPA[0],
-        (1 - 5*rPA[2]**2) * rPA[1],
-        (3 - 5*rPA[2]**2) * rPA[2]
+        (1 - 5*zr**2) * rPA[0],
+        (1 - 5*zr**2) * rPA[1],
+        (3 - 5*zr**2) * rPA[2]
     ])
     return T_ECI2PA.T @ a_J2_PA
 
-- 
2.43.0


From 462a0ba655a11407bd5dbdcb1679e5fdcefe950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 24/33] fix: disabling third bodies with None crashed

---
 pyqlaw/_perturbations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2d7d3e6..898e3e9 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -149,6 +149,8 @@ class SpicePerturbations:
             self.third_bodies_gms = [spice.bodvrd(ID, "GM", 1)[1][0]/MU_REF for ID in third_bodies_names]
         else:
             self.third_bodies_gms = third_bodies_gms
+        if third_bodies_names is None:      # no third-body perturbations
+            self.third_bodies_names, self.third_bodies_gms = [], []
         return
     
     def get_perturbations_RTN(self, t, oe, elements_type):
-- 
2.43.0


From 4a6235f9e5db2f383c488b96bc257a2062110475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 25/33] fix: periapsis overlay used f instead of eccentricity
 for MEE-a histories

---
 pyqlaw/_plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 42705b6..33684e9 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -73,7 +73,11 @@ def plot_elements_history(
 
     # overlay periapsis
     if plot_periapsis:
-        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - oes[1,:]))
+        if self.elements_type=="mee_with_a" and to_keplerian == False:
+            eccs = np.sqrt(oes[1,:]**2 + oes[2,:]**2)
+        else:
+            eccs = oes[1,:]
+        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - eccs))
 
     # plot mass or TA
     if plot_mass:
-- 
2.43.0


From 640bd3e71b5d09bd745d6a6c37ce9ab70d7ac197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 26/33] fix: battery floor tolerance was absolute, allowing
 zero-length steps for large battery units

---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 116aa1d..c2d5444 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -410,8 +410,8 @@ class QLaw:
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-            # no longer able to thrust (added 1e-12 for numerical tolerance)
-            if battery_iter <= self.battery_capacity[0] + 1e-12:
+            # no longer able to thrust (added 1e-12, relative to capacity, for numerical tolerance)
+            if battery_iter <= self.battery_capacity[0] + 1e-12*max(1.0, self.battery_capacity[1]):
                 duty = False                # turn off
                 t_last_OFF = t_iter         # latest time when we turn off
                 charging = True
-- 
2.43.0


From 1a108f30b1726da94d8abfd1fd3185819ecd5b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 27/33] fix: node and periapsis errors below 1e-8 rad were
 rounded to zero in the convergence test

---
 pyqlaw/_convergence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_convergence.py b/pyqlaw/_convergence.py
index bb013c8..0cfbfea 100644
--- a/pyqlaw/_convergence.py
+++ b/pyqlaw/_convergence.py
@@ -14,8 +14,8 @@ def check_convergence_keplerian(oe, oeT, woe, tol_oe):
         oeT[0] - oe[0],  # a
         oeT[1] - oe[1],  # e
         oeT[2] - oe[2],  # i
-        np.arccos(np.cos(oeT[3] - oe[3])),  # RAAN
-        np.arccos(np.cos(oeT[4] - oe[4])),  # omega
+        np.arctan2(np.sin(oeT[3] - oe[3]), np.cos(oeT[3] - oe[3])),  # RAAN
+        np.arctan2(np.sin(oeT[4] - oe[4]), np.cos(oeT[4] - oe[4])),  # omega
     ]))
     for idx in range(len(tol_oe)):
         if woe[idx] == 0.0:
-- 
2.43.0


From 867f387fa803ab82c4033ead749fb54b5f5de371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 28/33] fix: equatorial MEE with negative-zero h or k converted
 with inconsistent node and periapsis

---
 pyqlaw/_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index ea6ded5..b4bc592 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -261,7 +261,8 @@ def mee2kep(oe_mee):
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
     if h == 0.0 and k == 0.0:
-        om = np.arctan2(g,f)    # equatorial: node is undefined, measure periapsis from RAAN = 0
+        raan = 0.0              # equatorial: node is undefined (h, k may be signed zeros)
+        om = np.arctan2(g,f)    # measure periapsis from RAAN = 0
     else:
         om = np.arctan2(g*h-f*k, f*h+g*k)
     ta = l - raan - om
-- 
2.43.0


From 2770cd5142ab7b1bb0679d9943974be22deda20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 29/33] fix: default interpolated history had fewer than two
 samples for short trajectories

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index c2d5444..7adce46 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -669,7 +669,7 @@ class QLaw:
             # interpolate orbital elements
             f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states(kind=kind)
             if steps is None:
-                steps = min(8000, abs(int(round(self.times[-1]/0.01))))
+                steps = max(2, min(8000, abs(int(round(self.times[-1]/0.01)))))
                 print(f"Using {steps} steps for evaluation")
             t_evals = np.linspace(self.times[0], self.times[-1], steps)
             cart = np.zeros((6,steps))
-- 
2.43.0


From 625916277decf3c0dceed03f9176461f1dd20cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 30/33] fix: plot_efficiency failed on a solve that ended
 before its first step

---
 pyqlaw/_plot_methods.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 33684e9..01d377c 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -239,13 +239,15 @@ def plot_efficiency(self, figsize=(9,6), TU=1.0, time_unit_name="TU"):
     Returns:
         (tuple): figure and axis objects
     """
+    etas = np.array(self.etas).reshape(-1,2)                # also valid if no step was taken
+    etas_bounds = np.array(self.etas_bounds).reshape(-1,2)
     fig, axs = plt.subplots(2,1,figsize=figsize)
-    axs[0].plot(np.array(self.times[0:-1])*TU, np.array(self.etas)[:,0], label="eta_a")
-    axs[0].plot(np.array(self.times[0:-1])*TU, np.array(self.etas_bounds)[:,0], label="eta_a_min", linestyle='-', color='red')
+    axs[0].plot(np.array(self.times[0:-1])*TU, etas[:,0], label="eta_a")
+    axs[0].plot(np.array(self.times[0:-1])*TU, etas_bounds[:,0], label="eta_a_min", linestyle='-', color='red')
     axs[0].set(xlabel=f"Time, {time_unit_name}", ylabel="Absolute efficiency")
 
-    axs[1].plot(np.array(self.times[0:-1])*TU, np.array(self.etas)[:,1], label="eta_r")
-    axs[1].plot(np.array(self.times[0:-1])*TU, np.array(self.etas_bounds)[:,1], label="eta_r_min", linestyle='-', color='red')
+    axs[1].plot(np.array(self.times[0:-1])*TU, etas[:,1], label="eta_r")
+    axs[1].plot(np.array(self.times[0:-1])*TU, etas_bounds[:,1], label="eta_r_min", linestyle='-', color='red')
     axs[1].set(xlabel=f"Time, {time_unit_name}", ylabel="Relative efficiency")
     for ax in axs:
         ax.legend()
-- 
2.43.0


From c0ad52c122cf53e0d835c9992984c86bcc043307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 31/33] fix: set_problem kept references to the caller's arrays
 and failed for list targets with MEE

---
 pyqlaw/_qlaw.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 7adce46..cae9025 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -293,11 +293,8 @@ class QLaw:
         self.tf_max = tf_max
         self.t_step = t_step
         # spacecraft parameters
-        self.oe0   = oe0
-        if len(oeT) == 6:
-            self.oeT = oeT[0:5]
-        else:
-            self.oeT = oeT
+        self.oe0   = np.array(oe0, dtype=float)         # copies: independent of the caller's containers
+        self.oeT   = np.array(oeT[0:5], dtype=float)
         self.mass0 = mass0
         self.tmax  = tmax
         self.mdot  = mdot
-- 
2.43.0


From 92f984ab2e5fb1ea46bbd2dd46ce69dde302eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 32/33] fix: printed node and periapsis errors ignored whole
 turns

---
 pyqlaw/_qlaw.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index cae9025..23134e2 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -702,14 +702,18 @@ class QLaw:
 
     def pretty_results(self):
         """Pretty print results of the problem"""
+        errors = self.states[-1][0:5] - self.oeT
+        if self.elements_type == "keplerian":
+            errors[3:5] = wrap(errors[3:5])     # shortest arc, as in the convergence check
+        errors = np.abs(errors)
         print(f"Exit code : {self.exitcode}")
         print(f"Converge  : {self.converge}")
         print(f"Final state:")
-        print(f"  {self.element_names[0]}  : {self.states[-1][0]:1.4e} (error: {abs(self.states[-1][0]-self.oeT[0]):1.4e})")
-        print(f"  {self.element_names[1]}  : {self.states[-1][1]:1.4e} (error: {abs(self.states[-1][1]-self.oeT[1]):1.4e})")
-        print(f"  {self.element_names[2]}  : {self.states[-1][2]:1.4e} (error: {abs(self.states[-1][2]-self.oeT[2]):1.4e})")
-        print(f"  {self.element_names[3]}  : {self.states[-1][3]:1.4e} (error: {abs(self.states[-1][3]-self.oeT[3]):1.4e})")
-        print(f"  {self.element_names[4]}  : {self.states[-1][4]:1.4e} (error: {abs(self.states[-1][4]-self.oeT[4]):1.4e})")
+        print(f"  {self.element_names[0]}  : {self.states[-1][0]:1.4e} (error: {errors[0]:1.4e})")
+        print(f"  {self.element_names[1]}  : {self.states[-1][1]:1.4e} (error: {errors[1]:1.4e})")
+        print(f"  {self.element_names[2]}  : {self.states[-1][2]:1.4e} (error: {errors[2]:1.4e})")
+        print(f"  {self.element_names[3]}  : {self.states[-1][3]:1.4e} (error: {errors[3]:1.4e})")
+        print(f"  {self.element_names[4]}  : {self.states[-1][4]:1.4e} (error: {errors[4]:1.4e})")
         print(f"Transfer time : {self.times[-1]}")
         print(f"Final mass    : {self.masses[-1]}")
         return
-- 
2.43.0


From 2bfb37cc4ea54dda3eeb6b25cde58858add739f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 33/33] fix: plots of a copied solver draw the copy, not the
 original

---
 pyqlaw/_qlaw.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 23134e2..dae6268 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -2,7 +2,6 @@
 main functions for Q-Law transfers
 """
 
-from types import MethodType
 import copy
 import json
 import numpy as np
@@ -203,17 +202,17 @@ class QLaw:
         self.ready = False
         self.converge = False
         self.exitcode = 0
-        
-        # append methods
-        self.plot_elements_history = MethodType(plot_elements_history, self)
-        self.plot_battery_history = MethodType(plot_battery_history, self)
-        self.plot_controls = MethodType(plot_controls, self)
-        self.plot_trajectory_2d = MethodType(plot_trajectory_2d, self)
-        self.plot_trajectory_3d = MethodType(plot_trajectory_3d, self)
-        self.plot_efficiency = MethodType(plot_efficiency, self)
-        self.plot_Q = MethodType(plot_Q, self)
         return
     
+    # plotting methods (of the class, so that those of a copied object draw the copy)
+    plot_elements_history = plot_elements_history
+    plot_battery_history = plot_battery_history
+    plot_controls = plot_controls
+    plot_trajectory_2d = plot_trajectory_2d
+    plot_trajectory_3d = plot_trajectory_3d
+    plot_efficiency = plot_efficiency
+    plot_Q = plot_Q
+
     @property
     def mu(self) -> float:
         return self._mu
-- 
2.43.0

