From 63bc8f01bedd6d7212aa3ec63374993da2e1c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 01/43] fix: Mach_Sigma/MachSub_Sigma/MachSup_Sigma could miss
 the requested branch or fail (gamma != 1.4, sonic throat)

---
 aerokit/aero/MassFlow.py | 56 +++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..7040451 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -4,19 +4,31 @@
 
 import numpy as np
 
-# from . import IterativeSolve
-from scipy.optimize import fsolve, newton
 from ..common import defaultgas as defg
 
-# internal initialization (estimated) Mach for Sigma->Mach computations
-def __MachSub_sigma(sigma, gamma):
-    return 1.0 - np.sqrt(
-        (1.0 - 1.0 / sigma) * (4.0 * (gamma - 1.0) / (3.0 - gamma))
-    )  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
-
-
-def __MachSup_sigma(sigma, gamma):
-    return 1.0 + np.sqrt((sigma - 1.0) * (4.0 * (gamma - 1.0) / (3.0 - gamma)))
+# internal solver for Sigma->Mach computations
+def _solve_Sigma(sigma, supersonic, gamma):
+    """Mach number of given Sigma, on the supersonic or subsonic branch (NaN if Sigma is lower than 1)
+
+    ln(Sigma) is a convex function of ln(Mach), minimum at Mach=1: Newton iterations starting from
+    an outer bound of the root are monotonic and cannot leave the branch, for any gamma
+    """
+    gmusd = 0.5 * (gamma - 1.0)
+    n = 0.5 * (gamma + 1.0) / (gamma - 1.0)
+    # Sigma may be lower than 1 because of round-off only
+    sigma = np.where(sigma >= 1.0, sigma, np.where(sigma > 1.0 - 1e-12, 1.0, np.nan))
+    lnsub = n * np.log(2.0 / (gamma + 1.0)) - np.log(sigma)
+    lnsup = (np.log(sigma) + n * np.log((gamma + 1.0) / (gamma - 1.0))) / (2.0 * n - 1.0)
+    lnM = np.where(supersonic, lnsup, lnsub)
+    for _ in range(100):
+        m2 = np.exp(2.0 * lnM)
+        slope = (m2 - 1.0) / (1.0 + gmusd * m2)
+        delta = np.log(Sigma_Mach(np.exp(lnM), gamma) / sigma)
+        delta = np.where(slope == 0.0, 0.0, delta / np.where(slope == 0.0, 1.0, slope))
+        lnM = np.where(supersonic, np.maximum(lnM - delta, 0.0), np.minimum(lnM - delta, 0.0))
+        if not np.any(np.abs(delta) > 1e-14):
+            break
+    return np.exp(lnM)
 
 
 # -- Compressible flow functions  --
@@ -37,27 +49,13 @@ def Sigma_Mach(Mach, gamma=defg._gamma):
 
 
 def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
-    if np.size(Mach) != 1:
-        Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
-    else:
-        Minit = Mach
-
-    def sigma_of_mach(m):
-        return Sigma_Mach(m, gamma) - sigma
-
-    result = newton(sigma_of_mach, Minit)
-    return result  # if np.size(result)!=1 else np.asscalar(result)
+    """Mach number from Sigma; (initial) Mach argument selects the branch: subsonic if lower than or equal to 1"""
+    return _solve_Sigma(sigma, np.greater(Mach, 1.0), gamma)
 
 
 def MachSub_Sigma(sigma, gamma=defg._gamma):
-    # initial guess
-    Mach = __MachSub_sigma(sigma, gamma)
-    return Mach_Sigma(sigma, Mach, gamma)
+    return _solve_Sigma(sigma, False, gamma)
 
 
 def MachSup_Sigma(sigma, gamma=defg._gamma):
-    # initial guess
-    # cg = (gamma+1.)/(gamma-1.)
-    # Mach = np.sqrt((sigma*cg**(.5*cg))**(2./(cg-1.))-cg)
-    Mach = __MachSup_sigma(sigma, gamma)
-    return Mach_Sigma(sigma, Mach, gamma)
+    return _solve_Sigma(sigma, True, gamma)
-- 
2.43.0


From c11c9609bf2eccdc50687393197e3e6e8ebee466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 02/43] fix: Mach_PrandtlMeyer could fail to converge (small
 angles, gamma over 1.4)

---
 aerokit/aero/Supersonic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 0bca4e2..109c5de 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -64,8 +64,13 @@ def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
     def omega_of_mach(m):
         return PrandtlMeyer_Mach(m, gamma) - omega
 
-    # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
-    result = newton(omega_of_mach, 2.0 + 0.0 * omega)
+    def domega_dmach(m):
+        return np.degrees(np.sqrt(m ** 2 - 1.0) / (m * (1.0 + 0.5 * (gamma - 1.0) * m ** 2)))
+
+    # start from the inflection point of omega(Mach): Newton iterations are then monotonic for any omega
+    a = 0.5 * (gamma - 1.0)
+    minit = np.sqrt((3.0 * a + np.sqrt(9.0 * a ** 2 + 8.0 * a)) / (4.0 * a))
+    result = newton(omega_of_mach, minit + 0.0 * omega, fprime=domega_dmach)
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From 4b873a4445feacfed8359085d6882119e7dd2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 03/43] fix: Pt_ratio through a shock wave ignored gamma for
 downstream isentropic ratio

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..b88e2d8 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,7 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma) / Is.PtPs_Mach(Mn, gamma)
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
-- 
2.43.0


From 292822d6afaeb5d2316078718539ec6f3c8bcbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 04/43] fix: strong shock solution for null deflection returned
 -90 instead of +90

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index b88e2d8..ff42e1d 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -219,7 +219,7 @@ def strongsigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     else:
         phi = np.arccos(-0.5 * ke / np.sqrt(kd ** 3)) + 4 * math.pi
         kf = 2.0 * np.sqrt(kd) * np.cos(phi / 3.0) - ka / 3.0
-        return degree.atan(1.0 / kf)
+        return degree.atan2(1.0, np.maximum(kf, 0.0))  # normal shock for null deflection
 
 
 def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
-- 
2.43.0


From 5c377a1fba7dd671962bd751cfeab953625b0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 05/43] fix: 1D states lost gamma when rebuilt or indexed,
 isoenergetic isentropic state used rTtot as Ptot

---
 aerokit/aero/model1D.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..eff87d7 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,21 +50,21 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,12 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        gam = self._gamma[i] if np.ndim(self._gamma) > 0 else self._gamma
+        return state(self.rho[i], self.u[i], self.p[i], gamma=gam)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From 5ee1b1f00f0ecf8c617953eb879238e60a604bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 06/43] fix: Riemann problem iterations failed for large
 pressure ratios and depended on units

---
 aerokit/instance/riemann.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4086611..cd74cc2 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -17,7 +17,7 @@
 
 import math
 import numpy as np
-from scipy.optimize import newton
+from scipy.optimize import brentq
 import aerokit.aero.unsteady1D as uq
 
 # ===============================================================
@@ -183,5 +183,23 @@ class riemann_pb:
         def du(p):
             return self._delta_uL(p) + self._delta_uR(p) + self._qR.u - self._qL.u
 
-        self._pstar = newton(du, self._pstar_estimate_expansion(), rtol=1e-10)
+        if du(0.0) >= 0.0:
+            raise ValueError("Riemann problem without solution: vacuum between left and right states")
+        # du is a monotonic function of p: bracket and solve with log(p/pL) to be independent of any scaling
+        pref = self._qL.p
+
+        def du_log(lnp):
+            return du(pref * np.exp(lnp))
+
+        lnp = np.log(self._qR.p / pref)
+        lnpmin, lnpmax = min(lnp, 0.0), max(lnp, 0.0)
+        dlnp = 1.0
+        while du_log(lnpmin) > 0.0:
+            lnpmin -= dlnp
+            dlnp *= 2.0
+        dlnp = 1.0
+        while du_log(lnpmax) < 0.0:
+            lnpmax += dlnp
+            dlnp *= 2.0
+        self._pstar = pref * np.exp(brentq(du_log, lnpmin, lnpmax, xtol=1e-15, maxiter=500))
         return
-- 
2.43.0


From 49f7b24850b972675127a7ec05fddcd8d19f580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 07/43] fix: Riemann problem shock speed was wrong for very
 weak shocks (round-off)

---
 aerokit/instance/riemann.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index cd74cc2..672417c 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -18,6 +18,7 @@
 import math
 import numpy as np
 from scipy.optimize import brentq
+import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
 # ===============================================================
@@ -50,7 +51,7 @@ class riemann_pb:
         # finalize qstarL state
         if self._pstar > self._qL.p:
             _rho = self._qL.rho_through_shock(self._pstar)
-            _wsh = (self._qL.massflow() - _rho * self._ustar) / (self._qL.rho - _rho)
+            _wsh = self._qL.u - self._qL.asound() * sw.Mn_Ps_ratio(self._pstar / self._qL.p, self._qL._gamma)
             self._waves[0] = _wsh
             self._waves[1] = _wsh
             self._qstarL = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qL._gamma)
@@ -63,7 +64,7 @@ class riemann_pb:
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
-            _wsh = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
+            _wsh = self._qR.u + self._qR.asound() * sw.Mn_Ps_ratio(self._pstar / self._qR.p, self._qR._gamma)
             self._waves[3] = _wsh
             self._waves[4] = _wsh
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
-- 
2.43.0


From 50d0ae432cc83febac7d32e6de49eee0ffdc8db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 08/43] fix: Riemann solution switched gamma at x=0 instead of
 contact discontinuity

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 672417c..19f7ff9 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -126,7 +126,7 @@ class riemann_pb:
             u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
             p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qR.rho_through_isentropic(p[i])
-        return uq.unsteady_state(rho, u, p, np.where(xot < 0.0, self._qL._gamma, self._qR._gamma))
+        return uq.unsteady_state(rho, u, p, np.where(xot < self._ustar, self._qL._gamma, self._qR._gamma))
 
     def left_fastest(self):
         return self._waves[0]
-- 
2.43.0


From 90af6ea221d9dbafa94f816ac138de279d5b856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 09/43] fix: Riemann solution at tail of right expansion was
 the left state

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 19f7ff9..85692a5 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -119,7 +119,7 @@ class riemann_pb:
             rho[i] = self._qL.rho_through_isentropic(p[i])
         # if right expansion
         if self._pstar < self._qR.p:
-            i = np.logical_and((xot > self._waves[3]), (xot < self._waves[4]))
+            i = np.logical_and((xot >= self._waves[3]), (xot < self._waves[4]))
             gam = self._qR._gamma
             gp1 = gam + 1.0
             gm1 = gam - 1.0
-- 
2.43.0


From 9dd9b528df09a2131dce77395555ba31318d815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 10/43] fix: nozzle field ignored its prescribed gamma in
 regime limits and shock computation

---
 aerokit/instance/nozzle.py | 49 ++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..7eb739f 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -58,7 +58,7 @@ def NPR_shock_at_exit(AsAc):
     return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,15 +75,24 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
+def _Ms_choked_subsonic(AsAc, NPR, gamma):
+    """
+    Computes subsonic Mach number at exit of a choked nozzle (mass flow and exit static pressure are prescribed)
+    """
+    gmu = gamma - 1.0
+    K = NPR / AsAc / ((gamma + 1.0) / 2) ** ((gamma + 1.0) / 2 / gmu)
+    return np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+
+
 def Ms_from_AsAc_NPR(AsAc, NPR):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
@@ -108,9 +117,7 @@ def Ms_from_AsAc_NPR(AsAc, NPR):
     elif NPR > NPRsw:
         Ms = Msup
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
-        Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+        Ms = _Ms_choked_subsonic(AsAc, NPR, defg._gamma)
     return Ms
 
 
@@ -141,9 +148,7 @@ def Madapt_from_AsAc_NPR(AsAc, NPR):
     elif NPR > NPRsw:  # shock wave in jet
         Ms = sw.downstreamMach_Mach_ShockPsratio(Msup, NPR1 / NPR)
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
-        Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+        Ms = _Ms_choked_subsonic(AsAc, NPR, defg._gamma)
     return Ms
 
 
@@ -170,7 +175,7 @@ class nozzle:
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
         defg.save_default()
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
@@ -187,7 +192,9 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(
+                self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), gamma=self.gamma
+            )
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -195,14 +202,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = _Ms_choked_subsonic(self.AsoAc, NPR, self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From 24862e8487e82a804171cc62432427b85f267fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 11/43] fix: nozzle field could be undefined (NaN) with a weak
 shock or near choking

---
 aerokit/instance/nozzle.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 7eb739f..30e8eec 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -192,9 +192,9 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(
-                self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), gamma=self.gamma
-            )
+            # section ratio to critical (virtual) throat may only be lower than 1 because of round-off
+            sigma = np.maximum(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), 1.0)
+            self._M = mf.MachSub_Sigma(sigma, gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -206,7 +206,11 @@ class nozzle:
                 Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
+                isup = min(self.ithroat + 1, self._M.size - 1)
+                ish = isup + np.abs(self._M[isup:] - Msh).argmin()
+                # closest section of a weak shock may be too small for the downstream subsonic flow
+                while ish < self._M.size - 1 and self.AxoAc[ish] * mf.Sigma_Mach(Ms, gamma=self.gamma) < self.AsoAc:
+                    ish += 1
                 self._M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
                 )
-- 
2.43.0


From 5f36c2ce1dfb4c3c01eb8945f51eaaa2c415bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 12/43] fix: stability operators were not updated when base
 state or BC are changed

---
 aerokit/stability/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..049cf34 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators must be computed again
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators must be computed again
 
     def check_basestate(self):
         return self._basestate is not None
-- 
2.43.0


From ed1f611820653904adc1329b1f794fe51d0baf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 13/43] fix: computing Euler boundary conditions removed type
 key of user's BC, second computation failed

---
 aerokit/stability/Euler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..083e1f5 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
-- 
2.43.0


From 1ee75ae09fbf2cd4e2b713ca2a2be4f7b0417bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 14/43] fix: RKF45 stopped before xStop when the last step is
 rejected

---
 aerokit/common/_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..d2ec3a2 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -86,5 +86,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         if (h > 0.0) == ((x + hNext) >= xStop):
             hNext = xStop - x
             stopper = 1
+        else:
+            stopper = 0  # last step may have been rejected
         h = hNext
     return np.array(X), np.array(Y)
-- 
2.43.0


From 506e4bb3b4eac26241e5bf94a7280e789a16a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 15/43] fix: aero.Propulsion could not be imported

---
 aerokit/aero/Propulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
-- 
2.43.0


From 8cc1662d06b62d11b5b20162de08530994ff2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 16/43] fix: common.extendvar could not be imported

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..a1ca824 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from aerokit.common.dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From d6f7949819b593d215b73e75cd667ae905fb9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 17/43] fix: gas generator fuel/air ratio used combustor
 pressure loss instead of combustion efficiency

---
 aerokit/engine/gasgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index e315101..5bebe30 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -56,6 +56,7 @@ class base():
         self.r_cold    = r_cold
         self.r_hot     = r_hot
         self.xi_cc     = xi_cc
+        self.eta_cc    = eta_cc
         self.xi_inlet  = xi_inlet
         self.etapolCHP = etapolCHP
         self.etapolTHP = etapolTHP
@@ -80,7 +81,7 @@ class base():
         self.Pt4 = self.Pt3*self.xi_cc
         gh  = self.gam_hot
         cph = gh*self.r_hot/(gh-1.)
-        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.xi_cc*self.Pci - cph*self.Tt4)
+        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.eta_cc*self.Pci - cph*self.Tt4)
         self.Tt45 = self.Tt4 - cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))
         #print self.Tt3, self.Pt4, self.Tt45, self.Tt4, self.far
         self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))
-- 
2.43.0


From ff6a802d2593c43b499f2fcd696cb22a058d0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 18/43] fix: gas generator ideal turbine work had wrong scaling
 and sign

---
 aerokit/engine/gasgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index 5bebe30..0d09c0b 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -92,7 +92,7 @@ class base():
     def Wsp_TBP_ideal(self, P19=None):
         if P19 is None: P19=self.P0
         gogm1 = self.gam_hot/(self.gam_hot-1.)
-        return (1.+self.far)*gogm1*self.r_hot/(self.gam_hot-1.)*self.Tt45*((P19/self.Pt45)**(1./gogm1)-1.)
+        return (1.+self.far)*gogm1*self.r_hot*self.Tt45*(1.-(P19/self.Pt45)**(1./gogm1))
 
     def thermal_efficiency(self):
         return self.Wsp_TBP_ideal()/self.Wsp_cc()
-- 
2.43.0


From 0afb72dc22ddf95c2a25ef8653acf042c61ae614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 19/43] fix: turbofan ignored nozzle pressure loss

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From 58dbbfd077b77000ffa46adf37a14923acb9149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 20/43] fix: fan compression used compressor efficiency

---
 aerokit/engine/Cycle_Turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 61eb5b0..53468ee 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -178,7 +178,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
     def stage_13(self):
         if self.current_stage_corps >= 2:
             self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
-            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
+            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_f)
             self.Pt13 = self.Pt2 * self.pi_f
             self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
             self.current_stage_fan = 13
-- 
2.43.0


From 9332e3053dde182750d9ed67dc372d5bae1a52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 21/43] fix: specific fuel consumption in g/kN/s was ten times
 too large

---
 aerokit/engine/Cycle_Turbofan.py        | 4 ++--
 aerokit/engine/propu_be.py              | 2 +-
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 53468ee..7233435 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -214,7 +214,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
@@ -320,7 +320,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be.py b/aerokit/engine/propu_be.py
index 950afb9..99ad35d 100644
--- a/aerokit/engine/propu_be.py
+++ b/aerokit/engine/propu_be.py
@@ -74,7 +74,7 @@ def calculs(lambda_, pi_c, Tt4, pi_f, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 2296e5a..1cda39a 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -90,7 +90,7 @@ def calculs(lambda_, pi_c, Tt4, m, taux_meca):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = .5*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
@@ -217,7 +217,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
-- 
2.43.0


From e45e4da702c2fd1886aede96aa83128fb07da7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 22/43] fix: selecting an unknown software emptied current
 variable database

---
 aerokit/common/dicovar.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..6bd6480 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -103,10 +103,6 @@ class _DicoVar(object):
 
     def __init__(self, software):
 
-        # Internal variables definitions
-        self._dv = {}
-        self._softName = ''
-
         # Setting database
         softOK = False
         for soft in _dataBase:
-- 
2.43.0


From 79d2f8e6f6e23aa8a1a72b4de4eebe52daad5760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 23/43] fix: variable names were not found if capital letters
 differ, contrary to documentation

---
 aerokit/common/dicovar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 6bd6480..5be0029 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -133,6 +133,10 @@ class _DicoVar(object):
         """
         if var in self._dv:
             return self._dv[var]
+        # variable name handles capital letters (if not ambiguous)
+        svars = set(self._dv[key] for key in self._dv if key.lower() == var.lower())
+        if len(svars) == 1:
+            return svars.pop()
         else:
             raise ValueError('{} variable not in {} database dictionnary'.format(var, self._softName))
 
-- 
2.43.0


From cce02b97942f5c14c8554f3862689b24ba62578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 24/43] fix: inflow problem iterations often failed to converge

---
 aerokit/instance/unsteady_inflow.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 4d4f8df..6f398ac 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -21,7 +21,7 @@
 
 import math
 import numpy as np
-from scipy.optimize import fsolve
+from scipy.optimize import brentq, fsolve
 import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
@@ -94,7 +94,17 @@ class inflow_pb:
         def dpt(p):
             return self._pt0_from_pstar_rtt0(p, rtt0) - pt0
 
-        self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
+        if self._qR.u + self._delta_uR(pt0) >= 0.0:
+            # inflow: p* is lower than pt0, and p*-pt0*(p/pt)(u*(p)) is monotonic (u* lower than 0 is no solution)
+            gsgmu = self._qR._gamma / (self._qR._gamma - 1.0)
+
+            def dp(p):
+                ustar = max(self._qR.u + self._delta_uR(p), 0.0)
+                return p - pt0 * max(1.0 - 0.5 * ustar ** 2 / (gsgmu * rtt0), 0.0) ** gsgmu
+
+            self._pstar = brentq(dp, 0.0, pt0, xtol=1e-14 * pt0)
+        else:
+            self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
         # finalize qstarR state
         if self._pstar > self._qR.p:
-- 
2.43.0


From 2188d4367107f1d05df2e27c9c15ec5f71157334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 25/43] fix: inflow problem fastest waves were never defined

---
 aerokit/instance/unsteady_inflow.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 6f398ac..7f44cca 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -106,13 +106,22 @@ class inflow_pb:
         else:
             self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
-        # finalize qstarR state
+        # finalize qstarR state and waves (left boundary is the time axis, then contact and right wave)
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
+            _wsh = self._qR.u + self._qR.asound() * sw.Mn_Ps_ratio(self._pstar / self._qR.p, self._qR._gamma)
+            self._waves = [0.0, 0.0, self._ustar, _wsh, _wsh]
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
         else:
             _rho = self._qR.rho_through_isentropic(self._pstar)
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
+            self._waves = [
+                0.0,
+                0.0,
+                self._ustar,
+                self._ustar + self._qstarR.asound(),
+                self._qR.u + self._qR.asound(),
+            ]
         #
         self._qstarL = self._qR.copy()
         self._qstarL.compute_from_pt_rtt_u(pt0, rtt0, self._ustar)
-- 
2.43.0


From 6aed4f55777aebd65ceb040126e3a79475bf934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 26/43] fix: Mn_Pt_ratio did not converge for strong shocks

---
 aerokit/aero/ShockWave.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index ff42e1d..7a6c7b3 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -104,7 +104,7 @@ def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
 
     """
 
-    def ptratio_of_mach(m):
+    def log_ptratio_of_mach(m):
         """
 
         Args:
@@ -113,12 +113,13 @@ def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
         Returns:
 
         """
-        return Pt_ratio(m, gamma)
+        return np.log(Pt_ratio(m, gamma))
 
     if ptratio > 1:
         print("!!! cannot find Mn for Pt_ratio > 1")
         return 1
-    return ITS.secant_solve(ptratio_of_mach, ptratio, 1.5)
+    # total pressure ratio spans many orders of magnitude: solve its logarithm
+    return ITS.secant_solve(log_ptratio_of_mach, np.log(ptratio), 1.5)
 
 
 # --- LOCAL 2D SHOCK WAVE ---
-- 
2.43.0


From 174d5755df2fd14aad27ba579bddb561042d3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 27/43] fix: conical shock integration could loop forever (step
 reaching axis, undefined values)

---
 aerokit/aero/ShockWave.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 7a6c7b3..204bbce 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -382,9 +382,13 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
                 thma = thma + dthma
                 phi = phi + h
                 # print(Mach, sigma, phi, thma)
-        else:
+        elif np.isfinite(err):
             h = 0.9 * h * (tol / err) ** 0.2
             # print("new h ",h)
+        else:
+            h = 0.5 * h  # undefined values, e.g. when reaching axis
+        if phi + h == phi and abs(conv) >= tol:  # no conical flow
+            return np.nan
 
     deflection = 0.5 * (thma[0] + phi)
     return deflection
-- 
2.43.0


From cec38b9a412890f8827e0c8200bb4219acfdc8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 28/43] fix: conical shock inverses diverged or did not end for
 moderate Mach numbers or small angles

---
 aerokit/aero/ShockWave.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 204bbce..b6cce9a 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -5,6 +5,7 @@
 import math
 import aerokit.aero.IterativeSolve as ITS
 import numpy as np
+from scipy.optimize import brentq
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.degree as degree
 from aerokit.common import defaultgas as defg  # relative import is deprecated by doctest
@@ -394,6 +395,14 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
     return deflection
 
 
+@np.vectorize
+def _conical_solve(local_def, deflection, xwave, xinit):
+    """solve local_def(x)=deflection, which increases from a null deflection at Mach wave xwave (weak shock)"""
+    if deflection > 0.0 and local_def(xinit) > deflection:
+        return brentq(lambda x: (local_def(x) if x > xwave else 0.0) - deflection, xwave, xinit, xtol=1e-10)
+    return ITS.secant_solve(local_def, deflection, xinit)
+
+
 def conical_sigma_Mach_walldeflection(Mach, deflection, gamma=defg._gamma):
     """computes shock angle sigma from upstream Mach number and wall deflection
 
@@ -410,7 +419,8 @@ def conical_sigma_Mach_walldeflection(Mach, deflection, gamma=defg._gamma):
         """internal wrapping function to iterative solve"""
         return conical_deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_def, deflection, degree.asin(1.0 / Mach) + deflection)
+    mu = degree.asin(1.0 / Mach)
+    return _conical_solve(local_def, deflection, mu, np.minimum(mu + deflection, sigma_DevMax(Mach, gamma)))
 
 
 def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
@@ -431,7 +441,7 @@ def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
         # print("local mach sigma", mach, sigma)
         return conical_deflection_Mach_sigma(mach, sigma, gamma)
 
-    return ITS.secant_solve(local_def, deflection, 1.0 / degree.sin(sigma - 0.5 * deflection))
+    return _conical_solve(local_def, deflection, 1.0 / degree.sin(sigma), 1.0 / degree.sin(sigma - 0.5 * deflection))
 
 
 # backward compatibility
-- 
2.43.0


From 93aee7a4e7e15e4310bef9ac5d2fac0c32224460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 29/43] fix: building a nozzle overwrote the default gas saved
 by user

---
 aerokit/instance/nozzle.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 30e8eec..10021b4 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -174,13 +174,11 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
-- 
2.43.0


From 6fe7905b52835139887d901a44c7d8f25f94eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 30/43] fix: shock relations given pressure ratio were
 undefined for a normal shock (round-off)

---
 aerokit/aero/ShockWave.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index b6cce9a..c57e772 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -126,6 +126,12 @@ def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
 # --- LOCAL 2D SHOCK WAVE ---
 
 
+def _sigma_Mn(Mach, Mn):
+    """shock angle from upstream Mach number and normal Mach number, which may be higher because of round-off only"""
+    sinsig = Mn / Mach
+    return degree.asin(np.where((sinsig > 1.0) & (sinsig < 1.0 + 1e-12), 1.0, sinsig))
+
+
 def deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma):
     """
 
@@ -153,7 +159,7 @@ def deflection_Mach_ShockPsratio(Mach, Pratio, gamma=defg._gamma):
     Returns:
 
     """
-    return deflection_Mach_sigma(Mach, degree.asin(Mn_Ps_ratio(Pratio, gamma) / Mach), gamma)
+    return deflection_Mach_sigma(Mach, _sigma_Mn(Mach, Mn_Ps_ratio(Pratio, gamma)), gamma)
 
 
 def downstreamMach_Mach_ShockPsratio(Mach, Pratio, gamma=defg._gamma):
@@ -168,7 +174,7 @@ def downstreamMach_Mach_ShockPsratio(Mach, Pratio, gamma=defg._gamma):
 
     """
     Mn0 = Mn_Ps_ratio(Pratio, gamma)
-    sig = degree.asin(Mn0 / Mach)
+    sig = _sigma_Mn(Mach, Mn0)
     dev = deflection_Mach_sigma(Mach, sig, gamma)
     Mn1 = downstream_Mn(Mn0, gamma)
     return Mn1 / degree.sin(sig - dev)
-- 
2.43.0


From 0d94e3a946b2df989a1749d97822c9e9343d0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 31/43] fix: secant_solve returned its start, unsolved, if
 start is null or small

---
 aerokit/aero/IterativeSolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index e72433c..f266774 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -11,9 +11,9 @@ def secant_solve(f, y, x, tol=0.00001):
     it    = 1
     old_x = x
     old_y = f(old_x)
-    new_x = x*0.999 
+    new_x = x*0.999 if abs(x) > 0.01 else x + 0.00001 # different from x, even if null
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
-    while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
+    while (it < itmax) and (it == 1 or abs(new_x-old_x) > max(tol,tol*abs(new_x))):
         new_y = f(new_x)
         next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y)
         old_x = new_x
-- 
2.43.0


From f38d6170ad7680091aa41a4956e49e47eff839eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 32/43] fix: RKF45 could not reach xStop from a small step when
 error is null

---
 aerokit/common/_ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index d2ec3a2..5a4ffd6 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -81,7 +81,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         if e != 0.0:
             hNext = 0.9 * h * (tol / e) ** 0.2
         else:
-            hNext = h
+            hNext = 10.0 * h  # no error: constant step may not reach xStop
         # Check if next step is the last one; is so, adjust h
         if (h > 0.0) == ((x + hNext) >= xStop):
             hNext = xStop - x
-- 
2.43.0


From 33b5e288c001cc36d230d8b9aafbd47b61125810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 33/43] fix: refinement of eigenpair did not converge if time
 matrix is not identity

---
 aerokit/stability/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 049cf34..5c44996 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -91,7 +91,7 @@ class LinOperator:
             # # since matrix becomes singular with convergence, lstsqr is prefered
             # w, *_ = nplin.lstsq(B-new_omega*M, new_eigm, rcond=None)
             try:
-                w = nplin.solve(B - new_omega * M, new_eigm)
+                w = nplin.solve(B - new_omega * M, M @ new_eigm)
                 new_eigm = w / nplin.norm(w)
                 new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)
                 # print(i, nplin.norm((B-new_omega*M)@ new_eigm), new_omega)
-- 
2.43.0


From 1036b45bec6547896b7fa12109f79ea3c44b5bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 34/43] fix: initial guess of sigma_Mach_deflection ignored the
 absolute value of a negative deflection

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index c57e772..f6f1a71 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -243,7 +243,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
 
     """
     if init is None:
-        sig0 = degree.asin(1.0 / Mach) + deflection
+        sig0 = degree.asin(1.0 / Mach) + np.abs(deflection)
     else:
         sig0 = init
 
-- 
2.43.0


From 8efecd2cd9dfc5797bea5ba63df46f4c58cd0ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 35/43] fix: show_perfo of turbofan cycles failed when perfo
 had not been called after the last stage

---
 aerokit/engine/Cycle_Turbofan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 7233435..6d1f600 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -223,6 +223,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
             
     def show_perfo(self):
         if self.current_stage_fan == 19 and self.current_stage_corps == 9:
+            self.perfo()
             print("%s\t\t\t%.0f\t%s" % ("Poussée :", self.F, "N"))
             print("%s\t\t%.2f\t%s" % ("Poussée spécifique :", self.F_spe, "N.s/kg"))
             print("%s\t%.2f\t%s" % ("Consommation spécifique :", self.mk_spe, "g/kN/s"))
@@ -330,6 +331,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
             
     def show_perfo(self):
         if self.current_stage_fan == 19 and self.current_stage_corps == 9:
+            self.perfo()
             print("%s\t\t\t%.0f\t%s" % ("Poussée :", self.F, "N"))
             print("%s\t\t%.2f\t%s" % ("Poussée spécifique :", self.F_spe, "N.s/kg"))
             print("%s\t%.2f\t%s" % ("Consommation spécifique :", self.mk_spe, "g/kN/s"))
-- 
2.43.0


From adf7a6a0788b9baa18a103d39398099efe8bd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 36/43] fix: optimum fan temperature ratio of double-corps
 turbofan

---
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 1cda39a..12df2a5 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -174,10 +174,10 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     cp = (r * gamma)/(gamma - 1)
     cp_ = (r_ * gamma_)/(gamma_ - 1)
     # Calculs fan
-    tau_lambda = (cp_ * Tt4)/(cp * Tt0)
+    tau_lambda = (cp_ * Tt4)/(cp * T0)
     tau_r = Tt0/T0
     tau_c = pi_c**((gamma - 1)/(eta_c * gamma))
-    tau_f = (tau_lambda*tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
+    tau_f = (tau_lambda - tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
     pi_f = tau_f**((eta_f*gamma)/(gamma - 1))
     Tt13 = Tt2 * tau_f
     Pt13 = Pt2 * pi_f
-- 
2.43.0


From cbb1f159737522938b3c2f0deaa775537d2f3d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 37/43] fix: isentropic polar failed when the side which is not
 requested is out of range

---
 aerokit/aero/plot/isentropicpolar.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aerokit/aero/plot/isentropicpolar.py b/aerokit/aero/plot/isentropicpolar.py
index f17dad9..01f54fa 100644
--- a/aerokit/aero/plot/isentropicpolar.py
+++ b/aerokit/aero/plot/isentropicpolar.py
@@ -45,13 +45,13 @@ def plot_theta_pressure(
     """
 
     dev = np.linspace(dev_range[0], dev_range[1], npts + 1)
-    ps = p_init * sup.IsentropicPsratio_Mach_deflection(
-        mach, dev, gamma=gamma
-    )  # pressure ratio only depends on normal Mach number
     if curve in ['c+', 'C+', 'both']:
+        ps = p_init * sup.IsentropicPsratio_Mach_deflection(
+            mach, dev, gamma=gamma
+        )  # pressure ratio only depends on normal Mach number
         plt.plot(thet_init + dev, ps, color=color, linestyle=linestyle, **kwargs)
-    ps = p_init * sup.IsentropicPsratio_Mach_deflection(
-        mach, -dev, gamma=gamma
-    )  # pressure ratio only depends on normal Mach number
     if curve in ['c-', 'C-', 'both']:
+        ps = p_init * sup.IsentropicPsratio_Mach_deflection(
+            mach, -dev, gamma=gamma
+        )  # pressure ratio only depends on normal Mach number
         plt.plot(thet_init + dev, ps, color=color, linestyle=linestyle, **kwargs)
-- 
2.43.0


From e43ef096d9f16327fba6bdee6d7e118fabfedff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 38/43] fix: Mach_PrandtlMeyer did not converge for single
 precision arguments

---
 aerokit/aero/Supersonic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 109c5de..6b64236 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -70,7 +70,8 @@ def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
     # start from the inflection point of omega(Mach): Newton iterations are then monotonic for any omega
     a = 0.5 * (gamma - 1.0)
     minit = np.sqrt((3.0 * a + np.sqrt(9.0 * a ** 2 + 8.0 * a)) / (4.0 * a))
-    result = newton(omega_of_mach, minit + 0.0 * omega, fprime=domega_dmach)
+    # iterate in double precision whatever the type of omega and gamma
+    result = newton(omega_of_mach, minit + 0.0 * np.asarray(omega, dtype=float), fprime=domega_dmach)
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From c7d32aaa106e4233ec9969071e841a69e3953cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 39/43] fix: initial values of a staged turbofan cycle also
 restart the fan stages

---
 aerokit/engine/Cycle_Turbofan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 6d1f600..15795f9 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -102,6 +102,7 @@ class cycle_1_to_4:
         self.Tt0 = self.T0 * Is.TtTs_Mach(Mach=self.M0, gamma=self.g.gamma)
         self.V0 = self.M0 * np.sqrt(self.g.gamma * self.g.r * self.T0)
         self.current_stage_corps = 1
+        self.current_stage_fan = 0  # fan stages also depend on initial values
         
     def stage_2(self):
         if self.current_stage_corps == 1:
-- 
2.43.0


From ced26a21c510b8696c5bebf63912c30c330fd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:10 +0000
Subject: [PATCH 40/43] fix: Mn_Pt_ratio did not converge for very weak shocks
 (loss is of third order)

---
 aerokit/aero/ShockWave.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index f6f1a71..60bbbb9 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -114,13 +114,14 @@ def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
         Returns:
 
         """
-        return np.log(Pt_ratio(m, gamma))
+        # cubic root: loss of a weak shock is of third order, function is nearly linear in Mach number
+        return np.cbrt(np.log(Pt_ratio(m, gamma)))
 
     if ptratio > 1:
         print("!!! cannot find Mn for Pt_ratio > 1")
         return 1
     # total pressure ratio spans many orders of magnitude: solve its logarithm
-    return ITS.secant_solve(log_ptratio_of_mach, np.log(ptratio), 1.5)
+    return np.maximum(ITS.secant_solve(log_ptratio_of_mach, np.cbrt(np.log(ptratio)), 1.5), 1.0)
 
 
 # --- LOCAL 2D SHOCK WAVE ---
-- 
2.43.0


From bcf037329fd80ec6b4a9d3fb05b743860874f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 41/43] fix: Mach_ThrustFunction diverged or left the branch of
 its start when the start is not close to the root

---
 aerokit/aero/Propulsion.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index ec807e0..bb2a823 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -1,9 +1,9 @@
 """@package Propulsion
   thrust flow function
 """
+import numpy as np
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
@@ -11,7 +11,9 @@ def ThrustFunction(Mach, gamma=1.4):
 
 
 def Mach_ThrustFunction(thrust, Mach=2.0, gamma=1.4):
-    def thrust_of_mach(m):
-        return ThrustFunction(m, gamma)
-
-    return ITS.secant_solve(thrust_of_mach, thrust, Mach)
+    # inverse squared Mach number is a root of a quadratic equation, on the same side of M=1 as the given Mach number
+    f2 = np.divide(thrust, ThrustFunction(1.0, gamma)) ** 2
+    df2 = f2 - 1.0
+    df2 = np.where((df2 < 0.0) & (df2 > -1e-12), 0.0, df2)  # lower than the minimum because of round-off only
+    side = np.where(np.asarray(Mach) > 1.0, -1.0, 1.0)
+    return 1.0 / np.sqrt(1.0 + (gamma + 1.0) * (df2 + side * np.sqrt(f2 * df2)))
-- 
2.43.0


From cca8af501a0af010b2dadb963c955b5a3d7aa790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:11 +0000
Subject: [PATCH 42/43] fix: stability operators left without boundary
 conditions were used after a refused computation

---
 aerokit/stability/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 5c44996..08b4b79 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -51,7 +51,11 @@ class LinOperator:
 
     def get_RHS_time_matrices(self):
         if self._B is None:
-            self.compute_operators()
+            try:
+                self.compute_operators()
+            except Exception:
+                self._B = None  # incomplete operators must not be used by a later call
+                raise
         return self._B, self._At
 
     def solve_eig(self):
-- 
2.43.0


From 4488d22b40555d91e8e3c6fbb0ee4d158c7232f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:55 +0000
Subject: [PATCH 43/43] fix: Mx expression ignored the name of velocity
 component in use

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index a1ca824..f424282 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -34,6 +34,6 @@ def expressions_from_rhopv():
     extdico['V']    = 'mag('+dico['V']+')'
     extdico['a' ]   = _a
     extdico['Mach'] = 'mag('+dico['V']+')/'+_a
-    extdico['Mx']   = 'U_X/'+_a
+    extdico['Mx']   = dico['Vx']+'/'+_a
     extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0

