From 396c650d9701ca18b94b9721ad82ff96ca371ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 01/19] fix: svcs_longi_u with Ground evaluates the mirror
 cylinders at the mirrored points

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..486016c 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -359,7 +359,7 @@ def svcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,m,Xcyl,Ycyl,Zcyl,ntheta=180,Ground=False)
                 else:
                     print('m',end='')
                 if np.abs(gamma_l[i,j]) > 0:
-                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
+                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Y,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
                     ux = ux + ux1
                     uy = uy + uy1
                     uz = uz + uz1
-- 
2.43.0


From 09d34e71158c988d14f0fe224e5a230db7188f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 02/19] fix: finite vortex cylinder returns the limit values on
 the axis and on the surface instead of NaN

---
 wiz/VortexCylinder.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..8fcc7d1 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -328,10 +328,19 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     KK2 = ellipk(k2_2)
     PI1 = ellipticPiCarlson(k0_2,k1_2)
     PI2 = ellipticPiCarlson(k0_2,k2_2)
+    # --- Special values on the surface and the rims, see vc_tang_u
+    PI1 = np.where(np.isinf(PI1), 0, PI1)
+    PI2 = np.where(np.isinf(PI2), 0, PI2)
+    KK1 = np.where(np.isinf(KK1), 0, KK1)
+    KK2 = np.where(np.isinf(KK2), 0, KK2)
     # ur
     ur = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
     # uz
     uz = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
+    # --- Enforcing axis formula
+    Iz = r < (EPSILON_AXIS * R)
+    ur = np.where(Iz, 0, ur)
+    uz = np.where(Iz, gamma_t/2*(zz1/np.sqrt(zz1**2 + R**2) - zz2/np.sqrt(zz2**2 + R**2)), uz)
     if polar_out:
         return ur,uz
     else:
-- 
2.43.0


From 6fbc42ee8353dd853d12964a92a3a6769a269628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 03/19] fix: coefficient of the finite-length doublet-line
 integral I50

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 348affe..3b95f2f 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -343,7 +343,7 @@ def _integrals_DL_finite(a,b,c,L):
         s=np.sign(b)
         return 3*s/(4*c*(a -s*c*x)**4)
     def i50indef_norm(a,b,c,x):
-        return ( b*(b**2 - 3*a**2*c**2) + 2*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
+        return ( b*(b**2 - 3*a**2*c**2) + 3*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
     # I51 = \int_0^L  x'   / ( a^2  - 2 b x'  + c^2 x'^2 )^(5/2) dx'
     def i51indef_sing(a,b,c,x):
         s=np.sign(b)
-- 
2.43.0


From 54397b4e481fda1b1a55efe20461db13f5904e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 04/19] fix: viscous models of vl_semiinf_u use the norm of the
 line direction (xb,yb,zb were undefined)

---
 wiz/VortexLine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..014d91f 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -31,7 +31,7 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
         Kv = 1.0
     elif visc_model==1:
         # Rankine  - t<=>rc 
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe * xe + ye * ye + ze * ze)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         if (h < t):
             Kv = h * h / t / t
@@ -39,17 +39,17 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
             Kv = 1.0
     elif visc_model==2:
         # Lamb-Oseen  - t<=>rc
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe * xe + ye * ye + ze * ze)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = 1.0 - np.exp(- 1.25643 * h * h / t / t)
     elif visc_model==3:
         # Vatistas n=2  - t<=>rc */
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe * xe + ye * ye + ze * ze)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = h * h / np.sqrt(t ** 4 + h ** 4)
     elif visc_model==4:
         # Cut-off radius no dimensions - delta*norm(r0)^2 - t<=>delta^2
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe * xe + ye * ye + ze * ze)
         denominator = denominator + t * norm_r0
         Kv = 1.0
     elif visc_model==5:
-- 
2.43.0


From ec06478798710dd28957c8022b777d9c4f3f54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 05/19] fix: straight longitudinal cylinder and root vortex
 return limit values on the axis and surface instead of NaN

---
 wiz/VortexCylinder.py | 5 +++++
 wiz/VortexLine.py     | 1 +
 2 files changed, 6 insertions(+)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 8fcc7d1..f0f7be6 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -170,9 +170,14 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     m0    = 4*vr*R/((vr+R)**2)
     K     = ellipk(m)
     PI    = ellipticPiCarlson(m0,m)
+    # Special values on the surface and the rim, see vc_tang_u
+    K     = np.where(np.isinf(K) , 0, K)
+    PI    = np.where(np.isinf(PI), 0, PI)
     Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
+    Ar    = np.where(vr==R, 1/2, Ar) # mean of the inside and outside values
     Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
     u_psi = gamma_l/2*R/vr*(Ar +Az)
+    u_psi = np.where(vr<EPSILON_AXIS*R, 0, u_psi) # no swirl on the axis
     u_z = np.zeros(shape_in)
     if polar_out:
         u_r = np.zeros(shape_in)
diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 014d91f..d28849c 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -79,6 +79,7 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
     vz       = np.asarray(vz)
 
     u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) 
+    u_psi = np.where(vr<EPSILON_AXIS, 0, u_psi) # no induction on the axis
 
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From 34ab7c192223b39bc4c451f259042c05333a29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 06/19] fix: radial velocity of svc_longi_u_polar (polar output
 returned the azimuthal velocity twice)

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 486016c..7449d4e 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in) 
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
-- 
2.43.0


From b99117ff1fc0c4d52c51631c42b42b311faf569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 07/19] fix: svc_root_u_polar returns shaped radial velocity
 and no NaN on the axis without skew

---
 wiz/VortexCylinderSkewed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 7449d4e..c0fc61c 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -196,6 +196,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     u_z = np.zeros(vr.shape)
     if (m == 0):
         u_psi = np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2)))
+        u_psi = np.where(vr>EPSILON_AXIS, u_psi, 0) # no induction on the axis
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
@@ -224,6 +225,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
         u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = u_r.reshape(shape_in) 
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From 7f4422157c1a2964a0d521db296d199a5b850de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 08/19] fix: fKxit used the axis mask in place of the
 coefficient b1

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index c0fc61c..54ccf12 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -435,9 +435,9 @@ def fKxit(vr,m):
         Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
         Kxit[b0] = 0
     else:
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(2*(1+m**2)*vr[b1]/(m**2*np.pi),kr2[b1]) - np.multiply(np.multiply(vr[b1],(vr[b1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[b1]**2)),(np.multiply((b1[b1]+j2[b1]),Pi1[b1]) + np.multiply((b2[b1]-j2[b1]),Pi2[b1])))
+        bI = (vr) > (EPSILON_AXIS) 
+        b0 = np.logical_not(bI)
+        Kxit[bI] = np.multiply(2*(1+m**2)*vr[bI]/(m**2*np.pi),kr2[bI]) - np.multiply(np.multiply(vr[bI],(vr[bI] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[bI]**2)),(np.multiply((b1[bI]+j2[bI]),Pi1[bI]) + np.multiply((b2[bI]-j2[bI]),Pi2[bI])))
         Kxit[b0] = 0
     # See yaw article
     chi = np.arctan(m)
-- 
2.43.0


From 31594c79adfec7d54838765d5d5b6ce53ebafd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 09/19] fix: chi was undefined in fKzt when all the outputs are
 requested

---
 wiz/VortexCylinderSkewed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 54ccf12..1558f5f 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -480,6 +480,7 @@ def fKzt(r,m,nout=2):
         Kztnum2 = np.zeros(vr.shape)
         Kztnum3 = np.zeros(vr.shape)
         Kztnum4 = np.zeros(vr.shape)
+        chi = np.arctan(m)
         # My formula Alternative form1
         vtheta = np.linspace(0,np.pi,1000)
         for ir,r in enumerate(vr):
-- 
2.43.0


From f866af3fda9820ff20acdf3befc4f188609335cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 10/19] fix: linear core of ring_u_polar ignored the
 circulation and radius of the ring

---
 wiz/VortexRing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 913f879..7fd81c4 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -87,8 +87,8 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
             # Continuity in z
             rr= r0-epsilon/2
             zz= 0
-            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0)
-            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0)
+            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0, Gamma, r0)
+            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0, Gamma, r0)
             uz_mean = uzp+uzm
             #r_ref = 
             #Ir = rho < epsilon/2 
-- 
2.43.0


From f953c0c53ab1c04c62747a9d6ed05720466114f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 11/19] fix: tangential convection of the cylinders is
 (Gamma_i+Gamma_i+1)/(4 pi Omega R_i^2), the radius alone is squared

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..58a6c9f 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -196,8 +196,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
             # Tangential convection velocity as the mean of velocity on both side of the cylinder)
             # See Equation (26) of [1]:  a'_c,i = (\Gamma_i+\Gamma_i+1)/(4 pi Omega R_i^2)
             ap_cyl_conv      = np.zeros(Gamma_cp.shape)
-            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1])**2
-            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1])**2
+            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1]**2)
+            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)
         # --- Allocation
         b           = np.zeros(n) # Cummulative sum of gamma_bar
         S           = np.zeros(n) # Term under the square root
-- 
2.43.0


From 97f2515b753b9c1f7331b40a6341f9c97b91b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 12/19] fix: warning of WakeVorticityFromCirculation_Discr
 (warnings was not imported, and a debugger was started)

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 58a6c9f..a6f7f62 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -11,6 +11,7 @@ from __future__ import division
 from __future__ import print_function
 # --- General
 import unittest
+import warnings
 import numpy as np
 import scipy.optimize as sciopt
 import scipy.integrate as sciint
@@ -170,7 +171,6 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     # --- Checks
     if np.amax(r_cyl) < np.amax(r_cp):
         warnings.warn('Cylinders are assumed to enclose the control points')
-        import pdb; pdb.set_trace()
     if r_cyl[0] == 0:
         raise Exception('First cylinder at 0, impossible')
 
-- 
2.43.0


From 6be3830c6c139f417e91f88160f2a769cb8b9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 13/19] fix: continuous closures modified the caller's lambda_r
 and r_cp arrays

---
 wiz/Solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index a6f7f62..41ba7aa 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -78,6 +78,7 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     Ct_c = 4*ac*(1-ac)
     misc={}
     # Safety
+    lambda_r = np.array(lambda_r, dtype=float) # NOTE: copy, the input is not modified
     if lambda_r[0]==0:
         lambda_r[0]=lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
@@ -121,7 +122,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     Uses continuous formulation to find wake vorticity that matches a given circulation distribution
     (need to solve for pitch angle, and hence induction)
     """
-    r_cp     = np.asarray(r_cp).ravel()
+    r_cp     = np.array(r_cp, dtype=float).ravel() # NOTE: copy, the input is not modified
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
         r_cp[0]=r_cp[1]*0.5;
-- 
2.43.0


From e987c9a9ee2a18a641d4b7dea86972f1f1c3c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 14/19] fix: yaw angles of a turbine aligned with the wind are
 not NaN when rounding exceeds 1

---
 wiz/WindTurbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..cfa9e11 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -196,10 +196,11 @@ class WindTurbine:
         u_horz = self.U0_g - np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
+        cos_wind = np.clip(np.dot(e_w.T,self.e_horz_g),-1,1) # may exceed 1 by rounding
         if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = np.arccos(cos_wind)
         else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = sign * np.arccos(cos_wind)
         return yaw_wind.ravel()[0]
 
     @property
@@ -209,7 +210,7 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1)) # may exceed 1 by rounding
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From 940a18cca1f616c9c8af20c4bceb95f9daae89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 15/19] fix: orth_vect accepts vectors with three equal
 components

---
 wiz/WindTurbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index cfa9e11..e610ebc 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -32,11 +32,12 @@ def RotMat_AxisAngle(u,theta):
 def orth_vect(u):
     """ Given one vector, returns a 3x1 orthonormal vector to it"""
     u=(u/np.linalg.norm(u)).ravel()
-    if abs(u[0])>=1/np.sqrt(3):
+    c_min=0.57 # below 1/sqrt(3): at least one component of a unit vector exceeds it
+    if abs(u[0])>=c_min:
         v = np.array([[-u[1]],[u[0]] ,[0]]    )
-    elif abs(u[1])>=1/np.sqrt(3):
+    elif abs(u[1])>=c_min:
         v = np.array([[0]    ,[-u[2]],[u[1]]] )
-    elif abs(u[2])>=1/np.sqrt(3):
+    elif abs(u[2])>=c_min:
         v = np.array([[u[2]] ,[0]    ,[-u[0]]])
     else:
         raise Exception('Cannot find orthogonal vector to a zero vector: {} '.format(u))
-- 
2.43.0


From f038eb7b4d1ec006c0e2d2b37c52c0b577c846e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 16/19] fix: skew angle of a turbine follows later wind and yaw
 changes

---
 wiz/WindTurbine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index e610ebc..344b392 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -87,6 +87,7 @@ class WindTurbine:
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
         self.chi=None
+        self.chi_imposed=None # skew angle set by the user, otherwise determined from the wind and yaw
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
@@ -244,6 +245,7 @@ class WindTurbine:
 
     def set_chi(self,chi):
         self.chi=chi
+        self.chi_imposed=chi
     
     def compute_u(self, Xg, Yg, Zg, only_ind=False, longi=False, tang=True, root=False, no_wake=False, ground=None, Model=None, R_far_field=6): 
         """ 
@@ -273,8 +275,11 @@ class WindTurbine:
         Xc,Yc,Zc = transform_T(T_c2g, Xg,Yg,Zg)
         # Detecting whether our vertical convention match, and define chi
         e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
-        if self.chi is None:
+        if self.chi_imposed is not None:
+            self.chi=self.chi_imposed
+        else:
             # TODO TODO chi needs induction effect!
+            # NOTE: reevaluated at each call since the wind and yaw may have changed
             self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
-- 
2.43.0


From 39534478aa3bee5845bbaaec526382f268286f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:00 +0000
Subject: [PATCH 17/19] fix: turbines no longer share the position, wind, axis
 and loading arrays of the caller

---
 wiz/WindTurbine.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 344b392..1628293 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -2,6 +2,7 @@
 from __future__ import division
 from __future__ import print_function
 # --- General
+import copy
 import unittest
 import numpy as np
 # --- Local
@@ -91,9 +92,9 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
+        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
+        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
@@ -117,10 +118,10 @@ class WindTurbine:
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
 
     def update_position(self,r_hub):
-        self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
+        self.r_hub=np.array(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
-        self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self.U0_g = np.array(U0_g).ravel().reshape(3,1)
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
         """ 
@@ -187,8 +188,8 @@ class WindTurbine:
         #print('Gamma_/2piR',-self.Gamma_r/(2*np.pi*self.R))
         #print(misc)
         self.Lambda=Lambda
-        self.r=r
-        self.Ct=Ct
+        self.r=copy.copy(r) # not sharing the arrays of the caller
+        self.Ct=copy.copy(Ct)
 
     @property
     def yaw_wind(self):
-- 
2.43.0


From 52e1556832c0690ab20453ee7c5d151d3ec22245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:57 +0000
Subject: [PATCH 18/19] fix: gamma_t of a turbine not shared with the caller of
 update_loading

---
 wiz/WindTurbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 1628293..cd0a4f4 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -172,7 +172,7 @@ class WindTurbine:
         if gamma_t_Ct is not None:
             if Ct is None:
                 raise Exception('Provide `Ct` along `gamma_t_Ct`')
-            self.gamma_t = gamma_t_Ct(Ct)
+            self.gamma_t = copy.copy(gamma_t_Ct(Ct)) # the function may return the array of the caller
             self.gamma_l=None # TODO
             self.Gamma_r=None # TODO
         elif Ct is not None:
-- 
2.43.0


From ce4062ffa0b925215ee7b54edf64e7388d27fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 19/19] fix: svc_root_u raised ValueError for an empty array of
 control points

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 1558f5f..9eae204 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -200,7 +200,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-        if (np.max(np.abs(vz)) > 0):
+        if np.any(np.abs(vz) > 0):
             # need to use general formula
             u_x = np.zeros(vr.shape)
             u_y = np.zeros(vr.shape)
-- 
2.43.0

