From 80e792c0d7a270b53ac439fe965b6ea733dde4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 01/60] fix: cone q50 used r1^2*r2 where r1^3*r2 is needed

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 3103f95..5b4a5c1 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -210,7 +210,7 @@ def cone(LMax, rho, h, r1, r2):
     # q5 += 15*(5*r1**2*r2**4 + 6*r1*r2**5 + 7*r2**6)
     # qlm[5, L] = fac*h**2*q5*np.sqrt(11)/2688
     q5 = h**4 - 4*h**2*(3*r1**2 + r1*r2 + 3*r2**2)
-    q5 += 5*(3*r1**4 + 2*r1**2*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
+    q5 += 5*(3*r1**4 + 2*r1**3*r2 + 4*r1**2*r2**2 + 2*r1*r2**3 + 3*r2**4)
     qlm[5, L] = fac*q5*h**2*(r1**2 - r2**2)*np.sqrt(11)/896
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
-- 
2.43.0


From d5ec2ff633f87947bb4baf74ee8cfd0d8e737c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 02/60] fix: cone2 q20 radius polynomial

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 5b4a5c1..1f55051 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -260,7 +260,7 @@ def cone2(LMax, rho, h, r1, r2):
     qlm[0, L] = fac*h*(r1**2 + r1*r2 + r2**2)/6
     qlm[1, L] = fac*h**2*(r1**2 + 2*r1*r2 + 3*r2**2)/(8*np.sqrt(3))
     q20 = 2*h**2*(r1**2 + 3*r1*r2 + 6*r2**2)
-    q20 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + r1*r2**3 + r2**4)
+    q20 -= 3*(r1**4 + r1**3*r2 + r1**2*r2**2 + r1*r2**3 + r2**4)
     qlm[2, L] = fac*h*q20/(24*np.sqrt(5))
     q3 = 2*h**2*(r1**2 + 4*r1*r2 + 10*r2**2)
     q3 -= 3*(r1**4 + 2*r1**3*r2 + 3*r1**2*r2**2 + 4*r1*r2**3 + 5*r2**4)
-- 
2.43.0


From c46c696a870e5b76cd4d98e0e7006084c8e067b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 03/60] fix: trapezoid q44 sign of the undeformed term

---
 newt/qlmACH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 1f55051..f343124 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -439,7 +439,7 @@ def trapezoid(LMax, rho, t, w1, w2, h):
     qlm[4, L+2] = q42
     q44 = 24*delw**3*w**2*h**2 + 3*delw**4*w**4
     q44 -= delw*(256*h**4 - 480*h**2*w**2)
-    q44 -= delw**2*w**2*(192*h**2-40*w**2) + 16*(48*h**4-40*h**2*w**2+3*w**4)
+    q44 -= delw**2*w**2*(192*h**2-40*w**2) - 16*(48*h**4-40*h**2*w**2+3*w**4)
     q44 *= q00*np.sqrt(7/10)/2048
     qlm[4, L+4] = q44
     q51 = 3*delw**5*w**4 - 42*delw**4*w**4
-- 
2.43.0


From deaf7e77aeaa8ac14de8819bb7b278d4c6c6f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 04/60] fix: cylhole q22 and q44 (wrong dimensions and value)

---
 newt/qlmACH.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index f343124..2bfd4fd 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -665,13 +665,13 @@ def cylhole(LMax, rho, r, R):
     Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
     qlm[0, L] = fac*r*Fc2
     qlm[2, L] = -fac*r*np.sqrt(5)/6*((r**2-2*R**2)*Fc2 + r**2*Fc3)
-    qlm[2, L+2] = fac*r*np.sqrt(15/2)*Fc2
+    qlm[2, L+2] = fac*r**3*np.sqrt(15/2)/6*(Fc3 - Fc2)
     q40 = (9*r**5-40*r**3*R**2+24*r*R**4)*Fc2 + (13*r**5-32*r**3*R**2)*Fc3
     q40 += 16*r**5*Fc4
     qlm[4, L] = fac/40*q40
     q42 = (6*r**2-20*R**2)*Fc2 + 2*(r**2+10*R**2)*Fc3 - 13*r**2*Fc4
     qlm[4, L+2] = fac*r**3*q42/(8*np.sqrt(10))
-    qlm[4, L+4] = 3*fac*r*np.sqrt(35/2)*Fc2/2
+    qlm[4, L+4] = 3*fac*r**5*np.sqrt(35/2)/40*(Fc2 - 3*Fc3 + 2*Fc4)
 
     # Moments always satisfy q(l, -m) = (-1)^m q(l, m)*
     ms = np.arange(-L, L+1)
-- 
2.43.0


From 24e81142d0ddae45cf13fb9dc730d091d4afdc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 05/60] fix: outer annulus Q20 lacked the factor H

---
 newt/bigQlm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index bc18a14..ac197a3 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -105,8 +105,8 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Qlmb[1, L] = sH*dens*np.sqrt(3/np.pi)*phih*Q10
     Q11 = np.log((r1+d1)/(r0+d0))
     Qlmb[1, L+1] = -dens*H*np.sqrt(3/(2*np.pi))*Q11*np.sin(phih)
-    Q22 = 1/d1 - 1/d0
-    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q22
+    Q20 = H*(1/d1 - 1/d0)
+    Qlmb[2, L] = dens*np.sqrt(5/(4*np.pi))*phih*Q20
     Q21 = r1/d1 - r0/d0 + np.log((r1*(r0+d0))/(r0*(r1+d1)))
     Qlmb[2, L+1] = -sH*dens*np.sqrt(5/(6*np.pi))*Q21*np.sin(phih)
     Q22 = H*(1/d0-1/d1) - 2*np.log((r0*(H+d1))/(r1*(H+d0)))
-- 
2.43.0


From 880df2a7af6679ada1396a185be9f0af01f93945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 06/60] fix: outer annulus Q53 radius polynomial

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index ac197a3..0d7e1fb 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -141,7 +141,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
     Q52 = 5/r1**3 + (4*H**4+14*H**2*r1**2-5*r1**4)/d1**7
     Q52 -= 5/r0**3 + (4*H**4+14*H**2*r0**2-5*r0**4)/d0**7
     Qlmb[5, L+2] = sH*dens*np.sqrt(11/(210*np.pi))/12*Q52*np.sin(2*phih)/2
-    Q53 = r1**5*(7*H**2+r1**2)/d1**7 - r0**5*(7*H**2+r0**2)/d0**7
+    Q53 = r1**5*(7*H**2+2*r1**2)/d1**7 - r0**5*(7*H**2+2*r0**2)/d0**7
     Qlmb[5, L+3] = dens*np.sqrt(11/(35*np.pi))/(16*H**3)*Q53*np.sin(3*phih)/3
     Q54 = 35/r0**3 - (8*H**4+28*H**2*r0**2+35*r0**4)/d0**7
     Q54 -= 35/r1**3 - (8*H**4+28*H**2*r1**2+35*r1**4)/d1**7
-- 
2.43.0


From 7b68aab3ed52f1a5d5a9b43ba9ab02b375b418b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 07/60] fix: outer annulus was rotated by -phic instead of phic

---
 newt/bigQlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/bigQlm.py b/newt/bigQlm.py
index 0d7e1fb..fdef32b 100644
--- a/newt/bigQlm.py
+++ b/newt/bigQlm.py
@@ -152,7 +152,7 @@ def annulus(LMax, dens, H, r0, r1, phic, phih):
 
     # Moments always satisfy Q(l, -m) = (-1)^m Q(l, m)*
     ms = np.arange(-L, L+1)
-    Qlmb *= np.exp(-1j*ms*phic)
+    Qlmb *= np.exp(1j*ms*phic)
     mfac = (-1)**(np.abs(ms))
     Qlmb += np.conj(np.fliplr(Qlmb))*mfac
     Qlmb[:, L] /= 2
-- 
2.43.0


From d208b295736ab80d686a396cc70ecd2ca263a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 08/60] fix: point-mass sphere grid covered only half of the
 diameter

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index d63c9bd..dc2740d 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -76,7 +76,7 @@ def sphere(mass, R, N):
     """
     pointArray = np.zeros([N**3, 4])
     pointArray[:, 0] = mass/N**3
-    grid = R/N
+    grid = 2*R/N
 
     ctr = 0
     for k in range(N):
-- 
2.43.0


From 641767d8ee53a9905cc07f10bb94cf1e8e8eb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 09/60] fix: rectangle cloud was off-centre in y when nx != ny

---
 newt/glibShapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index dc2740d..bb77493 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -134,7 +134,7 @@ def rectangle(mass, x, y, z, nx, ny, nz):
         for l in range(ny):
             for m in range(nx):
                 pointArray[k*ny*nx+l*nx+m, 1] = (m-(nx-1)/2)*xgrid
-                pointArray[k*ny*nx+l*nx+m, 2] = (l-(nx-1)/2)*ygrid
+                pointArray[k*ny*nx+l*nx+m, 2] = (l-(ny-1)/2)*ygrid
                 pointArray[k*ny*nx+l*nx+m, 3] = (k-(nz-1)/2)*zgrid
 
     return pointArray
-- 
2.43.0


From 514a819c19f46186a0b8da847f32cd7faf24abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 10/60] fix: triangular prism and tetrahedron clouds missed y<0

---
 newt/glibShapes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index bb77493..fee2c16 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -523,8 +523,9 @@ def tri_prism(mass, d, y1, y2, t, nx, ny, nz):
     if y2 < y1:
         print('Require y2 > y1')
         return []
-    base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    ymin, ymax = np.min([0, y1]), np.max([0, y2])
+    base = ymax-ymin
+    yave = (ymax+ymin)/2
     zgrid = t/nz
     xgrid = d/nx
     ygrid = base/ny
@@ -583,8 +584,9 @@ def tetrahedron(mass, x, y1, y2, z, nx, ny, nz):
     if y2 < y1:
         print('Require y2 > y1')
         return []
-    base = np.max([0, y2])-np.min([0, y1])
-    yave = base/2
+    ymin, ymax = np.min([0, y1]), np.max([0, y2])
+    base = ymax-ymin
+    yave = (ymax+ymin)/2
     zgrid = z/nz
     xgrid = x/nx
     ygrid = base/ny
-- 
2.43.0


From eac244a7ad8d42bbd59629fb57e06ea43e5866b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 11/60] fix: pyramid cloud took the documented half-lengths as
 full lengths

---
 newt/glibShapes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index fee2c16..4f3168c 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -708,11 +708,11 @@ def pyramid(mass, x, y, z, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     zgrid = z/nz
-    xgrid = x/nx
-    ygrid = y/ny
+    xgrid = 2*x/nx
+    ygrid = 2*y/ny
     print(xgrid, ygrid)
 
-    density = mass/(z*y*x/3)
+    density = mass/(4*z*y*x/3)
     pointMass = density*(xgrid*ygrid*zgrid/3)
 
     pointArray = np.zeros([nx*ny*nz, 4])
@@ -724,10 +724,10 @@ def pyramid(mass, x, y, z, nx, ny, nz):
                 xval = (m-(nx-1)/2)*xgrid
                 yval = (l-(ny-1)/2)*ygrid
                 zval = (k-(nz-1)/2)*zgrid + z/2
-                yx = yval*x/2
-                xy = xval*y/2
-                xr = 2*xval/x
-                yr = 2*yval/y
+                yx = yval*x
+                xy = xval*y
+                xr = xval/x
+                yr = yval/y
                 # upper quad
                 if (xy <= yx) and (xy >= -yx) and (zval <= z*(1-yr)):
                     pointArray[ctr, 1:] = xval, yval, zval
-- 
2.43.0


From 9d4b4ab2a006acaadf8f1505d030d1e160d1912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 12/60] fix: platehole cloud used a circular section and lost
 part of the hole for theta<0

---
 newt/glibShapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glibShapes.py b/newt/glibShapes.py
index 4f3168c..85a301c 100644
--- a/newt/glibShapes.py
+++ b/newt/glibShapes.py
@@ -837,7 +837,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
         point mass array of format [m, x, y, z]
     """
     s = np.tan(theta)
-    x = 2*(r + t*s/2)
+    x = r*np.sqrt(1+s**2) + t*abs(s)/2
     zgrid = t/nz
     xgrid = 2*x/nx
     ygrid = 2*r/ny
@@ -856,7 +856,7 @@ def platehole(mass, t, r, theta, nx, ny, nz):
                 y = (l-(ny-1)/2)*ygrid
                 z = (k-(nz-1)/2)*zgrid
                 xz = z*s
-                if (y**2 + (x-xz)**2) <= r**2:
+                if (y**2 + (x-xz)**2/(1+s**2)) <= r**2:
                     pointArray[ctr, 1:] = x, y, z
                     ctr += 1
 
-- 
2.43.0


From 94070b5f6c2ec15d0fa639ec27356b0b81ba9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 13/60] fix: Gauss-Legendre annulus used dd nodes in z and
 twice the thickness

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index f50f68a..33a88fd 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -129,13 +129,13 @@ def annulus(mass, iR, oR, t, dd, dz):
     pointArray = np.zeros([dz*dd**2, 4])
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*oR
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*oR
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t
+                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*t/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
-- 
2.43.0


From 4810f8987caf1eb3738ee4c4ec73d686ea4a6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 14/60] fix: Gauss-Legendre wedge used dd nodes in z and twice
 the thickness

---
 newt/gShapeGL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 33a88fd..c404e51 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -230,13 +230,13 @@ def wedge(mass, iR, oR, t, theta, dd, dz):
     ctr = 0
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 x = sx[m]*dx + xa
                 y = sy[l]*ymax
-                z = sz[k]*t
+                z = sz[k]*t/2
                 w = wx[m]*wy[l]*wz[k]
                 r = np.sqrt(x**2 + y**2)
                 q = np.arctan2(y, x)
-- 
2.43.0


From d11a842ad3145d5f4a8b03eb1a3147604d654284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 15/60] fix: Gauss-Legendre cone was a double cone with dd
 nodes in z

---
 newt/gShapeGL.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index c404e51..7652842 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -150,7 +150,8 @@ def annulus(mass, iR, oR, t, dd, dz):
 
 def cone(mass, R, H, dd, dz):
     """
-    Creates point masses distributed in a cone of mass m.
+    Creates point masses distributed in a cone of mass m with base on the
+    xy-plane and apex at z=H.
 
     Inputs
     ------
@@ -174,18 +175,18 @@ def cone(mass, R, H, dd, dz):
     tanTheta = H/R
     sx, wx = np.polynomial.legendre.leggauss(dd)
     sy, wy = np.polynomial.legendre.leggauss(dd)
-    sz, wz = np.polynomial.legendre.leggauss(dd)
+    sz, wz = np.polynomial.legendre.leggauss(dz)
     for k in range(dz):
         for l in range(dd):
             for m in range(dd):
                 pointArray[k*dd*dd+l*dd+m, 1] = sx[m]*R
                 pointArray[k*dd*dd+l*dd+m, 2] = sy[l]*R
-                pointArray[k*dd*dd+l*dd+m, 3] = sz[k]*H
+                pointArray[k*dd*dd+l*dd+m, 3] = (sz[k]+1)*H/2
                 pointArray[k*dd*dd+l*dd+m, 0] = wx[m]*wy[l]*wz[k]
 
     pointArray = np.array([pointArray[k] for k in range(dz*dd**2) if
                            pointArray[k, 1]**2+pointArray[k, 2]**2 <=
-                           (pointArray[k, 3]/tanTheta)**2])
+                           ((H-pointArray[k, 3])/tanTheta)**2])
 
     # Correct the masses of the points
     pointArray[:, 0] *= mass/np.sum(pointArray[:, 0])
-- 
2.43.0


From 3112905d9d1c7236e59e861588da1187790ba10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 16/60] fix: Gauss-Legendre triangular prism covered half of
 its y range

---
 newt/gShapeGL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/gShapeGL.py b/newt/gShapeGL.py
index 7652842..963b514 100644
--- a/newt/gShapeGL.py
+++ b/newt/gShapeGL.py
@@ -295,7 +295,7 @@ def tri_prism(mass, d, y1, y2, t, dx, dy, dz):
         for l in range(dy):
             for m in range(dx):
                 pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*d/2 + d/2
-                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base/2 + yave
+                pointArray[k*dy*dx+l*dx+m, 2] = sy[l]*base + yave
                 pointArray[k*dy*dx+l*dx+m, 3] = sz[k]*t/2
                 pointArray[k*dy*dx+l*dx+m, 0] = wx[m]*wy[l]*wz[k]
 
-- 
2.43.0


From 1c8b7910376e6242526e2e7fd38e763ea7d877d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 17/60] fix: torque from an inner source moved along +z ignored
 the m sign flip

The 'inner-outer' torque reverses m when inner moments become outer ones.
The branch for a translation exactly along +z built the matrices but did not
pass the flag on, so the returned torque was wrong there.
---
 newt/multipoleLib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index ab82681..bacbf8c 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -279,7 +279,7 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 q2Q = True
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
-            qnew = trr.apply_trans_mat_right(qnew, sms)
+            qnew = trr.apply_trans_mat_right(qnew, sms, q2Q)
             qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
         else:
             phi = np.arctan2(rvec[1], rvec[0])
-- 
2.43.0


From 2922e54ae6a89e2800cce65811dc22a04ca5c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 18/60] fix: outer-outer torque used the wrong sense of
 rotation off the z axis

Translating outer moments needs the frame turned with (phi, -theta, phi), as
translationRecurs.translate_Qlmb does; the torque used (-phi, -theta, -phi),
right only for translations in the xz plane.
---
 newt/multipoleLib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index bacbf8c..3188172 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -291,6 +291,8 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
                 Ds2 = rot.wignerDl(minL, phi, -theta, phi)
             else:
                 sms = trr.transl_newt_z_SS(minL, r)
+                # Outer moments turn with the opposite sense in z
+                Ds = rot.wignerDl(minL, phi, -theta, phi)
                 Ds2 = Ds
             # Translate and rotate in opposite order than applied to q
             qnew = rot.rotate_qlm_Ds_right(qnew, Ds2, True)
-- 
2.43.0


From 3ff170008a4bf7bb21e6b965f40f493acd7cdf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 19/60] fix: Yukawa moments of every degree used the Bessel
 function of degree l

imoments evaluated spherical_in at the maximum degree for all n; the
single-moment function imoment (and the definition) use the moment's own.
---
 newt/pg2Multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 76019c7..850da13 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -222,7 +222,7 @@ def imoments(l, lmbd, massArray):
     ilms[0, l] = np.sum(ilm)
 
     for n in range(1, l+1):
-        il = sp.spherical_in(l, r/lmbd)
+        il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
             ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
             ilm *= massArray[rids, 0]*il[rids]
-- 
2.43.0


From 93b89ea69b8ae1b77255e4f07a4311cfba05e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 20/60] fix: single moments failed when a point sits at the
 origin

qmoment and imoment dropped origin points from the angles only, so l > 0
raised a shape mismatch; the array versions already handle those points.
---
 newt/pg2Multi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 850da13..206aaed 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -34,7 +34,8 @@ def qmoment(l, m, massArray):
     if l == 0:
         qlm = massArray[:, 0]/np.sqrt(4*np.pi)
     else:
-        qlm = massArray[:, 0]*r**l*np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm = np.conj(sp.sph_harm(m, l, phi, theta))
+        qlm *= massArray[rids, 0]*r[rids]**l
     qlm = np.sum(qlm)
     return qlm
 
@@ -99,7 +100,8 @@ def imoment(l, m, lmbd, massArray):
     if l == 0:
         ilm = massArray[:, 0]*il/np.sqrt(4*np.pi)
     else:
-        ilm = massArray[:, 0]*il*np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm = np.conj(sp.sph_harm(m, l, phi, theta))
+        ilm *= massArray[rids, 0]*il[rids]
     ilm = np.sum(ilm)
     return ilm
 
-- 
2.43.0


From 1cf2f49e30ca0f4024164cc3b190d2bb7a033f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 21/60] fix: zero translation returned the caller's own array

Every other displacement (and translationRecurs) returns a new array; writing
to the result of a zero translation changed the moments passed in.
---
 newt/translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/translations.py b/newt/translations.py
index c943bbe..c5b8874 100644
--- a/newt/translations.py
+++ b/newt/translations.py
@@ -34,7 +34,7 @@ def translate_qlm(qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return qlm
+        return np.copy(qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of qlm for now
@@ -95,7 +95,7 @@ def translate_Qlmb(Qlm, rPrime):
     """
     rP = np.sqrt(rPrime[0]**2+rPrime[1]**2+rPrime[2]**2)
     if rP == 0:
-        return Qlm
+        return np.copy(Qlm)
     phiP = np.arctan2(rPrime[1], rPrime[0])
     thetaP = np.arccos(rPrime[2]/rP)
     # Restrict LMax to size of Qlm for now
-- 
2.43.0


From 61587c5484c4e6386e9d79a5d145ea00922abca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 22/60] fix: rotation matrices for maximum degree 0

The recursion returned a bare float there, not a list of one matrix, so
wignerDl/dlmn and everything built on them failed for monopole moments.
---
 newt/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/rotations.py b/newt/rotations.py
index e5ead66..7ffd77a 100644
--- a/newt/rotations.py
+++ b/newt/rotations.py
@@ -30,7 +30,7 @@ def rotate_H_recurs(p, beta, Hn_prev=None):
     https://arxiv.org/pdf/1403.7698v1.pdf
     """
     if p == 0:
-        return 1.0
+        return [np.ones([1, 1])]
     else:
         H = []
 
-- 
2.43.0


From 65bb78c17e8efc5f19198f4927549bdee1106f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 23/60] fix: force between monopole-only moments at the origin
 raised IndexError

---
 newt/multipoleLib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index 3188172..f1c4171 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -22,7 +22,10 @@ def force_basis(L, x, y, z):
     bY = np.zeros([L+1, 2*L+1], dtype='complex')
     bZ = np.zeros([L+1, 2*L+1], dtype='complex')
 
-    if (x == 0) and (y == 0) and (z == 0):
+    if L == 0:
+        # A monopole alone feels no force at any position
+        pass
+    elif (x == 0) and (y == 0) and (z == 0):
         bZ[1, L] = 1
         bX[1, L+1] = -1/2
         bY[1, L+1] = 1j/2
-- 
2.43.0


From 57e5f8b7e8857eccbf9da7c2093fd18d0168ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 24/60] fix: torques between moments of different maximum
 degree

torque_lm and torque choose the smaller of the two degrees but then used the
full arrays, so any mismatch raised a broadcasting error.
---
 newt/multipoleLib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/multipoleLib.py b/newt/multipoleLib.py
index f1c4171..a875736 100644
--- a/newt/multipoleLib.py
+++ b/newt/multipoleLib.py
@@ -191,6 +191,7 @@ def torque_lm(qlm, Qlm, cnst=BIG_G):
     ls = np.arange(minL+1)
     lfac = 1/(2*ls+1)
     ms = np.arange(-minL, minL+1)
+    qlm, Qlm = embed_qlm(qlm, minL), embed_qlm(Qlm, minL)
     nlm = -4*np.pi*cnst*1j*np.outer(lfac, ms)*qlm*Qlm
 
     nm = np.sum(nlm, 0)
@@ -248,8 +249,8 @@ def torque(qlm, Qlm, euler, rvec, trans_type='inner-inner', cnst=BIG_G):
         DsR = rot.wignerDl(minL, alpha, beta, gamma)
     else:
         DsR = rot.wignerDl(minL, -alpha, beta, -gamma)
-    qnew = np.copy(qlm)
-    Qnew = np.copy(Qlm)
+    qnew = embed_qlm(qlm, minL)
+    Qnew = embed_qlm(Qlm, minL)
     r = np.sqrt(rvec[0]**2 + rvec[1]**2 + rvec[2]**2)
     if trans_type == 'inner-inner':
         Qnew *= np.outer(lfac, ms)
-- 
2.43.0


From 9ff44ca2b7405ea9c461d683721711adf7817964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 25/60] fix: N-gon mesh had half the side length and ignored
 phic

polygon() takes the diameter of the circumscribed circle, not its radius.
---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index d35bb2a..aef7f82 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -312,9 +312,9 @@ def ngon_prism(pmass, H, a, phic, N):
     """
     ang = 2*np.pi/N
     R = a/np.sqrt(2*(1-np.cos(ang)))
-    result = cq.Workplane("XY").polygon(N, R).extrude(H/2, both=True)
+    result = cq.Workplane("XY").polygon(N, 2*R).extrude(H/2, both=True)
     result.pmass = pmass
-    result = rotate_mesh(result, ang/2, 0, 0)
+    result = rotate_mesh(result, phic+ang/2, 0, 0)
     return result
 
 
-- 
2.43.0


From dd3658ff7599c08ee33238aeeba6ae85f15442e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 26/60] fix: pyramid mesh took the documented half-lengths as
 full lengths

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index aef7f82..7cc1441 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -422,7 +422,7 @@ def pyramid(pmass, x, y, z):
     -------
     result : CadQuery object
     """
-    vertices = [[x/2,y/2,0], [x/2,-y/2,0], [-x/2,-y/2,0], [-x/2,y/2,0], [0,0,z]]
+    vertices = [[x,y,0], [x,-y,0], [-x,-y,0], [-x,y,0], [0,0,z]]
     faces_ixs = [[0,1,2,3,0], [0,1,4,0], [1,2,4,1], [2,3,4,2], [3,0,4,3]]
 
     faces = []
-- 
2.43.0


From 3d54c9d4cf7cb7f0ca5c3e543804e3540c2b76e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 27/60] fix: cylindrical-hole mesh swapped heights and radii

cylinder() takes (height, radius).  The large cylinder now lies along x like
the moments (qlmNum.steinmetz) used for the same Shape.
---
 newt/genCAD.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 7cc1441..36071e0 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -457,9 +457,9 @@ def cylhole(pmass, r, R):
     -------
     result : CadQuery object
     """
-    mr = cylinder(0, r, 2*R)
-    mR = cylinder(0, R, 2*r)
-    mR = mR.rotate((0,0,0), (1,0,0), 90)
+    mr = cylinder(0, 3*R, r)
+    mR = cylinder(0, 3*R, R)
+    mR = mR.rotate((0,0,0), (0,1,0), 90)
     result = mr.intersect(mR)
     result.pmass = pmass
     return result
-- 
2.43.0


From a38826a0b92e9e9c3dc12be99c2776f8bc877aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 28/60] fix: plate-hole mesh was cut short at negative and
 large angles

Plate and drill were too small for the hole to pass right through.
---
 newt/genCAD.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 36071e0..c93548a 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -492,8 +492,9 @@ def platehole(pmass, t, r, theta):
     qlm : ndarray
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
-    rect = rect_prism(pmass, t, 2*r+2*t*np.sin(theta), 2*r + 2*t*np.sin(theta), 0)
-    cyl = cylinder(0, 2*t, r)
+    tant, cost = np.tan(abs(theta)), np.cos(theta)
+    rect = rect_prism(pmass, t, 2*(t*tant+2*r/cost), 4*r, 0)
+    cyl = cylinder(0, 2*(t/cost+2*r*tant), r)
     cyl = rotate_mesh(cyl, 0, theta, 0)
     result = rect.intersect(cyl)
     result.pmass = pmass
-- 
2.43.0


From 28cfcaeab585efc90768c17643694a7e9c63e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 29/60] fix: outer cone mesh was not symmetric about the x-axis

The section is defined as -phih..phih but the mesh covered 0..2*phih.
---
 newt/genCAD.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index c93548a..c9c7997 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -526,10 +526,11 @@ def outercone(pmass, H, IR, OR, phih):
         raise ValueError('IR must be greater than 0.')
     else:
         result = (cq.Workplane("XZ")
-            .lineTo(OR,0).lineTo(IR,H).lineTo(IR,0)
+            .moveTo(IR,0).lineTo(OR,0).lineTo(IR,H)
             .close().revolve(2*phih*180/np.pi,(0,0,0),(0,1,0))
         )
     result.pmass = pmass
+    result = rotate_mesh(result, -phih, 0, 0)
     return result
 
 
-- 
2.43.0


From 8cbc50a395b374cdf9f2fa5cd14bb8b0aaadbb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 30/60] fix: trapezoid mesh had its height along z and
 thickness along y

The documented shape (and qlmACH.trapezoid) has thickness along z, the two
parallel sides along y and the height along x.
---
 newt/genCAD.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index c9c7997..0a5ff38 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -274,10 +274,8 @@ def trapezoid(pmass, t, w1, w2, h):
     result : CadQuery object
     """
     result = (cq.Workplane("XY")
-        .rect(w1, t)
-        .workplane(offset=h)
-        .rect(w2, t)
-        .loft()
+        .moveTo(0, -w1/2).lineTo(h, -w2/2).lineTo(h, w2/2).lineTo(0, w1/2)
+        .close().extrude(t/2, both=True)
     )
     result.pmass = pmass
     return result
-- 
2.43.0


From 612b281621eb72467c01e3f2369386dafed792d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 31/60] fix: saving a single mesh failed

A cadquery Workplane is itself iterable, so every single mesh (and with it
Shape.save_shape) was taken for a list of meshes.
---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 0a5ff38..b623a38 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -602,7 +602,7 @@ def save_stl(mesh, name):
     -------
     None. Outputs file
     """
-    if hasattr(mesh, '__iter__'):
+    if isinstance(mesh, (list, tuple)):
         tmpmesh = sum_mesh(mesh)
         cq.exporters.export(tmpmesh, f"{name}.stl",tolerance=.01)
 
-- 
2.43.0


From 1d84987288a894bea8b24c3c179dc764b4863cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 32/60] fix: meshes were rotated by the Euler angles in the
 opposite order

rotate_qlm (and the centre of mass in Shape.rotate) turn by gamma about z,
then beta about y, then alpha about z.
---
 newt/genCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index b623a38..2d10332 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -570,9 +570,9 @@ def rotate_mesh(mesh, alpha, beta, gamma):
     result: CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
+    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
     result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
-    result = result.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
+    result = result.rotate((0,0,0), (0,0,1), alpha*180/np.pi)
     result.pmass = pmass
     return result
 
-- 
2.43.0


From 2020796b31719d1bb7000e8684dc4cbf5cbe00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 33/60] fix: outer moments of a Shape rotated with the wrong
 sense about z

---
 newt/shapes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 4f0dd43..122155d 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -56,7 +56,11 @@ class Shape:
         np.savetxt(filename+'.txt', self.qlm, header=header)
 
     def rotate(self, alpha, beta, gamma):
-        self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        if self.inner:
+            self.qlm = rot.rotate_qlm(self.qlm, alpha, beta, gamma)
+        else:
+            # Outer moments are not conjugated: the z angles change sign
+            self.qlm = rot.rotate_qlm(self.qlm, -alpha, beta, -gamma)
         self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
 
         # Rotate center of mass using point-gravity tools
-- 
2.43.0


From bc07971219a80a1a42de7cf3dbe84b8708c89a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 34/60] fix: a refused Shape translation had already moved the
 mesh and com

The check for outer to inner translations came after both were changed.
---
 newt/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 122155d..0e6c7f3 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -71,6 +71,8 @@ class Shape:
         self.com = rotcom[1:4]
 
     def translate(self, tvec, to_inner):
+        if not self.inner and to_inner:
+            raise ValueError('Outer to inner translations not allowed.')
         self.com += tvec
         self.mesh = gcad.translate_mesh(self.mesh, tvec)
         if self.inner and to_inner:
@@ -78,10 +80,8 @@ class Shape:
         elif self.inner and not to_inner:
             self.inner = False
             self.qlm = trs.translate_q2Q(self.qlm, tvec)
-        elif not self.inner and not to_inner:
-            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
         else:
-            raise ValueError('Outer to inner translations not allowed.')
+            self.qlm = trs.translate_Qlmb(self.qlm, tvec)
 
     def add(self, shapes):
         """
-- 
2.43.0


From edd2f9b926e71173dd598f810ca65dc7fef0d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 35/60] fix: outer Annulus moments were for half the given mass

---
 newt/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 0e6c7f3..f9e567c 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -142,7 +142,7 @@ class Annulus(Shape):
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
-            dens = mass/(2*phih*(Ro**2 - Ri**2)*H)
+            dens = mass/(phih*(Ro**2 - Ri**2)*H)
             self.qlm = bqlm.annulus(lmax, dens, H/2, Ri, Ro, phic, phih)
             self.qlm += bqlm.annulus(lmax, dens, -H/2, Ri, Ro, phic, phih)
 
-- 
2.43.0


From 4faaabbea0f1810532efd9265d25698159902fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 36/60] fix: outer Sphere kept zero moments and stayed at the
 origin

---
 newt/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index f9e567c..452df38 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -202,7 +202,10 @@ class Sphere(Shape):
             self.translate(center, True)
         else:
             dens = mass/(4*np.pi*R**3/3)
-            bqlm.sphere(lmax, dens, R, center[0], center[1], center[2])
+            self.qlm = bqlm.sphere(lmax, dens, R, center[0], center[1],
+                                   center[2])
+            self.mesh = gcad.translate_mesh(self.mesh, center)
+            self.com = np.array(center, dtype=float)
 
 
 class NGon(Shape):
-- 
2.43.0


From 439c6447f234a20c136321723a9fd29557c07e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 37/60] fix: OuterCone kept zero moments, and its density
 formula

The volume under z = H (OR-r)/(OR-IR) is phih H (OR-IR)(OR+2IR)/3.
---
 newt/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 452df38..662364f 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -257,12 +257,12 @@ class OuterCone(Shape):
     def __init__(self, lmax, inner, mass, H, IR, OR, phih):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
-        self.mesh = gcad.outercone(mass, H, IR, OR, phih)
+        self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-            dens = mass/(2*phih*H*(OR**2-IR**2)/3)
-            bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
+            dens = mass/(phih*H*(OR-IR)*(OR+2*IR)/3)
+            self.qlm = bqlmn.outer_cone(lmax, dens, H, IR, OR, phih)
 
 
 class Cylhole(Shape):
-- 
2.43.0


From 4d4d2a8d7c1dadd4a7f2b3d2a7320ded03d37289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 38/60] fix: Cylhole and Platehole moments were 4 pi times too
 large

q00 is mass/sqrt(4 pi).
---
 newt/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/shapes.py b/newt/shapes.py
index 662364f..ba71c52 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -276,7 +276,7 @@ class Cylhole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.steinmetz(lmax, dens, r, R)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
         else:
             print('Outer cylindrical hole shape not defined.')
 
@@ -292,6 +292,6 @@ class Platehole(Shape):
         if self.inner:
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
-            self.qlm *= mass/np.real(self.qlm[0, lmax])*np.sqrt(4*np.pi)
+            self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From 8abb4c5bc7c94b8141a4caf2c541a452f8d953b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 39/60] fix: Platehole moments and mesh were in frames tilted
 by theta

The mesh (like qlmACH.platehole) has the plate in the xy-plane and a tilted
hole; qlmNum.platehole has the hole along z and a tilted plate.
---
 newt/shapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index ba71c52..fd71d15 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -293,5 +293,7 @@ class Platehole(Shape):
             dens = 1
             self.qlm = qlmn.platehole(lmax, dens, t, r, theta)
             self.qlm *= mass/np.real(self.qlm[0, lmax])/np.sqrt(4*np.pi)
+            # Tilt the hole, not the plate, to match the mesh
+            self.qlm = rot.rotate_qlm(self.qlm, 0, theta, 0)
         else:
             print('Outer plate hole shape not defined.')
-- 
2.43.0


From 81ace7271e5432e7d7319fe0d55fef97e746f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 40/60] fix: Shapes off the origin reported their centre of
 mass at the origin

Annular sections, triangular prisms, cones, tetrahedra, pyramids and outer
cones are not centred, so rotate, translate and add carried a wrong com.
---
 newt/shapes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/newt/shapes.py b/newt/shapes.py
index fd71d15..0d664f7 100644
--- a/newt/shapes.py
+++ b/newt/shapes.py
@@ -139,6 +139,8 @@ class Annulus(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.annulus(mass > 0, H, Ri, Ro, phic, phih)
+        rbar = 2*(Ro**2 + Ro*Ri + Ri**2)/(Ro + Ri)/3*np.sinc(phih/np.pi)
+        self.com = rbar*np.array([np.cos(phic), np.sin(phic), 0])
         if self.inner:
             self.qlm = qlm.annulus(lmax, mass, H, Ri, Ro, phic, phih)
         else:
@@ -169,6 +171,7 @@ class TriPrism(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tri_prism(mass > 0, H, d, y1, y2)
+        self.com = np.array([2*d, y1 + y2, 0])/3
         if self.inner:
             self.qlm = qlm.tri_prism(lmax, mass, H, d, y1, y2)
         else:
@@ -183,6 +186,8 @@ class Cone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.cone(mass > 0, P, 0, R, phic, phih)
+        rbar = R/2*np.sinc(phih/np.pi)
+        self.com = np.array([rbar*np.cos(phic), rbar*np.sin(phic), P/4])
         if self.inner:
             self.qlm = qlm.cone(lmax, mass, P, R, phic, phih)
         else:
@@ -230,6 +235,7 @@ class Tetrahedron(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.tetrahedron2(mass > 0, x, y1, y2, z)
+        self.com = np.array([2*x, y1 + y2, z])/4
         if self.inner:
             self.qlm = qlm.tetrahedron2(lmax, mass, x, y1, y2, z)
         else:
@@ -244,6 +250,7 @@ class Pyramid(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.pyramid(mass > 0, x, y, z)
+        self.com = np.array([0, 0, z/4])
         if self.inner:
             self.qlm = qlm.pyramid(lmax, mass, x, y, z)
         else:
@@ -258,6 +265,8 @@ class OuterCone(Shape):
         Shape.__init__(self, lmax, inner)
         self.mass = mass
         self.mesh = gcad.outercone(mass > 0, H, IR, OR, phih)
+        rbar = (OR**2 + 2*OR*IR + 3*IR**2)/(OR + 2*IR)/2*np.sinc(phih/np.pi)
+        self.com = np.array([rbar, 0, H*(OR + 3*IR)/(OR + 2*IR)/4])
         if self.inner:
             print('Inner cone shape should come from Cone.')
         else:
-- 
2.43.0


From 6dc221694cf44a364167829f804623fb4c6f8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 41/60] fix: mpc triangles on the -x side had negative mass

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 31c8be9..b1a3e7a 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -201,7 +201,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 d, y1, y2, t = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*t*d*abs(y2-y1)/2
+                mass = dens*t*abs(d*(y2-y1))/2
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-- 
2.43.0


From 6d190673c3433824cfdec831ffcf610fd9b449c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 42/60] fix: mpc trapezoids with equal sides or one zero side

Equal sides divided by zero; a zero side (a triangle) was refused.
---
 newt/read_multiFor.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index b1a3e7a..94dcf4e 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -223,14 +223,22 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     flip = False
                 dens = float(lines[3+k].split(',')[0])*1000
                 y1, y2 = w3/2, w4/2
-                hs = w3*h/(w4-w3)
-                hb = h + hs
-                massTrib = dens*t*w4*hb/2
-                massTris = dens*t*w3*hs/2
-                print(hs, hb, w3, w4)
-                qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
-                qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs, 0)
-                qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
+                if w3 == w4:
+                    # Parallel sides, just a rectangle
+                    hs, hb = 0, h
+                    qlmWrk = qlm.rect_prism(LMax, dens*t*h*w3, t, h, w3, 0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [h/2, 0, 0])
+                else:
+                    hs = w3*h/(w4-w3)
+                    hb = h + hs
+                    massTrib = dens*t*w4*hb/2
+                    massTris = dens*t*w3*hs/2
+                    print(hs, hb, w3, w4)
+                    qlmWrk = qlm.tri_iso_prism(LMax, massTrib, t, w4, hb, 0)
+                    if w3 > 0:
+                        qlmWrk -= qlm.tri_iso_prism(LMax, massTris, t, w3, hs,
+                                                    0)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [-hs, 0, 0])
                 if flip:
                     qlmWrk = trs.translate_qlm(qlmWrk, [-(hb-hs), 0, 0])
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
-- 
2.43.0


From 0eb6f61053b884f0ac492b32d12d8d3b60cbc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 43/60] fix: mpc cones ignored their upper radius

Every cone was treated as coming to a point, so truncated cones had the wrong
mass and moments.
---
 newt/read_multiFor.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 94dcf4e..f2ac184 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -185,9 +185,23 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 line2 = [float(val)*fac for val in lines[2+k].split(',')]
                 LR, UR, H = line2
                 dens = float(lines[3+k].split(',')[0])*1000
-                mass = dens*np.pi*H*LR**2/3
+                mass = dens*np.pi*H*(LR**2 + LR*UR + UR**2)/3
                 print(LR, UR, H, dens, mass)
-                qlmWrk = qlm.cone(LMax, mass, H, LR, 0, np.pi)
+                if LR == UR:
+                    qlmWrk = qlm.annulus(LMax, mass, H, 0, LR, 0, np.pi)
+                    qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H/2])
+                else:
+                    # Cone of the larger radius less the tip beyond the smaller
+                    r1, r2 = max(LR, UR), min(LR, UR)
+                    P = H*r1/(r1-r2)
+                    mass1 = dens*np.pi*P*r1**2/3
+                    qlmWrk = qlm.cone(LMax, mass1, P, r1, 0, np.pi)
+                    if r2 > 0:
+                        qlmTip = qlm.cone(LMax, mass1-mass, P-H, r2, 0, np.pi)
+                        qlmWrk -= trs.translate_qlm(qlmTip, [0, 0, H])
+                    if UR > LR:
+                        qlmWrk = rot.rotate_qlm(qlmWrk, 0, np.pi, 0)
+                        qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
                 if (pos == 0).all() and ('add' in lines[2+k]):
-- 
2.43.0


From 403632ad538e7e8a24de42f379f15aaf4b5e060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 44/60] fix: mpc shapes at the origin as the last lines of a
 file

Looking for a following 'add' ran past the end of the file, and also took an
'add' inside a comment for the command, skipping the line it was on.
---
 newt/read_multiFor.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index f2ac184..74c3fd5 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -101,6 +101,15 @@ def read_gbq(filename, filepath='C:\\mom\\'):
     return Qlmb
 
 
+def next_command(lines, k):
+    """
+    Line k of an .mpc file without its comment, empty past the end of the file.
+    """
+    if k >= len(lines):
+        return ''
+    return lines[k].split('%')[0]
+
+
 def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     """
     Attempts to open .mpc files in the same manner as MULTIN by having a
@@ -159,7 +168,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.annulus(LMax, mass, H, Ri, Ro, phic, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -174,7 +183,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.sphere(LMax, mass, r)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -204,7 +213,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                         qlmWrk = trs.translate_qlm(qlmWrk, [0, 0, H])
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -219,7 +228,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tri_prism(LMax, mass, t, d, y1, y2)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -258,7 +267,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                     qlmWrk = rot.rotate_qlm(qlmWrk, 0, 0, np.pi)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -276,7 +285,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk -= qlm.tri_iso_prism2(LMax, massTri, h, r, 0, phih)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -291,7 +300,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.tetrahedron(LMax, mass, x, y, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -309,7 +318,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 # qlmWrk = rot.rotate_qlm(qlmWrk, 0, theta, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -324,7 +333,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = rot.rotate_qlm(qlmWrk, np.pi/2, 0, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -339,7 +348,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.pyramid(LMax, mass, x/2, y/2, z)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
@@ -354,7 +363,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
                 qlmWrk = qlm.rect_prism(LMax, mass, z, x, y, 0)
                 pos = np.array(lines[4+k].split(','), dtype=float)*fac
                 k += 3
-                if (pos == 0).all() and ('add' in lines[2+k]):
+                if (pos == 0).all() and ('add' in next_command(lines, 2+k)):
                     k += 1
                     print('added ', shape)
                     qlmTot += qlmWrk
-- 
2.43.0


From c5a6b2728fb0774266f15b5edd1914b99e7c47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 45/60] fix: mpc commands on the empty working register before
 any shape

rotate, translate and add raised NameError for the name they print.
---
 newt/read_multiFor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 74c3fd5..2e88c0c 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -148,6 +148,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
     nlines = len(lines[1:])
     qlmTot = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
     qlmWrk = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
+    shape = 'Working'
     k = 0
     while k < nlines:
         line = lines[1+k]
-- 
2.43.0


From c7742c54383ba1641ae4708db8c7ff1fc29eb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 46/60] fix: Octave moments used the polar angle from -z

Off the axis theta was measured from the -z axis while points on the axis
used +z, so moments with odd l+m had the wrong sign.
---
 matlab-src/computeMoments.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/computeMoments.m b/matlab-src/computeMoments.m
index e875433..e039f11 100644
--- a/matlab-src/computeMoments.m
+++ b/matlab-src/computeMoments.m
@@ -47,7 +47,7 @@ function moment = computeMoments( l, m, mArray )
 				end
 			%main case
 			else
-				theta = atan( z / rxy ) + pi / 2.0;
+				theta = pi / 2.0 - atan( z / rxy );
 			end
 
 			%Phi computation
-- 
2.43.0


From 3ee9e4c051b996194db6d5f2ab8187437e64953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 47/60] fix: Octave scatterPMMassesYZGrid moved points in x and
 y instead of y and z

---
 matlab-src/scatterPMMassesYZGrid.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/scatterPMMassesYZGrid.m b/matlab-src/scatterPMMassesYZGrid.m
index c8069fe..5025cf0 100644
--- a/matlab-src/scatterPMMassesYZGrid.m
+++ b/matlab-src/scatterPMMassesYZGrid.m
@@ -21,6 +21,6 @@ function M = scatterPMMassesYZGrid(M);
 
 	R = pendulumPMScanGridSize * randn(rows(M), 2);
 
-	M(:,2:3) = M(:,2:3) + R;
+	M(:,3:4) = M(:,3:4) + R;
 
 end
-- 
2.43.0


From bf3409d69c81bf2da244f7a4936be196058d686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 48/60] fix: Octave genPointMassLine ignored zstart

---
 matlab-src/shapes/genPointMassLine.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab-src/shapes/genPointMassLine.m b/matlab-src/shapes/genPointMassLine.m
index fc1c07f..0802f84 100644
--- a/matlab-src/shapes/genPointMassLine.m
+++ b/matlab-src/shapes/genPointMassLine.m
@@ -17,7 +17,7 @@ function  o = genPointMassLine( eachMass, x, y, zstart, zspace, N)
 
         o = ones(N,4);
 
-	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, (0: (N- 1) )' * zspace];
+	o = [  o(:,1) * eachMass, o(:,2) * x, o(:,3) * y, zstart + (0: (N- 1) )' * zspace];
 
 
 end
-- 
2.43.0


From 1778109b0b2e6c6d3853ef47060db72139897129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 49/60] fix: qmoments and imoments indexed angles twice when a
 point sits at the origin

theta and phi are already restricted to the points off the origin; indexing them
again with the original indices raised IndexError unless the origin points were
last.
---
 newt/pg2Multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/pg2Multi.py b/newt/pg2Multi.py
index 206aaed..93f2e0c 100644
--- a/newt/pg2Multi.py
+++ b/newt/pg2Multi.py
@@ -137,7 +137,7 @@ def qmoments(l, massArray):
     for n in range(1, l+1):
         rl = r**n
         for m in range(n+1):
-            qlm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
             qlm *= massArray[rids, 0]*rl[rids]
             qlms[n, l+m] = np.sum(qlm)
 
@@ -226,7 +226,7 @@ def imoments(l, lmbd, massArray):
     for n in range(1, l+1):
         il = sp.spherical_in(n, r/lmbd)
         for m in range(n+1):
-            ilm = np.conj(sp.sph_harm(m, n, phi[rids], theta[rids]))
+            ilm = np.conj(sp.sph_harm(m, n, phi, theta))
             ilm *= massArray[rids, 0]*il[rids]
             ilms[n, l+m] = np.sum(ilm)
 
-- 
2.43.0


From 5eca033ef92f6979770f972d43960614ff66b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 50/60] fix: coaxial regular-to-singular translation had the
 wrong sign for negative displacement

---
 newt/translationRecurs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 0153d9b..14d9c5a 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -219,7 +219,7 @@ def transl_newt_z_SR(LMax, dr):
     http://legacydirs.umiacs.umd.edu/~gumerov/PDFs/cs-tr-4701.pdf
     """
     lp = np.arange(2*LMax+1)
-    svals = np.sign(dr)**(lp+1)*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
+    svals = np.sign(dr)**lp*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
     srms = []
     for m in range(LMax+1):
         faca = alphanm(lp[m:LMax+1], m)
-- 
2.43.0


From 132f207bfb961753b41d819722e75d0606f2bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 51/60] fix: translate_mesh takes an array displacement, as
 Shape.translate does

---
 newt/genCAD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 2d10332..0fec4b1 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -545,7 +545,7 @@ def translate_mesh(mesh, rPrime):
     newresult : CadQuery object
     """
     pmass = mesh.pmass
-    result = mesh.translate(rPrime)
+    result = mesh.translate(tuple(float(r) for r in rPrime))
     result.pmass = pmass
     return result
 
-- 
2.43.0


From ac46d2c16067b5b719c0cc5cb8992e941ab66db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 52/60] fix: annulus of zero thickness returned NaN moments

---
 newt/qlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/qlm.py b/newt/qlm.py
index 3472213..f3377ad 100644
--- a/newt/qlm.py
+++ b/newt/qlm.py
@@ -105,7 +105,7 @@ def annulus(L, mass, H, Ri, Ro, phic, phih):
     """
     factor = mass*np.sqrt(1/(4.*np.pi))
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (H <= 0) or (Ro < Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
+    if (H <= 0) or (Ro <= Ri) or (phih <= 0) or (phih > np.pi) or (Ri < 0):
         raise ValueError('Unphysical parameter arguments')
     rfac = Ro**2 - Ri**2
     for l in range(L+1):
-- 
2.43.0


From 7e9e1f7c10bc833a6b58747f2a667642c8e6101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 53/60] fix: plate holes tilted by -pi/2 and beyond were
 accepted

---
 newt/qlmACH.py | 2 +-
 newt/qlmNum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/qlmACH.py b/newt/qlmACH.py
index 2bfd4fd..210832a 100644
--- a/newt/qlmACH.py
+++ b/newt/qlmACH.py
@@ -782,7 +782,7 @@ def platehole(LMax, rho, t, r, theta):
     else:
         L = LMax
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (t <= 0) or (abs(theta) > np.pi/2):
+    if (r <= 0) or (t <= 0) or (abs(theta) >= np.pi/2):
         raise ValueError('Unphysical parameter arguments')
     s = np.tan(theta)
     q00 = rho*t*r**2*np.sqrt(np.pi*(1+s**2))/2
diff --git a/newt/qlmNum.py b/newt/qlmNum.py
index 024342b..19da9ae 100644
--- a/newt/qlmNum.py
+++ b/newt/qlmNum.py
@@ -306,7 +306,7 @@ def platehole(L, dens, t, r, theta):
         (LMax+1)x(2LMax+1) complex array of inner moments
     """
     qlm = np.zeros([L+1, 2*L+1], dtype='complex')
-    if (r <= 0) or (theta >= np.pi/2) or (t <= 0):
+    if (r <= 0) or (abs(theta) >= np.pi/2) or (t <= 0):
         raise ValueError('Unphysical parameter arguments')
     tanth = np.tan(theta)
     h = t/np.cos(theta)
-- 
2.43.0


From cbcb67818b4c492fd046d2dfc90fd70fa81c9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 54/60] fix: coaxial Yukawa translations used the Helmholtz
 recursions

The matrices mixed modified Bessel functions with the recursions, signs and
symmetry of the unmodified ones: only the first column was right (up to sign).
i_n(k|r+t|)Y_nm(r+t) is now the sum over l of E[l,n] i_l(kr)Y_lm(r), likewise
k_n for the singular functions.
---
 newt/translationRecurs.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/newt/translationRecurs.py b/newt/translationRecurs.py
index 14d9c5a..4dc09e2 100644
--- a/newt/translationRecurs.py
+++ b/newt/translationRecurs.py
@@ -38,7 +38,7 @@ def transl_yuk_z_SR_recurs(LMax, dr, k):
             blmm = get_bnm(l, -m-1)
             blmp = get_bnm(l+1, m)
             bmm = get_bnm(m+1, -m-1)
-            eflm[l, m+1] = (eflm[l-1, m]*blmm - eflm[l+1, m]*blmp)/bmm
+            eflm[l, m+1] = (eflm[l+1, m]*blmp - eflm[l-1, m]*blmm)/bmm
 
     efms = []
     # Now create (E|F)^m matrices (p-|m|)x(p-|m|)
@@ -55,10 +55,10 @@ def transl_yuk_z_SR_recurs(LMax, dr, k):
                 print(l, n+1, l+m, anm, anmm, alm, almm)
                 if anmm != 0:
                     print(l, n, m)
-                    efm[l, n+1] = (almm*efm[l-1, n] - alm*efm[l+1, n]
-                                   + anmm*efm[l, n-1])/anm
+                    efm[l, n+1] = -(almm*efm[l-1, n] + alm*efm[l+1, n]
+                                    + anmm*efm[l, n-1])/anm
                 else:
-                    efm[l, n+1] = (alm*efm[l+1, n] - almm*efm[l-1, n])/anm
+                    efm[l, n+1] = -(alm*efm[l+1, n] + almm*efm[l-1, n])/anm
         efms.append(efm)
 
     for m in range(LMax+1):
@@ -93,7 +93,7 @@ def transl_yuk_z_RR_recurs(LMax, dr, k):
     eflm = np.zeros([2*LMax+1, LMax+1])
     # Start (E|F)_{l, 0}^{0}
     ls = np.arange(2*LMax+1)
-    eflm[:, 0] = (-1)**ls*np.sqrt(2*ls+1)*sp.spherical_in(ls, k*dr)
+    eflm[:, 0] = np.sqrt(2*ls+1)*sp.spherical_in(ls, k*dr)
     # now recursion 4.86 for (E|F)_{l, m}^{m}
     for m in range(LMax):
         for l in range(2*LMax-m):
@@ -118,18 +118,16 @@ def transl_yuk_z_RR_recurs(LMax, dr, k):
                 print(l, n+1, l+m, anm, anmm, alm, almm)
                 if anmm != 0:
                     print(l, n, m)
-                    efm[l, n+1] = (almm*efm[l-1, n] - alm*efm[l+1, n]
-                                   + anmm*efm[l, n-1])/anm
+                    efm[l, n+1] = (almm*efm[l-1, n] + alm*efm[l+1, n]
+                                   - anmm*efm[l, n-1])/anm
                 else:
-                    efm[l, n+1] = (alm*efm[l+1, n] - almm*efm[l-1, n])/anm
+                    efm[l, n+1] = (alm*efm[l+1, n] + almm*efm[l-1, n])/anm
         efms.append(efm)
 
     for m in range(LMax+1):
         efms[m] = efms[m][:LMax-m+1, :LMax-m+1]
-        lm = len(efms[m])
-        # Start from m since (E|F)^m matrix starts at (m,m) corner
-        nls = (np.arange(m, m+lm))
-        enl = np.transpose(efms[m])*np.outer((-1)**(nls), (-1)**(nls))
+        # The regular translation is symmetric
+        enl = np.transpose(efms[m]).copy()
         efms[m] += enl
         efms[m] -= np.diag(np.diag(enl))
 
-- 
2.43.0


From ed33d957b76f02ff455bb86fe5504ac27a842c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 55/60] fix: display_points returned an empty figure

Axes3D(fig) no longer adds itself to the figure (matplotlib >= 3.7).
---
 newt/glib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glib.py b/newt/glib.py
index 9ff9bc5..cf749eb 100644
--- a/newt/glib.py
+++ b/newt/glib.py
@@ -6,7 +6,7 @@ Created on Wed Oct 28 10:04:34 2015
 Scribe: John Greendeer Lee
 """
 import numpy as np
-from mpl_toolkits.mplot3d import Axes3D
+from mpl_toolkits.mplot3d import Axes3D  # registers the 3d projection
 import matplotlib.pyplot as plt
 from newt.constants import BIG_G
 
@@ -241,7 +241,7 @@ def display_points(pm1, pm2, scale_mass=False):
         Axes object
     """
     fig = plt.figure()
-    ax = Axes3D(fig)
+    ax = fig.add_subplot(projection='3d')
     s1 = 50*np.ones(len(pm1))
     s2 = 50*np.ones(len(pm2))
     if scale_mass:
-- 
2.43.0


From fb6c162a850ec10f7c6816185da38edba1518be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 56/60] fix: display_points with scale_mass could not draw
 negative masses

The marker areas were negative.
---
 newt/glib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/newt/glib.py b/newt/glib.py
index cf749eb..59677b1 100644
--- a/newt/glib.py
+++ b/newt/glib.py
@@ -247,8 +247,8 @@ def display_points(pm1, pm2, scale_mass=False):
     if scale_mass:
         pts1 = len(pm1)
         pts2 = len(pm2)
-        s1 = 100*pts1*pm1[:, 0]
-        s2 = 100*pts2*pm2[:, 0]
+        s1 = 100*pts1*np.abs(pm1[:, 0])
+        s2 = 100*pts2*np.abs(pm2[:, 0])
         pmp1 = np.nonzero(pm1[:, 0])[0]
         pmp2 = np.nonzero(pm2[:, 0])[0]
         pmm1 = []
-- 
2.43.0


From d2409ff7ea9a9a40aa7124003d73abdedda4f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:49 +0000
Subject: [PATCH 57/60] fix: cgCoeff overflowed for large quantum numbers

---
 newt/clebschGordan.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/newt/clebschGordan.py b/newt/clebschGordan.py
index f2793cf..cef650e 100644
--- a/newt/clebschGordan.py
+++ b/newt/clebschGordan.py
@@ -65,13 +65,15 @@ def cgCoeff(j1, j2, m1, m2, J, M):
     fac2 = sp.gammaln(J+M+1) + sp.gammaln(J-M+1)
     fac2 += sp.gammaln(j1-m1+1) + sp.gammaln(j1+m1+1)
     fac2 += sp.gammaln(j2-m2+1) + sp.gammaln(j2+m2+1)
-    fac2 = np.sqrt(np.exp(fac2))
+    # Common scale that keeps both factors in the range of a float at large j
+    scale = max(0, fac2/2 - 300)
+    fac2 = np.sqrt(np.exp(fac2 - 2*scale))
     sumCG = 0
     for k in range(kmin, kmax+1):
         denFac = sp.gammaln(k+1) + sp.gammaln(j1+j2-J-k+1)
         denFac += sp.gammaln(j1-m1-k+1) + sp.gammaln(j2+m2-k+1)
         denFac += sp.gammaln(J-j2+m1+k+1) + sp.gammaln(J-j1-m2+k+1)
-        denFac = np.exp(denFac)
+        denFac = np.exp(denFac - scale)
         sumCG += (-1)**k/denFac
     CG = delta*fac1*fac2*sumCG
     return CG
-- 
2.43.0


From 2444b6f7695d17091e6ac9ba3082e019043286c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 58/60] fix: sum_mesh of a single hole turned the caller's hole
 into a body

---
 newt/genCAD.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/newt/genCAD.py b/newt/genCAD.py
index 0fec4b1..f61d7da 100644
--- a/newt/genCAD.py
+++ b/newt/genCAD.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import stl
 import cadquery as cq
@@ -579,7 +580,8 @@ def rotate_mesh(mesh, alpha, beta, gamma):
 
 def sum_mesh(mesh):
     #Assumes you add positive before negative test masses
-    tmpmesh = mesh[0]
+    # A copy, so that the sign of the first mesh is left as it is
+    tmpmesh = copy.copy(mesh[0])
         # add up all positive masses
     for i in range(1, len(mesh)):
         if mesh[i].pmass:
-- 
2.43.0


From 39ab2044c5f1af330881ba6c45255acbc9ae3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 59/60] fix: read_mpc took parts of the name of a loaded file
 for commands

---
 newt/read_multiFor.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index 2e88c0c..d61bd35 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -103,11 +103,12 @@ def read_gbq(filename, filepath='C:\\mom\\'):
 
 def next_command(lines, k):
     """
-    Line k of an .mpc file without its comment, empty past the end of the file.
+    Line k of an .mpc file without its comment and the name of a loaded file,
+    empty past the end of the file.
     """
     if k >= len(lines):
         return ''
-    return lines[k].split('%')[0]
+    return lines[k].split('%')[0].split('load')[0]
 
 
 def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
@@ -154,7 +155,17 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
         line = lines[1+k]
         # Get rid of stuff after a comment
         line = line.split('%')[0]
-        if 'create' in line:
+        # The name of a loaded file may contain any of the other commands
+        if line.strip().startswith('load'):
+            fname = line.split('load ')[1]
+            fname = fname.strip()
+            print(fname)
+            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
+            if np.shape(qlmLoad) != np.shape(qlmWrk):
+                raise TypeError('Loaded part '+fname+' has wrong LMax')
+            qlmWrk = qlmLoad
+            shape = fname
+        elif 'create' in line:
             print(line)
             shape = line.split('create')[1].split()[0]
             if shape == 'cylinder':
@@ -401,15 +412,6 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
             fac = 25.4e-3
         elif 'nsteps' in line:
             nsteps = line.split()[-1]
-        elif 'load' in line:
-            fname = line.split('load ')[1]
-            fname = fname.strip()
-            print(fname)
-            qlmLoad = read_gsq(fname, filepath.replace('mpc', 'mom'))
-            if np.shape(qlmLoad) != np.shape(qlmWrk):
-                raise TypeError('Loaded part '+fname+' has wrong LMax')
-            qlmWrk = qlmLoad
-            shape = fname
         elif 'zeroqlm' in line:
             qlmTot *= 0
         elif 'gettotal' in line:
-- 
2.43.0


From 5160aa100fbee91001a6a0be12f8ef38c006aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 60/60] fix: read_mpc failed on an unknown shape at the end of
 a file or before a comment

---
 newt/read_multiFor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newt/read_multiFor.py b/newt/read_multiFor.py
index d61bd35..5275708 100644
--- a/newt/read_multiFor.py
+++ b/newt/read_multiFor.py
@@ -385,7 +385,7 @@ def read_mpc(LMax, filename, filepath='C:\\mpc\\'):
             else:
                 print(shape, ' does not have a known set of moments')
                 for n in range(nlines-k):
-                    line2 = lines[1+k+1]
+                    line2 = next_command(lines, 2+k)
                     if ('create' not in line2) and ('end' not in line2):
                         k += 1
                     else:
-- 
2.43.0

