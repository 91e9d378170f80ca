From ef042c9e4764866e02359f51d214518847aa8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 01/18] fix: Hashin-Shtrikman bounds fail for equal phases, a
 fluid phase and integer arrays

---
 rockphypy/EM.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..8bd40b6 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -124,15 +124,13 @@ class EM:
         """        
 
         if bound == 'upper':
-            K=K1+ (1-f)/( (K2-K1)**-1 + f*(K1+4*G1/3)**-1 )
-
-            Temp = (K1+2*G1)/(5*G1 *(K1+4*G1/3))
-            G=G1+(1-f)/( (G2-G1)**-1 + 2*f*Temp)
+            M = K1+4*G1/3
+            K=K1+ (1-f)*(K2-K1)*M/( M + f*(K2-K1) )
+            G=G1+(1-f)*(G2-G1)*5*G1*M/( 5*G1*M + 2*f*(K1+2*G1)*(G2-G1) )
         else:
-            K=K2+ f/( (K1-K2)**-1 + (1-f)*(K2+4*G2/3)**-1 )
-
-            Temp = (K2+2*G2)/(5*G2 *(K2+4*G2/3))
-            G=G2+f/( (G1-G2)**-1 + 2*(1-f)*Temp)
+            M = K2+4*G2/3
+            K=K2+ f*(K1-K2)*M/( M + (1-f)*(K1-K2) )
+            G=G2+f*(G1-G2)*5*G2*M/( 5*G2*M + 2*(1-f)*(K2+2*G2)*(G1-G2) )
         return K, G
 
     @staticmethod
-- 
2.43.0


From ca3bc13b6bc713e64bbffe9b4a542cca0ed9fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 02/18] fix: PQ_vectorize overwrites the caller's aspect ratios
 and misses alpha==1

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 8bd40b6..57ca869 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -490,7 +490,7 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha_ = np.array(alpha, dtype=float) # copy and modfiy
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From 7e47e02a45d855211e8a45f4dc7d3f145e390840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 03/18] fix: SC_flex starts the shear iteration from the bulk
 modulus

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 57ca869..9c15ec8 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -886,7 +886,7 @@ class EM:
         """    
         
         K_eff=Km
-        G_eff=Km
+        G_eff=Gm
         for i in range(iter_n):
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
-- 
2.43.0


From 5a76217ca17c6db745612df990ca7795e5dd32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:09 +0000
Subject: [PATCH 04/18] fix: diluting parameter is not zero above the reference
 stress for integer m and fails for a float stress

---
 rockphypy/GM.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 2867e50..1829695 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -636,8 +636,7 @@ class GM:
         array-like
             stress dependent diluting parameter
         """          
-        alpha= k*(1-sigma/sigma0)**m
-        alpha[np.isnan(alpha)]=0
+        alpha= k*np.maximum(1-sigma/sigma0, 0)**m
         return alpha
 
     @staticmethod
-- 
2.43.0


From 96c754efb94858263ab40a613128d795a383642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:31 +0000
Subject: [PATCH 05/18] fix: johnson rejects the documented path 'iso_uni' and
 multiplies the normal and shear contact terms of its lateral stress

---
 rockphypy/GM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 1829695..fdfc3fe 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -347,9 +347,9 @@ class GM:
         elif path == 'uni_iso':
             sigma33 = 2*Temp*(1/12*Ct+Cn*(alpha**2*I2+I4))
             sigma11 =Temp*(-1/12*Ct+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
-        elif path == 'iso-uni':
+        elif path in ('iso_uni', 'iso-uni'):
             sigma33 = 2*Temp*(Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I2+I4))
-            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4)))
+            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
 
         return C, sigma33,sigma11
 
-- 
2.43.0


From a0691e0ab4d6c9dbc6c3b09c89f28aef2c982ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:05 +0000
Subject: [PATCH 06/18] fix: yu_segment_trend reorders depths that are not
 sorted and fails for a float

---
 rockphypy/Emp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index c3a885d..8aee405 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -121,9 +121,7 @@ class Empirical:
             P wave velocities
         """        
         
-        V1=1707.998+0.66*Z[Z<=2630]
-        V2=1200.84+0.853*Z[Z>2630]
-        V= np.hstack((V1,V2))
+        V= np.where(Z<=2630, 1707.998+0.66*Z, 1200.84+0.853*Z)[()]
         return V
 
     @staticmethod
-- 
2.43.0


From 0c75f9e70ea2056b25d1134639e3e33c2ef3b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:05 +0000
Subject: [PATCH 07/18] fix: ramm_porosity_segment fails for a float depth

---
 rockphypy/Emp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 8aee405..2bbfa4e 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -163,8 +163,7 @@ class Empirical:
         """        
         phi1= 45*np.exp(-0.00025*Z)
         phi2= 25-0.013*(Z-2500)
-        phi1[phi1>phi2]=phi2[phi2<phi1]
-        return phi1
+        return np.minimum(phi1,phi2)
 
     @staticmethod
     def empirical_StPeter(Pe, sample=1):
-- 
2.43.0


From a7e26b0b0a01181da1cdfc6e8361fc6711cf7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:05 +0000
Subject: [PATCH 08/18] fix: Japsen reorders depths that are not sorted and
 fails for a float

---
 rockphypy/Emp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 2bbfa4e..901677a 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -280,11 +280,11 @@ class Empirical:
             Vp m/s
         """        
         
-        V1=1550+0.6*Z[Z<1393]
-        V2= -400+2*Z[(Z>=1393)&(Z<2000)]
-        V3=2600+0.5*Z[(Z>=2000)&(Z<3500)]
-        V4=3475+0.25*Z[(Z>=3500)&(Z<5300)]
-        V= np.hstack((V1,V2,V3,V4))
+        V1=1550+0.6*Z
+        V2= -400+2*Z
+        V3=2600+0.5*Z
+        V4=np.where(Z<5300, 3475+0.25*Z, np.nan)
+        V= np.where(Z<1393, V1, np.where(Z<2000, V2, np.where(Z<3500, V3, V4)))[()]
         return V
 
     @staticmethod    
-- 
2.43.0


From 3066e82789d3c2e4b7d49c368941d5588d63fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:05 +0000
Subject: [PATCH 09/18] fix: Han's clay coefficient for Vp is 2.18, digits were
 transposed

---
 rockphypy/Emp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 901677a..6cf1662 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -79,7 +79,7 @@ class Empirical:
             P and S wave velocities
         """        
              
-        vp=5.59-6.93*phi-2.81*C
+        vp=5.59-6.93*phi-2.18*C
         vs=3.52-4.91*phi-1.89*C
         return vp*1000,vs*1000
 ########################################################## to do 
-- 
2.43.0


From 097728146a9b7ac485012331f50d6c51a0fbfc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:05 +0000
Subject: [PATCH 10/18] fix: Fredrich permeability decreases with grain size,
 the specific surface is 6(1-phi)/d

---
 rockphypy/Perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Perm.py b/rockphypy/Perm.py
index 8b7b2fc..b218f64 100644
--- a/rockphypy/Perm.py
+++ b/rockphypy/Perm.py
@@ -216,7 +216,7 @@ class Permeability:
         # formation factor assuming tau^2=2.5
         F= 2.5/phi
         # pore surface area per unit sample volume
-        Sv= 6*(1-phi)*d
+        Sv= 6*(1-phi)/d
         # permeability
         k= 1/(b*F) * (phi/Sv)**2
         return k
-- 
2.43.0


From cb39f1b8ca9a0b5f713dd1fecae74f686da1ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:23 +0000
Subject: [PATCH 11/18] fix: estimate_cem writes into a read-only view of the
 data frame and fails for a list of seeds

---
 rockphypy/QI.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..5135193 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -558,21 +558,21 @@ class QI:
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        vcem= np.full(len(self.Vp), np.nan)
+        vcem_seeds= np.asarray(vcem_seeds)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= np.array(df.iloc[i, :])
             if val <= array[0]:
-                df.vcem.values[i]=0
+                vcem[i]=0
                 #df.iloc[i]['vcem']=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
+                vcem[i]=0.1
                 #df.iloc[i]['vcem']=0.1
             else:
                 big =  array[array<val].max()# the largest element of myArr less than myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                vcem[i]=((val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small])[0]
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From eaa4dfcdbacc31aa6f519d7dcd3ab44c9da965d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:23 +0000
Subject: [PATCH 12/18] fix: estimate_cem skips a constant cement line that a
 data point lies on

---
 rockphypy/QI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 5135193..d784da9 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -569,7 +569,7 @@ class QI:
                 vcem[i]=0.1
                 #df.iloc[i]['vcem']=0.1
             else:
-                big =  array[array<val].max()# the largest element of myArr less than myNumber
+                big =  array[array<=val].max()# the largest element of myArr not greater than myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
                 vcem[i]=((val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small])[0]
         return vcem
-- 
2.43.0


From e64e7a2ab6153b9f758b5184707b303cff62a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 13/18] fix: OConnell_Budiansky_fl starts the solver at the
 uncracked solid, a fixed start may return no root

---
 rockphypy/EM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 9c15ec8..7bed2a4 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -685,7 +685,11 @@ class EM:
         nu0 = (3*K0-2*G0)/(6*K0+2*G0)#  Poisson ratio of the uncracked solid
         w = Kfl/alpha/K0
         # given crack density and w, solve for the D and nu_eff simulaneously using equations 23 and 25 in O’Connell and Budiansky, (1974)
-        nu_eff, D =  fsolve(EM.OC_R_funcs, (0.2, 0.9), args = (crd,nu0,w))
+        # start at the uncracked Poisson ratio and its D, a fixed start may converge to no root or to an unphysical one
+        c = 9/16*(1-2*nu0)/(1-nu0**2)
+        b = crd+c+3*w/(4*np.pi)
+        D0 = 2*c/(b+np.sqrt(b**2-4*crd*c))
+        nu_eff, D =  fsolve(EM.OC_R_funcs, (nu0, D0), args = (crd,nu0,w))
 
         K_sat = K0*(1-16*(1-nu_eff**2)*crd*D/(9*(1-2*nu_eff)))
         G_sat = G0*(1-32/45*(1-nu_eff) *(D+ 3/(2-nu_eff))*crd)
-- 
2.43.0


From 8edc0f8e79764fe0d542465c1c266b677a791f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:34 +0000
Subject: [PATCH 14/18] fix: White_Dutta_Ode returns NaN at high frequency, the
 growing exponential overflows

---
 rockphypy/Fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index e20e80e..ff4c3d2 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -660,7 +660,8 @@ class Fluid:
         alpha2=(1j*omega*eta2/(kapa*KE2))**(1/2)
 
         Z1=eta1*a/kapa *(1-np.exp(-2*alpha1*a))/((alpha1*a-1)+(alpha1*a+1)*np.exp(-2*alpha1*a)   )
-        Z2=-eta2*a/kapa *(   (alpha2*b+1) +(alpha2*b-1)*np.exp(2*alpha2*(b-a) ) )/(  (alpha2*b+1)* (alpha2*a-1)- (alpha2*b-1)*(alpha2*a+1)*np.exp(2*alpha2*(b-a))  )
+        # numerator and denominator scaled by exp(-2*alpha2*(b-a)), the growing exponential overflows at high frequency
+        Z2=-eta2*a/kapa *(   (alpha2*b+1)*np.exp(-2*alpha2*(b-a)) +(alpha2*b-1) )/(  (alpha2*b+1)* (alpha2*a-1)*np.exp(-2*alpha2*(b-a))- (alpha2*b-1)*(alpha2*a+1)  )
         Q1= (1-Kdry/K0)*KA1/K1
         Q2= (1-Kdry/K0)*KA2/K2
         W=3*a**2*(R1-R2)*(-Q1+Q2)/ (b**3*1j*omega*(Z1+Z2) )
-- 
2.43.0


From 5ee071afa685039a559d5495f6497e0c6963a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 15/18] fix: silty shale bulk modulus mixes silt with its own
 shear modulus, the shale's is the matrix

---
 rockphypy/GM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index fdfc3fe..e8d7e8f 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -66,7 +66,7 @@ class GM:
             K_sat, G_sat: elastic moduli of the saturated silty shale.
         """       
 
-        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gq/3) )**-1 -4*Gsh/3
+        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gsh/3) )**-1 -4*Gsh/3
         Zsh = Gsh/6 *(9*Ksh+8*Gsh)/(Ksh+2*Gsh)
         G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh
         return K_sat,G_sat
-- 
2.43.0


From 79544cb52c9618e2542b15cad0e6284617592be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 16/18] fix: Hudson's shear term of filled cracks uses
 lambda+mu where the crack stiffness has lambda+2 mu

---
 rockphypy/EM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 7bed2a4..5429d61 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -247,7 +247,7 @@ class EM:
   
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
         # first order corrections
@@ -309,7 +309,7 @@ class EM:
         
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
         # first order corrections
@@ -351,7 +351,7 @@ class EM:
         crd= np.asanyarray(crd)
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
 
@@ -405,7 +405,7 @@ class EM:
         theta= np.deg2rad(theta)
         lamda = K-2*G/3
         kapa = (Ki+4*Gi/3)*(lamda+2*G)/(np.pi*alpha*G*(lamda+G))
-        M = 4*Gi*(lamda+G)/(np.pi*alpha*G*(3*lamda+4*G))
+        M = 4*Gi*(lamda+2*G)/(np.pi*alpha*G*(3*lamda+4*G))
         U1 = 16*(lamda+2*G)/(3*(3*lamda+4*G)*(1+M))
         U3 = 4*(lamda+2*G)/(3*(lamda+G)*(1+kapa))
 
-- 
2.43.0


From b177ef67fe95177135ba62c67cf189c8f1ce1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 17/18] fix: Storvoll's trend Z=1.76 V-2600 was inverted
 wrongly, the sea-floor velocity is 2600/1.76 m/s

---
 rockphypy/Emp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 6cf1662..32ccf40 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -244,7 +244,7 @@ class Empirical:
         float or array
             Vp meters per second
         """        
-        V= 1/1.76*Z+2600
+        V= (Z+2600)/1.76
         return V
 
     @staticmethod
-- 
2.43.0


From 9ccaaa6a7b0749ad57eb0699e338e0fea60cc2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 18/18] fix: EI_ref accepts integer densities, the SH exponent
 -1 is a float

---
 rockphypy/AVO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/AVO.py b/rockphypy/AVO.py
index 74c60b0..0639e6d 100644
--- a/rockphypy/AVO.py
+++ b/rockphypy/AVO.py
@@ -344,7 +344,7 @@ class AVO:
         EI_svsv= isn*Vs**B*rho**C
         # SH-SH
         B = -1+np.tan(theta_s)**2
-        C = -1
+        C = -1.0
         EI_shsh= isn*Vs**B*rho**C
         return EI_pp,EI_psv,EI_svp,EI_svsv,EI_shsh
 
-- 
2.43.0

