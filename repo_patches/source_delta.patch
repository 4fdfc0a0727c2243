From 1517e66d6605f3798f678a57430119347f8c2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 01/70] fix: isotropic y-side gradient averages transverse (x)
 neighbours, as the x-side does

---
 source/fortran/2d/grad.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/grad.m4 b/source/fortran/2d/grad.m4
index 8b49dfb..f93dd04 100644
--- a/source/fortran/2d/grad.m4
+++ b/source/fortran/2d/grad.m4
@@ -194,9 +194,9 @@ c              X component of gradient at "Y" side
 
 c              Y component of gradient at "Y" side
             grad_y_yside(i,j) = p12_dyinv * (
-     &          diff_y(i,j-1) +
+     &          diff_y(i-1,j) +
      &          diff_y(i,j)*10.d0 +
-     &          diff_y(i,j+1) )
+     &          diff_y(i+1,j) )
 
          enddo
       enddo
-- 
2.43.0


From e1dd2c6d8b7ad039009528225c27976cd4da4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:51 +0000
Subject: [PATCH 02/70] fix: 's' interpolation is zero (not mirrored) for
 negative phase values

---
 source/fortran/functions.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 3ab5965..87289d7 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -74,7 +74,7 @@ c Moleans 2011
       else if ( type(1:1) .eq. 's' ) then
 
          phit = max( 0.d0, phi )
-         interp_func = log ( cosh (gamma*phi) )/log(cosh(gamma))
+         interp_func = log ( cosh (gamma*phit) )/log(cosh(gamma))
 
       else if ( type(1:1) .eq. 'c' ) then
 
-- 
2.43.0


From 335d5f1439a1a5741ce1f493020b5a523ea5866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:51 +0000
Subject: [PATCH 03/70] fix: derivative of the linear interpolation vanishes
 outside [0,1], where the function is constant

---
 source/fortran/functions.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 87289d7..0b4ddcd 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -133,8 +133,8 @@ c-----------------------------------------------------------------------
 
       else if ( type(1:1) .eq. 'l' ) then
 
-         if( phi .gt. 0.d0 .or.
-     &       phi .lt. 1.d0 )then
+         if( phi .ge. 0.d0 .and.
+     &       phi .le. 1.d0 )then
             deriv_interp_func = 1.d0
          else
              deriv_interp_func = 0.d0
-- 
2.43.0


From f0045c71b45bd5c904fcb385644e21b388764cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:51 +0000
Subject: [PATCH 04/70] fix: derivative of the harmonic average is
 (average/argument)^2/2, not its inverse

---
 source/fortran/functions.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/functions.f b/source/fortran/functions.f
index 0b4ddcd..3cf0227 100644
--- a/source/fortran/functions.f
+++ b/source/fortran/functions.f
@@ -387,8 +387,8 @@ c-----------------------------------------------------------------------
          if ( avg_phi .lt. threshold ) then
             deriv_average_func = 0.d0
          else
-            deriv_average_func = 0.5d0 * next_phi * next_phi
-     &                                 / (avg_phi * avg_phi)
+            deriv_average_func = 0.5d0 * avg_phi * avg_phi
+     &                                 / (next_phi * next_phi)
          endif
 
       else
-- 
2.43.0


From b10e0ae0cffdd2b6238581ff68ae6a449db3ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 05/70] fix: two entries of the derivative of the quaternion
 rotation matrix

---
 source/fortran/quat.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/quat.f b/source/fortran/quat.f
index cd6a21c..13d60ce 100644
--- a/source/fortran/quat.f
+++ b/source/fortran/quat.f
@@ -1367,7 +1367,7 @@ c d/dq2
 
       matrixdRdq(1,2,2)= 2.d0*q(3)
       matrixdRdq(2,2,2)=-2.d0*q(2)
-      matrixdRdq(3,2,2)= 2.d0*q(2)
+      matrixdRdq(3,2,2)= 2.d0*q(1)
 
       matrixdRdq(1,3,2)= 2.d0*q(4)
       matrixdRdq(2,3,2)=-2.d0*q(1)
@@ -1376,7 +1376,7 @@ c d/dq2
 c d/dq3
       matrixdRdq(1,1,3)=-2.d0*q(3)
       matrixdRdq(2,1,3)= 2.d0*q(2)
-      matrixdRdq(3,1,3)= 2.d0*q(1)
+      matrixdRdq(3,1,3)=-2.d0*q(1)
 
       matrixdRdq(1,2,3)= 2.d0*q(2)
       matrixdRdq(2,2,3)= 2.d0*q(3)
-- 
2.43.0


From f67bf93501d386c6dbbdd379bac7a92e56a00e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 06/70] fix: scalar-orientation branch of the isotropic
 symmetry-aware gradient read past the only component

---
 source/fortran/2d/quatgrad.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fortran/2d/quatgrad.m4 b/source/fortran/2d/quatgrad.m4
index 96f1986..4cc17ca 100644
--- a/source/fortran/2d/quatgrad.m4
+++ b/source/fortran/2d/quatgrad.m4
@@ -554,8 +554,8 @@ c                 Y component of gradient at "X" side
                
             else
 
-               d1prime(1) = diff_x(i,j-1,m)
-               d2prime(1) = diff_x(i,j+1,m)
+               d1prime(1) = diff_x(i,j-1,1)
+               d2prime(1) = diff_x(i,j+1,1)
 
             endif
 
@@ -625,8 +625,8 @@ c                 X component of gradient at "Y" side
 
             else
 
-               d1prime(1) = diff_y(i-1,j,m)
-               d2prime(1) = diff_y(i+1,j,m)
+               d1prime(1) = diff_y(i-1,j,1)
+               d2prime(1) = diff_y(i+1,j,1)
 
             endif
 
-- 
2.43.0


From 57e9c014aa5d449f118d28c61f478f5f71bbe158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 07/70] fix: z-side flux of the 3D eta equation was declared
 with the shape of a y-side array

---
 source/fortran/3d/quatrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatrhs.m4 b/source/fortran/3d/quatrhs.m4
index ac7a4ac..a7dbf58 100644
--- a/source/fortran/3d/quatrhs.m4
+++ b/source/fortran/3d/quatrhs.m4
@@ -658,7 +658,7 @@ c variables in 3d side indexed
       double precision 
      &     flux0(SIDE3d0(ifirst,ilast,ngflux)),
      &     flux1(SIDE3d1(ifirst,ilast,ngflux)),
-     &     flux2(SIDE3d1(ifirst,ilast,ngflux))
+     &     flux2(SIDE3d2(ifirst,ilast,ngflux))
 c
 c***********************************************************************
 c***********************************************************************     
-- 
2.43.0


From bb58a5aa864a0f1d01d9fda1935f05cf8e14563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 08/70] fix: weights of the 3D averaged temperature did not sum
 to one in double precision

---
 source/fortran/3d/quatrhs.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatrhs.m4 b/source/fortran/3d/quatrhs.m4
index a7dbf58..80068d3 100644
--- a/source/fortran/3d/quatrhs.m4
+++ b/source/fortran/3d/quatrhs.m4
@@ -1059,7 +1059,7 @@ c
       double precision deriv_interp_func
 c
       alpha = latentheat/tm
-      woff = 0.25/6.
+      woff = 0.25d0/6.d0
 c
       do ic2 = ifirst2, ilast2
          do ic1 = ifirst1, ilast1
-- 
2.43.0


From 69df70e1307fc6b1f48450015cc2ffb630f83c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 09/70] fix: multi-order well derivative sums the squares of
 the other order parameters

---
 source/fortran/2d/multiorder.m4 | 2 +-
 source/fortran/3d/multiorder.m4 | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/multiorder.m4 b/source/fortran/2d/multiorder.m4
index 90f6959..49bc213 100644
--- a/source/fortran/2d/multiorder.m4
+++ b/source/fortran/2d/multiorder.m4
@@ -92,7 +92,7 @@ c  Phase energy well
                g_prime =
      &            phi(ic0,ic1,ip)*phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
      &            - phi(ic0,ic1,ip)
-               dsum = phi2sum(ic0,ic1) - phi(ic0,ic1,ip)
+               dsum = phi2sum(ic0,ic1) - phi(ic0,ic1,ip)*phi(ic0,ic1,ip)
                g_prime = g_prime + 2.*phi(ic0,ic1,ip)*dgamma*dsum
 
                rhs(ic0,ic1,ip) = rhs(ic0,ic1,ip) - m * g_prime
diff --git a/source/fortran/3d/multiorder.m4 b/source/fortran/3d/multiorder.m4
index a09b30c..d5deed8 100644
--- a/source/fortran/3d/multiorder.m4
+++ b/source/fortran/3d/multiorder.m4
@@ -107,7 +107,8 @@ c  Phase energy well
                   g_prime =
      &               phi(ic0,ic1,ic2,ip)
      &               * (phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)-1.d0)
-                  dsum = phi2sum(ic0,ic1,ic2) - phi(ic0,ic1,ic2,ip)
+                  dsum = phi2sum(ic0,ic1,ic2)
+     &                 - phi(ic0,ic1,ic2,ip)*phi(ic0,ic1,ic2,ip)
                   g_prime = g_prime + 2.*phi(ic0,ic1,ic2,ip)*dgamma*dsum
 
                   rhs(ic0,ic1,ic2,ip) = rhs(ic0,ic1,ic2,ip) - m*g_prime
-- 
2.43.0


From 7e136628eec807f1fc2976afb5b31b51919e5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 10/70] fix: energy totals accumulate over patches instead of
 keeping the last patch only

---
 source/fortran/2d/quatenergy.m4 | 2 --
 source/fortran/3d/quatenergy.m4 | 4 ----
 2 files changed, 6 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index e8d388b..1d30505 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -375,7 +375,6 @@ c                 factor 0.25 because of cell average and double counting
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do j = lo1, hi1
             do i = lo0, hi0
@@ -431,7 +430,6 @@ c
       integer i, j
       double precision interp_func
 
-      total_free_e = 0.d0
 
       do j = lo1, hi1
          do i = lo0, hi0
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index b9684ce..3a47787 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -331,7 +331,6 @@ c
 c Orientational energy: average over 2 cell faces in each direction
 c
       if ( misorientation_factor .gt. 0.d0 ) then
-         total_orient_e = 0.d0
          do k = lo2, hi2
             do j = lo1, hi1
                do i = lo0, hi0
@@ -426,7 +425,6 @@ c        factor 1/6 because of cell averaging
 c
 c q interface energy
 c
-         total_qint_e = 0.d0
          epsilonq2 = 0.5d0 * epsilon_q * epsilon_q
          do k = lo2, hi2
             do j = lo1, hi1
@@ -462,7 +460,6 @@ c                 factor 1/6 because of cell average
 c
 c double well energy
 c
-      total_well_e = 0.d0
       do p = 1, nphases
          do k = lo2, hi2
             do j = lo1, hi1
@@ -520,7 +517,6 @@ c
       integer i, j, k
       double precision interp_func
 
-      total_free_e = 0.d0
 
        do k = lo2, hi2
           do j = lo1, hi1
-- 
2.43.0


From b88c511e533c900297249e1d89f75ff391dc086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 11/70] fix: pair interfacial energy density adds up all pairs
 instead of keeping the last one

---
 source/fortran/2d/quatenergy.m4 | 2 +-
 source/fortran/3d/quatenergy.m4 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index 1d30505..8216b88 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -535,7 +535,7 @@ c
      &              * phi(i,j,p2)*phi(i,j,p2)
                   e = e * factor
                   if ( eval_per_cell /= 0 ) then
-                     edensity(i,j) = e
+                     edensity(i,j) = edensity(i,j) + e
                   endif
                   e = e * weight(i,j)
 
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 3a47787..6cd96f2 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -630,7 +630,7 @@ c
      &                 * phi(i,j,k,p2)*phi(i,j,k,p2)
                      e = e * factor
                      if ( eval_per_cell /= 0 ) then
-                        edensity(i,j,k) = e
+                        edensity(i,j,k) = edensity(i,j,k) + e
                      endif
                      e = e * weight(i,j,k)
 
-- 
2.43.0


From da72de720d0f1e480a005b5a06f72ffaa45ea4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 12/70] fix: 3D orientational energy floors the gradient on the
 upper y side as on the other sides

---
 source/fortran/3d/quatenergy.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 6cd96f2..4a5b8e8 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -382,8 +382,8 @@ c
                         o2 = o2 + gqy(i,j+1,k,m,n) * gqy(i,j+1,k,m,n)
                      enddo
                   enddo
-                  e = e + sqrt(o2) * p_phi
                   o2 = o2 + floor2
+                  e = e + sqrt(o2) * p_phi
 c
                   aphi = average_func(phi(i,j,k,1),phi(i,j,k-1,1),
      &                                   avg_type)
-- 
2.43.0


From c220ef4f7e25f62410fa3a3c659222ee96172e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 13/70] fix: pair interfacial energies accumulate over patches
 instead of keeping the last patch only

---
 source/fortran/2d/quatenergy.m4 | 1 -
 source/fortran/3d/quatenergy.m4 | 1 -
 2 files changed, 2 deletions(-)

diff --git a/source/fortran/2d/quatenergy.m4 b/source/fortran/2d/quatenergy.m4
index 8216b88..3c10afc 100644
--- a/source/fortran/2d/quatenergy.m4
+++ b/source/fortran/2d/quatenergy.m4
@@ -528,7 +528,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do j = lo1, hi1
                do i = lo0, hi0
                   e = phi(i,j,p1)*phi(i,j,p1)
diff --git a/source/fortran/3d/quatenergy.m4 b/source/fortran/3d/quatenergy.m4
index 4a5b8e8..768b63c 100644
--- a/source/fortran/3d/quatenergy.m4
+++ b/source/fortran/3d/quatenergy.m4
@@ -622,7 +622,6 @@ c
 c
       do p1 = 1, nphases
          do p2 = 1, nphases
-            total_energy(nphases*(p1-1)+p2) = 0.d0
             do k = lo2, hi2
                do j = lo1, hi1
                   do i = lo0, hi0
-- 
2.43.0


From 73107c4974dd1358ef3d5f488b7a239ca8f93f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 14/70] fix: use the configured well functions in the phase RHS
 with orientation

PhaseRHSStrategyWithQ hard-coded the double well for the phase and the eta
variables, whereas the energy and the preconditioner use phi_well_func_type
and eta_well_func_type from the input: with phi_well_func_type = single the
phase field did not follow the gradient of the energy.
---
 source/PhaseRHSStrategyWithQ.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/PhaseRHSStrategyWithQ.cc b/source/PhaseRHSStrategyWithQ.cc
index f1676c7..52a729c 100644
--- a/source/PhaseRHSStrategyWithQ.cc
+++ b/source/PhaseRHSStrategyWithQ.cc
@@ -240,7 +240,10 @@ void PhaseRHSStrategyWithQ::evaluateRHS(const double time,
    double l2f = ops.L2Norm(phase_flux, pbox);
    assert(l2f == l2f);
 #endif
-   char well_func_type = 'd';
+   const std::string& phase_well_func_type(
+       d_model_parameters.phase_well_func_type());
+   const std::string& eta_well_func_type(
+       d_model_parameters.eta_well_func_type());
    const char interpf = energyInterpChar(d_energy_interp_func_type);
 
    // first compute component from interfacial energy
@@ -258,7 +261,8 @@ void PhaseRHSStrategyWithQ::evaluateRHS(const double time,
                  d_eta_well_scale, phase->getPointer(),
                  phase->getGhostCellWidth()[0], ptr_eta, ngeta,
                  ptr_quat_grad_modulus, 0, phase_rhs->getPointer(), 0,
-                 &well_func_type, &well_func_type, &interpf,
+                 phase_well_func_type.c_str(), eta_well_func_type.c_str(),
+                 &interpf,
                  d_orient_interp_func_type1.c_str(),
                  d_orient_interp_func_type2.c_str(), with_orient, three_phase);
 
-- 
2.43.0


From cb2c973324122a259e75827cc4e5fbabe483f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 15/70] fix: initialise the model flags which the input may
 leave unset

The VisIt options are only read when a VisIt interval is set, and the grand
potential, Beckermann bias and initial equilibrium flags only for some
concentration models, but all of them are used unconditionally (for instance
in QuatIntegrator and the energy evaluation).
---
 source/QuatModelParameters.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/QuatModelParameters.cc b/source/QuatModelParameters.cc
index db33ce1..2439251 100644
--- a/source/QuatModelParameters.cc
+++ b/source/QuatModelParameters.cc
@@ -131,6 +131,15 @@ QuatModelParameters::QuatModelParameters() : d_moving_frame_velocity(def_val)
    d_vd = -1.;
    d_with_velocity = false;
    d_use_diffs_to_compute_flux = false;
+
+   // only read from input for some models or when writing VisIt files
+   d_grand_potential = false;
+   d_bias_well_beckermann = false;
+   d_init_phase_conc_eq = false;
+   d_extra_visit_output = false;
+   d_rhs_visit_output = false;
+   d_visit_energy_output = false;
+   d_visit_grain_output = false;
 }
 
 //=======================================================================
-- 
2.43.0


From 078817d76a312996484b2ad10582c066d4727a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 16/70] fix: 3D Moelans pair forces: index of the pair and cell
 weights

The offset of the force of pair (p1,p2) used the stride of the 2D array, so
that components of different pairs were added together, and the integral over
the domain ignored the cell volumes.
---
 source/fortran/3d/forces.m4 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/fortran/3d/forces.m4 b/source/fortran/3d/forces.m4
index 06b5b84..661174a 100644
--- a/source/fortran/3d/forces.m4
+++ b/source/fortran/3d/forces.m4
@@ -48,7 +48,7 @@ c
       do p1 = 1, nphases
          do p2 = 1, nphases
             if( p1 .ne. p2 )then
-              offset = NDIM*nphases*(p1-1)+p2*2-1
+              offset = NDIM*(nphases*(p1-1)+(p2-1))+1
 c integral over domain
                do k = lo2, hi2
                   do j = lo1, hi1
@@ -65,9 +65,12 @@ c integral over domain
                         fx = f*diffx
                         fy = f*diffy
                         fz = f*diffz
-                        forces(offset)   = forces(offset) + fx
-                        forces(offset+1) = forces(offset+1) + fy
-                        forces(offset+2) = forces(offset+2) + fz
+                        forces(offset)   = forces(offset)
+     &                                   + fx*weight(i,j,k)
+                        forces(offset+1) = forces(offset+1)
+     &                                   + fy*weight(i,j,k)
+                        forces(offset+2) = forces(offset+2)
+     &                                   + fz*weight(i,j,k)
                      enddo
                   enddo
                enddo
-- 
2.43.0


From fdeb076a75b64797a923191eb1f0b194fc110025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 17/70] fix: rigid-body pair forces between all solid grains

QuatIntegrator sums the pair forces over the norderpA + norderpB solid order
parameters, but only a norderpA x norderpA table was stored: with grains of
phase B the sums, and the Moelans forces themselves, ran past its end.
---
 source/RigidBodyForces.cc     | 3 ++-
 source/WangRigidBodyForces.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RigidBodyForces.cc b/source/RigidBodyForces.cc
index 9a24814..4ac6fd6 100644
--- a/source/RigidBodyForces.cc
+++ b/source/RigidBodyForces.cc
@@ -24,7 +24,8 @@ RigidBodyForces::RigidBodyForces(const QuatModelParameters& model_parameters,
 {
    // forces between solid particles only, not liquid phase (last order
    // parameter)
-   const int nforces = d_model_parameters.norderpA();
+   const int nforces =
+       d_model_parameters.norderpA() + d_model_parameters.norderpB();
    d_forces.resize(nforces);
    for (auto& f : d_forces)
       f.resize(nforces);
diff --git a/source/WangRigidBodyForces.cc b/source/WangRigidBodyForces.cc
index 389a091..3fe58ab 100644
--- a/source/WangRigidBodyForces.cc
+++ b/source/WangRigidBodyForces.cc
@@ -23,7 +23,7 @@ WangRigidBodyForces::WangRigidBodyForces(
 {
    tbox::plog << "WangRigidBodyForces..." << std::endl;
 
-   d_norderp = model_parameters.norderpA();
+   d_norderp = model_parameters.norderpA() + model_parameters.norderpB();
 }
 
 void WangRigidBodyForces::evaluatePairForces(std::shared_ptr<hier::Patch> patch,
-- 
2.43.0


From 8c8672da6f439895943395696fcd9436c036c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 18/70] fix: temperature history at the first position

---
 source/TemperatureHistory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/TemperatureHistory.cc b/source/TemperatureHistory.cc
index d6033b3..f9a1f52 100644
--- a/source/TemperatureHistory.cc
+++ b/source/TemperatureHistory.cc
@@ -112,7 +112,7 @@ int TemperatureHistory::getTandGradT(const double time, const double position,
       else
          break;
    }
-   ipos--;
+   if (ipos > 0) ipos--;  // position may be equal to first one
    if ((ipos + 1) >= d_positions.size()) {
       d_os << "Position " << position
            << " is beyond range defined in TemperatureHistory" << std::endl;
-- 
2.43.0


From afdd64bce1f02b401ca4b3d9caef703301328c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 19/70] fix: conjugate of symmetry rotation 40 in quat.py

---
 utils/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/quat.py b/utils/quat.py
index d1c063c..43707e7 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -322,7 +322,7 @@ iq_qr4_conj[36] = 40
 iq_qr4_conj[37] = 44
 iq_qr4_conj[38] = 45
 iq_qr4_conj[39] = 46
-iq_qr4_conj[40] = 38
+iq_qr4_conj[40] = 36
 iq_qr4_conj[41] = 35
 iq_qr4_conj[42] = 34
 iq_qr4_conj[43] = 32
-- 
2.43.0


From 35be0c06ca61d407d1d40f54ebd3c678c001a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 20/70] fix: optional results of multiplyQuat and conjugateQuat

---
 utils/quat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index 43707e7..09869dd 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -75,11 +75,11 @@ def subtractQuat( q1, q2, q ) :
 
 #=======================================================================
 
-def multiplyQuat( q1, q2, q=0 ) :
+def multiplyQuat( q1, q2, q=None ) :
   assert( len( q1 ) == len( q2 ) )
   qlen = len( q1 )
   assert( qlen == 2 or qlen == 4 )
-  if ( len(q)>1 ) :
+  if ( q is not None ) :
     assert( len( q ) == qlen )
     q_tmp = duplicateQuat( q )
   else :
@@ -116,7 +116,7 @@ def multiplyQuat( q1, q2, q=0 ) :
     q_tmp[1] = q1[0] * q2[1] \
                + q1[1] * q2[0]
 
-  if ( len(q)>1 ) :
+  if ( q is not None ) :
     copyQuat( q_tmp, q )
   else :
     return q_tmp
@@ -130,13 +130,13 @@ def rotateQuat( q, q_rotation ) :
 
 #=======================================================================
 
-def conjugateQuat( q1, q2=0 ) :
+def conjugateQuat( q1, q2=None ) :
   qlen = len( q1 )
 
   ret_q = 0
-  if ( q2 == 0 ) :
+  if ( q2 is None ) :
     ret_q = 1
-    q2 = duplicateQuat( q )
+    q2 = duplicateQuat( q1 )
   else :
     assert( len( q2 ) == qlen )
     
-- 
2.43.0


From 2ac22097ca77f6d3a68610c4fc2e19875aaec840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:56 +0000
Subject: [PATCH 21/70] fix: quatSymm1 returned nothing for close orientations

---
 utils/quat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/quat.py b/utils/quat.py
index 09869dd..cd6c517 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -484,7 +484,7 @@ def quatSymm1( q1, q2, iq=0 ) :
 
   # Test qr(:,iq) first
   diff, q2_prime = quatDiff1( q1, q2, qr1[iq] )
-  if ( diff <= CRIT_DIFF ) : return
+  if ( diff <= CRIT_DIFF ) : return q2_prime
 
   min_diff = diff
   min_iq = iq
-- 
2.43.0


From b0183e8c5642403498ea2d3e3a856ef1415e5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 22/70] fix: make_sphere.py quaternion options fail with Python
 3 (map object, string.split)

---
 utils/make_sphere.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/make_sphere.py b/utils/make_sphere.py
index a5f9a6b..49ca261 100644
--- a/utils/make_sphere.py
+++ b/utils/make_sphere.py
@@ -183,7 +183,7 @@ if ( not options.quat_in is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, options.quat_in.split( ',' ) )
+  q = list(map( float, options.quat_in.split( ',' ) ))
   if ( QLEN == 4 ) :
     quat_inside.append( Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] ) )
   else :
@@ -207,7 +207,7 @@ if ( not options.quat_in_two is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, options.quat_in_two.split(',') )
+  q = list(map( float, options.quat_in_two.split(',') ))
   if ( QLEN == 4 ) :
     quat_inside.append( Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] ) )
   else :
@@ -231,7 +231,7 @@ if ( not options.quat_out is None ) :
 
   use_simple_rotation = False
 
-  q = map( float, string.split( options.quat_out, ',' ) )
+  q = list(map( float, options.quat_out.split( ',' ) ))
   if ( QLEN == 4 ) :
     quat_outside = Q.makeNormalizedQuat( q[0], q[1], q[2], q[3] )
   else :
-- 
2.43.0


From 468610f0303c69d60f589a8674f69cfbb9b4a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 23/70] fix: make_sphere.py --two crashes (centers overwritten
 by scalars), second angle in degrees

---
 utils/make_sphere.py | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/utils/make_sphere.py b/utils/make_sphere.py
index 49ca261..317697e 100644
--- a/utils/make_sphere.py
+++ b/utils/make_sphere.py
@@ -336,7 +336,7 @@ if ( use_simple_rotation ) :
 
   if ( n_spheres == "two" ) :
     if ( QLEN == 1 ) :
-      angle_inside.append( -angle / 2.0 )
+      angle_inside.append( -angle * math.pi / 180.0 )
     else :
       q0 = math.cos( ( math.pi / 180.0 ) * ( -angle / 2.0 ) )
       q1 = math.sqrt( 1 - q0 * q0 )
@@ -404,21 +404,6 @@ phase = N.ones( (nz,ny,nx), N.float64 )
 quat = N.zeros( (QLEN,nz,ny,nx), N.float64 )
 conc = N.ones( (nz,ny,nx), N.float64 )
 
-if ( n_spheres == "two" ) :
-  r_sq_two = radius_two**2
-
-  cx = nx / 2
-  cy = ny / 2
-  cz = nz / 2
-
-  cx_one = 3 * cx / 4
-  cy_one = 3 * cy / 4
-  cz_one = cz
-
-  cx_two = 5 * cx / 4
-  cy_two = 5 * cy / 4
-  cz_two = cz
-
 #-----------------------------------------------------------------------
 # Variables and functions for symmetry rotations
 
-- 
2.43.0


From 0ee2b9ba877a380181846a3040a953fc5f77ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 24/70] fix: make_nuclei.py, make_multi_spheres.py ignore
 --periodic (strings compared to 1)

---
 utils/make_multi_spheres.py | 4 ++--
 utils/make_nuclei.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/make_multi_spheres.py b/utils/make_multi_spheres.py
index 7165a59..993dac7 100644
--- a/utils/make_multi_spheres.py
+++ b/utils/make_multi_spheres.py
@@ -45,7 +45,7 @@ parser.add_option( "--concentration-out", type="string",
 parser.add_option( "-w", "--width", type="float",
                    help="interface width", default=0.0 )
 parser.add_option("--periodic", type="string", # something like "1,0,1" for periodic in x and z
-                  default="1,1,1",
+                  default="0,0,0",
                   help="specify which dimensions are periodic") 
 
 (options, args) = parser.parse_args()
@@ -94,7 +94,7 @@ print(sphase)
 width = 0.
 if ( options.width ) : width = options.width
 
-periodic = options.periodic.split( ',')
+periodic = [int(p) for p in options.periodic.split( ',')]
 
 #-----------------------------------------------------------------------
 if ( not options.concentration_out is None ) :
diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 847151b..c5dae91 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -76,7 +76,7 @@ parser.add_option( "--double", action="store_true", dest="double_precision", def
 parser.add_option( "--center0", type="string", # something like "12.,14.,23"
                   help="position of center 0")
 parser.add_option("--periodic", type="string", # something like "1,0,1" for periodic in x and z
-                  default="1,1,1",
+                  default="0,0,0",
                   help="specify which dimensions are periodic") 
 parser.add_option("--quat0", type="string",
                   help="specify value of quaternion in grain 0")
@@ -135,7 +135,7 @@ if( not(quat_outside is None) ):
   qout = map( float, options.quat_out.split( ',' ) )
   print ("qout={}".format(qout))
 
-periodic = options.periodic.split( ',')
+periodic = [int(p) for p in options.periodic.split( ',')]
 
 #-----------------------------------------------------------------------
 nspecies=0
-- 
2.43.0


From 59c9fe5b642f15f88c1896bc3aa7213f5defe529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 25/70] fix: make_nuclei.py, make_multi_spheres.py drop species
 with equal concentrations

---
 utils/make_multi_spheres.py | 2 +-
 utils/make_nuclei.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/make_multi_spheres.py b/utils/make_multi_spheres.py
index 993dac7..36f2064 100644
--- a/utils/make_multi_spheres.py
+++ b/utils/make_multi_spheres.py
@@ -111,7 +111,7 @@ if ( not options.concentration_out is None ) :
     concB = [float(i) for i in tmp]
     print(concB)
 
-  nspecies = len(set(concA))
+  nspecies = len(concA)
 else:
   nspecies = 0
 
diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index c5dae91..baad782 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -142,7 +142,7 @@ nspecies=0
 if ( not ( nomconc is None ) ):
   tmp = options.nomconc.split( ',' )
   c = [float(i) for i in tmp]
-  nspecies=len(set(c))
+  nspecies=len(c)
   print ("Nominal composition={}".format(c))
 if ( not ( conc_inside is None ) ):
   tmp = options.concentration_in.split( ',' )
-- 
2.43.0


From 13979b5274f3fe1bb0d1242bdd2038f80651f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 26/70] fix: make_nuclei.py --quat-out fails with Python 3 (map
 object indexed)

---
 utils/make_nuclei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index baad782..2c72902 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -132,7 +132,7 @@ temperature_outside  = options.temperature_out
 
 quat_outside  = options.quat_out
 if( not(quat_outside is None) ):
-  qout = map( float, options.quat_out.split( ',' ) )
+  qout = list(map( float, options.quat_out.split( ',' ) ))
   print ("qout={}".format(qout))
 
 periodic = [int(p) for p in options.periodic.split( ',')]
-- 
2.43.0


From 0fd272148ee5be680bae663bea1fa350d04ac177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 27/70] fix: make_initial_grains_on_boundary.py fails with
 several grains (float passed to randint)

---
 utils/make_initial_grains_on_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_initial_grains_on_boundary.py b/utils/make_initial_grains_on_boundary.py
index dfd43f0..fa2cbb0 100644
--- a/utils/make_initial_grains_on_boundary.py
+++ b/utils/make_initial_grains_on_boundary.py
@@ -116,7 +116,7 @@ if conc_inside is None :
 # generate quaternions corresponding to random orientations
 random.seed( 112345 )
 quat_inside=[]
-nangles = 20. #actually means fewer different angles if symmetry is on
+nangles = 20 #actually means fewer different angles if symmetry is on
 h = 2.*math.pi/nangles
 
 #-----------------------------------------------------------------------
-- 
2.43.0


From 5dd2646e2fec86f897b8c0e9a1686676ff26d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 28/70] fix: make_initial_grains_on_boundary.py smoothing wraps
 around non-periodic boundaries

---
 utils/make_initial_grains_on_boundary.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/make_initial_grains_on_boundary.py b/utils/make_initial_grains_on_boundary.py
index fa2cbb0..95b1158 100644
--- a/utils/make_initial_grains_on_boundary.py
+++ b/utils/make_initial_grains_on_boundary.py
@@ -183,12 +183,12 @@ def smoothQuat(quat,px,py,pz):
     for j in range(iy,ny):
       for k in range(iz,nz):
         quat_new[k,j,i] = 0.25*quat[k,j,i] \
-                        + 0.125*(quat[(k-1)%nz,j,i]) \
-                        + 0.125*(quat[(k+1)%nz,j,i]) \
-                        + 0.125*(quat[k,(j-1)%ny,i]) \
-                        + 0.125*(quat[k,(j+1)%ny,i]) \
-                        + 0.125*(quat[k,j,(i-1)%nx]) \
-                        + 0.125*(quat[k,j,(i+1)%nx])
+                        + 0.125*(quat[(k-1)%nn[2],j,i]) \
+                        + 0.125*(quat[(k+1)%nn[2],j,i]) \
+                        + 0.125*(quat[k,(j-1)%nn[1],i]) \
+                        + 0.125*(quat[k,(j+1)%nn[1],i]) \
+                        + 0.125*(quat[k,j,(i-1)%nn[0]]) \
+                        + 0.125*(quat[k,j,(i+1)%nn[0]])
   quat[:,:,:]=quat_new[:,:,:]
 
 
-- 
2.43.0


From 638e202a5f0aa2fb747c6a1b109ddb5296d414d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 29/70] fix: make_initial_grains_on_boundary.py grain offset
 uses x size whatever the plane

---
 utils/make_initial_grains_on_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/make_initial_grains_on_boundary.py b/utils/make_initial_grains_on_boundary.py
index 95b1158..c667aad 100644
--- a/utils/make_initial_grains_on_boundary.py
+++ b/utils/make_initial_grains_on_boundary.py
@@ -309,7 +309,7 @@ if not quatin is None and ngrains==1:
 else:
   setRandomQinGrains()
 
-offset=0.5*fraction*nn[0]
+offset=0.5*fraction*nn[dir0]
 if QLEN>0:
   gmin=0
   print("Fill quaternion values...")
-- 
2.43.0


From efa2206a1147856a27ddf26cb61505bd3f148556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 30/70] fix: substituteInputParameter.py corrupts every line
 after the first it replaces

---
 utils/substituteInputParameter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/substituteInputParameter.py b/utils/substituteInputParameter.py
index 117ccd4..09a8aac 100644
--- a/utils/substituteInputParameter.py
+++ b/utils/substituteInputParameter.py
@@ -8,7 +8,6 @@ lines = open(sys.argv[1],'r')
 
 parameter_name = sys.argv[2]
 parameter_val  = sys.argv[3]
-newline = " "
 
 # loop over lines of file
 for line in lines:
@@ -16,7 +15,7 @@ for line in lines:
   if len(words)>0:
     if words[0]==parameter_name:
       words[2]=parameter_val
-      newline = newline.join(words)
+      newline = " ".join(words)
       print("  {}".format(newline))
     else:
       print(line, end = '')
-- 
2.43.0


From 708f569023e27336aa8d21906b70560b6e4f258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 31/70] fix: volfracvstime.py reads the end of the log for
 times before the first cycle

---
 utils/volfracvstime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/volfracvstime.py b/utils/volfracvstime.py
index 4a4edee..2ee81ee 100644
--- a/utils/volfracvstime.py
+++ b/utils/volfracvstime.py
@@ -26,7 +26,7 @@ for line in range(l): ## loop over lines of file
 
   if num_matches1 :
     #search for time in previous lines
-    for line2 in range(line-1,line-1000,-1):
+    for line2 in range(line-1,max(-1,line-1000),-1):
       num_matches2 = L[line2].count(search_string2)
       if num_matches2:
         w=L[line2].split()
-- 
2.43.0


From 5c46df3aa0878c104edd37e021cb8942c315b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 32/70] fix: make_bilayer.py ignores the nominal composition
 given alone or with the outside one

---
 utils/make_bilayer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index dbb0b1b..c1cec80 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -512,13 +512,16 @@ if ( not ( conc_inside is None ) ):
     for s in range(nspecies):
       co[s] = (c[s]*vol-ci[s]*vs)/vl
     print("Calculated composition outside={}".format(co))
-if ( not ( options.concentration_out is None ) ):
+elif ( not ( conc_outside is None ) ):
   if ( not ( nomconc is None ) and vs>0 ):
-    conc_inside = (c[0]*vol-conc_outside*vl)/vs
-    print("Calculated composition inside={}".format(conc_inside))
-if( ( conc_outside is None ) and ( conc_inside is None ) ):
+    for s in range(nspecies):
+      ci[s] = (c[s]*vol-co[s]*vl)/vs
+    print("Calculated composition inside={}".format(ci))
+elif ( not ( nomconc is None ) ):
   conc_inside = nomconc
   conc_outside = nomconc
+  ci = list(c)
+  co = list(c)
 
 if ( not ( conc_outside is None ) and not ( conc_inside is None ) ):
   for s in range(nspecies):
-- 
2.43.0


From ba90da541b24cf791727ce35aed1796d3fac86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 33/70] fix: make_bilayer.py composition balance of two layers
 ignores the width ratio

---
 utils/make_bilayer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index c1cec80..3162333 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -490,15 +490,13 @@ def rotateByOctant( x, y, z, cx, cy, cz ) :
 #-----------------------------------------------------------------------
 # Fill data arrays
 vol=nx*ny*nz
+halfwidth = radius + radius_two
 if ( direction == 0 ) :
-  vs=2*radius*ny*nz
+  vs=2*halfwidth*ny*nz
 elif ( direction == 1 ) :
-  vs=2*radius*nx*nz
+  vs=2*halfwidth*nx*nz
 elif ( direction == 2 ) :
-  vs=2*radius*ny*nx
-
-if ( n_solid_layers == "two" ) :
-  vs=2.*vs
+  vs=2*halfwidth*ny*nx
 
 vs=min(vs,vol)
 vl=vol-vs
-- 
2.43.0


From aaa6907ea4b107a70a8417e114c5ccc7c23a5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 34/70] fix: make_nuclei.py crashes for the nominal composition
 given alone or with the outside one

---
 utils/make_nuclei.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/utils/make_nuclei.py b/utils/make_nuclei.py
index 2c72902..2605957 100644
--- a/utils/make_nuclei.py
+++ b/utils/make_nuclei.py
@@ -144,7 +144,7 @@ if ( not ( nomconc is None ) ):
   c = [float(i) for i in tmp]
   nspecies=len(c)
   print ("Nominal composition={}".format(c))
-if ( not ( conc_inside is None ) ):
+if ( not ( options.concentration_in is None ) ):
   tmp = options.concentration_in.split( ',' )
   ci = [float(i) for i in tmp]
   if nspecies==0:
@@ -714,18 +714,20 @@ if QLEN>0:
 
 #fill conc values
 if nspecies>0:
-  if ( not ( conc_inside is None ) ):
+  if ( not ( options.concentration_in is None ) ):
     if ( not ( nomconc is None ) and vl>0 ):
       for s in range(nspecies):
         co[s] = (c[s]*vol-ci[s]*vs)/vl
       print ("Calculated composition outside={}".format(co))
-  if ( not ( options.concentration_out is None ) ):
+  elif ( not ( options.concentration_out is None ) ):
     if ( not ( nomconc is None ) and vs>0 ):
-      conc_inside = (c[0]*vol-conc_outside*vl)/vs
-      print ("Calculated composition inside={}".format(conc_inside))
-  if( ( conc_outside is None ) and ( conc_inside is None ) ):
-    conc_inside = nomconc
+      for s in range(nspecies):
+        ci[s] = (c[s]*vol-co[s]*vl)/vs
+      print ("Calculated composition inside={}".format(ci))
+  elif ( not ( nomconc is None ) ):
     conc_outside = nomconc
+    ci = list(c)
+    co = list(c)
 
   if ( not ( conc_outside is None ) and not ( conc_inside is None ) ):
     for s in range(nspecies):
-- 
2.43.0


From 182352d16ed0cdc0425dfd9080813f5b5d4632a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:47 +0000
Subject: [PATCH 35/70] fix: make_bilayer.py puts both layers at the same place
 along z

---
 utils/make_bilayer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/make_bilayer.py b/utils/make_bilayer.py
index 3162333..aeded5a 100644
--- a/utils/make_bilayer.py
+++ b/utils/make_bilayer.py
@@ -444,9 +444,10 @@ cz_one = cz
 if n_solid_layers == "two" :
   cx_one = cx / 2
   cy_one = cy / 2
+  cz_one = cz / 2
   cx_two = 3 * cx / 2
   cy_two = 3 * cy / 2
-  cz_two = cz
+  cz_two = 3 * cz / 2
 
 #-----------------------------------------------------------------------
 # Variables and functions for symmetry rotations
-- 
2.43.0


From c266aa17f16bd8f7c364c90de379f96e33d27e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:50 +0000
Subject: [PATCH 36/70] fix: quatSymm and quatSymm1 index past the symmetry
 tables for iq = number of rotations

---
 utils/quat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/quat.py b/utils/quat.py
index cd6c517..51b9571 100644
--- a/utils/quat.py
+++ b/utils/quat.py
@@ -444,7 +444,7 @@ def quatSymm( q1, q2, iq=0 ) :
     CRIT_DIFF = 2.0 * math.sin( math.pi / 8.0 )
     N_ROTATIONS = 4
 
-  if ( iq > N_ROTATIONS or iq < -N_ROTATIONS ) : iq = 0
+  if ( iq >= N_ROTATIONS or iq <= -N_ROTATIONS ) : iq = 0
 
   if ( iq < 0 ) : iq = iq_qr_conj[-iq]
 
@@ -478,7 +478,7 @@ def quatSymm1( q1, q2, iq=0 ) :
   CRIT_DIFF = math.pi / 4.0
   N_ROTATIONS = 9
 
-  if ( iq > N_ROTATIONS or iq < -N_ROTATIONS ) : iq = 0
+  if ( iq >= N_ROTATIONS or iq <= -N_ROTATIONS ) : iq = 0
 
   if ( iq < 0 ) : iq = iq_qr1_conj[-iq]
 
-- 
2.43.0


From 790fd1fbdc9b0098a2146b1a74fb12d90c0c573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 37/70] fix: the restart file before the first step follows the
 regridding schedule, and time-based restart intervals miss the first one

---
 source/PFModel.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/PFModel.cc b/source/PFModel.cc
index 7469bd7..bc97230 100644
--- a/source/PFModel.cc
+++ b/source/PFModel.cc
@@ -450,10 +450,13 @@ void PFModel::Run(void)
       tbox::pout << "cycle # " << d_cycle << " : t = " << d_time << std::endl;
    }
 
-   if (d_regrid_interval->includeInitial(d_time)) {
+   if (d_restart_interval->includeInitial(d_time)) {
       writeRestartFile();
    }
 
+   // the hierarchy has just been built: only let the schedule know
+   d_regrid_interval->includeInitial(d_time);
+
    if (d_grain_diag_interval->includeInitial(d_time)) {
       computeGrainDiagnostics();
    }
-- 
2.43.0


From 2b4a4963e892c8eb630e0317c06ccb13ac23920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:12 +0000
Subject: [PATCH 38/70] fix: gradients at sides of scalar fields are computed
 with the kernel's own argument list

---
 source/HierarchyStencilOps.cc | 21 ++-------------------
 source/fortran/QuatFort.h     | 13 ++-----------
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/source/HierarchyStencilOps.cc b/source/HierarchyStencilOps.cc
index 1101181..48776c4 100644
--- a/source/HierarchyStencilOps.cc
+++ b/source/HierarchyStencilOps.cc
@@ -52,14 +52,6 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
    assert(grad_side_data->getGhostCellWidth() ==
           hier::IntVector(tbox::Dimension(NDIM), 0));
 
-   const hier::Box& diff_gbox = diff_data->getGhostBox();
-   const hier::Index& d_lower = diff_gbox.lower();
-   const hier::Index& d_upper = diff_gbox.upper();
-
-   const hier::Box& grad_gbox = grad_side_data->getGhostBox();
-   const hier::Index& g_lower = grad_gbox.lower();
-   const hier::Index& g_upper = grad_gbox.upper();
-
    std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
        SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
                               hier::PatchGeometry>(patch->getPatchGeometry()));
@@ -78,11 +70,7 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
 #if (NDIM == 3)
              diff_data->getPointer(2),
 #endif
-             d_lower[0], d_upper[0], d_lower[1], d_upper[1],
-#if (NDIM == 3)
-             d_lower[2], d_upper[2],
-#endif
-             dx,
+             diff_data->getGhostCellWidth()[0], dx,
              grad_side_data->getPointer(0, 0),  // side 0, depth 0 (x component)
              grad_side_data->getPointer(0, 1),  // side 0, depth 1 (y component)
 #if (NDIM == 3)
@@ -96,12 +84,7 @@ void HierarchyStencilOps::computeGradSide(std::shared_ptr<hier::Patch> patch,
              grad_side_data->getPointer(2, 0), grad_side_data->getPointer(2, 1),
              grad_side_data->getPointer(2, 2),
 #endif
-             g_lower[0], g_upper[0], g_lower[1], g_upper[1]
-#if (NDIM == 3)
-             ,
-             g_lower[2], g_upper[2]
-#endif
-   );
+             grad_side_data->getGhostCellWidth()[0]);
 }
 
 void HierarchyStencilOps::computeDiffs(
diff --git a/source/fortran/QuatFort.h b/source/fortran/QuatFort.h
index 7dae89e..c501d01 100644
--- a/source/fortran/QuatFort.h
+++ b/source/fortran/QuatFort.h
@@ -269,11 +269,7 @@ void GRAD_SIDE(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
                const double*,
 #endif
-               const int&, const int&, const int&, const int&,
-#if (NDIM == 3)
-               const int&, const int&,
-#endif
-               const double*, const double*, const double*,
+               const int&, const double*, const double*, const double*,
 #if (NDIM == 3)
                const double*,
 #endif
@@ -281,12 +277,7 @@ void GRAD_SIDE(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
                const double*, const double*, const double*, const double*,
 #endif
-               const int&, const int&, const int&, const int&
-#if (NDIM == 3)
-               ,
-               const int&, const int&
-#endif
-);
+               const int&);
 
 void GRAD_SIDE_ISOTROPIC(const int&, const int&, const int&, const int&,
 #if (NDIM == 3)
-- 
2.43.0


From e938a2c482a5dca23a3e28be25f9832650d8a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:02 +0000
Subject: [PATCH 39/70] fix: weights of the diagnostics subdomain count cells
 covered by finer levels

---
 source/QuatModel.cc | 8 ++++----
 source/QuatModel.h  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index d545241..5908b36 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -4746,7 +4746,7 @@ void QuatModel::computeVectorWeights(
       }
    }
 
-   zeroOutLowerLevelWeights(hierarchy);
+   zeroOutLowerLevelWeights(hierarchy, d_weight_id);
 }
 
 void QuatModel::computeVectorWeightsDiagnostics(
@@ -4833,11 +4833,11 @@ void QuatModel::computeVectorWeightsDiagnostics(
       }
    }
 
-   zeroOutLowerLevelWeights(hierarchy);
+   zeroOutLowerLevelWeights(hierarchy, d_weight_diagnostics_id);
 }
 
 void QuatModel::zeroOutLowerLevelWeights(
-    std::shared_ptr<hier::PatchHierarchy> hierarchy)
+    std::shared_ptr<hier::PatchHierarchy> hierarchy, const int weight_id)
 {
    int coarsest_ln = 0;
    int finest_ln = hierarchy->getFinestLevelNumber();
@@ -4874,7 +4874,7 @@ void QuatModel::zeroOutLowerLevelWeights(
                std::shared_ptr<pdat::CellData<double> > w(
                    SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>,
                                           hier::PatchData>(
-                       patch->getPatchData(d_weight_id)));
+                       patch->getPatchData(weight_id)));
                w->fillAll(0.0, intersection);
 
             }  // assignment only in non-empty intersection
diff --git a/source/QuatModel.h b/source/QuatModel.h
index 1c766fe..2bd882f 100644
--- a/source/QuatModel.h
+++ b/source/QuatModel.h
@@ -358,7 +358,7 @@ class QuatModel : public PFModel
    void initializeAmr(std::shared_ptr<tbox::Database> amr_db);
 
    void zeroOutLowerLevelWeights(
-       std::shared_ptr<hier::PatchHierarchy> hierarchy);
+       std::shared_ptr<hier::PatchHierarchy> hierarchy, const int weight_id);
 
    void resetRefPhaseConcentrations();
    void setPhaseConcentrationsToEquilibrium(const double* const ceq);
-- 
2.43.0


From bfc1ba289da5f7c3f587506be5c72901a13e0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:02 +0000
Subject: [PATCH 40/70] fix: the diagnostics subdomain is selected by cell
 centers, not lower corners

---
 source/QuatModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 5908b36..f3fd141 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -4824,7 +4824,7 @@ void QuatModel::computeVectorWeightsDiagnostics(
               ++i) {
             pdat::CellIndex cell = *i;
             for (int d = 0; d < NDIM; d++) {
-               double x = low[d] + cell(d) * dx[d];
+               double x = low[d] + (cell(d) + 0.5) * dx[d];
 
                if (x < dlow[d]) (*w)(cell) = 0.;
                if (x > dup[d]) (*w)(cell) = 0.;
-- 
2.43.0


From 1e113141e0a846d88e4f68e65bf47cfbf79dd68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:02 +0000
Subject: [PATCH 41/70] fix: weights of the diagnostics subdomain are
 recomputed after a regrid

---
 source/QuatModel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index f3fd141..64ed62a 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -3428,6 +3428,9 @@ void QuatModel::resetHierarchyConfiguration(
    }
 
    computeVectorWeights(d_patch_hierarchy);
+
+   if (d_subdomain_diagnostics[0] > 0.)
+      computeVectorWeightsDiagnostics(d_patch_hierarchy);
 }
 
 //=======================================================================
-- 
2.43.0


From e23295434e72cf5eff3931ed01887f1def9c805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 42/70] fix: liquid fraction at y and z sides uses the cell on
 both sides of the face

---
 source/fortran/2d/concentrationdiffusion.m4 | 2 +-
 source/fortran/3d/concentrationdiffusion.m4 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index da11f8b..27a6b11 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -502,7 +502,7 @@ c
             phis = interp_func( vphi, interp_type )
 
             vphi = average_func(
-     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1-1,nphi), avg_type )
+     &         phi(ic0,ic1-1,nphi), phi(ic0,ic1,nphi), avg_type )
             phil = interp_func( vphi, interp_type )
 
             invT = 2.0d0 / ( temp(ic0,ic1-1) + temp(ic0,ic1) )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 1e18855..b54ddb9 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1000,7 +1000,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1-1,ic2,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
@@ -1027,7 +1027,7 @@ c
                phis = interp_func( vphi, interp_type )
 
                vphi = average_func(
-     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1-1,ic2,nphi),
+     &            phi(ic0,ic1,ic2-1,nphi), phi(ic0,ic1,ic2,nphi),
      &            avg_type )
                phil = interp_func( vphi, interp_type )
 
-- 
2.43.0


From 5ba598ca1e0f9f4ef8acfb7634f0f1e1d07a8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 43/70] fix: sum all phase B order parameters at z sides in
 three-phase diffusion (3D)

---
 source/fortran/3d/concentrationdiffusion.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index b54ddb9..79391d2 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -573,7 +573,7 @@ c
 
                vphi = 0.d0
                do ip = 1, nphiB
-                  vphi = average_func(
+                  vphi = vphi + average_func(
      &               phiB(ic0,ic1,ic2-1,ip), phiB(ic0,ic1,ic2,ip),
      &               avg_type )
                enddo
-- 
2.43.0


From 97b5e3e159882bbab042c3991e2457b2fa81dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 44/70] fix: fill the ghost sides of multi-phase diffusion
 coefficients

---
 source/fortran/2d/concentrationdiffusion.m4 |  8 +++----
 source/fortran/3d/concentrationdiffusion.m4 | 24 ++++++++++-----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 27a6b11..53025d2 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -468,7 +468,7 @@ c
       q0_liquid_invR = q0_liquid / gas_constant_R
       q0_solid_invR  = q0_solid / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
+      do ic1 = ifirst1-ngdiff, ilast1+ngdiff
          do ic0 = ifirst0, ilast0+1
             vphi = 0.d0
 c assuming the first nphi-1 order parameters are solid phase
@@ -493,7 +493,7 @@ c assuming the first nphi-1 order parameters are solid phase
       end do
 c
       do ic1 = ifirst1, ilast1+1
-         do ic0 = ifirst0, ilast0
+         do ic0 = ifirst0-ngdiff, ilast0+ngdiff
             vphi = 0.d0
             do ip = 1, nphi-1
                vphi = vphi + average_func(
@@ -569,7 +569,7 @@ c
       q0_solidA_invR = q0_solidA / gas_constant_R
       q0_solidB_invR = q0_solidB / gas_constant_R
 c
-      do ic1 = ifirst1, ilast1
+      do ic1 = ifirst1-ngdiff, ilast1+ngdiff
          do ic0 = ifirst0, ilast0+1
 
             vphi = 0.d0
@@ -603,7 +603,7 @@ c
       end do
 c
       do ic1 = ifirst1, ilast1+1
-         do ic0 = ifirst0, ilast0
+         do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
             vphi = 0.d0
             do ip = 1, nphiA
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 79391d2..6c9144e 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -481,8 +481,8 @@ c
       q0_solidA_invR = q0_solidA / gas_constant_R
       q0_solidB_invR = q0_solidB / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-         do ic1 = ifirst1, ilast1
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
             do ic0 = ifirst0, ilast0+1
 
                vphi = 0.d0
@@ -520,9 +520,9 @@ c
          end do
       end do
 c
-      do ic2 = ifirst2, ilast2
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
          do ic1 = ifirst1, ilast1+1
-            do ic0 = ifirst0, ilast0
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
                vphi = 0.d0
                do ip = 1, nphiA
@@ -560,8 +560,8 @@ c
       end do
 c
       do ic2 = ifirst2, ilast2+1
-         do ic1 = ifirst1, ilast1
-            do ic0 = ifirst0, ilast0
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
 
                vphi = 0.d0
                do ip = 1, nphiA
@@ -960,8 +960,8 @@ c
       q0_liquid_invR = q0_liquid / gas_constant_R
       q0_solid_invR  = q0_solid / gas_constant_R
 c
-      do ic2 = ifirst2, ilast2
-         do ic1 = ifirst1, ilast1
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
             do ic0 = ifirst0, ilast0+1
                vphi = 0.d0
 c assuming the first nphi-1 order parameters are solid phase
@@ -988,9 +988,9 @@ c assuming the first nphi-1 order parameters are solid phase
          end do
       end do
 c
-      do ic2 = ifirst2, ilast2
+      do ic2 = ifirst2-ngdiff, ilast2+ngdiff
          do ic1 = ifirst1, ilast1+1
-            do ic0 = ifirst0, ilast0
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
                vphi = 0.d0
                do ip = 1, nphi-1
                   vphi = vphi + average_func(
@@ -1016,8 +1016,8 @@ c
       end do
 c
       do ic2 = ifirst2, ilast2+1
-         do ic1 = ifirst1, ilast1
-            do ic0 = ifirst0, ilast0
+         do ic1 = ifirst1-ngdiff, ilast1+ngdiff
+            do ic0 = ifirst0-ngdiff, ilast0+ngdiff
                vphi = 0.d0
                do ip = 1, nphi-1
                   vphi = vphi + average_func(
-- 
2.43.0


From 89da68516a8414fcaad367bb38baa226160c7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 45/70] fix: use the partition coefficient of both sides of a
 face in Beckermann diffusion

---
 source/fortran/2d/concentrationdiffusion.m4 |  8 ++++++--
 source/fortran/3d/concentrationdiffusion.m4 | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 53025d2..0c3f308 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -774,7 +774,9 @@ c
             
             hphi = interp_func( vphi, interp_type )
             
-            k = partition_coeff(ic0,ic1)
+            k = average_func(
+     &         partition_coeff(ic0-1,ic1), partition_coeff(ic0,ic1),
+     &         avg_type )
 
             diff0(ic0,ic1) = d_solid +
      &         (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -791,7 +793,9 @@ c
 
             hphi = interp_func( vphi, interp_type )
 
-            k = partition_coeff(ic0,ic1)
+            k = average_func(
+     &         partition_coeff(ic0,ic1-1), partition_coeff(ic0,ic1),
+     &         avg_type )
 
             diff1(ic0,ic1) = d_solid +
      &         (d_liquid-d_solid)*( 1.0d0 - hphi )
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 6c9144e..9406e6b 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -777,7 +777,9 @@ c
                
                hphi = interp_func( vphi, interp_type )
                
-               k = partition_coeff(ic0,ic1,ic2)
+               k = average_func(
+     &            partition_coeff(ic0-1,ic1,ic2),
+     &            partition_coeff(ic0,ic1,ic2), avg_type )
 
                diff0(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -796,7 +798,9 @@ c
 
                hphi = interp_func( vphi, interp_type )
 
-               k = partition_coeff(ic0,ic1,ic2)
+               k = average_func(
+     &            partition_coeff(ic0,ic1-1,ic2),
+     &            partition_coeff(ic0,ic1,ic2), avg_type )
 
                diff1(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
@@ -815,7 +819,9 @@ c
 
                hphi = interp_func( vphi, interp_type )
 
-               k = partition_coeff(ic0,ic1,ic2)
+               k = average_func(
+     &            partition_coeff(ic0,ic1,ic2-1),
+     &            partition_coeff(ic0,ic1,ic2), avg_type )
 
                diff2(ic0,ic1,ic2) = d_solid +
      &            (d_liquid-d_solid)*( 1.0d0 - hphi )
-- 
2.43.0


From 21151c4b0412d898ac7789e51059a44035ee98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 46/70] fix: grain boundary diffusion at patch sides includes
 the cells around the patch

---
 source/fortran/2d/concentrationdiffusion.m4 | 47 +++++++++------
 source/fortran/3d/concentrationdiffusion.m4 | 66 +++++++++++++--------
 2 files changed, 70 insertions(+), 43 deletions(-)

diff --git a/source/fortran/2d/concentrationdiffusion.m4 b/source/fortran/2d/concentrationdiffusion.m4
index 0c3f308..802b573 100644
--- a/source/fortran/2d/concentrationdiffusion.m4
+++ b/source/fortran/2d/concentrationdiffusion.m4
@@ -913,7 +913,8 @@ c variables in 2d cell indexed
       double precision diffB0(SIDE2d0(ifirst,ilast,ngdiff))
       double precision diffB1(SIDE2d1(ifirst,ilast,ngdiff))
 c
-      integer ic0, ic1, ipa, ipb, ipbmin
+      integer ic0, ic1, ipa, ipb, ipbmin, ng, i0, i1
+      logical in0, in1
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -923,9 +924,15 @@ c
       factor = 1.d0/(0.5d0-threshold)
       factor = factor**4
       q0_invR = q0 / gas_constant_R
-c
-      do ic1 = ifirst1, ilast1
-        do ic0 = ifirst0, ilast0
+c the sides of a patch also get contributions from the cells around it
+      ng = max(1, ngdiff)
+c
+      do ic1 = ifirst1-ng, ilast1+ng
+        do ic0 = ifirst0-ng, ilast0+ng
+          in0 = ic0.ge.ifirst0-ngdiff .and.
+     &            ic0.le.ilast0+ngdiff
+          in1 = ic1.ge.ifirst1-ngdiff .and.
+     &            ic1.le.ilast1+ngdiff
           invT = 1.0d0 / temp(ic0,ic1)
           factorT = d0c*exp(-q0_invR*invT)
 
@@ -945,20 +952,24 @@ c
 c factor 0.5 for two contributions, one from each side
                   dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
-c add contribution to four sides of each cell
-                  diffA0(ic0,ic1)   = diffA0(ic0,ic1) + dAB
-                  diffA0(ic0+1,ic1) = diffA0(ic0+1,ic1) + dAB
-                  diffA1(ic0,ic1)   = diffA1(ic0,ic1) + dAB
-                  diffA1(ic0,ic1+1) = diffA1(ic0,ic1+1) + dAB
-                  if( same_phase.eq.0 )then
-                    diffB0(ic0,ic1)   = diffB0(ic0,ic1)
-     &                                    + dAB
-                    diffB0(ic0+1,ic1) = diffB0(ic0+1,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1)   = diffB1(ic0,ic1)
-     &                                    + dAB
-                    diffB1(ic0,ic1+1) = diffB1(ic0,ic1+1)
-     &                                    + dAB
+c add contribution to the sides of each cell
+                  if( in1 )then
+                    do i0 = max(ic0,ifirst0), min(ic0+1,ilast0+1)
+                      diffA0(i0,ic1) = diffA0(i0,ic1) + dAB
+                      if( same_phase.eq.0 )then
+                        diffB0(i0,ic1) =
+     &                    diffB0(i0,ic1) + dAB
+                      endif
+                    end do
+                  endif
+                  if( in0 )then
+                    do i1 = max(ic1,ifirst1), min(ic1+1,ilast1+1)
+                      diffA1(ic0,i1) = diffA1(ic0,i1) + dAB
+                      if( same_phase.eq.0 )then
+                        diffB1(ic0,i1) =
+     &                    diffB1(ic0,i1) + dAB
+                      endif
+                    end do
                   endif
                 endif
               end do
diff --git a/source/fortran/3d/concentrationdiffusion.m4 b/source/fortran/3d/concentrationdiffusion.m4
index 9406e6b..b23e27d 100644
--- a/source/fortran/3d/concentrationdiffusion.m4
+++ b/source/fortran/3d/concentrationdiffusion.m4
@@ -1085,7 +1085,8 @@ c variables in 3d cell indexed
       double precision diffB1(SIDE3d1(ifirst,ilast,ngdiff))
       double precision diffB2(SIDE3d2(ifirst,ilast,ngdiff))
 c
-      integer ic0, ic1, ic2, ipa, ipb, ipbmin
+      integer ic0, ic1, ic2, ipa, ipb, ipbmin, ng, i0, i1, i2
+      logical in0, in1, in2
       double precision pa, pb, invT, factorT
       double precision q0_invR
       double precision dAB
@@ -1095,10 +1096,18 @@ c
       factor = 1.d0/(0.5d0-threshold)
       factor = factor**4
       q0_invR = q0 / gas_constant_R
-c
-      do ic2 = ifirst2, ilast2
-        do ic1 = ifirst1, ilast1
-          do ic0 = ifirst0, ilast0
+c the sides of a patch also get contributions from the cells around it
+      ng = max(1, ngdiff)
+c
+      do ic2 = ifirst2-ng, ilast2+ng
+        do ic1 = ifirst1-ng, ilast1+ng
+          do ic0 = ifirst0-ng, ilast0+ng
+            in0 = ic0.ge.ifirst0-ngdiff .and.
+     &              ic0.le.ilast0+ngdiff
+            in1 = ic1.ge.ifirst1-ngdiff .and.
+     &              ic1.le.ilast1+ngdiff
+            in2 = ic2.ge.ifirst2-ngdiff .and.
+     &              ic2.le.ilast2+ngdiff
             invT = 1.0d0 / temp(ic0,ic1,ic2)
             factorT = d0*exp(-q0_invR*invT)
 
@@ -1118,26 +1127,33 @@ c
 c factor 0.5 for two contributions, one from each side
                     dAB = 0.5d0*factor*pa*pa*pb*pb*factorT
 
-c add contribution to six sides of each cell
-                    diffA0(ic0,ic1,ic2)   = diffA0(ic0,ic1,ic2) + dAB
-                    diffA0(ic0+1,ic1,ic2) = diffA0(ic0+1,ic1,ic2) + dAB
-                    diffA1(ic0,ic1,ic2)   = diffA1(ic0,ic1,ic2) + dAB
-                    diffA1(ic0,ic1+1,ic2) = diffA1(ic0,ic1+1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2)   = diffA2(ic0,ic1,ic2) + dAB
-                    diffA2(ic0,ic1,ic2+1) = diffA2(ic0,ic1,ic2+1) + dAB
-                    if( same_phase.eq.0 )then
-                      diffB0(ic0,ic1,ic2)   = diffB0(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB0(ic0+1,ic1,ic2) = diffB0(ic0+1,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1,ic2)   = diffB1(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB1(ic0,ic1+1,ic2) = diffB1(ic0,ic1+1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2)   = diffB2(ic0,ic1,ic2)
-     &                                      + dAB
-                      diffB2(ic0,ic1,ic2+1) = diffB2(ic0,ic1,ic2+1)
-     &                                      + dAB
+c add contribution to the sides of each cell
+                    if( in1 .and. in2 )then
+                      do i0 = max(ic0,ifirst0), min(ic0+1,ilast0+1)
+                        diffA0(i0,ic1,ic2) = diffA0(i0,ic1,ic2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB0(i0,ic1,ic2) =
+     &                      diffB0(i0,ic1,ic2) + dAB
+                        endif
+                      end do
+                    endif
+                    if( in0 .and. in2 )then
+                      do i1 = max(ic1,ifirst1), min(ic1+1,ilast1+1)
+                        diffA1(ic0,i1,ic2) = diffA1(ic0,i1,ic2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB1(ic0,i1,ic2) =
+     &                      diffB1(ic0,i1,ic2) + dAB
+                        endif
+                      end do
+                    endif
+                    if( in0 .and. in1 )then
+                      do i2 = max(ic2,ifirst2), min(ic2+1,ilast2+1)
+                        diffA2(ic0,ic1,i2) = diffA2(ic0,ic1,i2) + dAB
+                        if( same_phase.eq.0 )then
+                          diffB2(ic0,ic1,i2) =
+     &                      diffB2(ic0,ic1,i2) + dAB
+                        endif
+                      end do
                     endif
                   endif
                 end do
-- 
2.43.0


From d813194dce2aab237685e5b35dfd2767346d34c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 47/70] fix: spinodal flux at z sides written to the z
 component

---
 source/fortran/3d/concentrationrhs.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index 54acfec..b4d6812 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -381,14 +381,14 @@ c      print*,kappa
          do ic2 = ifirst2, ilast2+1
          do ic1 = ifirst1, ilast1
          do ic0 = ifirst0, ilast0
-            flux1(ic0,ic1,ic2,ic) = 0.d0
+            flux2(ic0,ic1,ic2,ic) = 0.d0
             do jc = 1, ncomp
                ijc=ic+(jc-1)*ncomp
                sideca = 0.5*(
      &            conca(ic0,ic1,ic2-1,jc)+conca(ic0,ic1,ic2,jc) )
                sidecb = 0.5*(
      &            concb(ic0,ic1,ic2-1,jc)+concb(ic0,ic1,ic2,jc) )
-               flux2(ic0,ic1,ic2,ic) = flux1(ic0,ic1,ic2,ic)
+               flux2(ic0,ic1,ic2,ic) = flux2(ic0,ic1,ic2,ic)
      &         + dzinv*(
      &           diffconc2(ic0,ic1,ic2,ijc) *
      &           ( conc(ic0,ic1,ic2,jc) - conc(ic0,ic1,ic2-1,jc) )
-- 
2.43.0


From d7efa151dd5f16b8d30a10dcd4ab3aaae80f73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 48/70] fix: antitrapping flux for several order parameters in
 3D

---
 source/fortran/3d/concentrationrhs.m4 | 180 +++++++++++++-------------
 1 file changed, 90 insertions(+), 90 deletions(-)

diff --git a/source/fortran/3d/concentrationrhs.m4 b/source/fortran/3d/concentrationrhs.m4
index b4d6812..71510ed 100644
--- a/source/fortran/3d/concentrationrhs.m4
+++ b/source/fortran/3d/concentrationrhs.m4
@@ -953,12 +953,10 @@ c input arrays:
 c
       double precision dxinv, dyinv, dzinv
       double precision dphix, dphiy, dphiz, dphi2, dphin
-      double precision dphipx, dphipy, dphipz, dphipn, dphip2
+      double precision dphipx, dphipy, dphipz, dphip2
       integer          ic0, ic1, ic2, ip
       double precision tol, tol2, dpdt
       double precision ac(2)
-c storage for values at +-1,+-1
-      double precision vmm, vmp, vpm, vpp
 
       tol = 1.e-8
       tol2 = tol*tol
@@ -972,19 +970,19 @@ c x-faces
          do ic1 = ifirst1, ilast1
             do ic0 = ifirst0, ilast0+1
 c compute gradient liquid phase first
-               dphix = dxinv*( phase(ic0,  ic1,ic2,norderp)
-     &                       - phase(ic0-1,ic1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0  ,ic1-1,ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1-1,ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
-
+               dphix = dxinv * (
+     &                phase(ic0,ic1,ic2,norderp)
+     &               -phase(ic0-1,ic1,ic2,norderp) )
+               dphiy = dyinv*0.25d0 * (
+     &                phase(ic0-1,ic1+1,ic2,norderp)
+     &               -phase(ic0-1,ic1-1,ic2,norderp)
+     &               +phase(ic0,ic1+1,ic2,norderp)
+     &               -phase(ic0,ic1-1,ic2,norderp) )
+               dphiz = dzinv*0.25d0 * (
+     &                phase(ic0-1,ic1,ic2+1,norderp)
+     &               -phase(ic0-1,ic1,ic2-1,norderp)
+     &               +phase(ic0,ic1,ic2+1,norderp)
+     &               -phase(ic0,ic1,ic2-1,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -999,27 +997,27 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipx = dphipx + dxinv*(phase(ic0,ic1,ic2,ip)
-     &                                       -phase(ic0-1,ic1,ic2,ip))
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0  ,ic1-1,ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1-1,ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0-1,ic1,  ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphiy = dyinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+                     dphipx = dphipx + dxinv * (
+     &                      phase(ic0,ic1,ic2,ip)
+     &                     -phase(ic0-1,ic1,ic2,ip) )
+                     dphipy = dphipy + dyinv*0.25d0 * (
+     &                      phase(ic0-1,ic1+1,ic2,ip)
+     &                     -phase(ic0-1,ic1-1,ic2,ip)
+     &                     +phase(ic0,ic1+1,ic2,ip)
+     &                     -phase(ic0,ic1-1,ic2,ip) )
+                     dphipz = dphipz + dzinv*0.25d0 * (
+     &                      phase(ic0-1,ic1,ic2+1,ip)
+     &                     -phase(ic0-1,ic1,ic2-1,ip)
+     &                     +phase(ic0,ic1,ic2+1,ip)
+     &                     -phase(ic0,ic1,ic2-1,ip) )
                      dpdt = dpdt + 0.5d0*( dphidt(ic0-1,ic1,ic2,ip)
-     &                                    +dphidt(ic0,ic1,ic2,ip) )
+     &                                 +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphiz*dphiz
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
-                     dphipn = sqrt(dphip2)
                      flux0(ic0,ic1,ic2) = flux0(ic0,ic1,ic2) -
-     &                  alpha*(dphix/dphin)*(ac(1)-ac(2))*dpdt
+     &                alpha*(dphix/dphin)*(ac(1)-ac(2))*dpdt
                   endif
                endif
             enddo
@@ -1031,18 +1029,19 @@ c y-faces
          do ic1 = ifirst1, ilast1+1
             do ic0 = ifirst0, ilast0
 c compute gradient liquid phase first
-               dphiy = dyinv * ( phase(ic0,ic1,  ic2,norderp)
-     &                         - phase(ic0,ic1-1,ic2,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2-1,norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1,  ic2-1,norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiz = dzinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphiy = dyinv * (
+     &                phase(ic0,ic1,ic2,norderp)
+     &               -phase(ic0,ic1-1,ic2,norderp) )
+               dphix = dxinv*0.25d0 * (
+     &                phase(ic0+1,ic1-1,ic2,norderp)
+     &               -phase(ic0-1,ic1-1,ic2,norderp)
+     &               +phase(ic0+1,ic1,ic2,norderp)
+     &               -phase(ic0-1,ic1,ic2,norderp) )
+               dphiz = dzinv*0.25d0 * (
+     &                phase(ic0,ic1-1,ic2+1,norderp)
+     &               -phase(ic0,ic1-1,ic2-1,norderp)
+     &               +phase(ic0,ic1,ic2+1,norderp)
+     &               -phase(ic0,ic1,ic2-1,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1057,27 +1056,27 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipy = dphipy + dyinv*( phase(ic0,ic1,  ic2,ip)
-     &                                       - phase(ic0,ic1-1,ic2,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2-1,ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1-1,ic2,  ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1,  ic2-1,ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1-1,ic2,  ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipz = dphipz + dzinv*0.25d0*(vpp+vmp-vpm-vmm)
-                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
-     &                                     +dphidt(ic0,ic1,ic2,ip) )
+                     dphipy = dphipy + dyinv * (
+     &                      phase(ic0,ic1,ic2,ip)
+     &                     -phase(ic0,ic1-1,ic2,ip) )
+                     dphipx = dphipx + dxinv*0.25d0 * (
+     &                      phase(ic0+1,ic1-1,ic2,ip)
+     &                     -phase(ic0-1,ic1-1,ic2,ip)
+     &                     +phase(ic0+1,ic1,ic2,ip)
+     &                     -phase(ic0-1,ic1,ic2,ip) )
+                     dphipz = dphipz + dzinv*0.25d0 * (
+     &                      phase(ic0,ic1-1,ic2+1,ip)
+     &                     -phase(ic0,ic1-1,ic2-1,ip)
+     &                     +phase(ic0,ic1,ic2+1,ip)
+     &                     -phase(ic0,ic1,ic2-1,ip) )
+                     dpdt = dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
+     &                                 +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
-                     dphipn = sqrt(dphip2)
                      flux1(ic0,ic1,ic2) = flux1(ic0,ic1,ic2) -
-     &                  alpha*(dphiy/dphin)*(ac(1)-ac(2))*dpdt
+     &                alpha*(dphiy/dphin)*(ac(1)-ac(2))*dpdt
                   endif
                endif
             enddo
@@ -1089,18 +1088,19 @@ c z-faces
          do ic1 = ifirst1, ilast1
             do ic0 = ifirst0, ilast0
 c compute gradient liquid phase first
-               dphiz = dzinv * ( phase(ic0,ic1,ic2,norderp)
-     &                         - phase(ic0,ic1,ic2-1,norderp) )
-               vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,norderp)
-     &                     +phase(ic0-1,ic1-1,ic2,  norderp))
-               vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,norderp)
-     &                     +phase(ic0-1,ic1,  ic2,  norderp))
-               vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,norderp)
-     &                     +phase(ic0,  ic1-1,ic2,  norderp))
-               vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,norderp)
-     &                     +phase(ic0  ,ic1,  ic2,  norderp))
-               dphix = dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-               dphiy = dyinv*0.25d0*(vpp+vmp-vpm-vmm)
+               dphiz = dzinv * (
+     &                phase(ic0,ic1,ic2,norderp)
+     &               -phase(ic0,ic1,ic2-1,norderp) )
+               dphix = dxinv*0.25d0 * (
+     &                phase(ic0+1,ic1,ic2-1,norderp)
+     &               -phase(ic0-1,ic1,ic2-1,norderp)
+     &               +phase(ic0+1,ic1,ic2,norderp)
+     &               -phase(ic0-1,ic1,ic2,norderp) )
+               dphiy = dyinv*0.25d0 * (
+     &                phase(ic0,ic1+1,ic2-1,norderp)
+     &               -phase(ic0,ic1-1,ic2-1,norderp)
+     &               +phase(ic0,ic1+1,ic2,norderp)
+     &               -phase(ic0,ic1-1,ic2,norderp) )
                dphi2 = dphix*dphix+dphiy*dphiy+dphiz*dphiz
                if( dphi2 .gt. tol2 ) then
                   dphin = sqrt(dphi2)
@@ -1115,27 +1115,27 @@ c loop over solid order parameters
                   dphipz = 0.d0
                   dpdt   = 0.d0
                   do ip = 1, norderp-1
-                     dphipz = dphipz + dzinv*( phase(ic0,ic1,ic2,ip)
-     &                                       - phase(ic0,ic1,ic2-1,ip) )
-                     vmm = 0.5d0*(phase(ic0-1,ic1-1,ic2-1,ip)
-     &                           +phase(ic0-1,ic1-1,ic2,  ip))
-                     vmp = 0.5d0*(phase(ic0-1,ic1,  ic2-1,ip)
-     &                           +phase(ic0-1,ic1,  ic2,  ip))
-                     vpm = 0.5d0*(phase(ic0,  ic1-1,ic2-1,ip)
-     &                           +phase(ic0,  ic1-1,ic2,  ip))
-                     vpp = 0.5d0*(phase(ic0,  ic1,  ic2-1,ip)
-     &                           +phase(ic0  ,ic1,  ic2,  ip))
-                     dphipx = dphipx + dxinv*0.25d0*(vpp+vpm-vmm-vmp)
-                     dphipy = dphipy + dyinv*0.25d0*(vpp+vmp-vpm-vmm)
-                     dpdt =  dpdt + 0.5d0*( dphidt(ic0,ic1-1,ic2,ip)
-     &                                     +dphidt(ic0,ic1,ic2,ip) )
+                     dphipz = dphipz + dzinv * (
+     &                      phase(ic0,ic1,ic2,ip)
+     &                     -phase(ic0,ic1,ic2-1,ip) )
+                     dphipx = dphipx + dxinv*0.25d0 * (
+     &                      phase(ic0+1,ic1,ic2-1,ip)
+     &                     -phase(ic0-1,ic1,ic2-1,ip)
+     &                     +phase(ic0+1,ic1,ic2,ip)
+     &                     -phase(ic0-1,ic1,ic2,ip) )
+                     dphipy = dphipy + dyinv*0.25d0 * (
+     &                      phase(ic0,ic1+1,ic2-1,ip)
+     &                     -phase(ic0,ic1-1,ic2-1,ip)
+     &                     +phase(ic0,ic1+1,ic2,ip)
+     &                     -phase(ic0,ic1-1,ic2,ip) )
+                     dpdt = dpdt + 0.5d0*( dphidt(ic0,ic1,ic2-1,ip)
+     &                                 +dphidt(ic0,ic1,ic2,ip) )
                   enddo
-                  dphip2 = dphipx*dphipx+dphipy*dphipy
+                  dphip2 = dphipx*dphipx+dphipy*dphipy+dphipz*dphipz
 
                   if( dphip2 .gt. tol2 ) then
-                     dphipn = sqrt(dphip2)
                      flux2(ic0,ic1,ic2) = flux2(ic0,ic1,ic2) -
-     &                  alpha*(dphiy/dphin)*(ac(1)-ac(2))*dpdt
+     &                alpha*(dphiz/dphin)*(ac(1)-ac(2))*dpdt
                   endif
                endif
             enddo
-- 
2.43.0


From b4275157cdde3ed43aa077dc6f08c539916c27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 49/70] fix: Beckermann phase coefficient at y and z sides uses
 the right partition coefficient and concentration

---
 source/BeckermannCompositionRHSStrategy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/BeckermannCompositionRHSStrategy.cc b/source/BeckermannCompositionRHSStrategy.cc
index ef77481..8a2c444 100644
--- a/source/BeckermannCompositionRHSStrategy.cc
+++ b/source/BeckermannCompositionRHSStrategy.cc
@@ -249,7 +249,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
    kp_k = jp_k * k_gbox.numberCells(1);
 #endif
 
-   const hier::Box& c_i_gbox = cd_k->getGhostBox();
+   const hier::Box& c_i_gbox = cd_c->getGhostBox();
    int imin_c_i = c_i_gbox.lower(0);
    int jmin_c_i = c_i_gbox.lower(1);
    int jp_c_i = c_i_gbox.numberCells(0);
@@ -328,7 +328,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
             const int idx_k =
                 (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-            const int idxm1_k = idx_k - 1;
+            const int idxm1_k = idx_k - jp_k;
 
             // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
             double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
@@ -366,7 +366,7 @@ void BeckermannCompositionRHSStrategy::setDiffusionCoeffForPhaseOnPatch(
 
                const int idx_k =
                    (ii - imin_k) + (jj - jmin_k) * jp_k + (kk - kmin_k) * kp_k;
-               const int idxm1_k = idx_k - 1;
+               const int idxm1_k = idx_k - kp_k;
 
                // double phi = 0.5 * ( ptr_phi[idx_pf] + ptr_phi[idxm1_pf] );
                double phi = average(ptr_phi[idx_pf], ptr_phi[idxm1_pf]);
-- 
2.43.0


From 7e6ad8af804492149ebb92009753398970b4c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 50/70] fix: product of mobility and second derivatives
 matrices in the storage order the fluxes expect

---
 source/MobilityCompositionDiffusionStrategy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/MobilityCompositionDiffusionStrategy.cc b/source/MobilityCompositionDiffusionStrategy.cc
index 913b2fc..8dfceaa 100644
--- a/source/MobilityCompositionDiffusionStrategy.cc
+++ b/source/MobilityCompositionDiffusionStrategy.cc
@@ -16,6 +16,7 @@
 #include <vector>
 
 
+// c=a*b, all matrices stored by columns, as expected by the flux kernels
 void small_mat_mult(const short n, const double* const a, const double* const b,
                     double* c)
 {
@@ -23,7 +24,7 @@ void small_mat_mult(const short n, const double* const a, const double* const b,
       for (short i = 0; i < n; i++) {
          c[n * k + i] = 0.;
          for (short j = 0; j < n; j++)
-            c[n * k + i] += a[n * k + j] * b[n * j + i];
+            c[n * k + i] += a[n * j + i] * b[n * k + j];
       }
 }
 
-- 
2.43.0


From b5ef329010c4c876e57ac11ef71509379e34a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 51/70] fix: zero flux at boundaries for all species

---
 source/CompositionRHSStrategy.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/CompositionRHSStrategy.cc b/source/CompositionRHSStrategy.cc
index aabe19a..6b83c29 100644
--- a/source/CompositionRHSStrategy.cc
+++ b/source/CompositionRHSStrategy.cc
@@ -103,14 +103,17 @@ void CompositionRHSStrategy::setZeroFluxAtBoundaryOnPatch(hier::Patch& patch,
             up(dir) = pup(dir) + 1;
          }
 
+         for (int ic = 0; ic < flux->getDepth(); ic++) {
 #if (NDIM == 3)
-         SETTOZERO(lo(0), lo(1), lo(2), up(0), up(1), up(2), glo(0), glo(1),
-                   glo(2), gup(0), gup(1), gup(2), flux->getPointer(dir));
+            SETTOZERO(lo(0), lo(1), lo(2), up(0), up(1), up(2), glo(0), glo(1),
+                      glo(2), gup(0), gup(1), gup(2),
+                      flux->getPointer(dir, ic));
 #endif
 #if (NDIM == 2)
-         SETTOZERO(lo(0), lo(1), up(0), up(1), glo(0), glo(1), gup(0), gup(1),
-                   flux->getPointer(dir));
+            SETTOZERO(lo(0), lo(1), up(0), up(1), glo(0), glo(1), gup(0),
+                      gup(1), flux->getPointer(dir, ic));
 #endif
+         }
       }
    }  // loop over bdry boxes
 }
-- 
2.43.0


From bd24747972bcbb4ac6874ca12107ba407ff9979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 52/70] fix: boundary helper of the phase rate is not
 initialised on periodic domains

---
 source/QuatIntegrator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 594e1bd..2146f53 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -121,6 +121,7 @@ QuatIntegrator::QuatIntegrator(
       d_show_conc_sys_stats(false),
       d_conc_bc_coefs(nullptr),
       d_dphidt_bc_coefs(nullptr),
+      d_dphidt_bc_helper(nullptr),
       // private data members
       d_name(name),
       d_model_parameters(model_parameters),
-- 
2.43.0


From ea4e0194ffe31b2c50bcd0282bbe095a7672a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:10 +0000
Subject: [PATCH 53/70] fix: total energy is not a number without a free energy
 model

---
 source/QuatModelParameters.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/QuatModelParameters.cc b/source/QuatModelParameters.cc
index 2439251..1a80dc8 100644
--- a/source/QuatModelParameters.cc
+++ b/source/QuatModelParameters.cc
@@ -1207,9 +1207,10 @@ void QuatModelParameters::readFreeEnergies(
          d_free_energy_solid_B = db->getDouble("free_energy_solid_B");
       }
    } else {
-      if (d_free_energy_type[0] == 'l') {
-         d_free_energy_solid_A = 0.;
-      }
+      // the bulk phases do not contribute to the energy, except through the
+      // departure from the melting temperature for type 'linear'
+      d_free_energy_solid_A = 0.;
+      d_free_energy_solid_B = 0.;
    }
 }
 
-- 
2.43.0


From 7eff920d7e454ea2ad4f99f1e0dadeb4cd301991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:50 +0000
Subject: [PATCH 54/70] fix: constant heat capacity is lost on patches created
 by a regrid

---
 source/ConstantHeatCapacityStrategy.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/source/ConstantHeatCapacityStrategy.cc b/source/ConstantHeatCapacityStrategy.cc
index 8bf827b..26d8020 100644
--- a/source/ConstantHeatCapacityStrategy.cc
+++ b/source/ConstantHeatCapacityStrategy.cc
@@ -25,12 +25,7 @@ void ConstantHeatCapacityStrategy::setCurrentValue(
 {
    assert(d_cp_id >= 0);
 
-   static bool first_time = true;
-
-   if (first_time) {
-      math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
-      mathops.setToScalar(d_cp_id, d_cp);
-   }
-
-   first_time = false;
+   // patches may have changed since last call
+   math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
+   mathops.setToScalar(d_cp_id, d_cp);
 }
-- 
2.43.0


From 5a4643c4ebf1a0c1286bd1a6de51a05f25d06949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:02 +0000
Subject: [PATCH 55/70] fix: boundary flags read for a third axis in two
 dimensions

---
 source/EBSCompositionRHSStrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/EBSCompositionRHSStrategy.cc b/source/EBSCompositionRHSStrategy.cc
index 2232f8d..3c33fa7 100644
--- a/source/EBSCompositionRHSStrategy.cc
+++ b/source/EBSCompositionRHSStrategy.cc
@@ -247,12 +247,14 @@ void EBSCompositionRHSStrategy::computeFluxOnPatch(hier::Patch& patch,
    if (pg->getTouchesRegularBoundary(1, 1)) {
       physbc[3] = 1;
    }
+#if (NDIM == 3)
    if (pg->getTouchesRegularBoundary(2, 0)) {
       physbc[4] = 1;
    }
    if (pg->getTouchesRegularBoundary(2, 1)) {
       physbc[5] = 1;
    }
+#endif
 
 
    // now add components of concentration flux,
-- 
2.43.0


From 3b0ce016d951bbd8e9eb0b9962180792103035a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:07 +0000
Subject: [PATCH 56/70] fix: prescribed temperature is not set on patches
 created by a regrid

---
 source/GaussianTemperatureStrategy.cc | 36 +++++++++++++--------------
 source/ScalarTemperatureStrategy.cc   | 12 ++++-----
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/source/GaussianTemperatureStrategy.cc b/source/GaussianTemperatureStrategy.cc
index d3eb95c..23cfe53 100644
--- a/source/GaussianTemperatureStrategy.cc
+++ b/source/GaussianTemperatureStrategy.cc
@@ -129,32 +129,30 @@ void GaussianTemperatureStrategy::setCurrentTemperature(
       }
    }
 
-   if (d_dtemperaturedt != 0.0 || time == 0.0) {
+   // set even if T is constant in time: the center may move and patches be new
+   double tgaussian = getCurrentTemperature(time);
 
-      double tgaussian = getCurrentTemperature(time);
+   int maxln = patch_hierarchy->getFinestLevelNumber();
 
-      int maxln = patch_hierarchy->getFinestLevelNumber();
+   for (int ln = 0; ln <= maxln; ln++) {
 
-      for (int ln = 0; ln <= maxln; ln++) {
+      std::shared_ptr<hier::PatchLevel> level =
+          patch_hierarchy->getPatchLevel(ln);
 
-         std::shared_ptr<hier::PatchLevel> level =
-             patch_hierarchy->getPatchLevel(ln);
+      for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
+           p++) {
 
-         for (hier::PatchLevel::Iterator p(level->begin()); p != level->end();
-              p++) {
+         std::shared_ptr<hier::Patch> patch = *p;
 
-            std::shared_ptr<hier::Patch> patch = *p;
+         std::shared_ptr<pdat::CellData<double> > t_data(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+                 patch->getPatchData(d_temperature_id)));
+         setCurrentTemperaturePrivatePatch(*patch, t_data, tgaussian);
 
-            std::shared_ptr<pdat::CellData<double> > t_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                    patch->getPatchData(d_temperature_id)));
-            setCurrentTemperaturePrivatePatch(*patch, t_data, tgaussian);
-
-            std::shared_ptr<pdat::CellData<double> > ts_data(
-                SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
-                    patch->getPatchData(d_temperature_scratch_id)));
-            setCurrentTemperaturePrivatePatch(*patch, ts_data, tgaussian);
-         }
+         std::shared_ptr<pdat::CellData<double> > ts_data(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
+                 patch->getPatchData(d_temperature_scratch_id)));
+         setCurrentTemperaturePrivatePatch(*patch, ts_data, tgaussian);
       }
    }
 
diff --git a/source/ScalarTemperatureStrategy.cc b/source/ScalarTemperatureStrategy.cc
index 5d62a94..afabd36 100644
--- a/source/ScalarTemperatureStrategy.cc
+++ b/source/ScalarTemperatureStrategy.cc
@@ -79,12 +79,10 @@ void ScalarTemperatureStrategy::setCurrentTemperature(
    assert(d_temperature_id >= 0);
    assert(d_temperature_scratch_id >= 0);
 
-   if (d_dtemperaturedt != 0.0 || time == 0.0) {
+   // set even if constant in time: patches may be new, with ghost values not set
+   double t = getCurrentTemperature(time);
 
-      double t = getCurrentTemperature(time);
-
-      math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
-      mathops.setToScalar(d_temperature_id, t);
-      mathops.setToScalar(d_temperature_scratch_id, t, false);
-   }
+   math::HierarchyCellDataOpsReal<double> mathops(hierarchy);
+   mathops.setToScalar(d_temperature_id, t);
+   mathops.setToScalar(d_temperature_scratch_id, t, false);
 }
-- 
2.43.0


From 17434da202b5401445b3b2c037e1650ce6368157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:53 +0000
Subject: [PATCH 57/70] fix: grain numbering writes past the end of its table
 of strides

---
 source/Grains.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index 4b251ad..29db72c 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -286,7 +286,7 @@ void Grains::findAndNumberGrains(
    // Give each cell a unique number across entire hierarchy.
 
    int nlevels = maxln + 1;
-   int* level_stride = new int[nlevels * NDIM];
+   int* level_stride = new int[nlevels * NDIM + 1];
    int* level_offset = new int[nlevels];
    level_offset[0] = 0;
 
-- 
2.43.0


From f8260e330885f6eb32bc38f510222ee29bda88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:53 +0000
Subject: [PATCH 58/70] fix: cells of different levels share an initial grain
 number

---
 source/Grains.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index 29db72c..e43295b 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -298,7 +298,7 @@ void Grains::findAndNumberGrains(
       bl.print();
 
       hier::Box bbox = bl.getBoundingBox();
-      int bbox_size = bl.size();
+      int bbox_size = static_cast<int>(bbox.size());
 
       if (ln < maxln) {
          level_offset[ln + 1] = level_offset[ln] + bbox_size;
-- 
2.43.0


From 9b32ed831a6b15029d69be202595735a5dfb028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:53 +0000
Subject: [PATCH 59/70] fix: grain extension stops when the last patch is
 complete

---
 source/Grains.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index e43295b..8fd06f5 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -973,7 +973,7 @@ void Grains::extendGrainOrientation(
    // is one.
    int nn;
    for (nn = 0; nn < max_iteration_count; nn++) {
-      int one_still_unset = 1;
+      int one_still_unset = 0;
 
       for (int ln = 0; ln <= maxln; ln++) {
          std::shared_ptr<hier::PatchLevel> level = hierarchy->getPatchLevel(ln);
@@ -1006,8 +1006,6 @@ void Grains::extendGrainOrientation(
                 SAMRAI_SHARED_PTR_CAST<pdat::CellData<double>, hier::PatchData>(
                     patch->getPatchData(d_grain_quat_scr_id)));
 
-            one_still_unset = 0;
-
             pdat::CellIterator iend(pdat::CellGeometry::end(pbox));
             for (pdat::CellIterator i(pdat::CellGeometry::begin(pbox));
                  i != iend; ++i) {
-- 
2.43.0


From 7ee3bfa74c8cc9e638c20d4f3895b716b83ba1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:53 +0000
Subject: [PATCH 60/70] fix: grain extension reads flags outside the domain
 that are never set

---
 source/Grains.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Grains.cc b/source/Grains.cc
index 8fd06f5..39e2ad9 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -953,6 +953,12 @@ void Grains::extendGrainOrientation(
 
          flag->fillAll(0);
 
+         // values outside the domain are not filled by the schedules
+         std::shared_ptr<pdat::CellData<int> > flag_scr(
+             SAMRAI_SHARED_PTR_CAST<pdat::CellData<int>, hier::PatchData>(
+                 patch->getPatchData(d_grain_extend_scr_id)));
+         flag_scr->fillAll(0);
+
          pdat::CellIterator iend(pdat::CellGeometry::end(pbox));
          for (pdat::CellIterator i(pdat::CellGeometry::begin(pbox)); i != iend;
               ++i) {
-- 
2.43.0


From 5653d16837a52a5bb0da0ca12b98a38288bb43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:53 +0000
Subject: [PATCH 61/70] fix: grain extension stops before it reaches the cells
 across a diagonal

---
 source/Grains.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index 39e2ad9..a09000a 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -924,11 +924,13 @@ void Grains::extendGrainOrientation(
       hier::BoxContainer bl(level->getPhysicalDomain(hier::BlockId::zero()));
       hier::Box bbox = bl.getBoundingBox();
 
+      // a cell is reached through its faces
+      int width = 0;
       for (tbox::Dimension::dir_t dd = 0; dd < NDIM; ++dd) {
-         int width = bbox.numberCells(dd);
-         if (width > max_iteration_count) {
-            max_iteration_count = width;
-         }
+         width += bbox.numberCells(dd);
+      }
+      if (width > max_iteration_count) {
+         max_iteration_count = width;
       }
    }
 
-- 
2.43.0


From 6fdceb57f24a76417072e15268e44eb0f13ecb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:53 +0000
Subject: [PATCH 62/70] fix: grain extension without diagnostics uses an
 algorithm that does not exist

---
 source/Grains.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/Grains.cc b/source/Grains.cc
index a09000a..d8e5c4b 100644
--- a/source/Grains.cc
+++ b/source/Grains.cc
@@ -1122,14 +1122,16 @@ void Grains::resetHierarchyConfiguration(
    const int ln_beg = coarsest_level - (coarsest_level > 0);
    const int ln_end = finest_level;
 
-   for (int ln = ln_beg; ln < ln_end; ln++) {
-      std::shared_ptr<hier::PatchLevel> level = hierarchy->getPatchLevel(ln);
-      std::shared_ptr<hier::PatchLevel> finer_level =
-          hierarchy->getPatchLevel(ln + 1);
+   if (d_grain_diag_isActive)
+      for (int ln = ln_beg; ln < ln_end; ln++) {
+         std::shared_ptr<hier::PatchLevel> level =
+             hierarchy->getPatchLevel(ln);
+         std::shared_ptr<hier::PatchLevel> finer_level =
+             hierarchy->getPatchLevel(ln + 1);
 
-      d_grain_number_coarsen_sched[ln] =
-          d_grain_number_coarsen_alg->createSchedule(level, finer_level);
-   }
+         d_grain_number_coarsen_sched[ln] =
+             d_grain_number_coarsen_alg->createSchedule(level, finer_level);
+      }
    if (d_grain_extend_isActive) {
       d_grain_extend_refine_sched.resize(nlev);
       d_grain_quat_refine_sched.resize(nlev);
-- 
2.43.0


From c1dbb99b98f86cc9560091040f50d113262a95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:12 +0000
Subject: [PATCH 63/70] fix: linear refinement of orientations leaves out the
 last row of every box

---
 source/QuatLinearRefine.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/QuatLinearRefine.cc b/source/QuatLinearRefine.cc
index 901537d..8c35a5d 100644
--- a/source/QuatLinearRefine.cc
+++ b/source/QuatLinearRefine.cc
@@ -102,7 +102,6 @@ void QuatLinearRefine::refine(hier::Patch& fine, const hier::Patch& coarse,
    for (hier::BoxContainer::const_iterator b = boxes.begin(); b != boxes.end();
         ++b) {
       hier::Box fine_box(*b);
-      fine_box.growUpper(hier::IntVector(ratio.getDim(), -1));
       refine(fine, coarse, dst_component, src_component, fine_box, ratio);
    }
 }
-- 
2.43.0


From 094e6e2637ef3e1b09128a661eb5b875199a2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:12 +0000
Subject: [PATCH 64/70] fix: symmetry-aware transfers of orientations end the
 program

---
 source/fortran/2d/quatcoarsen.m4   |  3 ++-
 source/fortran/2d/quatlinrefine.m4 |  8 ++++----
 source/fortran/3d/quatcoarsen.m4   |  2 +-
 source/fortran/3d/quatlinrefine.m4 | 16 ++++++++--------
 4 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/source/fortran/2d/quatcoarsen.m4 b/source/fortran/2d/quatcoarsen.m4
index 4209d30..86fee50 100644
--- a/source/fortran/2d/quatcoarsen.m4
+++ b/source/fortran/2d/quatcoarsen.m4
@@ -83,7 +83,8 @@ c
                         do m = 1, depth
                            q1(m) = qfine(if0,if1,m)
                         enddo
-                        call quatsymmrotate( q1, iq, q1_prime, depth )
+                        call quatfindsymm( q0, q1, iq,
+     &                     q1_prime, depth )
                      endif
                   else
                      do m = 1, depth
diff --git a/source/fortran/2d/quatlinrefine.m4 b/source/fortran/2d/quatlinrefine.m4
index f8c8a81..4d5d604 100644
--- a/source/fortran/2d/quatlinrefine.m4
+++ b/source/fortran/2d/quatlinrefine.m4
@@ -94,10 +94,10 @@ c
                q3(m) = arrayc(ic0+1,ic1,m)
                q4(m) = arrayc(ic0+1,ic1+1,m)
             enddo
-            call quatsymmrotate( q1, iq, q1_prime, depth )
-            call quatsymmrotate( q2, iq, q2_prime, depth )
-            call quatsymmrotate( q3, iq, q3_prime, depth )
-            call quatsymmrotate( q4, iq, q4_prime, depth )
+            call quatfindsymm( qref, q1, iq, q1_prime, depth )
+            call quatfindsymm( qref, q2, iq, q2_prime, depth )
+            call quatfindsymm( qref, q3, iq, q3_prime, depth )
+            call quatfindsymm( qref, q4, iq, q4_prime, depth )
             do m = 1, depth
                q1(m)=
      &            (q1_prime(m)+(q3_prime(m)-q1_prime(m))*x)*(one-y)
diff --git a/source/fortran/3d/quatcoarsen.m4 b/source/fortran/3d/quatcoarsen.m4
index 6e32c5e..b200623 100644
--- a/source/fortran/3d/quatcoarsen.m4
+++ b/source/fortran/3d/quatcoarsen.m4
@@ -91,7 +91,7 @@ c
                               do m = 1, depth
                                  q1(m) = qfine(if0,if1,if2,m)
                               enddo
-                              call quatsymmrotate( q1, iq, q1_prime,
+                              call quatfindsymm( q0, q1, iq, q1_prime,
      &                           depth )
                            endif
                         else
diff --git a/source/fortran/3d/quatlinrefine.m4 b/source/fortran/3d/quatlinrefine.m4
index 43007da..bed7471 100644
--- a/source/fortran/3d/quatlinrefine.m4
+++ b/source/fortran/3d/quatlinrefine.m4
@@ -123,14 +123,14 @@ c
                   q7(m) = arrayc(ic0+1,ic1,  ic2+1,m)
                   q8(m) = arrayc(ic0+1,ic1+1,ic2+1,m)
                enddo
-               call quatsymmrotate( q1, iq, q1_prime, depth )
-               call quatsymmrotate( q2, iq, q2_prime, depth )
-               call quatsymmrotate( q3, iq, q3_prime, depth )
-               call quatsymmrotate( q4, iq, q4_prime, depth )
-               call quatsymmrotate( q5, iq, q5_prime, depth )
-               call quatsymmrotate( q6, iq, q6_prime, depth )
-               call quatsymmrotate( q7, iq, q7_prime, depth )
-               call quatsymmrotate( q8, iq, q8_prime, depth )
+               call quatfindsymm( qref, q1, iq, q1_prime, depth )
+               call quatfindsymm( qref, q2, iq, q2_prime, depth )
+               call quatfindsymm( qref, q3, iq, q3_prime, depth )
+               call quatfindsymm( qref, q4, iq, q4_prime, depth )
+               call quatfindsymm( qref, q5, iq, q5_prime, depth )
+               call quatfindsymm( qref, q6, iq, q6_prime, depth )
+               call quatfindsymm( qref, q7, iq, q7_prime, depth )
+               call quatfindsymm( qref, q8, iq, q8_prime, depth )
                do m = 1, depth
                   q1(m)=
      &               ( (q1_prime(m)
-- 
2.43.0


From 9661e541f72ab149291bfb2c0444663fde998f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:57 +0000
Subject: [PATCH 65/70] fix: use the spacing of the patch, not of the coarsest
 level, in the fluxes of EllipticFACOps

---
 source/EllipticFACOps.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/EllipticFACOps.cc b/source/EllipticFACOps.cc
index 03ae99d..fd9f173 100644
--- a/source/EllipticFACOps.cc
+++ b/source/EllipticFACOps.cc
@@ -1247,10 +1247,9 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
 
    const int patch_ln = patch.getPatchLevelNumber();
    const hier::GlobalId id = patch.getGlobalId();
-   std::shared_ptr<geom::CartesianGridGeometry> patch_geom(
-       SAMRAI_SHARED_PTR_CAST<geom::CartesianGridGeometry,
-                              hier::BaseGridGeometry>(
-           d_hierarchy->getGridGeometry()));
+   std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
+       SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
+                              hier::PatchGeometry>(patch.getPatchGeometry()));
    const double *dx = patch_geom->getDx();
    const hier::Box &patch_box(patch.getBox());
    const hier::Index &plower = patch_box.lower();
@@ -1955,10 +1954,9 @@ void EllipticFACOps::computeFluxOnPatch(
    TBOX_ASSERT(w_data.getDepth() > depth);
    TBOX_ASSERT(Dgradw_data.getDepth() > depth);
 
-   std::shared_ptr<geom::CartesianGridGeometry> patch_geom(
-       SAMRAI_SHARED_PTR_CAST<geom::CartesianGridGeometry,
-                              hier::BaseGridGeometry>(
-           d_hierarchy->getGridGeometry()));
+   std::shared_ptr<geom::CartesianPatchGeometry> patch_geom(
+       SAMRAI_SHARED_PTR_CAST<geom::CartesianPatchGeometry,
+                              hier::PatchGeometry>(patch.getPatchGeometry()));
    TBOX_ASSERT(patch_geom);
    const hier::Box &box = patch.getBox();
    const int *lower = &box.lower()[0];
-- 
2.43.0


From 0ad77949e2d0903740ed068112474005443370cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:57 +0000
Subject: [PATCH 66/70] fix: use the coefficients of the component being
 treated in EllipticFACOps

---
 source/EllipticFACOps.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/source/EllipticFACOps.cc b/source/EllipticFACOps.cc
index fd9f173..da0fed5 100644
--- a/source/EllipticFACOps.cc
+++ b/source/EllipticFACOps.cc
@@ -1267,11 +1267,11 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
    const double *flux2 = flux_data.getPointer(2, depth);
 #endif
 
-   if (d_poisson_spec[0].dIsVariable()) {
+   if (d_poisson_spec[depth].dIsVariable()) {
 
       std::shared_ptr<pdat::SideData<double> > diffcoef_data(
           SAMRAI_SHARED_PTR_CAST<pdat::SideData<double>, hier::PatchData>(
-              patch.getPatchData(d_poisson_spec[0].getDPatchDataId())));
+              patch.getPatchData(d_poisson_spec[depth].getDPatchDataId())));
 
       for (bn = 0; bn < nboxes; ++bn) {
          const hier::BoundaryBox &boundary_box = bboxes[bn];
@@ -1311,7 +1311,7 @@ void EllipticFACOps::ewingFixFlux(const hier::Patch &patch,
       }
    } else {
 
-      const double diffcoef_constant = d_poisson_spec[0].getDConstant();
+      const double diffcoef_constant = d_poisson_spec[depth].getDConstant();
 
       for (bn = 0; bn < nboxes; ++bn) {
          const hier::BoundaryBox &boundary_box = bboxes[bn];
@@ -2053,10 +2053,10 @@ void EllipticFACOps::accumulateOperatorOnPatch(
 
    std::shared_ptr<pdat::CellData<double> > scalar_field_data;
    double scalar_field_constant;
-   if (d_poisson_spec[0].cIsVariable()) {
+   if (d_poisson_spec[depth].cIsVariable()) {
       scalar_field_data =
           std::dynamic_pointer_cast<pdat::CellData<double>, hier::PatchData>(
-              patch.getPatchData(d_poisson_spec[0].getCPatchDataId()));
+              patch.getPatchData(d_poisson_spec[depth].getCPatchDataId()));
 #if NDIM == 2
       ACCUMOPVARSCA2D(
           flux0, flux1, &flux_data.getGhostCellWidth()[0],
@@ -2084,8 +2084,8 @@ void EllipticFACOps::accumulateOperatorOnPatch(
           &soln_data.getGhostCellWidth()[2], &lower[0], &upper[0], &lower[1],
           &upper[1], &lower[2], &upper[2], dx);
 #endif
-   } else if (d_poisson_spec[0].cIsConstant()) {
-      scalar_field_constant = d_poisson_spec[0].getCConstant();
+   } else if (d_poisson_spec[depth].cIsConstant()) {
+      scalar_field_constant = d_poisson_spec[depth].getCConstant();
 #if NDIM == 2
       ACCUMOPCONSCA2D(flux0, flux1, &flux_data.getGhostCellWidth()[0],
                       &flux_data.getGhostCellWidth()[1],
@@ -2171,10 +2171,10 @@ void EllipticFACOps::computeResidualOnPatch(
 
    std::shared_ptr<pdat::CellData<double> > scalar_field_data;
    double scalar_field_constant;
-   if (d_poisson_spec[0].cIsVariable()) {
+   if (d_poisson_spec[depth].cIsVariable()) {
       scalar_field_data =
           std::dynamic_pointer_cast<pdat::CellData<double>, hier::PatchData>(
-              patch.getPatchData(d_poisson_spec[0].getCPatchDataId()));
+              patch.getPatchData(d_poisson_spec[depth].getCPatchDataId()));
       TBOX_ASSERT(scalar_field_data);
 
 #if NDIM == 2
@@ -2211,8 +2211,8 @@ void EllipticFACOps::computeResidualOnPatch(
           &soln_data.getGhostCellWidth()[2], &lower[0], &upper[0], &lower[1],
           &upper[1], &lower[2], &upper[2], dx);
 #endif
-   } else if (d_poisson_spec[0].cIsConstant()) {
-      scalar_field_constant = d_poisson_spec[0].getCConstant();
+   } else if (d_poisson_spec[depth].cIsConstant()) {
+      scalar_field_constant = d_poisson_spec[depth].getCConstant();
 #if NDIM == 2
       EFO_COMPRESCONSCA2D(flux0, flux1, &flux_data.getGhostCellWidth()[0],
                           &flux_data.getGhostCellWidth()[1], rhs,
@@ -2342,7 +2342,7 @@ void EllipticFACOps::redOrBlackSmoothingOnPatch(
    const double *flux2 = flux_data.getPointer(2, depth);
 #endif
 
-   if (d_poisson_spec[0].dIsVariable() && d_poisson_spec[depth].cIsVariable()) {
+   if (d_poisson_spec[depth].dIsVariable() && d_poisson_spec[depth].cIsVariable()) {
 #if NDIM == 2
       EFO_RBGSWITHFLUXMAXVARDCVARSF2D(
           flux0, flux1, &flux_data.getGhostCellWidth()[0],
@@ -2375,8 +2375,8 @@ void EllipticFACOps::redOrBlackSmoothingOnPatch(
           &soln_data.getGhostCellWidth()[2], &lower[0], &upper[0], &lower[1],
           &upper[1], &lower[2], &upper[2], dx, &offset, &maxres);
 #endif
-   } else if (d_poisson_spec[0].dIsVariable() &&
-              d_poisson_spec[0].cIsConstant()) {
+   } else if (d_poisson_spec[depth].dIsVariable() &&
+              d_poisson_spec[depth].cIsConstant()) {
 #if NDIM == 2
       EFO_RBGSWITHFLUXMAXVARDCCONSF2D(
           flux0, flux1, &flux_data.getGhostCellWidth()[0],
@@ -2404,7 +2404,7 @@ void EllipticFACOps::redOrBlackSmoothingOnPatch(
           &soln_data.getGhostCellWidth()[2], &lower[0], &upper[0], &lower[1],
           &upper[1], &lower[2], &upper[2], dx, &offset, &maxres);
 #endif
-   } else if (d_poisson_spec[0].dIsVariable() && d_poisson_spec[0].cIsZero()) {
+   } else if (d_poisson_spec[depth].dIsVariable() && d_poisson_spec[0].cIsZero()) {
 #if NDIM == 2
       EFO_RBGSWITHFLUXMAXVARDCCONSF2D(
           flux0, flux1, &flux_data.getGhostCellWidth()[0],
@@ -2432,8 +2432,8 @@ void EllipticFACOps::redOrBlackSmoothingOnPatch(
           &soln_data.getGhostCellWidth()[2], &lower[0], &upper[0], &lower[1],
           &upper[1], &lower[2], &upper[2], dx, &offset, &maxres);
 #endif
-   } else if (!d_poisson_spec[0].dIsVariable() &&
-              d_poisson_spec[0].cIsVariable()) {
+   } else if (!d_poisson_spec[depth].dIsVariable() &&
+              d_poisson_spec[depth].cIsVariable()) {
 #if NDIM == 2
       EFO_RBGSWITHFLUXMAXCONDCVARSF2D(
           flux0, flux1, &flux_data.getGhostCellWidth()[0],
@@ -2461,8 +2461,8 @@ void EllipticFACOps::redOrBlackSmoothingOnPatch(
           &soln_data.getGhostCellWidth()[2], &lower[0], &upper[0], &lower[1],
           &upper[1], &lower[2], &upper[2], dx, &offset, &maxres);
 #endif
-   } else if (!d_poisson_spec[0].dIsVariable() &&
-              d_poisson_spec[0].cIsConstant()) {
+   } else if (!d_poisson_spec[depth].dIsVariable() &&
+              d_poisson_spec[depth].cIsConstant()) {
 #if NDIM == 2
       EFO_RBGSWITHFLUXMAXCONDCCONSF2D(
           flux0, flux1, &flux_data.getGhostCellWidth()[0],
@@ -2484,7 +2484,7 @@ void EllipticFACOps::redOrBlackSmoothingOnPatch(
           &soln_data.getGhostCellWidth()[2], &lower[0], &upper[0], &lower[1],
           &upper[1], &lower[2], &upper[2], dx, &offset, &maxres);
 #endif
-   } else if (!d_poisson_spec[0].dIsVariable() && d_poisson_spec[0].cIsZero()) {
+   } else if (!d_poisson_spec[depth].dIsVariable() && d_poisson_spec[0].cIsZero()) {
 #if NDIM == 2
       EFO_RBGSWITHFLUXMAXCONDCCONSF2D(
           flux0, flux1, &flux_data.getGhostCellWidth()[0],
-- 
2.43.0


From 744721b940bfcf43f908c1fc741c5ec07f7b66de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:57 +0000
Subject: [PATCH 67/70] fix: declare the residual with its own ghost widths in
 the elliptic residual kernels

---
 source/fortran/2d/ellipticfacops.m4 |  8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index fb09065..76e460b 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -368,8 +368,8 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj)
       double precision dx(0:1)
@@ -419,8 +419,8 @@ c***********************************************************************
      &                      jfirst-solngj:jlast+solngj)
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj)
       double precision scalar_field
       double precision dx(0:1)
 
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index 11d48f7..112fc10 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -479,9 +479,9 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj,
+     &                          kfirst-residualgk:klast+residualgk)
       double precision scalar_field(ifirst-sfgi:ilast+sfgi,
      &                              jfirst-sfgj:jlast+sfgj,
      &                              kfirst-sfgk:klast+sfgk)
@@ -544,9 +544,9 @@ c***********************************************************************
       double precision rhs(ifirst-rhsgi:ilast+rhsgi,
      &                     jfirst-rhsgj:jlast+rhsgj,
      &                     kfirst-rhsgk:klast+rhsgk)
-      double precision residual(ifirst-rhsgi:ilast+rhsgi,
-     &                          jfirst-rhsgj:jlast+rhsgj,
-     &                          kfirst-rhsgk:klast+rhsgk)
+      double precision residual(ifirst-residualgi:ilast+residualgi,
+     &                          jfirst-residualgj:jlast+residualgj,
+     &                          kfirst-residualgk:klast+residualgk)
       double precision scalar_field
       double precision dx(0:2)
 
-- 
2.43.0


From 2601c33765e0456b65f9b317539b1734fd1f50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:57 +0000
Subject: [PATCH 68/70] fix: colour all cells in the red-black sweeps, also
 where the sum of indices is negative

---
 source/fortran/2d/ellipticfacops.m4 | 8 ++++----
 source/fortran/3d/ellipticfacops.m4 | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fortran/2d/ellipticfacops.m4 b/source/fortran/2d/ellipticfacops.m4
index 76e460b..6839754 100644
--- a/source/fortran/2d/ellipticfacops.m4
+++ b/source/fortran/2d/ellipticfacops.m4
@@ -107,7 +107,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( mod(abs(jfirst+j),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -178,7 +178,7 @@ c      print*,'efo_rbgswithfluxmaxcondcvarsf2d'
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( mod(abs(jfirst+j),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -250,7 +250,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( mod(abs(jfirst+j),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -319,7 +319,7 @@ c***********************************************************************
 
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (jfirst+j)-((jfirst+j)/2*2) .ne. offset ) then
+         if ( mod(abs(jfirst+j),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
diff --git a/source/fortran/3d/ellipticfacops.m4 b/source/fortran/3d/ellipticfacops.m4
index 112fc10..5947d04 100644
--- a/source/fortran/3d/ellipticfacops.m4
+++ b/source/fortran/3d/ellipticfacops.m4
@@ -150,7 +150,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( mod(abs(ifirst+j+k),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -238,7 +238,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( mod(abs(ifirst+j+k),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -332,7 +332,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( mod(abs(ifirst+j+k),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
@@ -418,7 +418,7 @@ c***********************************************************************
       do k=kfirst,klast
       do j=jfirst,jlast
 c        offset must be 0 (red) or 1 (black)
-         if ( (ifirst+j+k)-((ifirst+j+k)/2*2) .ne. offset ) then
+         if ( mod(abs(ifirst+j+k),2) .ne. offset ) then
             ioffset = 1
          else
             ioffset = 0
-- 
2.43.0


From 87a53f38bde803ed4477ce197599fa8707333eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:28 +0000
Subject: [PATCH 69/70] fix: the phase right-hand side keeps flux
 synchronisation schedules and a deleted solver of the hierarchy before a
 regrid, the orientation derivative coefficients likewise

---
 source/QuatIntegrator.cc | 74 ++++++++++++++++++++++++----------------
 source/QuatIntegrator.h  |  2 ++
 2 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/source/QuatIntegrator.cc b/source/QuatIntegrator.cc
index 2146f53..78566cc 100644
--- a/source/QuatIntegrator.cc
+++ b/source/QuatIntegrator.cc
@@ -592,6 +592,10 @@ void QuatIntegrator::resetHierarchyConfiguration(
       }
 #endif
    }
+
+   // these hold schedules between levels, the former refers to the solver
+   if (d_phase_rhs_strategy) resetPhaseRHSStrategy(hierarchy);
+   if (d_diffusion4quatderiv) d_diffusion4quatderiv->setup(hierarchy);
 }
 
 //-----------------------------------------------------------------------
@@ -1935,38 +1939,10 @@ void QuatIntegrator::initializeSolvers(
 
 //-----------------------------------------------------------------------
 
-// The way things are now (MEW, 08-08-04) the ::resetIntegrator method
-// will have been called from resetHierarchyConfiguration before this
-// is ever called.
-
-void QuatIntegrator::initialize(
+void QuatIntegrator::resetPhaseRHSStrategy(
     const std::shared_ptr<hier::PatchHierarchy>& hierarchy)
 {
-   // tbox::pout<<"QuatIntegrator::initialize()"<<endl;
-
-   initializeNonPeriodicBC();
-
-   int finest = hierarchy->getFinestLevelNumber();
-
-   resetIntegrator(hierarchy, 0, finest);
-
-   if (d_evolve_quat) {
-      if (d_precond_has_dquatdphi) {
-         d_diffusion4quatderiv.reset(new DerivDiffusionCoeffForQuat(
-             d_grid_geometry, d_H_parameter, d_quat_grad_floor, d_qlen,
-             d_orient_interp_func_type1, d_avg_func_type,
-             d_quat_smooth_floor_type, d_quat_diffusion_deriv_id));
-         d_diffusion4quatderiv->setup(hierarchy);
-      }
-   }
-
-   if (d_temperature_strategy) d_temperature_strategy->initialize(hierarchy);
-
-   initializeSolvers(hierarchy);
-
-   d_sundials_solver->setInitialConditionVector(
-       (Sundials_SAMRAIVector*)Sundials_SAMRAIVector::createSundialsVector(
-           d_solution_vec));
+   d_phase_rhs_strategy.reset();
 
    if (d_model_parameters.with_three_phases())
       d_phase_rhs_strategy.reset(new ThreePhasesRHSStrategy(
@@ -2002,6 +1978,44 @@ void QuatIntegrator::initialize(
    }
 
    d_phase_rhs_strategy->setup(hierarchy);
+}
+
+//-----------------------------------------------------------------------
+
+// The way things are now (MEW, 08-08-04) the ::resetIntegrator method
+// will have been called from resetHierarchyConfiguration before this
+// is ever called.
+
+void QuatIntegrator::initialize(
+    const std::shared_ptr<hier::PatchHierarchy>& hierarchy)
+{
+   // tbox::pout<<"QuatIntegrator::initialize()"<<endl;
+
+   initializeNonPeriodicBC();
+
+   int finest = hierarchy->getFinestLevelNumber();
+
+   resetIntegrator(hierarchy, 0, finest);
+
+   if (d_evolve_quat) {
+      if (d_precond_has_dquatdphi) {
+         d_diffusion4quatderiv.reset(new DerivDiffusionCoeffForQuat(
+             d_grid_geometry, d_H_parameter, d_quat_grad_floor, d_qlen,
+             d_orient_interp_func_type1, d_avg_func_type,
+             d_quat_smooth_floor_type, d_quat_diffusion_deriv_id));
+         d_diffusion4quatderiv->setup(hierarchy);
+      }
+   }
+
+   if (d_temperature_strategy) d_temperature_strategy->initialize(hierarchy);
+
+   initializeSolvers(hierarchy);
+
+   d_sundials_solver->setInitialConditionVector(
+       (Sundials_SAMRAIVector*)Sundials_SAMRAIVector::createSundialsVector(
+           d_solution_vec));
+
+   resetPhaseRHSStrategy(hierarchy);
 
    if (d_with_unsteady_temperature)
       d_temperature_rhs_strategy.reset(
diff --git a/source/QuatIntegrator.h b/source/QuatIntegrator.h
index bfae898..28f6722 100644
--- a/source/QuatIntegrator.h
+++ b/source/QuatIntegrator.h
@@ -574,6 +574,8 @@ class QuatIntegrator : public mesh::StandardTagAndInitStrategy,
                         int phi_dot_id);
 
    void initializeNonPeriodicBC();
+   void resetPhaseRHSStrategy(
+       const std::shared_ptr<hier::PatchHierarchy>& hierarchy);
    void initializeSolvers(
        const std::shared_ptr<hier::PatchHierarchy>& hierarchy);
 
-- 
2.43.0


From 019483f221bec102868ae31877fac018cb27f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:27 +0000
Subject: [PATCH 70/70] fix: regridding a model without phase field registers a
 missing field

---
 source/QuatModel.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/QuatModel.cc b/source/QuatModel.cc
index 64ed62a..960d06c 100644
--- a/source/QuatModel.cc
+++ b/source/QuatModel.cc
@@ -2734,10 +2734,12 @@ void QuatModel::Regrid(const std::shared_ptr<hier::PatchHierarchy> hierarchy)
 {
    d_regrid_refine_alg.reset(new xfer::RefineAlgorithm());
 
-   d_regrid_refine_alg->registerRefine(d_phase_id,          // destination
-                                       d_phase_id,          // source
-                                       d_phase_scratch_id,  // temporary
-                                       d_phase_refine_op);
+   if (d_model_parameters.with_phase()) {
+      d_regrid_refine_alg->registerRefine(d_phase_id,          // destination
+                                          d_phase_id,          // source
+                                          d_phase_scratch_id,  // temporary
+                                          d_phase_refine_op);
+   }
 
    d_regrid_refine_alg->registerRefine(d_temperature_id,          // destination
                                        d_temperature_id,          // source
-- 
2.43.0

