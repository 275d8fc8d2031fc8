From a10e45784466898ba40e680d70336ebff7464150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 01/48] fix: dispatch the HLL Riemann solver for 3D hydro
 states (flux was left unset)

---
 src/shared/RiemannSolvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/RiemannSolvers.h b/src/shared/RiemannSolvers.h
index 05c3396..c6be4f9 100644
--- a/src/shared/RiemannSolvers.h
+++ b/src/shared/RiemannSolvers.h
@@ -619,6 +619,11 @@ riemann_hydro(const HydroState3d & qleft,
 
     riemann_approx<HydroState3d>(qleft, qright, qgdnv, flux, params);
   }
+  else if (params.riemannSolverType == RIEMANN_HLL)
+  {
+
+    riemann_hll<HydroState3d>(qleft, qright, qgdnv, flux, params);
+  }
   else if (params.riemannSolverType == RIEMANN_HLLC)
   {
 
-- 
2.43.0


From 7e3ce9e6b26bfb42aac8c2c7f7935bad0f8e68b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 02/48] fix: SDM cell averages use quadrature weights that
 integrate polynomials exactly

---
 src/sdm/SDM_Geometry.h         | 16 +++++++
 src/sdm/SDM_Limiter_Functors.h | 85 ++++++++++------------------------
 2 files changed, 40 insertions(+), 61 deletions(-)

diff --git a/src/sdm/SDM_Geometry.h b/src/sdm/SDM_Geometry.h
index e994a75..13c4d5d 100644
--- a/src/sdm/SDM_Geometry.h
+++ b/src/sdm/SDM_Geometry.h
@@ -108,6 +108,10 @@ public:
   //! location of solution points in reference cell [0,1]^dim, host array
   PointsArray1DHost solution_pts_1d_host;
 
+  //! 1d quadrature weights associated to solution points for computing an average over [0,1];
+  //! exact for polynomials of degree up to N-1 (Fejer's first rule).
+  PointsArray1D solution_weights_1d;
+
   //! dim-dimensional array of solution points location (obtained by tensorial product)
   PointsArray solution_pts;
 
@@ -422,6 +426,18 @@ private:
     // copy to device
     Kokkos::deep_copy(solution_pts_1d, solution_pts_1d_host);
 
+    // quadrature weights at solution points (Fejer's first rule, on interval [0,1])
+    solution_weights_1d = PointsArray1D("solution_weights_1d", N);
+    PointsArray1DHost solution_weights_1d_host = Kokkos::create_mirror(solution_weights_1d);
+    for (int i = 0; i < N; i++)
+    {
+      real_t w = 1.0;
+      for (int k = 1; k <= N / 2; k++)
+        w -= 2.0 * cos(M_PI * k * (2 * i + 1) / N) / (4.0 * k * k - 1.0);
+      solution_weights_1d_host(i) = w / N;
+    }
+    Kokkos::deep_copy(solution_weights_1d, solution_weights_1d_host);
+
     // =================
     // Flux points
     // =================
diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index 50fcb30..ab7a2aa 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -26,7 +26,8 @@ namespace sdm
  * This functor computes the average HydroState in each cell
  * and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the Gauss-Chebyshev points, with the weights (see
+ * SDM_Geometry::solution_weights_1d) that are exact for polynomials.
  */
 template <int dim, int N>
 class Average_Conservative_Variables_Functor : public SDMBaseFunctor<dim, N>
@@ -82,27 +83,22 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature at the Gauss-Chebyshev points
 
       // for each DoFs
       for (int idy = 0; idy < N; ++idy)
       {
-        real_t y = this->sdm_geom.solution_pts_1d(idy);
-        real_t wy = sqrt(y - y * y);
+        real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
         for (int idx = 0; idx < N; ++idx)
         {
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           tmp += Udata(i, j, dofMap(idx, idy, 0, ivar)) * wx * wy;
 
         } // for idx
       } // for idy
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, ID) = tmp > smallr ? tmp : smallr;
@@ -140,23 +136,20 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature at the Gauss-Chebyshev points
 
       // for each DoFs
       for (int idz = 0; idz < N; ++idz)
       {
-        real_t z = this->sdm_geom.solution_pts_1d(idz);
-        real_t wz = sqrt(z - z * z);
+        real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
         for (int idy = 0; idy < N; ++idy)
         {
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           for (int idx = 0; idx < N; ++idx)
           {
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp += Udata(i, j, k, dofMap(idx, idy, idz, ivar)) * wx * wy * wz;
 
@@ -164,9 +157,6 @@ public:
         } // for idy
       } // for idz
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, k, ID) = tmp > smallr ? tmp : smallr;
@@ -393,7 +383,8 @@ public:
  * This functor computes one component of the average HydroState gradient
  * in each cell and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the Gauss-Chebyshev points, with the weights (see
+ * SDM_Geometry::solution_weights_1d) that are exact for polynomials.
  *
  * \tparam dir integer to specify direction / component of the gradient
  * dir can IX,IY in 2D or IX,IY,IZ in 3D.
@@ -466,8 +457,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           // read a line
           for (int idx = 0; idx < N; ++idx)
@@ -490,8 +480,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp_average += grad_val * wx * wy;
 
@@ -499,9 +488,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -527,8 +513,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           // read a line
           for (int idy = 0; idy < N; ++idy)
@@ -551,8 +536,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             tmp_average += grad_val * wx * wy;
 
@@ -560,9 +544,6 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, ivar) = tmp_average;
 
@@ -611,15 +592,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idx = 0; idx < N; ++idx)
@@ -639,8 +618,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t x = this->sdm_geom.solution_pts_1d(idx);
-              real_t wx = sqrt(x - x * x);
+              real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -649,9 +627,6 @@ public:
           } // end for idy
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -677,15 +652,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idx = 0; idx < N; ++idx)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             // read a line-vector
             for (int idy = 0; idy < N; ++idy)
@@ -705,8 +678,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t y = this->sdm_geom.solution_pts_1d(idy);
-              real_t wy = sqrt(y - y * y);
+              real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -716,9 +688,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
@@ -744,15 +713,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idz = 0; idz < N; ++idz)
@@ -772,8 +739,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t z = this->sdm_geom.solution_pts_1d(idz);
-              real_t wz = sqrt(z - z * z);
+              real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -783,9 +749,6 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
         // store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
-- 
2.43.0


From f448cf5b544b84148dd9b3fc3c4f65dcce232c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 03/48] fix: SDM refreshes ghost cells after limiting, so that
 border fluxes match

---
 src/sdm/SolverHydroSDM.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 74a1334..1694953 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1245,6 +1245,11 @@ SolverHydroSDM<dim, N>::compute_fluxes_divergence(DataArray Udata, DataArray Uda
 
   apply_positivity_preserving(Udata);
 
+  // interior cells may have been modified, so refresh the ghost cells: the flux through a
+  // periodic or MPI border must be computed from the same data on both sides
+  if (limiter_enabled or positivity_enabled)
+    make_boundaries(Udata);
+
   compute_invicid_fluxes_divergence_per_dir<IX>(Udata, Udata_fdiv, dt);
   compute_invicid_fluxes_divergence_per_dir<IY>(Udata, Udata_fdiv, dt);
   compute_invicid_fluxes_divergence_per_dir<IZ>(Udata, Udata_fdiv, dt);
-- 
2.43.0


From c418ec177e100dbab7b90973ac378fcdf49d290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 04/48] fix: SDM positivity correction modified cells whose
 density is already admissible

---
 src/sdm/SDM_Positivity_preserving.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sdm/SDM_Positivity_preserving.h b/src/sdm/SDM_Positivity_preserving.h
index f705105..26a2a43 100644
--- a/src/sdm/SDM_Positivity_preserving.h
+++ b/src/sdm/SDM_Positivity_preserving.h
@@ -161,8 +161,8 @@ public:
     } // end for idy
 
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    // density is only modified when it is too small; note that rho_min may be larger than rho_ave
+    const real_t theta1 = rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) : 1.0;
 
     // check if we need to modify density at solution points and flux points
     if (theta1 < 1.0)
@@ -527,8 +527,8 @@ public:
     } // end for idz
 
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    // density is only modified when it is too small; note that rho_min may be larger than rho_ave
+    const real_t theta1 = rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) : 1.0;
 
     // check if we need to modify density at solution points and flux points
     if (theta1 < 1.0)
@@ -1048,8 +1048,8 @@ public:
 
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    // density is only modified when it is too small; note that rho_min may be larger than rho_ave
+    const real_t theta1 = rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) : 1.0;
 
     // check if we need to modify density at solution points
     if (theta1 < 1.0)
@@ -1413,8 +1413,8 @@ public:
 
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
-    const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
+    // density is only modified when it is too small; note that rho_min may be larger than rho_ave
+    const real_t theta1 = rho_min < eps1 ? (rho_ave - eps1) / (rho_ave - rho_min) : 1.0;
 
     // check if we need to modify density at solution points and flux points
     if (theta1 < 1.0)
-- 
2.43.0


From 1fde9cdd692bf2450d95f950dbff3fddc418f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 05/48] fix: EulerEquations::compute_speed_of_sound returned
 the square of the speed of sound

---
 src/shared/EulerEquations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/EulerEquations.h b/src/shared/EulerEquations.h
index fa63c53..de1b014 100644
--- a/src/shared/EulerEquations.h
+++ b/src/shared/EulerEquations.h
@@ -118,7 +118,7 @@ struct EulerEquations<2>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
@@ -515,7 +515,7 @@ struct EulerEquations<3>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
-- 
2.43.0


From edb45fa331294a0b7e4b9d8367a6a1a5fabd08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 06/48] fix: SDM limiter computed the speed of sound from
 conservative variables

---
 src/sdm/SDM_Limiter_Functors.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index ab7a2aa..e5d5693 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -895,7 +895,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave;
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
@@ -1032,7 +1034,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave;
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
-- 
2.43.0


From 133384ddca703b6059aea18c038a40e648084568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 07/48] fix: 2D MHD primitive variables used half of the
 out-of-plane magnetic field

---
 src/muscl/MHDRunFunctors2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDRunFunctors2D.h b/src/muscl/MHDRunFunctors2D.h
index 51c6592..98883d6 100644
--- a/src/muscl/MHDRunFunctors2D.h
+++ b/src/muscl/MHDRunFunctors2D.h
@@ -136,7 +136,7 @@ public:
       // get mag field in neighbor cells
       magFieldNeighbors[IX] = Udata(i + 1, j, IA);
       magFieldNeighbors[IY] = Udata(i, j + 1, IB);
-      magFieldNeighbors[IZ] = 0.0;
+      magFieldNeighbors[IZ] = Udata(i, j, IC); // Bz is cell-centered in 2D
 
       // get primitive variables in current cell
       constoprim_mhd(uLoc, magFieldNeighbors, c, qLoc);
-- 
2.43.0


From ae5de53d918b3d56f14633fc72377aa094f485cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 08/48] fix: 3D gravity half-step predictor was missing on one
 side of z interfaces (variant 1)

---
 src/muscl/HydroRunFunctors3D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index 5d59a9e..c28c195 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1346,6 +1346,16 @@ public:
         // left interface : right state
         trace_unsplit_3d_along_dir(qLoc, dqX, dqY, dqZ, dtdx, dtdy, dtdz, FACE_ZMIN, qright);
 
+        if (gravity_enabled)
+        {
+          // we need to modify input to flux computation with
+          // gravity predictor (half time step)
+
+          qright[IU] += 0.5 * dt * gravity(i, j, k, IX);
+          qright[IV] += 0.5 * dt * gravity(i, j, k, IY);
+          qright[IW] += 0.5 * dt * gravity(i, j, k, IZ);
+        }
+
         qLocNeighbor[ID] = Qdata(i, j, k - 1, ID);
         dqX_neighbor[ID] = Slopes_x(i, j, k - 1, ID);
         dqY_neighbor[ID] = Slopes_y(i, j, k - 1, ID);
-- 
2.43.0


From 6e695c0f8d8016b91059883645eed4ed168ed5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 09/48] fix: 3D limited slope of face magnetic field used the
 wrong backward neighbour along z

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index cd068c7..a062d1c 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -139,7 +139,7 @@ public:
     // clang-format off
     const auto b       = udata(i          , j          , k          , component);
     const auto b_plus  = udata(i + delta_i, j + delta_j, k + delta_k, component);
-    const auto b_minus = udata(i - delta_i, j - delta_j, k + delta_k, component);
+    const auto b_minus = udata(i - delta_i, j - delta_j, k - delta_k, component);
     // clang-format on
 
     const real_t dlft = params.settings.slope_type * (b - b_minus);
-- 
2.43.0


From 1ff4ff87e8f2549717cae1710344529054a8a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 10/48] fix: edge reconstruction added hydro slopes to the face
 field By twice or on top of it (MHD 3D variant 2)

---
 src/muscl/MHDRunFunctors3D.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/muscl/MHDRunFunctors3D.h b/src/muscl/MHDRunFunctors3D.h
index feef699..6f76a18 100644
--- a/src/muscl/MHDRunFunctors3D.h
+++ b/src/muscl/MHDRunFunctors3D.h
@@ -1500,12 +1500,7 @@ public:
     {
       qEdge[IB] = B0 + 0.5 * (sign_b0 * dB0d1);
     }
-    else
-    {
-      qEdge[IB] += 0.5 * (sign_dq0 * dq0[IB] + sign_dq1 * dq1[IB]);
-    }
-
-    if (dir1 == IY)
+    else if (dir1 == IY)
     {
       qEdge[IB] = B1 + 0.5 * (sign_b1 * dB1d0);
     }
-- 
2.43.0


From bc2fef56b0a5ce981cc6a508e2594f4124042ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 11/48] fix: MHD hydro slopes were left uninitialised with
 slope_type=0 (first order)

---
 src/muscl/MHDBaseFunctor2D.h | 32 ++++++++++++++++++++++++++++++++
 src/muscl/MHDBaseFunctor3D.h | 12 ++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/muscl/MHDBaseFunctor2D.h b/src/muscl/MHDBaseFunctor2D.h
index 1cebea3..373b1eb 100644
--- a/src/muscl/MHDBaseFunctor2D.h
+++ b/src/muscl/MHDBaseFunctor2D.h
@@ -386,6 +386,26 @@ public:
       slope_unsplit_hydro_2d_scalar(
         q[IC], qPlusX[IC], qMinusX[IC], qPlusY[IC], qMinusY[IC], &(dqX[IC]), &(dqY[IC]));
     }
+    else
+    {
+      // slope_type = 0
+      dqX[ID] = ZERO_F;
+      dqX[IP] = ZERO_F;
+      dqX[IU] = ZERO_F;
+      dqX[IV] = ZERO_F;
+      dqX[IW] = ZERO_F;
+      dqX[IA] = ZERO_F;
+      dqX[IB] = ZERO_F;
+      dqX[IC] = ZERO_F;
+      dqY[ID] = ZERO_F;
+      dqY[IP] = ZERO_F;
+      dqY[IU] = ZERO_F;
+      dqY[IV] = ZERO_F;
+      dqY[IW] = ZERO_F;
+      dqY[IA] = ZERO_F;
+      dqY[IB] = ZERO_F;
+      dqY[IC] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_2d
 
@@ -429,6 +449,18 @@ public:
       dq[IB] = slope_unsplit_hydro_2d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_2d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    {
+      // slope_type = 0
+      dq[ID] = ZERO_F;
+      dq[IP] = ZERO_F;
+      dq[IU] = ZERO_F;
+      dq[IV] = ZERO_F;
+      dq[IW] = ZERO_F;
+      dq[IA] = ZERO_F;
+      dq[IB] = ZERO_F;
+      dq[IC] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_2d
 
diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index a062d1c..7886603 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -534,6 +534,18 @@ public:
       dq[IB] = slope_unsplit_hydro_3d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_3d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    {
+      // slope_type = 0
+      dq[ID] = ZERO_F;
+      dq[IP] = ZERO_F;
+      dq[IU] = ZERO_F;
+      dq[IV] = ZERO_F;
+      dq[IW] = ZERO_F;
+      dq[IA] = ZERO_F;
+      dq[IB] = ZERO_F;
+      dq[IC] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_3d
 
-- 
2.43.0


From 7e41244d1c4dbb00982bbbd0b114af9680a27bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 12/48] fix: refresh ghost cells before writing the solution
 (ghost-inclusive files held stale ghost values)

---
 src/muscl/SolverHydroMuscl.h | 10 ++++++----
 src/muscl/SolverMHDMuscl.h   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index 90ae1a3..3e3b429 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -810,10 +810,12 @@ SolverHydroMuscl<dim>::save_solution_impl()
 {
 
   timers[TIMER_IO]->start();
-  if (m_iteration % 2 == 0)
-    save_data(U, Uhost, m_times_saved, m_t);
-  else
-    save_data(U2, Uhost, m_times_saved, m_t);
+  DataArray data = m_iteration % 2 == 0 ? U : U2;
+
+  // ghost cells may be written, but they still are those of the previous time step
+  make_boundaries(data);
+
+  save_data(data, Uhost, m_times_saved, m_t);
 
   timers[TIMER_IO]->stop();
 
diff --git a/src/muscl/SolverMHDMuscl.h b/src/muscl/SolverMHDMuscl.h
index ecaaf08..5e5e083 100644
--- a/src/muscl/SolverMHDMuscl.h
+++ b/src/muscl/SolverMHDMuscl.h
@@ -897,10 +897,12 @@ SolverMHDMuscl<dim>::save_solution_impl()
 {
 
   timers[TIMER_IO]->start();
-  if (m_iteration % 2 == 0)
-    save_data(U, Uhost, m_times_saved, m_t);
-  else
-    save_data(U2, Uhost, m_times_saved, m_t);
+  DataArray data = m_iteration % 2 == 0 ? U : U2;
+
+  // ghost cells may be written, but they still are those of the previous time step
+  make_boundaries(data);
+
+  save_data(data, Uhost, m_times_saved, m_t);
 
   timers[TIMER_IO]->stop();
 
-- 
2.43.0


From aa67617af3896cca03d64dd0a140bd18ae694912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 13/48] fix: fast magnetosonic speed was NaN by rounding when
 the field is normal and Alfven and sound speed coincide

---
 src/shared/mhd_utils.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/mhd_utils.h b/src/shared/mhd_utils.h
index 78bc630..5b3af5f 100644
--- a/src/shared/mhd_utils.h
+++ b/src/shared/mhd_utils.h
@@ -104,13 +104,13 @@ find_speed_fast(const MHDState & qvar, const HydroParams & params)
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
   if (dir == IX)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   if (dir == IY)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * b * b / d)));
 
   if (dir == IZ)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * c * c / d)));
 
   return cf;
 
@@ -345,12 +345,12 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
 
   d2 = 0.5 * (b2 / d + c2);
 
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   fastInfoSpeed[IX] = cf + fabs(u);
 
   // compute fastest info speed along Y
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * b * b / d)));
 
   fastInfoSpeed[IY] = cf + fabs(v);
 
@@ -358,7 +358,7 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
   // compute fastest info speed along Z
   if (NDIM == THREE_D)
   {
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * c * c / d)));
 
     fastInfoSpeed[IZ] = cf + fabs(w);
   } // end THREE_D
@@ -395,7 +395,7 @@ find_speed_info(const MHDState & qState, const HydroParams & params)
   b2 = a * a + b * b + c * c;
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   // return value
   return cf + fabs(u);
-- 
2.43.0


From e77a5f7ccd05268763b4219758629feec20114a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 14/48] fix: HLLD degeneracy test compared the wrong quantity,
 so degenerate states gave a NaN flux

---
 src/shared/RiemannSolvers_MHD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/RiemannSolvers_MHD.h b/src/shared/RiemannSolvers_MHD.h
index 86ed921..8223938 100644
--- a/src/shared/RiemannSolvers_MHD.h
+++ b/src/shared/RiemannSolvers_MHD.h
@@ -210,7 +210,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarl, wstarl;
   real_t bstarl, cstarl;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar) <= 1e-8 * a * a)
   {
     vstarl = vl;
     bstarl = bl;
@@ -240,7 +240,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarr, wstarr;
   real_t bstarr, cstarr;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (a * a > 0 and fabs(estar) <= 1e-8 * a * a)
   {
     vstarr = vr;
     bstarr = br;
-- 
2.43.0


From 647ed9775e8f0e6b02e32116215e24ff6317f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 15/48] fix: HLLD selected an intermediate state for supersonic
 flow from the right when wave speeds were out of order

---
 src/shared/RiemannSolvers_MHD.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/shared/RiemannSolvers_MHD.h b/src/shared/RiemannSolvers_MHD.h
index 8223938..6657fef 100644
--- a/src/shared/RiemannSolvers_MHD.h
+++ b/src/shared/RiemannSolvers_MHD.h
@@ -279,7 +279,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
 
   // sample the solution at x/t=0
   real_t ro, uo, vo, wo, bo, co, ptoto, etoto, vdotbo;
-  if (sl > 0)
+  if (sl >= 0)
   { // flow is supersonic, return upwind variables
     ro = rl;
     uo = ul;
@@ -291,6 +291,18 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
     etoto = etotl;
     vdotbo = vdotbl;
   }
+  else if (sr <= 0)
+  { // flow is supersonic, return upwind variables
+    ro = rr;
+    uo = ur;
+    vo = vr;
+    wo = wr;
+    bo = br;
+    co = cr;
+    ptoto = ptotr;
+    etoto = etotr;
+    vdotbo = vdotbr;
+  }
   else if (sal > 0)
   {
     ro = rstarl;
@@ -327,7 +339,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
     etoto = etotstarstarr;
     vdotbo = vdotbstarstar;
   }
-  else if (sr > 0)
+  else
   {
     ro = rstarr;
     uo = ustar;
@@ -339,18 +351,6 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
     etoto = etotstarr;
     vdotbo = vdotbstarr;
   }
-  else
-  { // flow is supersonic, return upwind variables
-    ro = rr;
-    uo = ur;
-    vo = vr;
-    wo = wr;
-    bo = br;
-    co = cr;
-    ptoto = ptotr;
-    etoto = etotr;
-    vdotbo = vdotbr;
-  }
 
   // compute the godunov flux
   flux[ID] = ro * uo;
-- 
2.43.0


From 0ed8b801b68ddac9a4f7b08890ecb348a3beea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 16/48] fix: indented comments and inline comments on
 continuation lines became parameter values

---
 src/utils/config/inih/ini.cpp | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 9f44c48..10b4acd 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -100,20 +100,23 @@ ini_parse(const char * filename,
     lineno++;
     start = lskip(rstrip(line));
 
+    if (*start == ';' || *start == '#')
+    {
+      /* Per Python ConfigParser, allow '#' comments at start of line */
+    }
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    else if (*prev_name && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
+      end = find_char_or_comment(start, '\0');
+      if (*end == ';')
+        *end = '\0';
+      rstrip(start);
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
-    else
 #endif
-      if (*start == ';' || *start == '#')
-    {
-      /* Per Python ConfigParser, allow '#' comments at start of line */
-    }
     else if (*start == '[')
     {
       /* A "[section]" line */
@@ -138,11 +141,11 @@ ini_parse(const char * filename,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
-        rstrip(value);
+        value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
         strncpy0(prev_name, name, sizeof(prev_name));
@@ -201,20 +204,23 @@ ini_parse_buffer(char *& buffer,
 
     start = lskip(rstrip(line));
 
+    if (*start == ';' || *start == '#')
+    {
+      /* Per Python ConfigParser, allow '#' comments at start of line */
+    }
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    else if (*prev_name && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
+      end = find_char_or_comment(start, '\0');
+      if (*end == ';')
+        *end = '\0';
+      rstrip(start);
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
-    else
 #endif
-      if (*start == ';' || *start == '#')
-    {
-      /* Per Python ConfigParser, allow '#' comments at start of line */
-    }
     else if (*start == '[')
     {
       /* A "[section]" line */
@@ -239,11 +245,11 @@ ini_parse_buffer(char *& buffer,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
-        rstrip(value);
+        value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
         strncpy0(prev_name, name, sizeof(prev_name));
-- 
2.43.0


From 2e41bc3760e062ace67d1342619a5b5d273bcf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 17/48] fix: SDM ignored the wedge and jet boundary conditions
 in MPI runs

---
 src/sdm/SolverHydroSDM.h | 79 ++++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 20 deletions(-)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 1694953..3fb5f9f 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -321,6 +321,18 @@ public:
   void
   make_boundary_sdm_jet(DataArray Udata, JetParams jparams);
 
+  //! some problems (wedge, jet) have their own border conditions
+  bool
+  has_specific_boundaries() const
+  {
+    return (dim == 2 and !m_problem_name.compare("wedge")) or !m_problem_name.compare("jet");
+  }
+
+  //! apply the border condition of the problem (generic or specific) on one face
+  template <FaceIdType faceId>
+  void
+  make_boundary_sdm_physical(DataArray Udata, bool mhd_enabled);
+
   //! main boundaries routine (this is were serial / mpi switch happens)
   void
   make_boundaries(DataArray Udata);
@@ -1616,6 +1628,23 @@ SolverHydroSDM<dim, N>::make_boundary_sdm_jet(DataArray Udata, JetParams jparams
 
 } // SolverHydroSDM<dim,N>::make_boundary_sdm_jet
 
+// =======================================================
+// =======================================================
+template <int dim, int N>
+template <FaceIdType faceId>
+void
+SolverHydroSDM<dim, N>::make_boundary_sdm_physical(DataArray Udata, bool mhd_enabled)
+{
+
+  if (dim == 2 and !m_problem_name.compare("wedge"))
+    make_boundary_sdm_wedge<faceId>(Udata, WedgeParams(configMap, m_t));
+  else if (!m_problem_name.compare("jet"))
+    make_boundary_sdm_jet<faceId>(Udata, JetParams(configMap));
+  else
+    make_boundary_sdm<faceId>(Udata, mhd_enabled);
+
+} // SolverHydroSDM<dim,N>::make_boundary_sdm_physical
+
 // =======================================================
 // =======================================================
 // //////////////////////////////////////////////////
@@ -1725,22 +1754,24 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, XDIR);
     transfert_boundaries_2d(XDIR);
 
-    if (params.neighborsBC[X_MIN] == BC_COPY || params.neighborsBC[X_MIN] == BC_PERIODIC)
+    if (params.neighborsBC[X_MIN] == BC_COPY ||
+        (params.neighborsBC[X_MIN] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, XMIN);
     }
     else
     {
-      make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
+    if (params.neighborsBC[X_MAX] == BC_COPY ||
+        (params.neighborsBC[X_MAX] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, XMAX);
     }
     else
     {
-      make_boundary_sdm<FACE_XMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1751,22 +1782,24 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, YDIR);
     transfert_boundaries_2d(YDIR);
 
-    if (params.neighborsBC[Y_MIN] == BC_COPY || params.neighborsBC[Y_MIN] == BC_PERIODIC)
+    if (params.neighborsBC[Y_MIN] == BC_COPY ||
+        (params.neighborsBC[Y_MIN] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, YMIN);
     }
     else
     {
-      make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
+    if (params.neighborsBC[Y_MAX] == BC_COPY ||
+        (params.neighborsBC[Y_MAX] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, YMAX);
     }
     else
     {
-      make_boundary_sdm<FACE_YMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1780,22 +1813,24 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, XDIR);
     transfert_boundaries_3d(XDIR);
 
-    if (params.neighborsBC[X_MIN] == BC_COPY || params.neighborsBC[X_MIN] == BC_PERIODIC)
+    if (params.neighborsBC[X_MIN] == BC_COPY ||
+        (params.neighborsBC[X_MIN] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, XMIN);
     }
     else
     {
-      make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
+    if (params.neighborsBC[X_MAX] == BC_COPY ||
+        (params.neighborsBC[X_MAX] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, XMAX);
     }
     else
     {
-      make_boundary_sdm<FACE_XMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1806,22 +1841,24 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, YDIR);
     transfert_boundaries_3d(YDIR);
 
-    if (params.neighborsBC[Y_MIN] == BC_COPY || params.neighborsBC[Y_MIN] == BC_PERIODIC)
+    if (params.neighborsBC[Y_MIN] == BC_COPY ||
+        (params.neighborsBC[Y_MIN] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, YMIN);
     }
     else
     {
-      make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
+    if (params.neighborsBC[Y_MAX] == BC_COPY ||
+        (params.neighborsBC[Y_MAX] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, YMAX);
     }
     else
     {
-      make_boundary_sdm<FACE_YMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1832,22 +1869,24 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     copy_boundaries(Udata, ZDIR);
     transfert_boundaries_3d(ZDIR);
 
-    if (params.neighborsBC[Z_MIN] == BC_COPY || params.neighborsBC[Z_MIN] == BC_PERIODIC)
+    if (params.neighborsBC[Z_MIN] == BC_COPY ||
+        (params.neighborsBC[Z_MIN] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, ZMIN);
     }
     else
     {
-      make_boundary_sdm<FACE_ZMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_ZMIN>(Udata, mhd_enabled);
     }
 
-    if (params.neighborsBC[Z_MAX] == BC_COPY || params.neighborsBC[Z_MAX] == BC_PERIODIC)
+    if (params.neighborsBC[Z_MAX] == BC_COPY ||
+        (params.neighborsBC[Z_MAX] == BC_PERIODIC && !has_specific_boundaries()))
     {
       copy_boundaries_back(Udata, ZMAX);
     }
     else
     {
-      make_boundary_sdm<FACE_ZMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_ZMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
-- 
2.43.0


From dc8e04724e2dd43c40e717f6fa334de508283aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 18/48] fix: field loop initial state depended on the MPI
 process grid (out-of-plane velocity, right faces in the energy)

---
 src/muscl/MHDInitFunctors2D.h | 9 +++++++--
 src/muscl/MHDInitFunctors3D.h | 7 ++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 09f38ce..9208585 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -842,9 +842,13 @@ public:
 #ifdef USE_MPI
     const int i_mpi = params.myMpiPos[IX];
     const int j_mpi = params.myMpiPos[IY];
+    const int nx_tot = nx * params.mx;
+    const int ny_tot = ny * params.my;
 #else
     const int i_mpi = 0;
     const int j_mpi = 0;
+    const int nx_tot = nx;
+    const int ny_tot = ny;
 #endif
 
     const real_t xmin = params.xmin;
@@ -864,13 +868,14 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
-    if (i >= ghostWidth and i < isize - ghostWidth and j >= ghostWidth and j < jsize - ghostWidth)
+    // one more layer on the right, so that the right faces of the last cells are set for energy
+    if (i >= ghostWidth and i <= isize - ghostWidth and j >= ghostWidth and j <= jsize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
       real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
 
-      real_t diag = sqrt(1.0 * (nx * nx + ny * ny + nz * nz));
+      real_t diag = sqrt(1.0 * nx_tot * nx_tot + 1.0 * ny_tot * ny_tot + 1.0 * nz * nz);
       real_t r = sqrt(x * x + y * y);
 
       // density
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 5e996a4..535bcad 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -923,10 +923,11 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
+    // one more layer on the right, so that the right faces of the last cells are set for energy
     // clang-format off
-    if (i >= ghostWidth and i < isize - ghostWidth and
-        j >= ghostWidth and j < jsize - ghostWidth and
-        k >= ghostWidth and k < ksize - ghostWidth)
+    if (i >= ghostWidth and i <= isize - ghostWidth and
+        j >= ghostWidth and j <= jsize - ghostWidth and
+        k >= ghostWidth and k <= ksize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-- 
2.43.0


From 43c5bc93c138aafd6148b778180a11fe1ee9f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 19/48] fix: 2D field loop energy ignored the kinetic energy of
 the out-of-plane velocity

---
 src/muscl/MHDInitFunctors2D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 9208585..d67393b 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -932,7 +932,9 @@ public:
           1.0f / (gamma0 - 1.0) +
           0.5 * (0.25 * SQR(Udata(i, j, IA) + Udata(i + 1, j, IA)) +
                  0.25 * SQR(Udata(i, j, IB) + Udata(i, j + 1, IB))) +
-          0.5 * (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV)) /
+          0.5 *
+            (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV) +
+             Udata(i, j, IW) * Udata(i, j, IW)) /
             Udata(i, j, ID);
       }
     }
-- 
2.43.0


From 854fb784a424cd52f78bbc6df8990d90aacfc41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 20/48] fix: implode problem stored the prescribed velocity as
 momentum (inconsistent with its energy)

---
 src/muscl/HydroInitFunctors2D.h   |  8 ++++----
 src/muscl/HydroInitFunctors3D.h   | 12 ++++++------
 src/muscl/MHDInitFunctors2D.h     |  8 ++++----
 src/muscl/MHDInitFunctors3D.h     | 12 ++++++------
 src/sdm/init/InitImplodeFunctor.h | 20 ++++++++++----------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 198b8a7..f2f1a91 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -105,15 +105,15 @@ public:
     {
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
     }
     else
     {
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 977bc1f..9e5f2d4 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -147,18 +147,18 @@ public:
       Udata(i, j, k, ID) = rho_out;
       Udata(i, j, k, IP) =
         p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
     }
     else
     {
       Udata(i, j, k, ID) = rho_in;
       Udata(i, j, k, IP) =
         p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index d67393b..558623a 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -111,8 +111,8 @@ public:
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out) +
                         0.5 * (Bx_out * Bx_out + By_out * By_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_out;
       Udata(i, j, IBY) = By_out;
@@ -123,8 +123,8 @@ public:
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in) +
                         0.5 * (Bx_in * Bx_in + By_in * By_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_in;
       Udata(i, j, IBY) = By_in;
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 535bcad..ec33c1d 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -121,9 +121,9 @@ public:
       Udata(i, j, k, IP) = p_out / (gamma0 - 1.0) +
                            0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out) +
                            0.5 * (Bx_out * Bx_out + By_out * By_out + Bz_out * Bz_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
       Udata(i, j, k, IBX) = Bx_out;
       Udata(i, j, k, IBY) = By_out;
       Udata(i, j, k, IBZ) = Bz_out;
@@ -134,9 +134,9 @@ public:
       Udata(i, j, k, IP) = p_in / (gamma0 - 1.0) +
                            0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in) +
                            0.5 * (Bx_in * Bx_in + By_in * By_in + Bz_in * Bz_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
       Udata(i, j, k, IBX) = Bx_in;
       Udata(i, j, k, IBY) = By_in;
       Udata(i, j, k, IBZ) = Bz_in;
diff --git a/src/sdm/init/InitImplodeFunctor.h b/src/sdm/init/InitImplodeFunctor.h
index 371d01f..245c07b 100644
--- a/src/sdm/init/InitImplodeFunctor.h
+++ b/src/sdm/init/InitImplodeFunctor.h
@@ -125,16 +125,16 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_out;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_out;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_out;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_out * u_out;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_out * v_out;
         }
         else
         {
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_in;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_in;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_in;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_in * u_in;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_in * v_in;
         }
 
       } // end for idx
@@ -231,18 +231,18 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_out / (gamma0 - 1.0) +
               0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_out * u_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_out * v_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_out * w_out;
           }
           else
           {
             Udata(i, j, k, dofMap(idx, idy, idz, ID)) = rho_in;
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_in * u_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_in * v_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_in * w_in;
           }
 
         } // end for idx
-- 
2.43.0


From 26ecf355c0c0c63a200a2920787cb429fd5dd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 21/48] fix: disk problem energy used the unclamped square of
 the angular velocity

---
 src/muscl/HydroInitFunctors2D.h | 2 +-
 src/muscl/HydroInitFunctors3D.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index f2f1a91..cecdd11 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1045,7 +1045,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 9e5f2d4..5b8a0d1 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -953,7 +953,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
     }
 
   } // end operator ()
-- 
2.43.0


From b7456516771853d77619c4371bff9efdf61d4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 22/48] fix: 2D MHD rotor did not rotate its core as a solid
 body (velocity extrapolated the taper function)

---
 src/muscl/MHDInitFunctors2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 558623a..46a6bb1 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -652,8 +652,8 @@ public:
     if (r <= r0)
     {
       Udata(i, j, ID) = 10.0;
-      Udata(i, j, IU) = -Udata(i, j, ID) * f_r * u0 * (y - yCenter) / r0;
-      Udata(i, j, IV) = Udata(i, j, ID) * f_r * u0 * (x - xCenter) / r0;
+      Udata(i, j, IU) = -Udata(i, j, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, IV) = Udata(i, j, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
-- 
2.43.0


From e098841ce785447fa3e3e42ca3dbf4cce519d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 23/48] fix: 3D MHD rotor stored the velocity as momentum

---
 src/muscl/MHDInitFunctors3D.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index ec33c1d..bd906e2 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -696,14 +696,14 @@ public:
     if (r <= r0)
     {
       Udata(i, j, k, ID) = 10.0;
-      Udata(i, j, k, IU) = -u0 * (y - yCenter) / r0;
-      Udata(i, j, k, IV) = u0 * (x - xCenter) / r0;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
       Udata(i, j, k, ID) = 1 + 9 * f_r;
-      Udata(i, j, k, IU) = -f_r * u0 * (y - yCenter) / r;
-      Udata(i, j, k, IV) = f_r * u0 * (x - xCenter) / r;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * f_r * u0 * (y - yCenter) / r;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * f_r * u0 * (x - xCenter) / r;
     }
     else
     {
-- 
2.43.0


From 8a331db4eec509285db09f271568ea964c61d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 24/48] fix: 3D Gresho vortex had a velocity along the vortex
 axis

---
 src/muscl/HydroInitFunctors3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 5b8a0d1..0767fd1 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -521,7 +521,7 @@ public:
     Udata(i, j, k, ID) = rho0;
     Udata(i, j, k, IU) = rho0 * (-sinT * uphi);
     Udata(i, j, k, IV) = rho0 * (cosT * uphi);
-    Udata(i, j, k, IW) = rho0 * (cosT * uphi);
+    Udata(i, j, k, IW) = 0.0;
     Udata(i, j, k, IP) = p / (gamma0 - 1.0) + 0.5 *
                                                 (Udata(i, j, k, IU) * Udata(i, j, k, IU) +
                                                  Udata(i, j, k, IV) * Udata(i, j, k, IV) +
-- 
2.43.0


From 8509d65bc082b7e37ca51cb71a3ddc4b6c61493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 25/48] fix: Kelvin-Helmholtz parameters were left
 uninitialised (random seed, sine mode)

---
 src/shared/problems/KHParams.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/problems/KHParams.h b/src/shared/problems/KHParams.h
index 27a8828..44acd7b 100644
--- a/src/shared/problems/KHParams.h
+++ b/src/shared/problems/KHParams.h
@@ -29,15 +29,15 @@ struct KHParams
   real_t vflow_in;
   real_t vflow_out;
 
-  int    seed;
+  int    seed = 12;
   real_t amplitude; //! perturbation amplitude
-  real_t outer_size;
-  real_t inner_size;
+  real_t outer_size = 0.2;
+  real_t inner_size = 0.2;
 
   // for sine perturbation "a la Robertson"
-  int    mode;
-  real_t w0;
-  real_t delta;
+  int    mode = 2;
+  real_t w0 = 0.1;
+  real_t delta = 0.03;
 
   KHParams(ConfigMap & configMap)
   {
-- 
2.43.0


From 449eb8cbb26c92ced599bc2aadbfb9d03919032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 26/48] fix: Kelvin-Helmholtz perturbation_sine left the
 hydrodynamic state all zero (MUSCL hydro, SDM)

---
 src/muscl/HydroInitFunctors2D.h           | 17 ++++++++++
 src/muscl/HydroInitFunctors3D.h           | 19 ++++++++++++
 src/sdm/init/InitKelvinHelmholtzFunctor.h | 38 +++++++++++++++++++++++
 3 files changed, 74 insertions(+)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index cecdd11..32806cd 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -334,6 +334,23 @@ public:
       Udata(i, j, IV) = d * v;
       Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double y1 = 0.25;
+      const double y2 = 0.75;
+
+      const real_t d = (y >= y1 and y <= y2) ? d_in : d_out;
+      const real_t u = (y >= y1 and y <= y2) ? vflow_in : vflow_out;
+      const real_t v = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, ID) = d;
+      Udata(i, j, IU) = d * u;
+      Udata(i, j, IV) = d * v;
+      Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
+    }
 
   } // end operator ()
 
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 0767fd1..3cdfd0a 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -411,6 +411,25 @@ public:
       Udata(i, j, k, IW) = d * w;
       Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double z1 = 0.25;
+      const double z2 = 0.75;
+
+      const real_t d = (z >= z1 and z <= z2) ? d_in : d_out;
+      const real_t u = (z >= z1 and z <= z2) ? vflow_in : vflow_out;
+      const real_t v = 0;
+      const real_t w = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, k, ID) = d;
+      Udata(i, j, k, IU) = d * u;
+      Udata(i, j, k, IV) = d * v;
+      Udata(i, j, k, IW) = d * w;
+      Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+    }
 
   } // end operator ()
 
diff --git a/src/sdm/init/InitKelvinHelmholtzFunctor.h b/src/sdm/init/InitKelvinHelmholtzFunctor.h
index fdbfd54..96802e3 100644
--- a/src/sdm/init/InitKelvinHelmholtzFunctor.h
+++ b/src/sdm/init/InitKelvinHelmholtzFunctor.h
@@ -175,6 +175,24 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
         }
+        else if (khParams.p_sine)
+        {
+
+          const int    n = khParams.mode;
+          const real_t w0 = khParams.w0;
+          const double y1 = 0.25;
+          const double y2 = 0.75;
+
+          const real_t d = (y >= y1 and y <= y2) ? d_in : d_out;
+          const real_t u = (y >= y1 and y <= y2) ? vflow_in : vflow_out;
+          const real_t v = w0 * sin(n * M_PI * x);
+
+          Udata(i, j, dofMap(idx, idy, 0, ID)) = d;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = d * u;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = d * v;
+          Udata(i, j, dofMap(idx, idy, 0, IE)) =
+            pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
+        }
 
       } // end for idx
     } // end for idy
@@ -330,6 +348,26 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
           }
+          else if (khParams.p_sine)
+          {
+
+            const int    n = khParams.mode;
+            const real_t w0 = khParams.w0;
+            const double z1 = 0.25;
+            const double z2 = 0.75;
+
+            const real_t d = (z >= z1 and z <= z2) ? d_in : d_out;
+            const real_t u = (z >= z1 and z <= z2) ? vflow_in : vflow_out;
+            const real_t v = 0;
+            const real_t w = w0 * sin(n * M_PI * x);
+
+            Udata(i, j, k, dofMap(idx, idy, idz, ID)) = d;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = d * u;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = d * v;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = d * w;
+            Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
+              pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+          }
 
         } // end for idx
       } // end for idy
-- 
2.43.0


From 714a0f07060bef5faacf0ea152e82ed628ec4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 27/48] fix: SDM four-quadrant problem was evaluated half a
 cell off the solution points

---
 src/sdm/init/InitFourQuadrantFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdm/init/InitFourQuadrantFunctor.h b/src/sdm/init/InitFourQuadrantFunctor.h
index 0c60cf9..24339c9 100644
--- a/src/sdm/init/InitFourQuadrantFunctor.h
+++ b/src/sdm/init/InitFourQuadrantFunctor.h
@@ -107,8 +107,8 @@ public:
       {
 
         // lower left corner
-        real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-        real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
+        real_t x = xmin + (i + nx * i_mpi - ghostWidth) * dx;
+        real_t y = ymin + (j + ny * j_mpi - ghostWidth) * dy;
 
         // Dof location in real space
         x += this->sdm_geom.solution_pts_1d(idx) * dx;
-- 
2.43.0


From 57db318497a872626822d3dc7d251f6962a301e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 28/48] fix: disk problem was NaN in a cell centred on the
 rotation axis

---
 src/muscl/HydroInitFunctors2D.h | 4 ++--
 src/muscl/HydroInitFunctors3D.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 32806cd..1bc040d 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1011,8 +1011,8 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 3cdfd0a..6855517 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -920,8 +920,8 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
-- 
2.43.0


From 5da5031074812d565b1d255d9a37471801f01211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 29/48] fix: isentropic vortex at tEnd was placed outside of
 the box

---
 src/sdm/init/InitIsentropicVortexFunctor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sdm/init/InitIsentropicVortexFunctor.h b/src/sdm/init/InitIsentropicVortexFunctor.h
index efde905..5d76cde 100644
--- a/src/sdm/init/InitIsentropicVortexFunctor.h
+++ b/src/sdm/init/InitIsentropicVortexFunctor.h
@@ -106,8 +106,8 @@ public:
       vortex_y += this->iparams.tEnd * v_a;
 
       // make sure vortex center is inside the box (periodic boundaries for this test)
-      vortex_x = fmod(vortex_x, xmax - xmin);
-      vortex_y = fmod(vortex_y, ymax - ymin);
+      vortex_x -= (xmax - xmin) * floor((vortex_x - xmin) / (xmax - xmin));
+      vortex_y -= (ymax - ymin) * floor((vortex_y - ymin) / (ymax - ymin));
     }
 
     int i, j;
@@ -212,8 +212,8 @@ public:
       vortex_y += this->iparams.tEnd * v_a;
 
       // make sure vortex center is inside the box (periodic boundaries for this test)
-      vortex_x = fmod(vortex_x, xmax - xmin);
-      vortex_y = fmod(vortex_y, ymax - ymin);
+      vortex_x -= (xmax - xmin) * floor((vortex_x - xmin) / (xmax - xmin));
+      vortex_y -= (ymax - ymin) * floor((vortex_y - ymin) / (ymax - ymin));
     }
 
     // local cell index
-- 
2.43.0


From c358547a18ca247105403661e381bbbece588b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 30/48] fix: Rayleigh-Taylor energy ignored the kinetic energy
 of the perturbation

---
 src/muscl/HydroInitFunctors2D.h | 3 ++-
 src/muscl/HydroInitFunctors3D.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 1bc040d..b8e96e2 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -789,7 +789,8 @@ public:
     // initial hydrostatic equilibrium :
     // -dP/dz + rho*g = 0
     // P = P0 + rho g z
-    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
+    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0) +
+                      0.5 * Udata(i, j, IV) * Udata(i, j, IV) / Udata(i, j, ID);
 
     // init gravity field
     gravity(i, j, IX) = gravity_x;
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 6855517..7f4be2b 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -680,7 +680,8 @@ public:
       amplitude * (1 + cos(2 * M_PI * x / Lx)) * (1 + cos(2 * M_PI * y / Ly)) / 4;
 
     Udata(i, j, k, IE) =
-      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1);
+      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1) +
+      0.5 * Udata(i, j, k, IW) * Udata(i, j, k, IW) / Udata(i, j, k, ID);
 
     // init gravity field
     gravity(i, j, k, IX) = gravity_x;
-- 
2.43.0


From 3805b431e2aa9e9ecb15266cb071043911735d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 31/48] fix: Gresho vortex ignored its advection velocity
 parameters

---
 src/muscl/HydroInitFunctors2D.h        |  4 ++--
 src/muscl/HydroInitFunctors3D.h        |  6 +++---
 src/sdm/init/InitGreshoVortexFunctor.h | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index b8e96e2..be4c457 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -450,8 +450,8 @@ public:
     }
 
     Udata(i, j, ID) = rho0;
-    Udata(i, j, IU) = rho0 * (-sinT * uphi);
-    Udata(i, j, IV) = rho0 * (cosT * uphi);
+    Udata(i, j, IU) = rho0 * (gvParams.u - sinT * uphi);
+    Udata(i, j, IV) = rho0 * (gvParams.v + cosT * uphi);
     Udata(i, j, IP) = p / (gamma0 - 1.0) +
                       0.5 *
                         (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV)) /
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 7f4be2b..f26613e 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -538,9 +538,9 @@ public:
     }
 
     Udata(i, j, k, ID) = rho0;
-    Udata(i, j, k, IU) = rho0 * (-sinT * uphi);
-    Udata(i, j, k, IV) = rho0 * (cosT * uphi);
-    Udata(i, j, k, IW) = 0.0;
+    Udata(i, j, k, IU) = rho0 * (gvParams.u - sinT * uphi);
+    Udata(i, j, k, IV) = rho0 * (gvParams.v + cosT * uphi);
+    Udata(i, j, k, IW) = rho0 * gvParams.w;
     Udata(i, j, k, IP) = p / (gamma0 - 1.0) + 0.5 *
                                                 (Udata(i, j, k, IU) * Udata(i, j, k, IU) +
                                                  Udata(i, j, k, IV) * Udata(i, j, k, IV) +
diff --git a/src/sdm/init/InitGreshoVortexFunctor.h b/src/sdm/init/InitGreshoVortexFunctor.h
index 9cfd54d..b9446cf 100644
--- a/src/sdm/init/InitGreshoVortexFunctor.h
+++ b/src/sdm/init/InitGreshoVortexFunctor.h
@@ -134,8 +134,8 @@ public:
         }
 
         Udata(i, j, dofMap(idx, idy, 0, ID)) = rho0;
-        Udata(i, j, dofMap(idx, idy, 0, IU)) = rho0 * (-sinT * uphi);
-        Udata(i, j, dofMap(idx, idy, 0, IV)) = rho0 * (cosT * uphi);
+        Udata(i, j, dofMap(idx, idy, 0, IU)) = rho0 * (gvParams.u - sinT * uphi);
+        Udata(i, j, dofMap(idx, idy, 0, IV)) = rho0 * (gvParams.v + cosT * uphi);
         Udata(i, j, dofMap(idx, idy, 0, IE)) =
           p / (gamma0 - 1.0) +
           0.5 *
@@ -242,9 +242,9 @@ public:
           }
 
           Udata(i, j, k, dofMap(idx, idy, idz, ID)) = rho0;
-          Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho0 * (-sinT * uphi);
-          Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho0 * (cosT * uphi);
-          Udata(i, j, k, dofMap(idx, idy, idz, IW)) = 0.0;
+          Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho0 * (gvParams.u - sinT * uphi);
+          Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho0 * (gvParams.v + cosT * uphi);
+          Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho0 * gvParams.w;
           Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
             p / (gamma0 - 1.0) + 0.5 *
                                    (Udata(i, j, k, dofMap(idx, idy, idz, IU)) *
-- 
2.43.0


From 33a82d0febff00c74120e767140f6d85f7896274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 32/48] fix: Gresho vortex was not in equilibrium for a density
 different from one

---
 src/muscl/HydroInitFunctors2D.h        |  6 +++---
 src/muscl/HydroInitFunctors3D.h        |  6 +++---
 src/sdm/init/InitGreshoVortexFunctor.h | 12 ++++++------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index be4c457..53851c7 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -434,19 +434,19 @@ public:
     {
 
       uphi = 5 * r;
-      p = p0 + 25 / 2.0 * r * r;
+      p = p0 + rho0 * 25 / 2.0 * r * r;
     }
     else if (r < 0.4)
     {
 
       uphi = 2 - 5 * r;
-      p = p0 + 25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r));
+      p = p0 + rho0 * (25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r)));
     }
     else
     {
 
       uphi = 0;
-      p = p0 - 2 + 4 * log(2.0);
+      p = p0 + rho0 * (4 * log(2.0) - 2);
     }
 
     Udata(i, j, ID) = rho0;
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index f26613e..237cb7e 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -522,19 +522,19 @@ public:
     {
 
       uphi = 5 * r;
-      p = p0 + 25 / 2.0 * r * r;
+      p = p0 + rho0 * 25 / 2.0 * r * r;
     }
     else if (r < 0.4)
     {
 
       uphi = 2 - 5 * r;
-      p = p0 + 25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r));
+      p = p0 + rho0 * (25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r)));
     }
     else
     {
 
       uphi = 0;
-      p = p0 - 2 + 4 * log(2.0);
+      p = p0 + rho0 * (4 * log(2.0) - 2);
     }
 
     Udata(i, j, k, ID) = rho0;
diff --git a/src/sdm/init/InitGreshoVortexFunctor.h b/src/sdm/init/InitGreshoVortexFunctor.h
index b9446cf..3c04db4 100644
--- a/src/sdm/init/InitGreshoVortexFunctor.h
+++ b/src/sdm/init/InitGreshoVortexFunctor.h
@@ -118,19 +118,19 @@ public:
         {
 
           uphi = 5 * r;
-          p = p0 + 25 / 2.0 * r * r;
+          p = p0 + rho0 * 25 / 2.0 * r * r;
         }
         else if (r < 0.4)
         {
 
           uphi = 2 - 5 * r;
-          p = p0 + 25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r));
+          p = p0 + rho0 * (25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r)));
         }
         else
         {
 
           uphi = 0;
-          p = p0 - 2 + 4 * log(2.0);
+          p = p0 + rho0 * (4 * log(2.0) - 2);
         }
 
         Udata(i, j, dofMap(idx, idy, 0, ID)) = rho0;
@@ -226,19 +226,19 @@ public:
           {
 
             uphi = 5 * r;
-            p = p0 + 25 / 2.0 * r * r;
+            p = p0 + rho0 * 25 / 2.0 * r * r;
           }
           else if (r < 0.4)
           {
 
             uphi = 2 - 5 * r;
-            p = p0 + 25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r));
+            p = p0 + rho0 * (25 / 2.0 * r * r + 4 * (1 - 5 * r - log(0.2) + log(r)));
           }
           else
           {
 
             uphi = 0;
-            p = p0 - 2 + 4 * log(2.0);
+            p = p0 + rho0 * (4 * log(2.0) - 2);
           }
 
           Udata(i, j, k, dofMap(idx, idy, idz, ID)) = rho0;
-- 
2.43.0


From d9822b409b73e0e9acaea1e585180c5e95bb95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 33/48] fix: field loop vector potential was taken half a cell
 off the cell edges

---
 src/muscl/MHDInitFunctors2D.h | 5 +++--
 src/muscl/MHDInitFunctors3D.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 46a6bb1..38670e2 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -811,8 +811,9 @@ public:
     const real_t radius = flParams.radius;
     const real_t amplitude = flParams.amplitude;
 
-    real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-    real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
+    // location of the lower left corner, where the curl needs the vector potential
+    real_t x = xmin + (i + nx * i_mpi - ghostWidth) * dx;
+    real_t y = ymin + (j + ny * j_mpi - ghostWidth) * dy;
 
     real_t r = sqrt(x * x + y * y);
     if (r < radius)
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index bd906e2..fa8791d 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -860,8 +860,9 @@ public:
     const real_t radius = flParams.radius;
     const real_t amplitude = flParams.amplitude;
 
-    real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-    real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
+    // location of the lower left edge along z, where the curl needs the vector potential
+    real_t x = xmin + (i + nx * i_mpi - ghostWidth) * dx;
+    real_t y = ymin + (j + ny * j_mpi - ghostWidth) * dy;
     // real_t z = zmin + dz/2 + (k+nz*k_mpi-ghostWidth)*dz;
 
     A(i, j, k, 0) = ZERO_F;
-- 
2.43.0


From c09b4f63f86d8fd355ca5782014102e48902d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 34/48] fix: Riemann 2D configuration 19 fell through to
 configuration 1

---
 src/shared/problems/initRiemannConfig2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index f780abc..1711be8 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -485,6 +485,7 @@ getRiemannConfig2d(int            numConfig,
       U3[IV] = -0.4259;
       U3[IP] = 0.4;
 
+      break;
     default:
       // Config 1
       U0[ID] = 1.0;
-- 
2.43.0


From a7a87cb11f717680f44739adad5a8f335adaf612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 35/48] fix: wrong constants in Riemann 2D configurations 6 and
 10 (Lax and Liu 1998)

---
 src/shared/problems/initRiemannConfig2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index 1711be8..ba5d5c7 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -174,7 +174,7 @@ getRiemannConfig2d(int            numConfig,
       U1[ID] = 2.0;
       U1[IU] = 0.75;
       U1[IV] = 0.5;
-      U1[IP] = 0.5;
+      U1[IP] = 1.0;
 
       U2[ID] = 1.0;
       U2[IU] = -0.75;
@@ -275,7 +275,7 @@ getRiemannConfig2d(int            numConfig,
 
       U3[ID] = 0.4562;
       U3[IU] = 0.0;
-      U3[IV] = -0.4259;
+      U3[IV] = -0.4297;
       U3[IP] = 0.3333;
 
       break;
-- 
2.43.0


From 5f9f7ca2b8adac86298260542eaacef2711b2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 36/48] fix: disk energy in a cell on the rotation axis counted
 a velocity the cell does not have

---
 src/muscl/HydroInitFunctors2D.h | 3 ++-
 src/muscl/HydroInitFunctors3D.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 53851c7..42c6d1a 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1063,7 +1063,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
+      Udata(i, j, IE) =
+        pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 237cb7e..8102e12 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -973,7 +973,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
+      Udata(i, j, k, IE) =
+        pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
-- 
2.43.0


From bd220d04932ae5482865f30d875a4d0d31f783a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 37/48] fix: positivity correction lost the pressure floor to
 rounding (ill-conditioned root of the quadratic)

---
 src/sdm/SDM_Positivity_preserving.h | 105 +++++++---------------------
 1 file changed, 25 insertions(+), 80 deletions(-)

diff --git a/src/sdm/SDM_Positivity_preserving.h b/src/sdm/SDM_Positivity_preserving.h
index 26a2a43..ace89ea 100644
--- a/src/sdm/SDM_Positivity_preserving.h
+++ b/src/sdm/SDM_Positivity_preserving.h
@@ -1145,22 +1145,11 @@ public:
                         2.0 * (rhou_ave * drhou + rhov_ave * drhov);
             real_t c1 = 2.0 * rho_ave * e_ave - (rhou_ave * rhou_ave + rhov_ave * rhov_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            // the value at t=0 (cell average) is positive, the one at t=1 is not: the root in
+            // [0,1] is the smallest positive one. Neither divide by a1, which may be
+            // arbitrarily small, nor subtract close numbers.
+            const real_t D = sqrt(fmax(b1 * b1 - 4.0 * a1 * c1, 0.0));
+            real_t       t = b1 < 0 ? 2.0 * c1 / (D - b1) : -0.5 * (b1 + D) / a1;
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1225,22 +1214,11 @@ public:
                         2.0 * (rhou_ave * drhou + rhov_ave * drhov);
             real_t c1 = 2.0 * rho_ave * e_ave - (rhou_ave * rhou_ave + rhov_ave * rhov_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            // the value at t=0 (cell average) is positive, the one at t=1 is not: the root in
+            // [0,1] is the smallest positive one. Neither divide by a1, which may be
+            // arbitrarily small, nor subtract close numbers.
+            const real_t D = sqrt(fmax(b1 * b1 - 4.0 * a1 * c1, 0.0));
+            real_t       t = b1 < 0 ? 2.0 * c1 / (D - b1) : -0.5 * (b1 + D) / a1;
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1522,22 +1500,11 @@ public:
             real_t c1 = 2.0 * rho_ave * e_ave -
                         (rhou_ave * rhou_ave + rhov_ave * rhov_ave + rhow_ave * rhow_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            // the value at t=0 (cell average) is positive, the one at t=1 is not: the root in
+            // [0,1] is the smallest positive one. Neither divide by a1, which may be
+            // arbitrarily small, nor subtract close numbers.
+            const real_t D = sqrt(fmax(b1 * b1 - 4.0 * a1 * c1, 0.0));
+            real_t       t = b1 < 0 ? 2.0 * c1 / (D - b1) : -0.5 * (b1 + D) / a1;
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1611,22 +1578,11 @@ public:
             real_t c1 = 2.0 * rho_ave * e_ave -
                         (rhou_ave * rhou_ave + rhov_ave * rhov_ave + rhow_ave * rhow_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            // the value at t=0 (cell average) is positive, the one at t=1 is not: the root in
+            // [0,1] is the smallest positive one. Neither divide by a1, which may be
+            // arbitrarily small, nor subtract close numbers.
+            const real_t D = sqrt(fmax(b1 * b1 - 4.0 * a1 * c1, 0.0));
+            real_t       t = b1 < 0 ? 2.0 * c1 / (D - b1) : -0.5 * (b1 + D) / a1;
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
@@ -1700,22 +1656,11 @@ public:
             real_t c1 = 2.0 * rho_ave * e_ave -
                         (rhou_ave * rhou_ave + rhov_ave * rhov_ave + rhow_ave * rhow_ave) -
                         2.0 * eps2 * rho_ave / (gamma0 - 1.0);
-            // Divide by a1 to avoid round-off error
-            b1 /= a1;
-            c1 /= a1;
-            // discrimant
-            real_t D = sqrt(fabs(b1 * b1 - 4.0 * c1));
-
-            // possible solutions
-            real_t t1 = 0.5 * (-b1 - D);
-            real_t t2 = 0.5 * (-b1 + D);
-            real_t t = 0.0;
-            if (t1 > -1.0e-12 and t1 < 1.0 + 1.0e-12)
-              t = t1;
-            else if (t2 > -1.0e-12 and t2 < 1.0 + 1.0e-12)
-              t = t2;
-            else
-              ; // Houston, we have a problem
+            // the value at t=0 (cell average) is positive, the one at t=1 is not: the root in
+            // [0,1] is the smallest positive one. Neither divide by a1, which may be
+            // arbitrarily small, nor subtract close numbers.
+            const real_t D = sqrt(fmax(b1 * b1 - 4.0 * a1 * c1, 0.0));
+            real_t       t = b1 < 0 ? 2.0 * c1 / (D - b1) : -0.5 * (b1 + D) / a1;
 
             // t should strictly lie in [0,1]
             t = t < 1.0 ? t : 1.0;
-- 
2.43.0


From 46a25edbf4a9f935011bbc1a2243e2ac5acddc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 38/48] fix: write the XDMF wrapper beside the HDF5 files it
 refers to

With outputDir other than the current directory the wrapper was written to
the current directory while naming the HDF5 files by their base name, so
none of its references resolved.
---
 src/utils/io/IO_HDF5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/io/IO_HDF5.cpp b/src/utils/io/IO_HDF5.cpp
index 8e1424c..4a45b09 100644
--- a/src/utils/io/IO_HDF5.cpp
+++ b/src/utils/io/IO_HDF5.cpp
@@ -134,7 +134,8 @@ writeXdmfForHdf5Wrapper(HydroParams &                      params,
     xdmfFilename = outputPrefix + "_" + outNum.str() + ".xmf";
   }
   std::fstream xdmfFile;
-  xdmfFile.open(xdmfFilename.c_str(), std::ios_base::out);
+  // the wrapper refers to the HDF5 files by base name: it must lie in the same directory
+  xdmfFile.open((outputDir + "/" + xdmfFilename).c_str(), std::ios_base::out);
 
   xdmfFile << "<?xml version=\"1.0\" ?>" << std::endl;
   xdmfFile << "<!DOCTYPE Xdmf SYSTEM \"Xdmf.dtd\" []>" << std::endl;
-- 
2.43.0


From 6242c3345d984aa7b7f5636ed3fbc8b523b8d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 39/48] fix: z extent of the pieces in a 2D pvti file

The pieces (and the whole extent) are flat: the vti files carry "0 0" along
z while the header announced "0 1", outside its own whole extent.
---
 src/utils/io/IO_VTK.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index c8b0a73..545f34b 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -959,7 +959,7 @@ write_pvti_header(std::string                        headerFilename,
         outHeader << 0 << " " << ny << " ";
       else
         outHeader << coords[1] * ny << " " << coords[1] * ny + ny << " ";
-      outHeader << 0 << " " << 1 << "\" Source=\"";
+      outHeader << 0 << " " << 0 << "\" Source=\"";
       outHeader << pieceFilename << "\"/>" << std::endl;
     }
   }
-- 
2.43.0


From be3bb3b97d228e55af153b8840362442669f70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 40/48] fix: do not write the initial state twice when every
 step is saved

With nOutput < 0 outputs 0 and 1 were both the initial state, at the same time.
---
 src/shared/SolverBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/SolverBase.cpp b/src/shared/SolverBase.cpp
index c54d9d9..8f1cdc6 100644
--- a/src/shared/SolverBase.cpp
+++ b/src/shared/SolverBase.cpp
@@ -269,9 +269,10 @@ SolverBase::should_save_solution()
 
   // params.nOutput == 0 means no output at all
   // params.nOutput < 0  means always output
+  // (the state before the first iteration is saved by the main program)
   if (params.nOutput < 0)
   {
-    return 1;
+    return m_iteration > 0;
   }
 
   if ((m_t - (m_times_saved - 1) * interval) > interval)
-- 
2.43.0


From 6389ef9fbe513a1cf05b2de6627af2f4c12a6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 41/48] fix: size the string that receives the broadcast
 creation date

reserve() leaves the string empty: the broadcast wrote past its end and the
terminator was never set.
---
 src/utils/io/IO_HDF5.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index bdaf688..866800d 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -736,7 +736,7 @@ public:
 
     // broadcast stringDate to all other MPI task
     if (myRank != 0)
-      stringDate.reserve(stringDateSize);
+      stringDate.resize(stringDateSize);
     char * cstr = const_cast<char *>(stringDate.c_str());
     params.communicator->bcast(cstr, stringDateSize, MpiComm::CHAR, 0);
 
-- 
2.43.0


From 1604b5e078906b6b568bbc224a03d5041e31493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 42/48] fix: let a single MPI process write the XDMF wrapper

All processes opened and wrote the same file concurrently.
---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index a2a9e6a..78fe7ac 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -168,7 +168,8 @@ main(int argc, char * argv[])
     // write Xdmf wrapper file if necessary
 #ifdef USE_HDF5
   bool outputHdf5Enabled = configMap.getBool("output", "hdf5_enabled", false);
-  if (outputHdf5Enabled)
+  // (a single process writes the wrapper)
+  if (outputHdf5Enabled and rank == 0)
   {
     ppkMHD::io::writeXdmfForHdf5Wrapper(
       params, configMap, solver->m_variables_names, solver->m_times_saved - 1, false);
-- 
2.43.0


From e00f20cda649f13213176bb7cdfe5914139c63f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 43/48] fix: overlapping collective writes of ghost-inclusive
 HDF5 files

With ghostIncluded and several processes each process wrote its whole
sub-domain with ghost cells, so neighbours wrote the same file region in one
collective call. This is undefined in MPI-IO and corrupts the heap (crash or
hang) with Open MPI's collective buffering. Each process now writes the cells
it owns: the interior and the external ghost cells at the domain border.
---
 src/utils/io/IO_HDF5.h | 52 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index 866800d..5824539 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -1099,38 +1099,32 @@ public:
       else if (ghostIncluded)
       {
 
-        // global offsets
-        int gOffsetStartX, gOffsetStartY, gOffsetStartZ;
-
-        if (dimType == TWO_D)
+        // Every process owns its interior cells and, at the border of the
+        // global domain, the external ghost cells: the parts written by
+        // different processes must not overlap (conflicting collective
+        // writes are undefined in MPI-IO).
+        const int sizes[3] = { nx, ny, nz };
+        const int mpi_sizes[3] = { mx, my, mz };
+        const int nbDims = (dimType == TWO_D) ? 2 : 3;
+        hsize_t   start_file[3], start_memory[3], block[3]; // row-major here
+
+        for (int idim = 0; idim < nbDims; ++idim)
         {
-          gOffsetStartY = coords[1] * ny;
-          gOffsetStartX = coords[0] * nx;
-
-          hsize_t start[2] = { (hsize_t)gOffsetStartY, (hsize_t)gOffsetStartX };
-          hsize_t stride[2] = { 1, 1 };
-          hsize_t count[2] = { 1, 1 };
-          hsize_t block[2] = { dims_chunk[0],
-                               dims_chunk[1] }; // row-major instead of column-major here
-          status = H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start, stride, count, block);
+          const int first = (coords[idim] == 0) ? 0 : ghostWidth;
+          const int last = (coords[idim] == mpi_sizes[idim] - 1) ? sizes[idim] + 2 * ghostWidth
+                                                                  : sizes[idim] + ghostWidth;
+          const int irow = nbDims - 1 - idim;
+          start_file[irow] = coords[idim] * sizes[idim] + first;
+          start_memory[irow] = first;
+          block[irow] = last - first;
         }
-        else
-        { // THREE_D
 
-          gOffsetStartZ = coords[2] * nz;
-          gOffsetStartY = coords[1] * ny;
-          gOffsetStartX = coords[0] * nx;
-
-          hsize_t start[3] = { (hsize_t)gOffsetStartZ,
-                               (hsize_t)gOffsetStartY,
-                               (hsize_t)gOffsetStartX };
-          hsize_t stride[3] = { 1, 1, 1 };
-          hsize_t count[3] = { 1, 1, 1 };
-          hsize_t block[3] = { dims_chunk[0],
-                               dims_chunk[1],
-                               dims_chunk[2] }; // row-major instead of column-major here
-          status = H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start, stride, count, block);
-        }
+        hsize_t stride[3] = { 1, 1, 1 };
+        hsize_t count[3] = { 1, 1, 1 };
+        status = H5Sselect_hyperslab(
+          dataspace_memory, H5S_SELECT_SET, start_memory, stride, count, block);
+        status =
+          H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start_file, stride, count, block);
       }
       else
       { // no ghost zones
-- 
2.43.0


From c3a6c49b8e6ee87e9070547c631baa59560ab1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 44/48] fix: set the gravity field when restarting a run with
 gravity

The gravity field was only filled by the regular initialization of the problem,
so that a restarted run had no gravity.
---
 src/muscl/SolverHydroMuscl.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/muscl/SolverHydroMuscl.cpp b/src/muscl/SolverHydroMuscl.cpp
index 39d5b92..f127180 100644
--- a/src/muscl/SolverHydroMuscl.cpp
+++ b/src/muscl/SolverHydroMuscl.cpp
@@ -111,13 +111,10 @@ SolverHydroMuscl<2>::init(DataArray Udata)
   // test if we are performing a re-start run (default : false)
   bool restartEnabled = configMap.getBool("run", "restart_enabled", false);
 
-  if (restartEnabled)
-  { // load data from input data file
-
-    init_restart(Udata);
-  }
-  else
-  { // regular initialization
+  // regular initialization; a re-start run needs it too when gravity is enabled, because the
+  // gravity field is set by the problem and not stored in the data file
+  if (!restartEnabled or m_gravity_enabled)
+  {
 
     /*
      * initialize hydro array at t=0
@@ -178,6 +175,12 @@ SolverHydroMuscl<2>::init(DataArray Udata)
 
   } // end regular initialization
 
+  if (restartEnabled)
+  { // load data from input data file
+
+    init_restart(Udata);
+  }
+
 } // SolverHydroMuscl::init / 2d
 
 // =======================================================
@@ -190,13 +193,10 @@ SolverHydroMuscl<3>::init(DataArray Udata)
   // test if we are performing a re-start run (default : false)
   bool restartEnabled = configMap.getBool("run", "restart_enabled", false);
 
-  if (restartEnabled)
-  { // load data from input data file
-
-    init_restart(Udata);
-  }
-  else
-  { // regular initialization
+  // regular initialization; a re-start run needs it too when gravity is enabled, because the
+  // gravity field is set by the problem and not stored in the data file
+  if (!restartEnabled or m_gravity_enabled)
+  {
 
     /*
      * initialize hydro array at t=0
@@ -247,6 +247,12 @@ SolverHydroMuscl<3>::init(DataArray Udata)
 
   } // end regular initialization
 
+  if (restartEnabled)
+  { // load data from input data file
+
+    init_restart(Udata);
+  }
+
 } // SolverHydroMuscl<3>::init
 
 // =======================================================
-- 
2.43.0


From 642508e50210c8b42c88f0157ae085b21cc94fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:31 +0000
Subject: [PATCH 45/48] fix: parameter file lines longer than 199 characters
 and names longer than 49 were cut

---
 src/utils/config/inih/ini.cpp | 65 +++++++++++++----------------------
 1 file changed, 23 insertions(+), 42 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 10b4acd..a933f25 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -11,6 +11,7 @@ http://code.google.com/p/inih/
 #include <ctype.h>
 #include <string.h>
 
+#include <fstream>
 #include <sstream>
 #include <iostream>
 #include <string>
@@ -18,10 +19,6 @@ http://code.google.com/p/inih/
 
 #include "ini.h"
 
-#define MAX_LINE 200
-#define MAX_SECTION 50
-#define MAX_NAME 50
-
 /* Strip whitespace chars off end of given string, in place. Return s. */
 static char *
 rstrip(char * s)
@@ -56,18 +53,6 @@ find_char_or_comment(const char * s, char c)
   return (char *)s;
 }
 
-/* Version of strncpy that ensures dest (size bytes) is null-terminated. */
-static char *
-strncpy0(char * dest, const char * src, size_t size)
-{
-  /* Could use strncpy internally, but it causes gcc warnings */
-  size_t i;
-  for (i = 0; i < size - 1 && src[i]; i++)
-    dest[i] = src[i];
-  dest[i] = '\0';
-  return dest;
-}
-
 // ================================================================
 // ================================================================
 // ================================================================
@@ -77,12 +62,10 @@ ini_parse(const char * filename,
           int (*handler)(void *, const char *, const char *, const char *),
           void * user)
 {
-  /* Uses a fair bit of stack (use heap instead if you need to) */
-  char line[MAX_LINE];
-  char section[MAX_SECTION] = "";
-  char prev_name[MAX_NAME] = "";
+  std::string section = "";
+  std::string prev_name = "";
 
-  FILE * file;
+  char * line = NULL;
   char * start;
   char * end;
   char * name;
@@ -90,14 +73,15 @@ ini_parse(const char * filename,
   int    lineno = 0;
   int    error = 0;
 
-  file = fopen(filename, "r");
+  std::ifstream file(filename);
   if (!file)
     return -1;
 
-  /* Scan through file line by line */
-  while (fgets(line, sizeof(line), file) != NULL)
+  /* Scan through file line by line (lines may have any length) */
+  for (std::string linestr = ""; std::getline(file, linestr);)
   {
     lineno++;
+    line = &linestr[0];
     start = lskip(rstrip(line));
 
     if (*start == ';' || *start == '#')
@@ -105,7 +89,7 @@ ini_parse(const char * filename,
       /* Per Python ConfigParser, allow '#' comments at start of line */
     }
 #if INI_ALLOW_MULTILINE
-    else if (*prev_name && *start && start > line)
+    else if (!prev_name.empty() && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
@@ -113,7 +97,7 @@ ini_parse(const char * filename,
       if (*end == ';')
         *end = '\0';
       rstrip(start);
-      if (!handler(user, section, prev_name, start) && !error)
+      if (!handler(user, section.c_str(), prev_name.c_str(), start) && !error)
         error = lineno;
     }
 #endif
@@ -124,8 +108,8 @@ ini_parse(const char * filename,
       if (*end == ']')
       {
         *end = '\0';
-        strncpy0(section, start + 1, sizeof(section));
-        *prev_name = '\0';
+        section = start + 1;
+        prev_name.clear();
       }
       else if (!error)
       {
@@ -148,8 +132,8 @@ ini_parse(const char * filename,
         value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
-        strncpy0(prev_name, name, sizeof(prev_name));
-        if (!handler(user, section, name, value) && !error)
+        prev_name = name;
+        if (!handler(user, section.c_str(), name, value) && !error)
           error = lineno;
       }
       else if (!error)
@@ -160,8 +144,6 @@ ini_parse(const char * filename,
     }
   }
 
-  fclose(file);
-
   return error;
 
 } // ini_parse
@@ -175,10 +157,9 @@ ini_parse_buffer(char *& buffer,
                  int (*handler)(void *, const char *, const char *, const char *),
                  void * user)
 {
-  /* Uses a fair bit of stack (use heap instead if you need to) */
-  char * line = NULL;
-  char   section[MAX_SECTION] = "";
-  char   prev_name[MAX_NAME] = "";
+  char *      line = NULL;
+  std::string section = "";
+  std::string prev_name = "";
 
   // convert the input buffer into an input string stream
   std::istringstream strs;
@@ -209,7 +190,7 @@ ini_parse_buffer(char *& buffer,
       /* Per Python ConfigParser, allow '#' comments at start of line */
     }
 #if INI_ALLOW_MULTILINE
-    else if (*prev_name && *start && start > line)
+    else if (!prev_name.empty() && *start && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
@@ -217,7 +198,7 @@ ini_parse_buffer(char *& buffer,
       if (*end == ';')
         *end = '\0';
       rstrip(start);
-      if (!handler(user, section, prev_name, start) && !error)
+      if (!handler(user, section.c_str(), prev_name.c_str(), start) && !error)
         error = lineno;
     }
 #endif
@@ -228,8 +209,8 @@ ini_parse_buffer(char *& buffer,
       if (*end == ']')
       {
         *end = '\0';
-        strncpy0(section, start + 1, sizeof(section));
-        *prev_name = '\0';
+        section = start + 1;
+        prev_name.clear();
       }
       else if (!error)
       {
@@ -252,8 +233,8 @@ ini_parse_buffer(char *& buffer,
         value = lskip(rstrip(value));
 
         /* Valid name=value pair found, call handler */
-        strncpy0(prev_name, name, sizeof(prev_name));
-        if (!handler(user, section, name, value) && !error)
+        prev_name = name;
+        if (!handler(user, section.c_str(), name, value) && !error)
           error = lineno;
       }
       else if (!error)
-- 
2.43.0


From 7e77aedc9fd874af95a29732b4ebe6ff53936d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:31 +0000
Subject: [PATCH 46/48] fix: pressure cut-off of the 3D MHD trace lacked the
 density factor used everywhere else

---
 src/muscl/MHDBaseFunctor3D.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index 7886603..62bcc0e 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -917,7 +917,7 @@ public:
     qp[0][IB] = B - dBx;
     qp[0][IC] = C - dCx;
     qp[0][ID] = fmax(smallR, qp[0][ID]);
-    qp[0][IP] = fmax(smallp /** qp[0][ID]*/, qp[0][IP]);
+    qp[0][IP] = fmax(smallp * qp[0][ID], qp[0][IP]);
 
     // Face averaged left state at right interface
     qm[0][ID] = r + drx;
@@ -929,7 +929,7 @@ public:
     qm[0][IB] = B + dBx;
     qm[0][IC] = C + dCx;
     qm[0][ID] = fmax(smallR, qm[0][ID]);
-    qm[0][IP] = fmax(smallp /** qm[0][ID]*/, qm[0][IP]);
+    qm[0][IP] = fmax(smallp * qm[0][ID], qm[0][IP]);
 
     // Face averaged top state at bottom interface
     qp[1][ID] = r - dry;
@@ -941,7 +941,7 @@ public:
     qp[1][IB] = BL;
     qp[1][IC] = C - dCy;
     qp[1][ID] = fmax(smallR, qp[1][ID]);
-    qp[1][IP] = fmax(smallp /** qp[1][ID]*/, qp[1][IP]);
+    qp[1][IP] = fmax(smallp * qp[1][ID], qp[1][IP]);
 
     // Face averaged bottom state at top interface
     qm[1][ID] = r + dry;
@@ -953,7 +953,7 @@ public:
     qm[1][IB] = BR;
     qm[1][IC] = C + dCy;
     qm[1][ID] = fmax(smallR, qm[1][ID]);
-    qm[1][IP] = fmax(smallp /** qm[1][ID]*/, qm[1][IP]);
+    qm[1][IP] = fmax(smallp * qm[1][ID], qm[1][IP]);
 
     // Face averaged front state at back interface
     qp[2][ID] = r - drz;
@@ -965,7 +965,7 @@ public:
     qp[2][IB] = B - dBz;
     qp[2][IC] = CL;
     qp[2][ID] = fmax(smallR, qp[2][ID]);
-    qp[2][IP] = fmax(smallp /** qp[2][ID]*/, qp[2][IP]);
+    qp[2][IP] = fmax(smallp * qp[2][ID], qp[2][IP]);
 
     // Face averaged back state at front interface
     qm[2][ID] = r + drz;
@@ -977,7 +977,7 @@ public:
     qm[2][IB] = B + dBz;
     qm[2][IC] = CR;
     qm[2][ID] = fmax(smallR, qm[2][ID]);
-    qm[2][IP] = fmax(smallp /** qm[2][ID]*/, qm[2][IP]);
+    qm[2][IP] = fmax(smallp * qm[2][ID], qm[2][IP]);
 
     // X-edge averaged right-top corner state (RT->LL)
     qRT_X[ID] = r + (+dry + drz);
@@ -989,7 +989,7 @@ public:
     qRT_X[IB] = BR + (+dBRz);
     qRT_X[IC] = CR + (+dCRy);
     qRT_X[ID] = fmax(smallR, qRT_X[ID]);
-    qRT_X[IP] = fmax(smallp /** qRT_X[ID]*/, qRT_X[IP]);
+    qRT_X[IP] = fmax(smallp * qRT_X[ID], qRT_X[IP]);
 
     // X-edge averaged right-bottom corner state (RB->LR)
     qRB_X[ID] = r + (+dry - drz);
@@ -1001,7 +1001,7 @@ public:
     qRB_X[IB] = BR + (-dBRz);
     qRB_X[IC] = CL + (+dCLy);
     qRB_X[ID] = fmax(smallR, qRB_X[ID]);
-    qRB_X[IP] = fmax(smallp /** qRB_X[ID]*/, qRB_X[IP]);
+    qRB_X[IP] = fmax(smallp * qRB_X[ID], qRB_X[IP]);
 
     // X-edge averaged left-top corner state (LT->RL)
     qLT_X[ID] = r + (-dry + drz);
@@ -1013,7 +1013,7 @@ public:
     qLT_X[IB] = BL + (+dBLz);
     qLT_X[IC] = CR + (-dCRy);
     qLT_X[ID] = fmax(smallR, qLT_X[ID]);
-    qLT_X[IP] = fmax(smallp /** qLT_X[ID]*/, qLT_X[IP]);
+    qLT_X[IP] = fmax(smallp * qLT_X[ID], qLT_X[IP]);
 
     // X-edge averaged left-bottom corner state (LB->RR)
     qLB_X[ID] = r + (-dry - drz);
@@ -1025,7 +1025,7 @@ public:
     qLB_X[IB] = BL + (-dBLz);
     qLB_X[IC] = CL + (-dCLy);
     qLB_X[ID] = fmax(smallR, qLB_X[ID]);
-    qLB_X[IP] = fmax(smallp /** qLB_X[ID]*/, qLB_X[IP]);
+    qLB_X[IP] = fmax(smallp * qLB_X[ID], qLB_X[IP]);
 
     // Y-edge averaged right-top corner state (RT->LL)
     qRT_Y[ID] = r + (+drx + drz);
@@ -1037,7 +1037,7 @@ public:
     qRT_Y[IB] = B + (+dBx + dBz);
     qRT_Y[IC] = CR + (+dCRx);
     qRT_Y[ID] = fmax(smallR, qRT_Y[ID]);
-    qRT_Y[IP] = fmax(smallp /** qRT_Y[ID]*/, qRT_Y[IP]);
+    qRT_Y[IP] = fmax(smallp * qRT_Y[ID], qRT_Y[IP]);
 
     // Y-edge averaged right-bottom corner state (RB->LR)
     qRB_Y[ID] = r + (+drx - drz);
@@ -1049,7 +1049,7 @@ public:
     qRB_Y[IB] = B + (+dBx - dBz);
     qRB_Y[IC] = CL + (+dCLx);
     qRB_Y[ID] = fmax(smallR, qRB_Y[ID]);
-    qRB_Y[IP] = fmax(smallp /** qRB_Y[ID]*/, qRB_Y[IP]);
+    qRB_Y[IP] = fmax(smallp * qRB_Y[ID], qRB_Y[IP]);
 
     // Y-edge averaged left-top corner state (LT->RL)
     qLT_Y[ID] = r + (-drx + drz);
@@ -1061,7 +1061,7 @@ public:
     qLT_Y[IB] = B + (-dBx + dBz);
     qLT_Y[IC] = CR + (-dCRx);
     qLT_Y[ID] = fmax(smallR, qLT_Y[ID]);
-    qLT_Y[IP] = fmax(smallp /** qLT_Y[ID]*/, qLT_Y[IP]);
+    qLT_Y[IP] = fmax(smallp * qLT_Y[ID], qLT_Y[IP]);
 
     // Y-edge averaged left-bottom corner state (LB->RR)
     qLB_Y[ID] = r + (-drx - drz);
@@ -1073,7 +1073,7 @@ public:
     qLB_Y[IB] = B + (-dBx - dBz);
     qLB_Y[IC] = CL + (-dCLx);
     qLB_Y[ID] = fmax(smallR, qLB_Y[ID]);
-    qLB_Y[IP] = fmax(smallp /** qLB_Y[ID]*/, qLB_Y[IP]);
+    qLB_Y[IP] = fmax(smallp * qLB_Y[ID], qLB_Y[IP]);
 
     // Z-edge averaged right-top corner state (RT->LL)
     qRT_Z[ID] = r + (+drx + dry);
@@ -1085,7 +1085,7 @@ public:
     qRT_Z[IB] = BR + (+dBRx);
     qRT_Z[IC] = C + (+dCx + dCy);
     qRT_Z[ID] = fmax(smallR, qRT_Z[ID]);
-    qRT_Z[IP] = fmax(smallp /** qRT_Z[ID]*/, qRT_Z[IP]);
+    qRT_Z[IP] = fmax(smallp * qRT_Z[ID], qRT_Z[IP]);
 
     // Z-edge averaged right-bottom corner state (RB->LR)
     qRB_Z[ID] = r + (+drx - dry);
@@ -1097,7 +1097,7 @@ public:
     qRB_Z[IB] = BL + (+dBLx);
     qRB_Z[IC] = C + (+dCx - dCy);
     qRB_Z[ID] = fmax(smallR, qRB_Z[ID]);
-    qRB_Z[IP] = fmax(smallp /** qRB_Z[ID]*/, qRB_Z[IP]);
+    qRB_Z[IP] = fmax(smallp * qRB_Z[ID], qRB_Z[IP]);
 
     // Z-edge averaged left-top corner state (LT->RL)
     qLT_Z[ID] = r + (-drx + dry);
@@ -1109,7 +1109,7 @@ public:
     qLT_Z[IB] = BR + (-dBRx);
     qLT_Z[IC] = C + (-dCx + dCy);
     qLT_Z[ID] = fmax(smallR, qLT_Z[ID]);
-    qLT_Z[IP] = fmax(smallp /** qLT_Z[ID]*/, qLT_Z[IP]);
+    qLT_Z[IP] = fmax(smallp * qLT_Z[ID], qLT_Z[IP]);
 
     // Z-edge averaged left-bottom corner state (LB->RR)
     qLB_Z[ID] = r + (-drx - dry);
@@ -1121,7 +1121,7 @@ public:
     qLB_Z[IB] = BL + (-dBLx);
     qLB_Z[IC] = C + (-dCx - dCy);
     qLB_Z[ID] = fmax(smallR, qLB_Z[ID]);
-    qLB_Z[IP] = fmax(smallp /** qLB_Z[ID]*/, qLB_Z[IP]);
+    qLB_Z[IP] = fmax(smallp * qLB_Z[ID], qLB_Z[IP]);
 
   } // trace_unsplit_mhd_3d_simpler
 
-- 
2.43.0


From 19c403f21d47e733819b323291c9b22b7d852dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:31 +0000
Subject: [PATCH 47/48] fix: 3D gravity source ignored the density cut-off the
 2D one applies

---
 src/muscl/HydroRunFunctors3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index c28c195..b512e0c 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1484,7 +1484,7 @@ public:
     {
 
       real_t rhoOld = Udata_in(i, j, k, ID);
-      real_t rhoNew = Udata_out(i, j, k, ID);
+      real_t rhoNew = fmax(params.settings.smallr, Udata_out(i, j, k, ID));
 
       real_t rhou = Udata_out(i, j, k, IU);
       real_t rhov = Udata_out(i, j, k, IV);
-- 
2.43.0


From 7feb6629a66caafddbb0469806527abf991d5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:51 +0000
Subject: [PATCH 48/48] fix: hydro MUSCL half-step predictor mixed the
 gradients of all directions with one dt/dx (wrong for non-cubic cells)

---
 src/muscl/HydroBaseFunctor2D.h | 40 +++++++++----------
 src/muscl/HydroBaseFunctor3D.h | 72 +++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/muscl/HydroBaseFunctor2D.h b/src/muscl/HydroBaseFunctor2D.h
index 37f44fe..968bd9c 100644
--- a/src/muscl/HydroBaseFunctor2D.h
+++ b/src/muscl/HydroBaseFunctor2D.h
@@ -245,48 +245,48 @@ public:
     real_t dvy = dqY[IV];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - (dux + dvy) * r;
-    real_t sp0 = -u * dpx - v * dpy - (dux + dvy) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - (dpy) / r;
+    real_t sr0 = (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
diff --git a/src/muscl/HydroBaseFunctor3D.h b/src/muscl/HydroBaseFunctor3D.h
index a8f6622..fb1aa29 100644
--- a/src/muscl/HydroBaseFunctor3D.h
+++ b/src/muscl/HydroBaseFunctor3D.h
@@ -314,75 +314,77 @@ public:
     real_t dwz = dqZ[IW];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - w * drz - (dux + dvy + dwz) * r;
-    real_t sp0 = -u * dpx - v * dpy - w * dpz - (dux + dvy + dwz) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - w * duz - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - w * dvz - (dpy) / r;
-    real_t sw0 = -u * dwx - v * dwy - w * dwz - (dpz) / r;
+    real_t sr0 =
+      (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy + (-w * drz - dwz * r) * dtdz;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy +
+                 (-w * dpz - dwz * gamma0 * p) * dtdz;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy + (-w * duz) * dtdz;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy + (-w * dvz) * dtdz;
+    real_t sw0 = (-u * dwx) * dtdx + (-v * dwy) * dtdy + (-w * dwz - dpz / r) * dtdz;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w - HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w + HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w - HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w + HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p - HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u - HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v - HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w - HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r - HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMAX)
     {
       // Top state at bottom interface
-      qface[ID] = r + HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p + HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u + HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v + HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w + HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r + HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
-- 
2.43.0

