From eeb652c000644303ef010b3db73fdda06e66fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 1/9] fix: exact area of the phi faces in 3D spherical geometry

The face at constant phi spans r dr dtheta, whose integral over the cell is
(r_{i+1}^2 - r_i^2) / 2 * dtheta. The previous expression r_i * dr * dtheta
used the inner radius and was inconsistent with the cell volume.
---
 src/mesh/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..59e2bd0 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -62,7 +62,7 @@ void Spherical::execute(
         KV_cdouble_1d const& x0,
         KV_cdouble_1d const& x1,
         KV_cdouble_1d const& /*x2*/,
-        KV_cdouble_1d const& dx0,
+        KV_cdouble_1d const& /*dx0*/,
         KV_cdouble_1d const& dx1,
         KV_cdouble_1d const& dx2,
         KV_double_4d const& ds,
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * dx1(j); //phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From 31aadf2dca5fde024bd4c2b80b2015c743aeedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 2/9] fix: use the divergence of the interface velocities in
 the pressure fix

Every direction also added the transverse components of the velocity at its
faces (weighted with the areas of another direction), so that a shear flow
heated or cooled the gas.
---
 src/hydro/pressure_fix.hpp | 126 ++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 64 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..3363edf 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -82,90 +82,88 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
-                            EulerCons var_L; // Left, front, down (i,j,k)
-                            EulerCons var_R; // Right, back, top (i,j,k)
+                        EulerCons var_L; // Left, front, down (i,j,k)
+                        EulerCons var_R; // Right, back, top (i,j,k)
 
-                            var_L.rho = rho_rec(i, j, k, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
-                            }
-                            var_L.E = E_rec(i, j, k, 0, idim);
+                        var_L.rho = rho_rec(i, j, k, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
+                        }
+                        var_L.E = E_rec(i, j, k, 0, idim);
 
-                            var_R.rho = rho_rec(i, j, k, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
-                            }
-                            var_R.E = E_rec(i, j, k, 1, idim);
+                        var_R.rho = rho_rec(i, j, k, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
+                        }
+                        var_R.E = E_rec(i, j, k, 1, idim);
 
-                            EulerPrim const primL = to_prim(var_L, eos);
-                            EulerPrim const primR = to_prim(var_R, eos);
+                        EulerPrim const primL = to_prim(var_L, eos);
+                        EulerPrim const primR = to_prim(var_R, eos);
 
-                            EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
-                            EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
+                        EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
+                        EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
 
-                            minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
-                            }
-                            minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
+                        minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
+                        }
+                        minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
 
-                            plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
-                            }
-                            plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
+                        plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
+                        }
+                        plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
 
-                            EulerPrim const prim_mR = to_prim(minus_oneR, eos);
-                            EulerPrim const prim_pL = to_prim(plus_oneL, eos);
+                        EulerPrim const prim_mR = to_prim(minus_oneR, eos);
+                        EulerPrim const prim_pL = to_prim(plus_oneL, eos);
 
-                            EulerCons cons_p; // (i,j,k) + 1
-                            EulerCons cons_m; // (i,j,k) - 1
+                        EulerCons cons_p; // (i,j,k) + 1
+                        EulerCons cons_m; // (i,j,k) - 1
 
-                            cons_p.rho = rho(i_p, j_p, k_p);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
-                            }
-                            cons_p.E = E(i_p, j_p, k_p);
+                        cons_p.rho = rho(i_p, j_p, k_p);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
+                        }
+                        cons_p.E = E(i_p, j_p, k_p);
 
-                            cons_m.rho = rho(i_m, j_m, k_m);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
-                            }
-                            cons_m.E = E(i_m, j_m, k_m);
+                        cons_m.rho = rho(i_m, j_m, k_m);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
+                        }
+                        cons_m.E = E(i_m, j_m, k_m);
 
-                            //--------------------------------------------//
+                        //--------------------------------------------//
 
-                            double const us = (prim_mR.u[ipos] + primL.u[ipos]) / 2; // Not the values from the Riemann solver
-                            double const us_p = (primR.u[ipos] + prim_pL.u[ipos]) / 2;
+                        double const us = (prim_mR.u[idim] + primL.u[idim]) / 2; // Not the values from the Riemann solver
+                        double const us_p = (primR.u[idim] + prim_pL.u[idim]) / 2;
 
-                            divU += ((us_p * ds(i_p, j_p, k_p, ipos)) - (us * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divU += ((us_p * ds(i_p, j_p, k_p, idim)) - (us * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            if (us_p > 0) {
-                                einR = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
-                            }
+                        if (us_p > 0) {
+                            einR = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
+                        }
 
-                            if (us < 0) {
-                                einL = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
-                            }
+                        if (us < 0) {
+                            einL = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
+                        }
 
-                            divUE += ((us_p * einR * ds(i_p, j_p, k_p, ipos)) - (us * einL * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divUE += ((us_p * einR * ds(i_p, j_p, k_p, idim)) - (us * einL * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            double const de_pf = dt * ((-prim.P * divU) - divUE);
+                        double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                            double sum = 0;
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                            }
+                        double sum = 0;
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
+                        }
 
-                            double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
+                        double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
-                        }
+                        E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
                     }
                 }
             });
-- 
2.43.0


From 2a06fffd5b32e6655c4c34393b3353f71badd175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 3/9] fix: complete the corrected energy with the new kinetic
 energy

The pressure fix added the kinetic energy of the old state to the advanced
internal energy although density and momentum are already updated, so the
internal energy of a corrected cell absorbed the change of kinetic energy.
---
 src/hydro/pressure_fix.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index 3363edf..7469e9b 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -156,14 +156,9 @@ void pressure_fix(
 
                         double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                        double sum = 0;
-                        for (int idr = 0; idr < ndim; ++idr) {
-                            sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                        }
-
                         double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                        E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
+                        E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
                     }
                 }
             });
-- 
2.43.0


From d36e5cf19081c23fdf271df86dadc7b564cc0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 4/9] fix: process the boundary conditions in the order of the
 configured priority

---
 src/boundary_distribute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..f418656 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -45,22 +45,22 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
         if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
+            bc_order[i] = 0;
             ++counter;
         } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
+            bc_order[i] = 1;
             ++counter;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
+            bc_order[i] = 2;
             ++counter;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
+            bc_order[i] = 3;
             ++counter;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
+            bc_order[i] = 4;
             ++counter;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
+            bc_order[i] = 5;
             ++counter;
         }
     }
-- 
2.43.0


From 2d4f7c8deec0e99f4b7b9a216e29079de4ac6704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 5/9] fix: refuse a boundary priority that names a face twice

---
 src/boundary_distribute.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index f418656..3b5713e 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -42,31 +42,27 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
         ssin >> tmp_arr[i];
     }
 
-    int counter = 0;
+    bc_order.fill(-1);
     for (int i = 0; i < nfaces; ++i) {
         if (tmp_arr[i] == "X_left") {
             bc_order[i] = 0;
-            ++counter;
         } else if (tmp_arr[i] == "X_right") {
             bc_order[i] = 1;
-            ++counter;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
             bc_order[i] = 2;
-            ++counter;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
             bc_order[i] = 3;
-            ++counter;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
             bc_order[i] = 4;
-            ++counter;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
             bc_order[i] = 5;
-            ++counter;
         }
     }
     std::ranges::reverse(bc_order);
-    if (counter != nfaces) {
-        throw std::runtime_error("boundary priority not fully defined !");
+    for (int i = 0; i < nfaces; ++i) {
+        if (std::ranges::find(bc_order, i) == bc_order.end()) {
+            throw std::runtime_error("boundary priority not fully defined !");
+        }
     }
 }
 
-- 
2.43.0


From 3fc987aa77eeee37289ca64cca081974df350c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:45 +0000
Subject: [PATCH 6/9] fix: do not count an output by time that the final step
 does not reach

When the final step also crosses the next output time and that output
time lies beyond the end of the simulation, the step is shortened to the
final time: the output is not made, yet its counter was incremented. A
run restarted from the final output with a larger t_end then missed it.
---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index b20af58..fc5cb79 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -364,7 +364,7 @@ void main(int argc, char** argv)
         }
         if (param.time_output_frequency > 0) {
             double const next_output = param.time_first_output + ((time_output_id + 1) * param.time_output_frequency);
-            if ((t + dt) >= next_output) {
+            if ((t + dt) >= next_output && next_output <= param.t_end) {
                 dt = next_output - t;
                 if (dt <= 0) {
                     throw std::runtime_error("Error: the time step is negative");
-- 
2.43.0


From 3eeebbc6d0df6d0cf3b4bf79c649ff22c438321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 7/9] fix: Rayleigh-Taylor composition below the interface is
 fx1

---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From e7c14c38096e9923c8f833c79f3859fb4da2351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 8/9] fix: Sedov 3D perturbs the same cell whatever the domain
 decomposition

---
 src/setups/sedov3d/setup.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..71d571c 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // local indices of the perturbed cell
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) - grid.range.Corner_min[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) - grid.range.Corner_min[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
-- 
2.43.0


From 622951f285110986e4433d7bdca4b3420e69d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 9/9] fix: Sedov 1D energy density is the same on every
 process, and its first cell the one of the run

---
 src/setups/sedov1d/setup.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..d4469e1 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <mpi.h>
+
 #include <cassert>
 #include <string>
 
@@ -64,7 +66,8 @@ public:
         assert(u.extent_int(3) == ndim);
         assert(fx.extent_int(3) == 0);
 
-        int const mpi_rank = grid.mpi_rank;
+        // local index of the first cell of the global grid
+        int const i_beg = grid.Nghost[0] - grid.range.Corner_min[0];
 
         double alpha = -1;
 
@@ -78,13 +81,19 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
+
+        // volume of the first cell of the global grid, owned by the first process
+        int const root = 0;
+        double dv_beg = 0;
+        if (grid.mpi_rank == root) {
+            Kokkos::deep_copy(dv_beg, Kokkos::subview(grid.dv, grid.Nghost[0], 0, 0));
+        }
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, root, grid.comm_cart);
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +103,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (i == i_beg) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0

