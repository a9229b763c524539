From 6550efff40a6e7a45d25e9036935e8b9596cf7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 01/26] fix: Batzle-Wang brine density: the temperature term is
 80 + 3 T, not 80*3*T

---
 src/materials/tdyeos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index c6ecbd6..176bde4 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -49,7 +49,7 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
 		  1.3e-5*pow(T,3)*P*Pa_to_MPa - 0.333 * pow(P*Pa_to_MPa,2) - 0.002*T *pow(P*Pa_to_MPa,2));
   pw *= 1000.;
 
-  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.*3.*T-3300.*S -
+  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.+3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 45f658b39b49fdf1665faac556bbece9d80b46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 02/26] fix: Batzle-Wang brine viscosity: the whole bracket of
 the exponent is negated

---
 src/materials/tdyeos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index 176bde4..00814f9 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -105,7 +105,7 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
 
   *vis = 0.1 +
          0.333 * S +
-         (1.65 + 91.9 *pow(S,3))*exp((-0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
+         (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
 
   PetscFunctionReturn(0);
-- 
2.43.0


From b33196e6a59f6b85063940894c6cd1c0954459a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 03/26] fix: Batzle-Wang density and viscosity leave their
 pressure derivatives unset

---
 src/materials/tdyeos.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index 00814f9..655a372 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -38,11 +38,12 @@ static PetscErrorCode ComputeWaterDensity_Exponential(PetscReal p, PetscReal *de
 
 /* ---------------------------------------------------------------- */
 static PetscErrorCode ComputeWaterDensity_BatzleWang(
-  PetscReal P, PetscReal T, PetscReal S, PetscReal *den) {
+  PetscReal P, PetscReal T, PetscReal S, PetscReal *den,
+  PetscReal *dden_dP, PetscReal *d2den_dP2) {
 
   PetscFunctionBegin;
 
-  PetscReal pw;
+  PetscReal pw, dpw_dP;
   PetscReal Pa_to_MPa = 1.e-6;
 
   pw = 1 + 1.e-6*(-80.*T - 3.3 * pow(T,2) +0.00175*pow(T,3)+489. * P*Pa_to_MPa - 2.*T *P*Pa_to_MPa + 0.016 *P*Pa_to_MPa *pow(T,2) -
@@ -52,6 +53,11 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
   *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.+3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
+  dpw_dP = 1.e-6*(489. - 2.*T + 0.016*pow(T,2) - 1.3e-5*pow(T,3) -
+                  2.*(0.333 + 0.002*T)*P*Pa_to_MPa)*Pa_to_MPa;
+  *dden_dP = (dpw_dP + S*1.e-6*(300. - 2400.*S + T*(47.*S - 13.))*Pa_to_MPa)*1000.;
+  *d2den_dP2 = -1.e-6*2.*(0.333 + 0.002*T)*Pa_to_MPa*Pa_to_MPa*1000.;
+
   PetscFunctionReturn(0);
 }
 
@@ -74,7 +80,7 @@ PetscErrorCode EOSComputeWaterDensity(EOS *eos,
       ierr = ComputeWaterDensity_Exponential(p,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     case WATER_DENSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den); CHKERRQ(ierr);
+      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water density function");
@@ -99,7 +105,8 @@ static PetscErrorCode ComputeWaterViscosity_Constant(PetscReal p,
 }
 
 static PetscErrorCode ComputeWaterViscosity_BatzleWang(
-  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis) {
+  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis,
+  PetscReal *dvis_dP, PetscReal *d2vis_dP2) {
 
   PetscFunctionBegin;
 
@@ -107,6 +114,8 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
          0.333 * S +
          (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
+  *dvis_dP = 0.0;
+  *d2vis_dP2 = 0.0;
 
   PetscFunctionReturn(0);
 }
@@ -125,7 +134,7 @@ PetscErrorCode EOSComputeWaterViscosity(EOS *eos,
       ierr = ComputeWaterViscosity_Constant(p,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     case WATER_VISCOSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis); CHKERRQ(ierr);
+      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water viscosity function");
-- 
2.43.0


From 6791441b3973368c5949db50423ed5dcee6ca46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 04/26] fix: resetting a saturation or relative permeability
 model with the same number of points leaks the old arrays

---
 src/materials/tdycharacteristiccurves.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 5427c23..82e5368 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -84,12 +84,10 @@ PetscErrorCode SaturationSetType(Saturation *sat, SaturationType type,
     SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER, "Invalid saturation model type!");
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (sat->num_points[type] != num_points) {
-    if (sat->points[type]) {
-      ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
-    }
+  // Free any storage previously allocated for this type.
+  if (sat->points[type]) {
+    ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
+    ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
   }
 
   // Delete the point maps, which are invalidated by this operation.
@@ -296,12 +294,10 @@ PetscErrorCode RelativePermeabilitySetType(RelativePermeability *rel_perm,
     }
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (rel_perm->num_points[type] != num_points) {
-    if (rel_perm->points[type]) {
-      ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
-    }
+  // Free any storage previously allocated for this type.
+  if (rel_perm->points[type]) {
+    ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
+    ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
   }
 
   rel_perm->num_points[type] = num_points;
-- 
2.43.0


From 2dfc14341fba1966dab3db3a24a6c65f89a4339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 05/26] fix: looking up a point that has no model of a type
 reads past the end of the hash table

---
 src/materials/tdycharacteristiccurves.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 82e5368..edf9c15 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -206,7 +206,7 @@ PetscErrorCode SaturationComputeOnPoints(Saturation *sat,
       khash_t(CharacteristicCurvesPointMap) *point_map = sat->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the saturation and its derivatives on points belonging to
           // this type.
@@ -396,7 +396,7 @@ PetscErrorCode RelativePermeabilityComputeOnPoints(RelativePermeability *rel_per
       khash_t(CharacteristicCurvesPointMap) *point_map = rel_perm->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the relative permeability and its derivative on points
           // belonging to this type.
-- 
2.43.0


From 5f796f2382bb7c16f7397f0cdbc5d745ce276838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 06/26] fix: relative permeability is evaluated at the i-th
 point instead of the i-th point assigned to the model

---
 src/materials/tdycharacteristiccurves.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index edf9c15..3c2cd16 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -327,18 +327,20 @@ PetscErrorCode RelativePermeabilityCompute(RelativePermeability *rel_perm,
     PetscInt num_points = rel_perm->num_points[type];
     if (type == REL_PERM_FUNC_IRMAY) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][i];
-        RelativePermeability_Irmay(m, Se[i], &(Kr[i]), &(dKrdSe[i]));
+        RelativePermeability_Irmay(m, Se[j], &(Kr[j]), &(dKrdSe[j]));
       }
     } else if (type == REL_PERM_FUNC_MUALEM) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][9*i];
         PetscReal poly_x0 = rel_perm->parameters[type][9*i+1]; // cubic interp cutoff
         PetscReal poly_x1 = rel_perm->parameters[type][9*i+2]; // cubic interp cutoff
         PetscReal poly_dx = rel_perm->parameters[type][9*i+4]; // cubic interp cutoff
         PetscReal *poly_coeffs = &(rel_perm->parameters[type][9*i+5]); // interp coeffs
-        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[i], &(Kr[i]),
-                                    &(dKrdSe[i]));
+        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[j], &(Kr[j]),
+                                    &(dKrdSe[j]));
       }
     } else {
       SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER,
-- 
2.43.0


From 259f4aec2148fe7039104d4335a59f7c8d45716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 07/26] fix: destroying conditions leaks the salinity source
 and boundary pressure type contexts

---
 src/tdyconditions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 0f3247c..62ea1a7 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -16,7 +16,9 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
   PetscFunctionBegin;
   ConditionsSetForcing(conditions, NULL, NULL, NULL);
   ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL);
+  ConditionsSetSalinitySource(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL);
+  ConditionsSetBoundaryPressureType(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL);
   ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL);
-- 
2.43.0


From 03049d0ddad3c68a41ee88bac58873b35b82b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 08/26] fix: inverting a 3x3 matrix overwrites small entries of
 the matrix that is inverted

---
 src/tdyutils.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/tdyutils.c b/src/tdyutils.c
index 5cfd2c8..3f704bb 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -710,10 +710,6 @@ PetscErrorCode ComputeInverseOf3by3Matrix(PetscReal a[9], PetscReal inv_a[9]) {
   inv_a[7] = -1.0/det_a*(a[0]*a[7]-a[6]*a[1]);
   inv_a[8] = +1.0/det_a*(a[0]*a[4]-a[3]*a[1]);
 
-  for (PetscInt ii=0; ii<9; ii++) {
-    if (fabs(a[ii]) < PETSC_MACHINE_EPSILON) a[ii] = 0.0;
-  }
-
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 17f73e096f2b351336420451a2d7d408ddc1f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 09/26] fix: the two-point flux of a pressure boundary face
 reads the state of another boundary face

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 6d4f7f9..4c90dc0 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -179,7 +179,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-  PetscInt cell_id_up = -cell_ids[0] + 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
+  PetscInt cell_id_up = -cell_ids[0] - 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-- 
2.43.0


From e80970bafa9574a7d6bfc25e7243e1d19bb67bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 10/26] fix: the two-point flux and its derivatives are left
 unset when neither side of the face is permeable

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 4c90dc0..8cd0d53 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -133,6 +133,9 @@ PetscErrorCode RichardsResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  // no flux if neither side is permeable
+  *Res = 0.0;
+
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -188,6 +191,9 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  // no flux if neither side is permeable
+  *Res = 0.0;
+
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -249,6 +255,9 @@ PetscErrorCode RichardsSeepageBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  // no flux if neither side is permeable
+  *Res = 0.0;
+
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -307,6 +316,10 @@ PetscErrorCode RichardsJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  // no flux if neither side is permeable
+  *Jup = 0.0;
+  *Jdn = 0.0;
+
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -391,6 +404,9 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  // no flux if neither side is permeable
+  *Jdn = 0.0;
+
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -471,6 +487,9 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  // no flux if neither side is permeable
+  *Jdn = 0.0;
+
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
-- 
2.43.0


From 72b42a101ffefc3025966dd924222e9486d6c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 11/26] fix: two-point boundary Jacobians: derivative of the
 gravity term

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 8cd0d53..d2647e9 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -422,10 +422,10 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
+    PetscReal dgravity_dden_dn = (1.0 - upweight) * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * fvtpf->drho_dP[cell_id_dn];
 
     PetscReal ukvr = 0.0;
     PetscReal dukvr_dp_dn = 0.0;
@@ -505,10 +505,10 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
+    PetscReal dgravity_dden_dn = (1.0 - upweight) * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * fvtpf->drho_dP[cell_id_dn];
 
     PetscReal ukvr;
     PetscReal dukvr_dp_dn = 0.0;
-- 
2.43.0


From 0a376ef12b3ae4ccd00ea354105a5aab319fa58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 12/26] fix: two-point boundary Jacobian is zero when water
 flows in from a pressure boundary

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index d2647e9..d35a56a 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -431,6 +431,7 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dukvr_dp_dn = 0.0;
 
     if (dphi >= 0.0) {
+      ukvr = fvtpf->Kr_bnd[cell_id_up]/fvtpf->vis_bnd[cell_id_up];
     } else {
       PetscReal Kr = fvtpf->Kr[cell_id_dn];
       PetscReal vis = fvtpf->vis[cell_id_dn];
-- 
2.43.0


From d18ca968534f5abac9afdb60061ea7015963def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 13/26] fix: the state before a time step is computed from
 memory beyond the solution vector on ghost cells

---
 src/fv/fvtpf/tdyfvtpf_snes.c          | 14 ++++++++------
 src/fv/mpfao/tdympfao_snes.c          |  7 ++++---
 src/fv/mpfao/tdympfao_snes_salinity.c |  5 +++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index d35a56a..ca32888 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -54,9 +54,10 @@ PetscErrorCode TDyFVTPFSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
@@ -94,9 +95,10 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   ierr = VecCopy(tdy->soln_prev, tdy->soln); CHKERRQ(ierr);
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index faaae9e..6661ad0 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -42,9 +42,10 @@ PetscErrorCode TDyMPFAOSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 50b48ce..62755b9 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -60,7 +60,8 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
   TDY_START_FUNCTION_TIMER()
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&U); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy, U, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
@@ -80,7 +81,7 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
     ierr = TDyMPFAOSNESAccumulationTransport(tdy,icell,U[icell*2+1],&accum_prev[icell*2+1]); CHKERRQ(ierr);
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&U); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 02be1e7dc2e9786cc56f30f5237e4f4d75354faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 14/26] fix: the residual from the stored mass multiplies its
 rate by the cell volume twice

---
 src/fv/mpfao/tdympfao_ts_transientvar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index f684623..7521412 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -28,7 +28,7 @@ PetscErrorCode TDyMPFAOTransientVariable(TS ts, Vec U, Vec C, void *ctx) {
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln,&p); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
@@ -87,8 +87,8 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
     if (!cells->is_local[icell]) continue;
 
-    // d(m)/dt * Vol
-    r[icell] += dm_dt[icell] * cells->volume[icell];
+    // d(m)/dt, where m is the mass stored in the cell (see TDyMPFAOTransientVariable)
+    r[icell] += dm_dt[icell];
     r[icell] -= mpfao->source_sink[icell] * cells->volume[icell];
   }
 
-- 
2.43.0


From 7133ecc6f744d52abda9c0333eb6b44c82a0aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 15/26] fix: the DAE residual scales the stored mass by the
 cell volume in only one of its two equations

---
 src/fv/mpfao/tdympfao_ts_dae.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao_ts_dae.c b/src/fv/mpfao/tdympfao_ts_dae.c
index b22aaf3..a09ceec 100644
--- a/src/fv/mpfao/tdympfao_ts_dae.c
+++ b/src/fv/mpfao/tdympfao_ts_dae.c
@@ -69,11 +69,12 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
     m_idx = p_idx + 1;
 
     r[p_idx]  = u_t[m_idx] * cells->volume[icell] - mpfao->source_sink[icell] * cells->volume[icell]+ r_p[icell];
-    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   /* Cleanup */
   ierr = VecRestoreArray(M,&m); CHKERRQ(ierr);
+  ierr = VecRestoreArray(U_t,&u_t); CHKERRQ(ierr);
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
   ierr = VecRestoreArray(R_P,&r_p); CHKERRQ(ierr);
 
-- 
2.43.0


From 0a717daaf632611e73d390f18e821f769ac57c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 16/26] fix: drop gravity factors from the TH flux Jacobian;
 the residual has none

---
 src/fv/mpfao/tdympfao_th_ts.c | 42 +++++++++++++----------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 94b19ee..586a236 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -309,8 +309,6 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
   PetscInt npitf_bc, nflux_in;
   PetscInt cell_id, cell_id_up, cell_id_dn;
   PetscInt irow, icol;
-  PetscInt dim;
-  PetscReal gz;
   PetscReal ukvr, den, uh;
   PetscReal dukvr_dPup, dukvr_dPdn;
   PetscReal duh_dPup, duh_dPdn;
@@ -329,10 +327,6 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
 
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
-
   ierr = VecGetArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->Temp_TtimesP_vec,&Temp_TtimesP_vec_ptr); CHKERRQ(ierr);
 
@@ -371,7 +365,7 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
     }
 
     //
-    // fluxm_ij = rho_ij * (kr/mu)_{ij,upwind} * [ T ] *  [ P+rho*g*z ]^T
+    // fluxm_ij = rho_ij * (kr/mu)_{ij,upwind} * [ T ] *  P
     // where
     //      rho_ij = 0.5*(rho_i + rho_j)
     //      (kr/mu)_{ij,upwind} = (kr/mu)_{i} if velocity is from i to j
@@ -379,12 +373,12 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
     //      T includes product of K and A_{ij}
     //
     // For i and j, jacobian is given as:
-    // d(fluxm_ij)/dP_i = d(rho_ij)/dP_i + (kr/mu)_{ij,upwind}         * [  T  ] *  [    P+rho*g*z   ]^T +
-    //                      rho_ij       + d((kr/mu)_{ij,upwind})/dP_i * [  T  ] *  [    P+rho*g*z   ]^T +
-    //                      rho_ij       + (kr/mu)_{ij,upwind}         *   T_i   *  (1+d(rho_ij)/dP_i*g*z
+    // d(fluxm_ij)/dP_i = d(rho_ij)/dP_i + (kr/mu)_{ij,upwind}         * [  T  ] *  P +
+    //                      rho_ij       + d((kr/mu)_{ij,upwind})/dP_i * [  T  ] *  P +
+    //                      rho_ij       + (kr/mu)_{ij,upwind}         *   T_i
     //
     // For k not equal to i and j, jacobian is given as:
-    // d(fluxm_ij)/dP_k =   rho_ij       + (kr/mu)_{ij,upwind}         *   T_ik  *  (1+d(rho_ij)/dP_k*g*z
+    // d(fluxm_ij)/dP_k =   rho_ij       + (kr/mu)_{ij,upwind}         *   T_ik
     //
     for (irow=0; irow<nflux_in + npitf_bc; irow++) {
 
@@ -476,8 +470,6 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
         T      = mpfao->Trans[vertex_id][irow][icol];
         Temp_T = mpfao->Temp_Trans[vertex_id][irow][icol];
 
-        ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[cell_id].X,dim,&gz); CHKERRQ(ierr);
-
       // Jac[0] is dfluxm/dP
       // Jac[1] is dfluxm/dT
       // Jac[2] is dfluxe/dP
@@ -490,45 +482,41 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
           Jac[0] =
             dden_dPup * ukvr       * TtimesP[irow] +
             den       * dukvr_dPup * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dPup*gz) ;
+            den       * ukvr       * T ;
           Jac[2] =
             dden_dTup * ukvr       * TtimesP[irow] +
-            den       * dukvr_dTup * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dTup*gz) ;
+            den       * dukvr_dTup * TtimesP[irow];
           Jac[1] =
             dden_dPup * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dPup * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dPup*gz) * uh +
+            den       * ukvr       * T * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dPup;
           Jac[3] =
             dden_dTup * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dTup * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dTup*gz) * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dTup;
         } else if (cell_id_dn > -1 && cell_id == cell_id_dn) {
           Jac[0] =
             dden_dPdn * ukvr       * TtimesP[irow] +
             den       * dukvr_dPdn * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dPdn*gz) ;
+            den       * ukvr       * T ;
           Jac[2] =
             dden_dTdn * ukvr       * TtimesP[irow] +
-            den       * dukvr_dTdn * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dTdn*gz) ;
+            den       * dukvr_dTdn * TtimesP[irow];
           Jac[1] =
             dden_dPdn * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dPdn * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dPdn*gz) * uh +
+            den       * ukvr       * T * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dPdn;
           Jac[3] =
             dden_dTdn * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dTdn * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dTdn*gz) * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dTdn;
         } else {
-          Jac[0] = den * ukvr * T * (1.0 + 0.*gz);
-          Jac[2] = den * ukvr * T * (0.0 + 0.*gz); // derivative with temperature is zero
-          Jac[1] = den * ukvr * T * (1.0 + 0.*gz) * uh;
-          Jac[3] = den * ukvr * T * (0.0 + 0.*gz) * uh; // derivative with temperature is zero
+          Jac[0] = den * ukvr * T;
+          Jac[2] = 0.0; // derivative with temperature is zero
+          Jac[1] = den * ukvr * T * uh;
+          Jac[3] = 0.0; // derivative with temperature is zero
         }
 
       // conduction term
-- 
2.43.0


From 4fd651e32feb79483196bb1a2eecc9b52c86dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 17/26] fix: after a failed solve of a time step shortened to
 end at the target time, time jumps to the target

---
 src/tdyti.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index c29f9ea..e3fb410 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -140,6 +140,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           if (reason < 0) {
             icut++;
             ti->dt *= 0.25;
+            // the shortened step no longer ends at the sync time
+            ti->dt_save = 0.;
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From 44df0a0b358b79f50801af24aa00a0a178cba74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:22 +0000
Subject: [PATCH 18/26] fix: a further run of the PETSc time integrator stops
 short of the target time

---
 src/tdyti.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index e3fb410..0d42f79 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -184,9 +184,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       break;
     case TDyTS:
       ti = tdy->ti;
-      PetscReal delta_time = sync_time - ti->time;
       ierr = TSSetTimeStep(ti->ts,ti->dt_init); CHKERRQ(ierr);
-      ierr = TSSetMaxTime(ti->ts,delta_time); CHKERRQ(ierr);
+      ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From f3f7e09a76066cf76b2ee8284782ea67af4b0a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 19/26] fix: compute salt transmissibilities at all vertices

ComputeTransmissibilityMatrix assembled the saline concentration transmissibilities only
for boundary corner vertices, so diffusive salt fluxes were zero everywhere else.
---
 src/fv/mpfao/tdympfao.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fcd24f1..fce2750 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1817,6 +1817,8 @@ static PetscErrorCode ComputeTransmissibilityMatrix(TDyMPFAO *mpfao, DM dm) {
       ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 0); CHKERRQ(ierr);
       if (mpfao->Temp_subc_Gmatrix) { // TH
         ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 1); CHKERRQ(ierr);
+      } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+        ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 2); CHKERRQ(ierr);
       }
     } else {
       // It is assumed that neumann boundary condition is a zero-flux boundary condition.
-- 
2.43.0


From a0e392df2bddea0113bc67d90d57d09e8b7f9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 20/26] fix: compute two-point salt coefficients

ComputeGMatrix_TPF left the coefficients for saline diffusion uninitialised.
---
 src/fv/mpfao/tdympfao.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fce2750..4d85d1a 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -262,7 +262,16 @@ static PetscErrorCode ComputeGMatrix_TPF(TDyMPFAO *mpfao, DM dm,
             } else {
               mpfao->Temp_subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
             }
-          } // TH
+          } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+            if (ii == jj) {
+              ierr = TDySubCell_GetIthNuStarVector(subcells, subcell_id, jj, dim, &nu[0]); CHKERRQ(ierr);
+
+              ierr = ComputeEntryOfGMatrix(area, normal, Kappa, nu, subcells->T[subcell_id], dim,
+                                           &(mpfao->Psi_subc_Gmatrix[icell][isubcell][ii][jj])); CHKERRQ(ierr);
+            } else {
+              mpfao->Psi_subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
+            }
+          }
 
         } // jj-subcell-faces
       } // ii-isubcell faces
-- 
2.43.0


From e6e128c0b33db53599121d7244c2602cc2b6751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:59 +0000
Subject: [PATCH 21/26] fix: return the centroids of a subcell's faces from
 their accessor

---
 src/fv/share/tdymesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 1306f79..66da44b 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -1533,7 +1533,7 @@ PetscErrorCode TDyMeshGetSubcellFaceCentroids(TDyMesh *mesh,
                                       TDyCoordinate **face_centroids,
                                       PetscInt *num_face_centroids) {
   PetscInt offset = mesh->subcells.face_offset[subcell];
-  *face_centroids = &mesh->subcells.variable_continuity_coordinates[offset];
+  *face_centroids = &mesh->subcells.face_centroid[offset];
   *num_face_centroids = mesh->subcells.nu_vector_offset[subcell+1] - offset;
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From d435c30947f0638485e9a957d37a7e4a74312886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 22/26] fix: allocate all three components of the direction of
 a face

---
 src/fv/share/tdymesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 66da44b..e6429a9 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -292,7 +292,7 @@ PetscErrorCode AllocateFaces(
   ierr = TDyAllocate_RealArray_1D(&faces->dist,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_1D(&faces->dist_wt_up,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_2D(&faces->dist_up_dn,num_faces,2); CHKERRQ(ierr);
-  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,2); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,3); CHKERRQ(ierr);
 
   ierr = TDyAllocate_TDyCoordinate_1D(num_faces, &faces->centroid); CHKERRQ(ierr);
   ierr = TDyAllocate_TDyVector_1D(num_faces, &faces->normal); CHKERRQ(ierr);
-- 
2.43.0


From 17c7c9c04c880bc0c2d973577638740f5f6d8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 23/26] fix: set the end of the lists of the last face

---
 src/fv/share/tdymesh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index e6429a9..e1ebd48 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -308,7 +308,9 @@ PetscErrorCode AllocateFaces(
     faces->num_vertices[iface] = 0;
 
     faces->bc_type[iface] = NEUMANN_BC;
+  }
 
+  for (PetscInt iface=0; iface<=num_faces; iface++) {
     faces->cell_offset[iface] = iface*num_cells;
     faces->edge_offset[iface] = iface*num_edges;
     faces->vertex_offset[iface] = iface*num_vertices;
-- 
2.43.0


From 532a315a96564aa689ade1e52f444a796ad8d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 24/26] fix: leave the permeability alone when assembling the
 BDM system

It was inverted in place, so that a second assembly used its inverse.
---
 src/fe/tdybdm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 90e174e..cbe7363 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -426,7 +426,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
   PetscInt dim,dim2,nlocal,pStart,pEnd,c,cStart,cEnd,q,nq,nfq,nv,vi,vj,di,dj,
     local_row,local_col,isbc,f,nq1d=3;
   PetscScalar x[81],DF[243],DFinv[243],J[27],Klocal[MAX_LOCAL_SIZE],
-              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72];
+              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72],Kinv[9];
   const PetscScalar *quad_x,*fquad_x;
   const PetscScalar *quad_w,*fquad_w;
   PetscQuadrature quadrature;
@@ -469,8 +469,10 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = PetscMemzero(Klocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
     ierr = PetscMemzero(Flocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
 
-    /* Invert permeability, in place */
-    Inverse(&(bdm->K[dim2*(c-cStart)]),dim);
+    /* Invert a copy of the permeability, which is needed again by the next
+       assembly */
+    ierr = PetscMemcpy(Kinv,&(bdm->K[dim2*(c-cStart)]),sizeof(PetscReal)*dim2); CHKERRQ(ierr);
+    ierr = Inverse(Kinv,dim); CHKERRQ(ierr);
 
     /* Integrate (Kappa^-1 u_i, v_j) */
     for(q=0; q<nq; q++) {
@@ -492,7 +494,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
             for(dj=0; dj<dim; dj++) {
               local_col = vj*dim+dj;
               /* (K^-1 u, v) */
-              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(&(bdm->K[dim2*(c-cStart)]),
+              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(Kinv,
                   &(basis_hdiv[dim*local_row]),
                   &(basis_hdiv[dim*local_col]),dim)*quad_w[q]*J[q];
             }
-- 
2.43.0


From 2be67cc8086b19df3dbf442a8e6c21fe9b3a99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 25/26] fix: apply pressure boundary conditions on all boundary
 faces with BDM

The label marker exists only on meshes created by PETSc; boundary marks the
faces of every mesh and is the one used with WY.
---
 src/fe/tdybdm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index cbe7363..01f172b 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -518,7 +518,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = DMPlexGetConeSize(dm,c,&coneSize); CHKERRQ(ierr);
     ierr = DMPlexGetCone    (dm,c,&cone); CHKERRQ(ierr);
     for(f=0;f<coneSize;f++){
-      ierr = DMGetLabelValue(dm,"marker",cone[f],&isbc); CHKERRQ(ierr);
+      ierr = DMGetLabelValue(dm,"boundary",cone[f],&isbc); CHKERRQ(ierr);
       if(isbc == 1 && ConditionsHasBoundaryPressure(conditions)) {
         ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal);
       }
-- 
2.43.0


From ef75cd1a83e84013c1e543041e417cd6be932362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:34 +0000
Subject: [PATCH 26/26] fix: use the dimension of the mesh for material
 properties

Permeability given by its diagonal or as a constant was laid out for three
dimensions on meshes of two.
---
 src/tdycore.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index be5714e..d15a0c9 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -705,6 +705,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   }
 
   PetscInt dim = 3;
+  if (((tdy->discretization)->tdydm)->dmtype == PLEX_TYPE) {
+    ierr = DMGetDimension(((tdy->discretization)->tdydm)->dm, &dim); CHKERRQ(ierr);
+  }
 
   // Create an empty material properties object. Each function must be set
   // explicitly by the driver program.
-- 
2.43.0

