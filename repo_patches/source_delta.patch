From 4f2618322bcc0dba441ff12939f1042ec78d4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:55 +0000
Subject: [PATCH 01/15] fix: time-step evaluation read cell temperatures past
 the end of the arrays

The thermal loop of EvaluateCourantCriterion used Vz-node bounds (Nx+1 by Nz) on
cell-centred arrays of size (Nx-1)*(Nz-1).
---
 MDLIB/AdvectionRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..b0c2ee3 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,8 +588,8 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<Ncx; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
                 dT = mesh->T[c] - mesh->T0_n[c];
                 if (fabs(dT) > dTmax) dTmax = dT;
-- 
2.43.0


From 2f7a43689085f607799f59e05d47138bb8378681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:37 +0000
Subject: [PATCH 02/15] fix: density and phase-diagram tables were read one
 entry before their start on their lower bound

---
 MDLIB/RheologyDensity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..b72e2d6 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1603,6 +1603,7 @@ double ItpRho1D( double Pgrid, params* model, int k ) {
   // Find index of minimum/west pressure node
   double dstP = Pgrid - model->PD1Dmin[k];
   int    iP   = ceil( dstP/dP ) - 1;
+  if (iP<0) iP = 0; // pressure exactly on the lower bound of the table
   // Calculate weighting coefficients for linear interpolant
   double PW   = model->PD1Dmin[k] + iP*dP;
   double wW   = 1.0 - (Pgrid - PW)/dP;
@@ -1631,9 +1632,11 @@ double Interpolate2Ddata( double Tgrid, double Pgrid, double Tmin, double Tmax,
   // Find index of minimum/west temperature node
   dstT  = Tgrid - Tmin ;
   iT    = ceil( dstT/dT ) - 1;
+  if (iT<0) iT = 0; // temperature exactly on the lower bound of the table
   // Find index of minimum/west pressure node
   dstP  = Pgrid - Pmin;
   iP    = ceil( dstP/dP ) - 1;
+  if (iP<0) iP = 0; // pressure exactly on the lower bound of the table
   // Calculate weights for bilinear interpolant
   TW    = Tmin + iT*dT;
   PW    = Pmin + iP*dP;
-- 
2.43.0


From 185a0d7a7aaa1d6b4ba5f23cc8d7d9c74eccfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 03/15] fix: rotated ellipses and rectangles were not centred
 on their own centre

---
 MDLIB/Setup.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..bfcf166 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1014,8 +1014,8 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
   const double theta   = ellipse.angle * M_PI / 180.0;
   const double radiusX = (ellipse.radiusX / 2) / scalingL;
   const double radiusZ = (ellipse.radiusZ / 2) / scalingL;
-  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z + ellipse.centreZ / scalingL) * sin(theta);
-  const double Zn      = (coordinates.x + ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
+  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z - ellipse.centreZ / scalingL) * sin(theta);
+  const double Zn      = (coordinates.x - ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
   if (pow(Xn / radiusX, 2) + pow(Zn / radiusZ, 2) - 1 < 0) {
     return true;
   } else {
@@ -1028,8 +1028,11 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 bool IsRectangleCoordinates(Coordinates coordinates, Rectangle rectangle, double scalingL) {
-  const double wX = coordinates.x * cos(rectangle.angle) - coordinates.z * sin(rectangle.angle);
-  const double wZ = coordinates.x * sin(rectangle.angle) + coordinates.z * cos(rectangle.angle);
+  // Rotate around the centre of the rectangle
+  const double dX = coordinates.x - rectangle.centreX / scalingL;
+  const double dZ = coordinates.z - rectangle.centreZ / scalingL;
+  const double wX = rectangle.centreX / scalingL + dX * cos(rectangle.angle) - dZ * sin(rectangle.angle);
+  const double wZ = rectangle.centreZ / scalingL + dX * sin(rectangle.angle) + dZ * cos(rectangle.angle);
   if (wX >= (rectangle.centreX / scalingL - (rectangle.sizeX / 2) / scalingL) && wX <= (rectangle.centreX / scalingL + (rectangle.sizeX / 2) / scalingL) && wZ >= (rectangle.centreZ / scalingL - (rectangle.sizeZ / 2) / scalingL) && wZ <= (rectangle.centreZ / scalingL + (rectangle.sizeZ / 2) / scalingL)) {
     return true;
   } else {
-- 
2.43.0


From 18fc8d2f3c13abb08890e6d76d0ef4c5951fba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 04/15] fix: a marker phase equal to the number of phases
 passed validation

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index bfcf166..31ba8b0 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -32,7 +32,7 @@ void BuildInitialTopography(BuildInitialTopography_ff buildInitialTopography, Md
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void ValidatePhase(int phaseId, int phasesCount) {
-  if (phaseId > phasesCount) {
+  if (phaseId >= phasesCount) {
     printf("Lazy bastard! Fix your particle phase ID! \n");
     exit(144);
   }
-- 
2.43.0


From e226016f4caf9c2fabe2c503dcae7d664d089117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 05/15] fix: default input file name was appended past the end
 of its buffer

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 31ba8b0..3ccfe7a 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1063,7 +1063,7 @@ char* DefaultTextFilename( char filename[] ) {
   
   int len_basename = n_basename;
   // char basename[len_basename];
-  char *basename = calloc(len_basename, sizeof(char));
+  char *basename = calloc(len_basename + strlen(".txt") + 1, sizeof(char));
   start=false, end=false;
   n_basename = 0;
 
-- 
2.43.0


From 76167ce06b9c9c82bf53288019e298437a817f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:35 +0000
Subject: [PATCH 06/15] fix: surface marker on the western side of the box must
 not write before the column arrays

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..9ce80d4 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -328,6 +328,8 @@ void InterpTopoPart2Grid( surface *topo, markers *topo_chain, params model, grid
         if ( topo_chain->phase[k] != -1 ) {
             distance  = ( topo_chain->x[k] - mesh.xc_coord[0] );
             in        = ceil( (distance/dx) + 0.5) - 1;
+            if (in<0   ) in = 0;    // marker on the western side of the box
+            if (in>Nx-2) in = Nx-2;
             dxm       = 2.0*fabs( mesh.xc_coord[in] - topo_chain->x[k]);
             if (model.topo_update==0) mark_val  = topo_chain->z[k];
             if (model.topo_update==1) mark_val  = topo_chain->z[k] - topo_chain->z0[k];
-- 
2.43.0


From 0ee243fa48633d873b336a6c228a8e8a9957380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:35 +0000
Subject: [PATCH 07/15] fix: SurfaceDensityCorrection must not read tags above
 the top row

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 9ce80d4..eda1205 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -856,7 +856,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(ncx);
             mesh->FreeSurfW_n[c1] = 1.0;
             
-            if (mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
+            if (j<ncz-1 && mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
                 h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 h0               = fabs(h - mesh->zc_coord[j]);
                 // double rho_ini = mesh->rho_n[c1];
@@ -879,7 +879,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(nx);
             mesh->FreeSurfW_s[c1] = 1.0;
 
-            if (mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
+            if (j<nz-1 && mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
                 if (i==0)    h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 if (i==nx-1) h  = topo.b[nx-2] + topo.a[nx-2]*mesh->xc_coord[nx-2];
                 if (i>0 && i<nx-1) {
-- 
2.43.0


From 740889f62b6787632259f3df93c5ed6ec8c250b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:35 +0000
Subject: [PATCH 08/15] fix: zero-mean topography averages the markers in use,
 not the unused tail of the arrays

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index eda1205..c5af534 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -1080,14 +1080,14 @@ void KeepZeroMeanTopo(params *model, surface *topo, markers *topo_chain ) {
     }
     mean_z = 0.0;
     int nmark = 0;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         if (topo_chain->phase[i] > -1) {
         mean_z += topo_chain->z[i];
         nmark  ++;
         }
     }
     mean_z /= nmark;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         topo_chain->z[i] -= mean_z;
     }
 }
\ No newline at end of file
-- 
2.43.0


From c33aaa4b5dc290eda0042f0865753ef051215693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 09/15] fix: deposited sediment markers start with the identity
 as deformation gradient

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index c5af534..8860234 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -160,8 +160,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From acbea14107d880b01ca444aa2a4ef8ebb57987f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 10/15] fix: second sweep of the topography diffusion never
 ran, halving the diffusivity

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 8860234..5a3854f 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -954,7 +954,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From e52f657a47343b162411258361982251464ea162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:14 +0000
Subject: [PATCH 11/15] fix: density gradient of the stabilisation at periodic
 nodes

The western cell of a periodic node is the last cell of its row, not the cell
stored before the first one.
---
 MDLIB/StokesAssemblyDecoupled.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 71913e2..39746f8 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -137,7 +137,7 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodx  = (mesh->rho_n[c2+1] - mesh->rho_n[c2])*one_dx;
+        double drhodx  = (mesh->rho_n[iPrE] - mesh->rho_n[iPrW])*one_dx;
         uC_corr = 1.00 * om * model.dt * mesh->gx[c1] * drhodx;
         // Importante trique, voire meme gigantesque!
         if (uC+uC_corr<0.0) uC_corr = 0.0;
@@ -408,7 +408,7 @@ void Xjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
 
     // Stabilisation with density gradients
     if (stab==1) {
-        double drhodx  = (mesh->rho_n[c2+1] - mesh->rho_n[c2])*one_dx;
+        double drhodx  = (mesh->rho_n[iPrE] - mesh->rho_n[iPrW])*one_dx;
         uC_corr = 1.00 * om * model.dt * mesh->gx[c1] * drhodx;
         // Importante trique, voire meme gigantesque!
         if (uC+uC_corr>0.0) uC += uC_corr;
-- 
2.43.0


From d0aa737b5d0640041cb4b5d6423210fe09cf8b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 12/15] fix: out-of-range reads in the momentum equations at
 stress boundaries

The stencil of a boundary node with a prescribed stress looked up the cell and
the velocity node beyond the boundary (index -1 or past the end of the arrays).
---
 MDLIB/StokesAssemblyDecoupled.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 39746f8..ab79137 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -96,6 +96,10 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
         iVzNW = c3+nxvz-2;
     }
 
+    // Stress BC: there is no cell beyond the boundary
+    if (ix==0    && BCu_t[iVxC]!=-2) iPrW = iPrE;
+    if (ix==nx-1 && BCu_t[iVxC]!=-2) iPrE = iPrW;
+
     // Variable PDE coefficient
     const double D11E = mesh->D11_n[iPrE];
     const double D11W = mesh->D11_n[iPrW];
@@ -590,6 +594,10 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     if ( BCv_t[iVzW] == -12 && ix==1      ) iVzW = c3+nxvz-3;
     if ( BCv_t[iVzE] == -12 && ix==nxvz-2 ) iVzE = c3-nxvz+3;
 
+    // Stress BC: there is no cell and no velocity node beyond the boundary
+    if (iz==0   ) { iPrS = iPrN; iVzS = iVzC; }
+    if (iz==nz-1) { iPrN = iPrS; iVzN = iVzC; }
+
     // Linear equation coefficient
     double vS=0.0, vN=0.0, vW=0.0, vE=0.0, vC=0.0, uSW=0.0, uSE=0.0, uNW=0.0, uNE=0.0, pN=0.0, pS=0.0;
 
@@ -642,7 +650,7 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodz  = (mesh->rho_n[c2+ncx] - mesh->rho_n[c2])*one_dz;
+        double drhodz  = (mesh->rho_n[iPrN] - mesh->rho_n[iPrS])*one_dz;
         vC_corr = 1.00 * om * model.dt * mesh->gz[c3] * drhodz;
         // Importante trique, voire meme gigantesque!
         if ((vC+vC_corr)<0.0 || (vC+vC_corr)<vW || (vC+vC_corr)<vE) vC_corr = 0.0;
-- 
2.43.0


From 2741472708e12d04f04a4d38369d711c06e730a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:09 +0000
Subject: [PATCH 13/15] fix: viscoplastic return mapping accumulated its yield
 stress over iterations and ignored the corrected pressure

---
 MDLIB/RheologyDensity.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index b72e2d6..b8d93f6 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -506,8 +506,10 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (materials->Slim[phase] < Tyield) {
       C          = materials->Slim[phase];
       Tyield     = materials->Slim[phase];
+      sin_fric   = 0.0;                      // no pressure dependence beyond the cut-off
     }
   }
+  const double Tyield0 = Tyield;             // Yield stress at the trial pressure
 
   //------------------------------------------------------------------------//
   // Reaction stuff: 1. Update reaction progress
@@ -646,7 +648,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         divp    = -gdot*dQdP;
         Pc      = P + K*dt*divp; // P0 - k*dt*(div-divp) = P + k*dt*divp
         eta_vp  = eta_vp0 * pow(fabs(gdot), 1.0/n_vp - 1.0);
-        Tyield  = Tyield + gdot*eta_vp;
+        Tyield  = Tyield0 + (Pc - P)*sin_fric + gdot*eta_vp;
         Tiic    = Tii - eta_ve*gdot;
         F_trial = Tiic - Tyield;
 
-- 
2.43.0


From e70c0addd8a6d8308b55d0ae76b3f95b91bbdf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:15 +0000
Subject: [PATCH 14/15] fix: grain-boundary sliding never contributed to the
 strain rate (its flow-law constant was not passed on)

---
 MDLIB/RheologyDensity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index b8d93f6..5e5ba7a 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -111,6 +111,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
     if (params.elastic)     dfdeta += -params.Eii / params.eta_el;
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     // Update viscosity
@@ -284,6 +285,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
     // only activate Newton after a couple of steps
     if (it>1) dfdeta += params.m_lin*Eii_lin*dddeta/d_ve;
@@ -384,7 +386,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   double Ea_pwl = materials->Qpwl[phase], Va_pwl = materials->Vpwl[phase], n_pwl = materials->npwl[phase], m_pwl = materials->mpwl[phase], r_pwl = materials->rpwl[phase], A_pwl = materials->Apwl[phase], f_pwl = materials->fpwl[phase], a_pwl = materials->apwl[phase], F_pwl = materials->Fpwl[phase], pre_factor = materials->pref_pwl[phase], t_pwl = materials->tpwl[phase];
   double Ea_lin = materials->Qlin[phase], Va_lin = materials->Vlin[phase], n_lin = materials->nlin[phase], m_lin = materials->mlin[phase], r_lin = materials->rlin[phase], A_lin = materials->Alin[phase], f_lin = materials->flin[phase], a_lin = materials->alin[phase], F_lin = materials->Flin[phase];
   double Ea_gbs = materials->Qgbs[phase], Va_gbs = materials->Vgbs[phase], n_gbs = materials->ngbs[phase], m_gbs = materials->mgbs[phase], r_gbs = materials->rgbs[phase], A_gbs = materials->Agbs[phase], f_gbs = materials->fgbs[phase], a_gbs = materials->agbs[phase], F_gbs = materials->Fgbs[phase];
-  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0;
+  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0, C_gbs = 0.0;
   double Ea_exp = materials->Qexp[phase], S_exp = materials->Sexp[phase], E_exp = materials->Eexp[phase], F_exp = 0.0;
   double gamma = materials->Gexp[phase], ST=0.0, n_exp = materials->nexp[phase];
   double Exx_lin = 0.0, Ezz_lin = 0.0, Exz_lin = 0.0, Exx_exp = 0.0, Ezz_exp = 0.0, Exz_exp = 0.0, Exx_gbs = 0.0, Ezz_gbs = 0.0, Exz_gbs = 0.0, Exx_cst = 0.0, Ezz_cst = 0.0, Exz_cst = 0.0;
@@ -484,6 +486,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   }
   if ( gbs == 1 ) {
     B_gbs = F_gbs * pow(A_gbs,-1.0/n_gbs) * exp( (Ea_gbs + P*Va_gbs)/R/n_gbs/T ) * pow(d, m_gbs/n_gbs) * pow(f_gbs, -r_gbs/n_gbs) * exp(-a_gbs*phi/n_gbs);
+    C_gbs = pow(2.0*B_gbs, -n_gbs);
   }
   if ( peierls   == 1 ) {
     ST                           = Ea_exp/R/T * 2.0*gamma*(1-gamma);
@@ -608,6 +611,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
           .constant    = constant,
           .eta_cst     = eta_cst,
           .gbs         = gbs,
+          .C_gbs       = C_gbs,
           .d           = d,
           .n_gbs       = n_gbs,
           .eta_up      = eta_up,
@@ -756,6 +760,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (peierls    == 1)  inv_eta_diss += (1.0/eta_exp);
     if (dislocation== 1)  inv_eta_diss += (1.0/eta_pwl);
     if (diffusion  == 1)  inv_eta_diss += (1.0/eta_lin);
+    if (gbs        == 1)  inv_eta_diss += (1.0/eta_gbs);
     if (constant   == 1)  inv_eta_diss += (1.0/eta_cst);
     if (is_pl      == 1)  inv_eta_diss += (1.0/eta_pl ); 
     eta  = 1.0/(inv_eta_diss);
-- 
2.43.0


From 9e0dcf4e1810306c5a955c7911748d2858b1b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 15/15] fix: prescribed flux through the base was divided by
 the horizontal instead of the vertical cell size

---
 MDLIB/ChemicalRoutines.c | 2 +-
 MDLIB/ThermalRoutines.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..a56a467 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -268,7 +268,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 if (l==0 && mesh->BCC_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                    bbc[eqn] += -1.0/mesh->dx * mesh->BCC_exp.val[c0-(ncx+2)];
+                    bbc[eqn] += -1.0/mesh->dz * mesh->BCC_exp.val[c0-(ncx+2)];
                 }
                 
                 if (k==0 && mesh->BCC_exp.type[c0-1]==1) {  // WEST
diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 71bf0fd..3f886b7 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -298,7 +298,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Bottom flux
                         if (l==0 && mesh->BCT_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                            bbc[eqn] += -1.0/mesh->dx * mesh->BCT_exp.val[c0-(ncx+2)];
+                            bbc[eqn] += -1.0/mesh->dz * mesh->BCT_exp.val[c0-(ncx+2)];
                         }
 
                         if (k==0 && mesh->BCT_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0

