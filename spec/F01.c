#include "vspec.h"
#include "contracts.h"

/* ---- the chain of surface markers ---- */
void H_chain(void) {
  NEW_SURFACE(topo); NEW_MARKERS(T); NEW_PARAMS(model); NEW_GRID(mesh); NEW_SCALE(sc);
  int Nx = model.Nx = ND_I("Nx", 3, 6); sc.L = ND_DP("L", 0.1, 2);
  double x0 = model.xmin = ND_D("xmin", -1, 0), dx = model.dx = ND_DP("dx", 0.1, 1);
  int n = (Nx-1)*23;
  T.x = ARR_D("x", n); T.z = ARR_D("z", n); T.z0 = ARR_D("zold", n); T.phase = ARR_I("ph", n);
  SetTopoChainHorizontalCoords(&topo, &T, model, mesh, sc);
  CHECK("count", T.Nb_part == n);
  FORALL(k, 0, n) {
    CHECK("regular", EQ(T.x[k], x0 + (k+0.5)*dx/23));
    CHECK("flat", T.z[k] == 0.0 && T.z0[k] == 0.0 && T.phase[k] == 0);
  }
}
void H_advect(void) {
  NEW_MARKERS(T); NEW_PARAMS(model); NEW_SCALE(sc);
  int n = T.Nb_part = ND_I("n", 1, 20); double dt = model.dt = ND_DP("dt", 0, 1);
  double *x = T.x = NDARR("x", n, -1, 1), *z = T.z = NDARR("z", n, -1, 1);
  T.Vx = NDARR("Vx", n, -1, 1); T.Vz = NDARR("Vz", n, -1, 1);
  AdvectFreeSurf(&T, model, sc);
  FORALL(k, 0, n) {
    CHECK("x", EQ(x[k], IN_D("x", k) + dt*IN_D("Vx", k)));
    CHECK("z", EQ(z[k], IN_D("z", k) + dt*IN_D("Vz", k)));
    CHECK("v", T.Vx[k] == IN_D("Vx", k) && T.Vz[k] == IN_D("Vz", k));
  }
}

/* surface markers sit in column mi, at the fraction ms of its width */
#define SURF NEW_GRID(mesh); NEW_SURFACE(topo); NEW_MARKERS(T); NEW_PARAMS(model); NEW_SCALE(sc); sc.L = 1; \
  int Nx = mesh.Nx = model.Nx = ND_I("Nx", 3, 6), C = Nx-1; \
  double dx = mesh.dx = model.dx = ND_DP("dx", 0.1, 1), x0 = model.xmin = ND_D("x0", -1, 1); model.xmax = x0 + C*dx; \
  double *xg = mesh.xg_coord = ARR_D("xg", Nx), *xc = mesh.xc_coord = ARR_D("xc", C), *xvz = mesh.xvz_coord = ARR_D("xvz", Nx+1); \
  for (int k = 0; k < Nx; k++) xg[k] = x0 + k*dx; \
  for (int k = 0; k < C; k++) xc[k] = x0 + (k+0.5)*dx; \
  for (int k = 0; k < Nx+1; k++) xvz[k] = x0 + (k-0.5)*dx
#define CHAIN(LO) int n = T.Nb_part = ND_I("n", 1, 30); \
  int *mi = NDARR_I("mi", n, 0, C-1); double *ms = NDARR_R("ms", n, LO, 0.999); \
  NATIVE(for (int k = 0; k < n; k++) if (ms[k] < 0.001) ms[k] = 0.001;) \
  T.x = ARR_D("x", n); T.phase = NDARR_I("ph", n, -1, 2); \
  for (int k = 0; k < n; k++) T.x[k] = x0 + (mi[k] + ms[k])*dx; \
  double *z = T.z = NDARR("z", n, -1, 1), *zo = T.z0 = NDARR("zold", n, -1, 1)

/* mean height of the chain in a column, weighted by the distance to the column centre */
#define COLMEAN(D, W, i) double W = 0.0, B##W = 0.0; \
  for (int k = 0; k < n; k++) if (T.phase[k] != -1 && mi[k] == (i)) { double w = 1 - 2*fabs(ms[k] - 0.5); W += w; B##W += (upd ? z[k] - zo[k] : z[k])*w; } \
  double D = W < 1e-30 ? 0.0 : B##W/W; \
  NATIVE(if (W < 1e-6) continue;)
#define TOPO2GRID(POL) SURF; CHAIN(0.001); int upd = model.topo_update = ND_IR("upd", 0, 1); model.polar = POL; \
  model.pure_shear_ALE = ND_IR("ale", -1, 2); \
  double *h = topo.height = ARR_D("h", Nx), *ho = topo.height0 = NDARR("ho", Nx, -1, 1), *hf = topo.height_finer_c = ARR_D("hf", 2*C); \
  InterpTopoPart2Grid(&topo, &T, model, mesh, sc, xg, 0)
void H_topo2grid(void) {
  TOPO2GRID(0);
  FORALL(i, 1, Nx-1) {
    COLMEAN(d1, W1, i)
    COLMEAN(d0, W0, i-1)
    CHECK("height", EQS(h[i], (upd ? ho[i] : 0.0) + 0.5*(d0 + d1), 50));
  }
}
void H_topo_sides(void) {
  TOPO2GRID(0);
  CHECK("west", h[0] == h[1]);
  CHECK("east", h[Nx-1] == h[Nx-2]);
  FORALL(i, 0, Nx) CHECK("old", ho[i] == IN_D("ho", i));
}
void H_topo_fine(void) {
  TOPO2GRID(0);
  FORALL(i, 0, C) {
    CHECK("fine-west", EQ(hf[2*i],   0.75*h[i] + 0.25*h[i+1]));
    CHECK("fine-east", EQ(hf[2*i+1], 0.25*h[i] + 0.75*h[i+1]));
  }
}
/* any position inside the box, its borders included: no access outside the arrays */
void H_topo_safe(void) {
  SURF; int n = T.Nb_part = ND_I("n", 1, 30);
  T.x = ARR_D("x", n); T.phase = NDARR_I("ph", n, -1, 2); double *f = NDARR_R("f", n, 0, 1); int *bd = NDARR_I("bd", n, 0, 9);
  for (int k = 0; k < n; k++) T.x[k] = bd[k] == 0 ? x0 : bd[k] == 1 ? x0 + C*dx : x0 + f[k]*C*dx;
  T.z = NDARR("z", n, -1, 1); T.z0 = NDARR("zold", n, -1, 1);
  model.topo_update = ND_IR("upd", 0, 1); model.polar = 0; model.pure_shear_ALE = ND_IR("ale", -1, 2);
  topo.height = ARR_D("h", Nx); topo.height0 = NDARR("ho", Nx, -1, 1); topo.height_finer_c = ARR_D("hf", 2*C);
  InterpTopoPart2Grid(&topo, &T, model, mesh, sc, xg, 0);
  CHECK("west", topo.height[0] == topo.height[1]);
}

/* ---- piecewise-linear surface through the heights of the grid ---- */
void H_polyfit(void) {
  SURF;
  double *h = topo.height = NDARR("h", Nx, -1, 1), *ho = topo.height0 = NDARR("ho", Nx, -1, 1);
  topo.a = ARR_D("a", C); topo.b = ARR_D("b", C); topo.a0 = ARR_D("a0", C); topo.b0 = ARR_D("b0", C);
  MarkerChainPolyFit(&topo, &T, model, mesh);
  FORALL(i, 0, C) {
    CHECK("west",  EQS(topo.b[i] + topo.a[i]*xg[i], h[i], 50));
    CHECK("east",  EQS(topo.b[i] + topo.a[i]*(xg[i]+dx), h[i+1], 50));
    CHECK("west0", EQS(topo.b0[i] + topo.a0[i]*xg[i], ho[i], 50));
    CHECK("east0", EQS(topo.b0[i] + topo.a0[i]*(xg[i]+dx), ho[i+1], 50));
  }
}
#define LINES topo.a = NDARR("a", C, -1, 1); topo.b = NDARR("b", C, -1, 1); topo.a0 = NDARR("a0", C, -1, 1); topo.b0 = NDARR("b0", C, -1, 1)
#define LINE(i, X) (topo.b[i] + topo.a[i]*(X))
/* markers above the surface leave the model */
void H_cleanup(void) {
  SURF; CHAIN(0.001); LINES;
  CleanUpSurfaceParticles(&T, &mesh, topo, sc);
  FORALL(k, 0, n) {
    double hs = LINE(mi[k], T.x[k]);
    NATIVE(if (fabs(z[k] - hs) < 1e-9) continue;)
    CHECK("phase", T.phase[k] == (z[k] > hs ? -1 : IN_I("ph", k)));
    CHECK("z", z[k] == IN_D("z", k));
  }
}
/* the initial surface never lies above the current one */
void H_correct(void) {
  SURF; CHAIN(0.001); LINES; NEW_MATPROP(mat);
  CorrectTopoIni(&T, mat, &T, &topo, model, sc, &mesh);
  FORALL(k, 0, n) {
    double hs = LINE(mi[k], T.x[k]);
    CHECK("z", EQ(z[k], IN_D("z", k) > hs ? hs : IN_D("z", k)));
  }
}
/* second remeshing mode: the chain is put on the grid surface */
void H_reset(void) {
  SURF; CHAIN(0.001); LINES;
  RemeshMarkerChain(&T, &topo, model, sc, &mesh, 2);
  FORALL(k, 0, n) {
    CHECK("z",  EQ(z[k], LINE(mi[k], T.x[k])));
    CHECK("z0", EQ(zo[k], LINE(mi[k], T.x[k])));
  }
  CHECK("count", T.Nb_part == n);
}
/* mean of the surface removed */
void H_zeromean(void) {
  SURF; int n = T.Nb_part = ND_I("n", 1, 30), nmax = T.Nb_part_max = n + ND_I("extra", 0, 10);
  T.phase = NDARR_I("ph", nmax, -1, 2); double *z = T.z = NDARR("z", nmax, -1, 1), *h = topo.height = NDARR("h", Nx, -1, 1);
  double s = 0.0, m = 0.0; int q = 0;
  for (int k = 0; k < n; k++) if (T.phase[k] > -1) { s += z[k]; q++; }
  for (int k = 0; k < Nx; k++) m += h[k];
  ASSUME(q > 0);
  KeepZeroMeanTopo(&model, &topo, &T);
  FORALL(k, 0, n)  CHECK("chain", EQS(z[k], IN_D("z", k) - s/q, 50));
  FORALL(k, 0, Nx) CHECK("grid",  EQS(h[k], IN_D("h", k) - m/Nx, 50));
}

/* ---- velocity of the surface: nodes just below the first air node of each column ---- */
#define COLS(Z, X, FIRST) int *top = NDARR_I("top", X, FIRST, Z); char *tag = ARR_C("tag", (X)*(Z)); \
  for (int j = 0; j < Z; j++) for (int i = 0; i < X; i++) tag[i + j*(X)] = j < top[i] ? -1 : 30
void H_surface_u(void) {
  SURF; int Nz = mesh.Nz = ND_I("Nz", 3, 5); T.Nb_part = 0;
  COLS(Nz+1, Nx, 1);
  mesh.BCu.type = tag; double *u = mesh.u_in = NDARR("u", Nx*(Nz+1), -1, 1);
  char *tv = mesh.BCv.type = ARR_C("tv", (Nx+1)*Nz); for (int q = 0; q < (Nx+1)*Nz; q++) tv[q] = -1;
  mesh.v_in = NDARR("v", (Nx+1)*Nz, -1, 1);
  topo.vx = NDARR("sx", Nx, -1, 1); topo.vz = NDARR("sz", Nx+1, -1, 1);
  SurfaceVelocity(&mesh, model, &topo, &T, sc);
  FORALL(i, 0, Nx) CHECK("u", topo.vx[i] == (top[i] <= Nz ? u[i + (top[i]-1)*Nx] : IN_D("sx", i)));
  FORALL(i, 0, Nx+1) CHECK("other", topo.vz[i] == IN_D("sz", i));
}
void H_surface_v(void) {
  SURF; int Nz = mesh.Nz = ND_I("Nz", 3, 5); T.Nb_part = 0; int X = Nx+1;
  COLS(Nz, X, 2);
  mesh.BCv.type = tag; double *v = mesh.v_in = NDARR("v", X*Nz, -1, 1);
  char *tu = mesh.BCu.type = ARR_C("tu", Nx*(Nz+1)); for (int q = 0; q < Nx*(Nz+1); q++) tu[q] = -1;
  mesh.u_in = NDARR("u", Nx*(Nz+1), -1, 1);
  topo.vx = NDARR("sx", Nx, -1, 1); topo.vz = NDARR("sz", Nx+1, -1, 1);
  SurfaceVelocity(&mesh, model, &topo, &T, sc);
  FORALL(i, 0, X) CHECK("v", topo.vz[i] == (top[i] < Nz ? v[i + (top[i]-2)*X] : IN_D("sz", i)));
  FORALL(i, 0, Nx) CHECK("other", topo.vx[i] == IN_D("sx", i));
}
/* markers of the chain get it by linear interpolation along x */
void H_surface_chain(void) {
  SURF; CHAIN(0.001); int Nz = mesh.Nz = ND_I("Nz", 3, 5);
  char *tu = mesh.BCu.type = ARR_C("tu", Nx*(Nz+1)); for (int q = 0; q < Nx*(Nz+1); q++) tu[q] = -1;
  char *tv = mesh.BCv.type = ARR_C("tv", (Nx+1)*Nz); for (int q = 0; q < (Nx+1)*Nz; q++) tv[q] = -1;
  mesh.u_in = NDARR("u", Nx*(Nz+1), -1, 1); mesh.v_in = NDARR("v", (Nx+1)*Nz, -1, 1);
  double *sx = topo.vx = NDARR("sx", Nx, -1, 1), *sz = topo.vz = NDARR("sz", Nx+1, -1, 1);
  T.Vx = ARR_D("Vx", n); T.Vz = ARR_D("Vz", n);
  SurfaceVelocity(&mesh, model, &topo, &T, sc);
  FORALL(k, 0, n) {
    int i = mi[k]; double s = ms[k];
    NATIVE(if (fabs(s-0.5) < 1e-3) continue;)
    CHECK("vx", EQS(T.Vx[k], (1-s)*sx[i] + s*sx[i+1], 50));
    CHECK("vz", EQS(T.Vz[k], s <= 0.5 ? (0.5-s)*sz[i] + (0.5+s)*sz[i+1] : (1.5-s)*sz[i+1] + (s-0.5)*sz[i+2], 50));
  }
}

/* ---- filling fraction of the cells and vertices cut by the surface ---- */
#define RHO SURF; int Nz = mesh.Nz = ND_I("Nz", 3, 5), D = Nz-1; double z0 = ND_D("z0", -1, 1), dz = mesh.dz = ND_DP("dz", 0.1, 1); \
  double *zg = mesh.zg_coord = ARR_D("zg", Nz), *zc = mesh.zc_coord = ARR_D("zc", D); \
  for (int k = 0; k < Nz; k++) zg[k] = z0 + k*dz; \
  for (int k = 0; k < D; k++) zc[k] = z0 + (k+0.5)*dz; \
  sc.rho = ND_DP("rhoc", 0.1, 2); LINES; \
  char *tp = mesh.BCp.type = NDARR_C("tp", C*D, -1, 31), *tg = mesh.BCg.type = NDARR_C("tg", Nx*Nz, -1, 30); \
  mesh.rho_n = NDARR("rn", C*D, 0, 1); mesh.rho0_n = NDARR("r0", C*D, 0, 1); mesh.rho_s = NDARR("rs", Nx*Nz, 0, 1); \
  mesh.FreeSurfW_n = ARR_D("wn", C*D); mesh.FreeSurfW_s = ARR_D("ws", Nx*Nz)
void H_fill_cells(void) {
  RHO;
  SurfaceDensityCorrection(&mesh, model, topo, sc);
  FORALL(j, 0, D) FORALL(i, 0, C) {
    int c = i + j*C, cut = tp[c] == -1 && j < D-1 && tp[c < C*D-C ? c+C : c] == 31;
    double w = cut ? fabs(LINE(i, xc[i]) - zc[j])/dz : 1.0;
    CHECK("weight",  EQS(mesh.FreeSurfW_n[c], AIR(tp[c]) ? 0.0 : w, 50));
    CHECK("density", EQS(mesh.rho_n[c], AIR(tp[c]) ? 1/sc.rho : IN_D("rn", c)*w, 50));
    CHECK("old",     EQS(mesh.rho0_n[c], IN_D("r0", c)*w, 50));
  }
}
void H_fill_vertices(void) {
  RHO;
  SurfaceDensityCorrection(&mesh, model, topo, sc);
  FORALL(j, 0, Nz) FORALL(i, 0, Nx) {
    int c = i + j*Nx, cut = tg[c] == -1 && j < Nz-1 && tg[c < Nx*Nz-Nx ? c+Nx : c] == 30, e = i < C ? i : C-1, w = i > 0 ? i-1 : 0;
    double f = cut ? fabs(0.5*(LINE(w, xc[w]) + LINE(e, xc[e])) - zg[j])/dz : 1.0;
    CHECK("weight",  EQS(mesh.FreeSurfW_s[c], tg[c] == 30 ? 0.0 : f, 50));
    CHECK("density", EQS(mesh.rho_s[c], tg[c] == 30 ? 1/sc.rho : IN_D("rs", c)*f, 50));
  }
}
