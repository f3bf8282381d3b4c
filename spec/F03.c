#include "vspec.h"
#include "contracts.h"

/* ---- hillslope diffusion, basin filling and incision of the surface: one explicit step ---- */
#define EROSION(TYPE) NEW_GRID(mesh); NEW_PARAMS(model); NEW_SCALE(sc); sc.L = sc.t = sc.V = 1; \
  int n = ND_I("n", 3, 20); double dx = ND_DP("dx", 0.1, 1), x0 = ND_D("x0", -2, 0); \
  double *xg = mesh.xg_coord = ARR_D("xg", n); for (int k = 0; k < n; k++) xg[k] = x0 + k*dx; \
  double K = model.surf_diff = ND_DP("K", 0.1, 1), base = model.surf_baselev = ND_D("base", -1, 1), sed = model.surf_sedirate = ND_D("sed", 0, 1); \
  double W = model.surf_Winc = ND_DP("W", 0.1, 2), V = model.surf_Vinc = ND_D("V", 0, 1); model.surface_processes = TYPE; \
  double *h = NDARR("h", n, -1, 1)
#define H(k) IN_D("h", k)
#define STEP double T = ND_DP("T", 0.0001, 0.4), lim = 0.4*dx*dx/K; ASSUME(T < lim); OPTION("once", 1); NATIVE(if (fabs(T-lim) < 1e-9) return;)
void H_diffuse(void) {
  EROSION(1); STEP;
  DiffuseAlongTopography(&mesh, model, sc, h, h, n, 0.0, T);
  CHECK("west", h[0] == H(0));
  CHECK("east", h[n-1] == H(n-1));
  FORALL(i, 1, n-1) CHECK("inner", EQS(h[i], H(i) + T*K/(dx*dx)*(H(i-1) + H(i+1) - 2*H(i)) + (H(i) < base ? sed*T : 0.0), 50));
}
void H_incise(void) {
  EROSION(5); STEP;
  int q = 0; for (int i = 1; i < n-1; i++) if (fabs(xg[i]) < 0.5*W) q++;
  ASSUME(q > 0);
  DiffuseAlongTopography(&mesh, model, sc, h, h, n, 0.0, T);
  CHECK("west", h[0] == H(0));
  CHECK("east", h[n-1] == H(n-1));
  FORALL(i, 1, n-1) {
    double cut = fabs(xg[i]) < 0.5*W ? T*V*W/(q*dx) : 0.0;
    CHECK("inner", EQS(h[i], H(i) + T*K/(dx*dx)*(H(i-1) + H(i+1) - 2*H(i)) + (H(i) < base ? sed*T : 0.0) - cut, 50));
  }
}
/* a duration between one and two stability limits: two equal steps */
void H_twice(void) {
  EROSION(1); double T = ND_DP("T", 0.0001, 0.4), lim = 0.4*dx*dx/K; ASSUME(T > lim && T < 2*lim); OPTION("once", 2); NATIVE(if (fabs(T-lim) < 1e-9 || fabs(T-2*lim) < 1e-9) return;)
  double *g = ARR_D("g", n); g[0] = H(0); g[n-1] = H(n-1); double r = 0.5*T*K/(dx*dx);
  for (int i = 1; i < n-1; i++) g[i] = H(i) + r*(H(i-1) + H(i+1) - 2*H(i)) + (H(i) < base ? sed*0.5*T : 0.0);
  NATIVE(for (int i = 0; i < n; i++) if (fabs(g[i]-base) < 1e-9) return;)
  DiffuseAlongTopography(&mesh, model, sc, h, h, n, 0.0, T);
  FORALL(i, 1, n-1) CHECK("inner", EQS(h[i], g[i] + r*(g[i-1] + g[i+1] - 2*g[i]) + (g[i] < base ? sed*0.5*T : 0.0), 50));
}
void H_fill(void) {
  EROSION(2); double T = model.dt = ND_DP("T", 0.0001, 0.4);
  DiffuseAlongTopography(&mesh, model, sc, h, h, n, 0.0, T);
  FORALL(i, 0, n) CHECK("filled", EQ(h[i], H(i) + (H(i) < base ? sed*T : 0.0)));
}
/* any duration, any number of substeps: the ends of the profile stay where they are */
void H_ends(void) {
  EROSION(1); double T = ND_DP("T", 0.0001, 0.4);
  DiffuseAlongTopography(&mesh, model, sc, h, h, n, 0.0, T);
  CHECK("west", h[0] == H(0));
  CHECK("east", h[n-1] == H(n-1));
}

/* ---- sediments: markers between the old and the new surface, four per column ---- */
#define SED NEW_GRID(mesh); NEW_SURFACE(topo); NEW_MARKERS(T); NEW_MARKERS(M); NEW_PARAMS(model); NEW_SCALE(sc); NEW_MATPROP(mat); \
  int Nx = model.Nx = ND_I("Nx", 3, 6), C = Nx-1; double dx = model.dx = ND_DP("dx", 0.1, 1), x0 = model.xmin = ND_D("x0", -1, 1); \
  sc.T = ND_DP("sT", 0.1, 2); sc.t = 1.0e6*3600.0*365.25*24.0; model.time = ND_DR("my", 0.0, 9.0); \
  int p1 = model.surf_ised1 = ND_IR("p1", 0, 3), p2 = model.surf_ised2 = ND_IR("p2", 0, 3); \
  model.finite_strain = ND_IR("fs", 0, 1); model.track_T_P_x_z = ND_IR("tr", 0, 1); \
  for (int q = 0; q < 4; q++) mat.gs_ref[q] = ND_D1("gs", q, 0, 1); \
  int n = M.Nb_part = ND_I("n", 0, 10), m = n + 4*C; \
  M.x = NDARR("x", m, -1, 1); M.z = NDARR("z", m, -1, 1); M.phase = NDARR_I("ph", m, -1, 3); M.T = NDARR("T", m, 0, 1); M.P = NDARR("P", m, 0, 1); \
  M.sxxd = NDARR("sxx", m, 0, 1); M.sxz = NDARR("sxz", m, 0, 1); M.Vx = NDARR("Vx", m, 0, 1); M.Vz = NDARR("Vz", m, 0, 1); M.d = NDARR("d", m, 0, 1); \
  M.strain = NDARR("e", m, 0, 1); M.strain_el = NDARR("ee", m, 0, 1); M.strain_pl = NDARR("ep", m, 0, 1); M.strain_pwl = NDARR("ew", m, 0, 1); \
  M.strain_exp = NDARR("ex", m, 0, 1); M.strain_lin = NDARR("el", m, 0, 1); M.strain_gbs = NDARR("eg", m, 0, 1); M.phi = NDARR("phi", m, 0, 1); M.X = NDARR("X", m, 0, 1); \
  M.Fxx = NDARR("Fxx", m, 0, 1); M.Fxz = NDARR("Fxz", m, 0, 1); M.Fzx = NDARR("Fzx", m, 0, 1); M.Fzz = NDARR("Fzz", m, 0, 1); \
  M.T0 = NDARR("T0", m, 0, 1); M.P0 = NDARR("P0", m, 0, 1); M.x0 = NDARR("mx0", m, 0, 1); M.z0 = NDARR("mz0", m, 0, 1); M.Tmax = NDARR("Tm", m, 0, 1); M.Pmax = NDARR("Pm", m, 0, 1); \
  topo.a0 = NDARR("a0", C, -1, 1); topo.b0 = NDARR("b0", C, -1, 1); topo.a = ARR_D("a", C); topo.b = ARR_D("b", C)
/* deposition along the whole surface: thickness th of each column, slopes unchanged */
#define RISE double *th = NDARR_P("th", C, 0.01, 1); for (int i = 0; i < C; i++) { topo.a[i] = topo.a0[i]; topo.b[i] = topo.b0[i] + th[i]; } \
  AddPartSed(&M, mat, &T, &topo, model, sc, &mesh)
void H_deposit(void) {
  SED; RISE;
  CHECK("count", M.Nb_part == m);
  FORALL(i, 0, C) FORALL(s, 0, 4) {
    int k = n + 4*i + s; double x = x0 + (i + (s + 0.5)/4)*dx;
    CHECK("x", EQ(M.x[k], x));
    CHECK("z", EQS(M.z[k], topo.b0[i] + topo.a0[i]*x + 0.5*th[i], 50));
  }
}
void H_deposit_new(void) {
  SED; RISE;
  int age = (int)floor(model.time), ph = age%2 > 0 ? p1 : p2; NATIVE(if (fabs(model.time - round(model.time)) < 1e-6) return;)
  FORALL(k, n, m) {
    CHECK("phase", M.phase[k] == ph);
    CHECK("state", EQ(M.T[k], zeroC/sc.T) && M.P[k] == 0.0 && M.d[k] == mat.gs_ref[ph] && M.X[k] == 0.0 && M.phi[k] == 0.0);
    CHECK("stress", M.sxxd[k] == 0.0 && M.sxz[k] == 0.0 && M.Vx[k] == 0.0 && M.Vz[k] == 0.0);
    CHECK("strain", M.strain[k] == 0.0 && M.strain_el[k] == 0.0 && M.strain_pl[k] == 0.0 && M.strain_pwl[k] == 0.0 && M.strain_exp[k] == 0.0 && M.strain_lin[k] == 0.0 && M.strain_gbs[k] == 0.0);
    if (model.finite_strain) CHECK("gradient", M.Fxx[k] == 1.0 && M.Fxz[k] == 0.0 && M.Fzx[k] == 0.0 && M.Fzz[k] == 1.0);
    if (model.track_T_P_x_z) CHECK("history", EQ(M.T0[k], zeroC/sc.T) && EQ(M.Tmax[k], zeroC/sc.T) && M.P0[k] == 0.0 && M.Pmax[k] == 0.0 && M.x0[k] == M.x[k] && M.z0[k] == M.z[k]);
  }
}
void H_deposit_old(void) {
  SED; RISE;
  FORALL(k, 0, n) CHECK("old", M.x[k] == IN_D("x", k) && M.z[k] == IN_D("z", k) && M.phase[k] == IN_I("ph", k) && M.T[k] == IN_D("T", k) && M.P[k] == IN_D("P", k) && M.d[k] == IN_D("d", k) && M.Fzz[k] == IN_D("Fzz", k));
}
/* the surface also tilts: the marker lies half-way between the old and the new surface at its own position */
void H_deposit_tilt(void) {
  SED; double *th = NDARR_P("th", C, 0.01, 1), *da = NDARR_G("da", C, 0.0, 1); 
  for (int i = 0; i < C; i++) { topo.a[i] = topo.a0[i] + da[i]; topo.b[i] = topo.b0[i] + th[i] - da[i]*(x0 + i*dx); }
  AddPartSed(&M, mat, &T, &topo, model, sc, &mesh);
  CHECK("count", M.Nb_part == m);
  FORALL(i, 0, C) FORALL(s, 0, 4) {
    int k = n + 4*i + s; double x = x0 + (i + (s + 0.5)/4)*dx;
    CHECK("x", EQ(M.x[k], x));
    CHECK("z", EQS(M.z[k], topo.b0[i] + topo.a0[i]*x + 0.5*(th[i] + da[i]*(s + 0.5)/4*dx), 50));
  }
}
/* no deposition where the surface sinks or stays */
void H_erode(void) {
  SED; double *th = NDARR_G("th", C, 0.0, 1); for (int i = 0; i < C; i++) { topo.a[i] = topo.a0[i]; topo.b[i] = topo.b0[i] - th[i]; }
  AddPartSed(&M, mat, &T, &topo, model, sc, &mesh);
  CHECK("count", M.Nb_part == n);
  FORALL(k, 0, m) CHECK("old", M.x[k] == IN_D("x", k) && M.z[k] == IN_D("z", k) && M.phase[k] == IN_I("ph", k) && M.T[k] == IN_D("T", k) && M.P[k] == IN_D("P", k));
}
