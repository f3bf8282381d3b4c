#include "vspec.h"
#include "RheologyDensity.h"
#define USE_CONTRACT_INDICES
#define USE_CONTRACT_C2V
#include "contracts.h"
#define VISCOSITY_TYPE double, double, double, double, double, double, double, double, double, double, double, double, mat_prop*, params*, scale*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double, double, double, double, double, double, double*, double*, double*, double*, double, double, double*, double*, double*, double*, double*, double*, int, int, int, int
double ViscosityConcise(int, VISCOSITY_TYPE);
void NonNewtonianViscosityGrid(grid*, mat_prop*, params*, Nparams, scale*, int);

/* ---- the rheology of one phase (its own contract is R01) is any function of the state of the node:
 * handed anything but the state of that node, the contract returns nothing useful ---- */
struct out { double eta, etaVE, VE, el, pl, pwl, ex, lin, gbs, cst, d1, X, Ov, Pc, rho, de, dp, dr, Wt, We, Wd; };
static double **VO[21];
static grid *M; static params *MODEL; static mat_prop *MAT; static scale *SC;
static double eff(double e, double s, double mu) { return e + (MODEL->elastic == 1 ? s/(MODEL->dt*mu)/2.0 : 0.0); }
#ifdef VSPEC_SYM
double CONTRACT_ViscosityConcise(int p, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, mat_prop *materials, params *model, scale *scaling,
  double *Txx, double *Tzz, double *Txz, double *etaVE, double *VE, double *el, double *pl, double *pwl, double *ex, double *lin, double *gbs, double *cst, double *d1, double strain, double dil, double fric, double C, double P0, double T0,
  double *X1, double *Ov, double *Pc, double *rho, double beta, double div, double *de, double *dp, double *dr, double *Wt, double *We, double *Wd, int post, int centroid, int fin, int c) {
  int ok = post == 1 && (centroid ?
    G == M->mu_n[c] && T == M->T[c] && P == M->p_in[c] && d == M->d0_n[c] && phi == M->phi0_n[c] && X0 == M->X0_n[c]
    && Exx == eff(M->exxd[c], M->sxxd0[c], M->mu_n[c]) && Ezz == eff(M->ezzd[c], M->szzd0[c], M->mu_n[c]) && Exz == eff(M->exz_n[c], M->sxz0_n[c], M->mu_n[c])
    && Txx0 == M->sxxd0[c] && Tzz0 == M->szzd0[c] && Txz0 == M->sxz0_n[c] && dil == M->dil_n[c] && fric == M->fric_n[c] && C == M->C_n[c] && P0 == M->p0_n[c] && T0 == M->T0_n[c] && beta == M->bet_n[c] :
    G == M->mu_s[c] && T == M->T_s[c] && P == M->P_s[c] && d == M->d0_s[c] && phi == M->phi0_s[c] && X0 == M->X0_s[c]
    && Exx == eff(M->exxd_s[c], M->sxxd0_s[c], M->mu_s[c]) && Ezz == eff(M->ezzd_s[c], M->szzd0_s[c], M->mu_s[c]) && Exz == eff(M->exz[c], M->sxz0[c], M->mu_s[c])
    && Txx0 == M->sxxd0_s[c] && Tzz0 == M->szzd0_s[c] && Txz0 == M->sxz0[c] && dil == M->dil_s[c] && fric == M->fric_s[c] && C == M->C_s[c] && P0 == M->p0_s[c] && beta == M->bet_s[c]);
  *Txx = 0; *Tzz = 0; *Txz = 0;
  *etaVE = ok ? VO[1][p][c] : 0.0; *VE = ok ? VO[2][p][c] : 0.0; *el = ok ? VO[3][p][c] : 0.0; *pl = ok ? VO[4][p][c] : 0.0; *pwl = ok ? VO[5][p][c] : 0.0; *ex = ok ? VO[6][p][c] : 0.0;
  *lin = ok ? VO[7][p][c] : 0.0; *gbs = ok ? VO[8][p][c] : 0.0; *cst = ok ? VO[9][p][c] : 0.0; *d1 = ok ? VO[10][p][c] : 0.0; *X1 = ok ? VO[11][p][c] : 0.0; *Ov = ok ? VO[12][p][c] : 0.0;
  *Pc = ok ? VO[13][p][c] : 0.0; *rho = ok ? VO[14][p][c] : 0.0; *de = ok ? VO[15][p][c] : 0.0; *dp = ok ? VO[16][p][c] : 0.0; *dr = ok ? VO[17][p][c] : 0.0; *Wt = ok ? VO[18][p][c] : 0.0; *We = ok ? VO[19][p][c] : 0.0; *Wd = ok ? VO[20][p][c] : 0.0;
  return ok ? VO[0][p][c] : 0.0;
}
#define PHASES(n, cen) do { \
  VO[0] = NDARR2("v0", 20, n, 0, 1); VO[1] = NDARR2("v1", 20, n, 0, 1); VO[2] = NDARR2("v2", 20, n, 0, 1); VO[3] = NDARR2("v3", 20, n, 0, 1); VO[4] = NDARR2("v4", 20, n, 0, 1); VO[5] = NDARR2("v5", 20, n, 0, 1); VO[6] = NDARR2("v6", 20, n, 0, 1); \
  VO[7] = NDARR2("v7", 20, n, 0, 1); VO[8] = NDARR2("v8", 20, n, 0, 1); VO[9] = NDARR2("v9", 20, n, 0, 1); VO[10] = NDARR2("v10", 20, n, 0, 1); VO[11] = NDARR2("v11", 20, n, 0, 1); VO[12] = NDARR2("v12", 20, n, 0, 1); VO[13] = NDARR2("v13", 20, n, 0, 1); \
  VO[14] = NDARR2("v14", 20, n, 0, 1); VO[15] = NDARR2("v15", 20, n, 0, 1); VO[16] = NDARR2("v16", 20, n, 0, 1); VO[17] = NDARR2("v17", 20, n, 0, 1); VO[18] = NDARR2("v18", 20, n, 0, 1); VO[19] = NDARR2("v19", 20, n, 0, 1); VO[20] = NDARR2("v20", 20, n, 0, 1); } while (0)
static void state(int p, int c, int cen) { }
#define V(i) VO[i][p][c]
#else
static double VV[21];
#define V(i) VV[i]
static void state(int p, int c, int cen) {
  double a, b, e, *v = VV;
  v[0] = cen ? ViscosityConcise(p, M->mu_n[c], M->T[c], M->p_in[c], M->d0_n[c], M->phi0_n[c], M->X0_n[c], eff(M->exxd[c], M->sxxd0[c], M->mu_n[c]), eff(M->ezzd[c], M->szzd0[c], M->mu_n[c]), eff(M->exz_n[c], M->sxz0_n[c], M->mu_n[c]),
      M->sxxd0[c], M->szzd0[c], M->sxz0_n[c], MAT, MODEL, SC, &a, &b, &e, v+1, v+2, v+3, v+4, v+5, v+6, v+7, v+8, v+9, v+10, M->strain_n[c], M->dil_n[c], M->fric_n[c], M->C_n[c], M->p0_n[c], M->T0_n[c],
      v+11, v+12, v+13, v+14, M->bet_n[c], M->div_u[c], v+15, v+16, v+17, v+18, v+19, v+20, 1, 1, 0, c)
    : ViscosityConcise(p, M->mu_s[c], M->T_s[c], M->P_s[c], M->d0_s[c], M->phi0_s[c], M->X0_s[c], eff(M->exxd_s[c], M->sxxd0_s[c], M->mu_s[c]), eff(M->ezzd_s[c], M->szzd0_s[c], M->mu_s[c]), eff(M->exz[c], M->sxz0[c], M->mu_s[c]),
      M->sxxd0_s[c], M->szzd0_s[c], M->sxz0[c], MAT, MODEL, SC, &a, &b, &e, v+1, v+2, v+3, v+4, v+5, v+6, v+7, v+8, v+9, v+10, M->strain_s[c], M->dil_s[c], M->fric_s[c], M->C_s[c], M->p0_s[c], 0.0,
      v+11, v+12, v+13, v+14, M->bet_s[c], M->div_u_s[c], v+15, v+16, v+17, v+18, v+19, v+20, 1, 0, 0, c);
}
#define PHASES(n, cen) do { for (int p = 0; p < np; p++) { m.cstv[p] = 1; m.eta0[p] = 0.5 + p; m.gs_ref[p] = 1 + 0.5*p; m.density_model[p] = 1; m.rho[p] = 2 + p; m.plast[p] = p & 1; m.n_vp[p] = 1; m.eta_vp[p] = 0.3; m.Slim[p] = 10; m.pwlv[p] = p & 2; \
  m.npwl[p] = 3; m.Apwl[p] = 1; m.Fpwl[p] = 1; m.fpwl[p] = 1; m.pref_pwl[p] = 1; } m.R = 1; sc.T = 300; sc.E = sc.S = sc.L = sc.eta = 1; model.min_eta = 1e-3; model.max_eta = 1e3; model.step = 1; model.eta_tol = 1e-11; (void)VO; } while (0)
#endif

#define GRID_STATE(AVG) OPTION("noexit", 0); NEW_PARAMS(model); NEW_MATPROP(m); NEW_GRID(mesh); NEW_SCALE(sc); Nparams nm; memset(&nm, 0, sizeof nm); \
  int Nx = ND_I("Nx", 3, 4), Nz = ND_I("Nz", 3, 4), Ncx = Nx-1, Ncz = Nz-1, np = ND_IR("np", 1, 20), n = Ncx*Ncz, g = Nx*Nz; \
  NATIVE(np = 1 + np%4;) \
  mesh.Nx = Nx; mesh.Nz = Nz; model.Nb_phases = np; model.periodic_x = ND_IR("per", 0, 1); model.eta_average = AVG; model.elastic = ND_IR("elastic", 0, 1); model.dt = ND_DP("dt", 0.5, 1); \
  model.density_variations = ND_IR("dv", 0, 1); \
  MESH_INDICES(mesh, Nx, Nz); \
  mesh.BCp.type = NDARR_C("tp", n, 28, 31); mesh.BCg.type = NDARR_C("tg", g, 29, 30); \
  mesh.phase_perc_n = NDARR2_R("perc", 20, n, 0, 1); mesh.phase_perc_s = NDARR2_R("percs", 20, g, 0, 1); \
  mesh.exxd = NDARR("exxd", n, -1, 1); mesh.ezzd = NDARR("ezzd", n, -1, 1); mesh.exz_n = NDARR("exzn", n, -1, 1); \
  mesh.sxxd0 = NDARR("sxxd0", n, -1, 1); mesh.szzd0 = NDARR("szzd0", n, -1, 1); mesh.sxz0_n = NDARR("sxz0n", n, -1, 1); \
  mesh.exxd_s = NDARR("exxds", g, -1, 1); mesh.ezzd_s = NDARR("ezzds", g, -1, 1); mesh.exz = NDARR("exz", g, -1, 1); \
  mesh.sxxd0_s = NDARR("sxxd0s", g, -1, 1); mesh.szzd0_s = NDARR("szzd0s", g, -1, 1); mesh.sxz0 = NDARR("sxz0", g, -1, 1); \
  mesh.mu_n = NDARR_P("mun", n, 0.5, 2); mesh.T = NDARR_P("T", n, 1, 2); mesh.p_in = NDARR_P("P", n, 0, 1); mesh.d0_n = NDARR_P("d0", n, 1, 2); mesh.phi0_n = NDARR_P("phi0", n, 0, 1); mesh.X0_n = NDARR_P("X0", n, 0, 1); \
  mesh.dil_n = NDARR_P("diln", n, 0, 0.5); mesh.fric_n = NDARR_P("fricn", n, 0, 0.5); mesh.C_n = NDARR_P("Cn", n, 0, 1); mesh.p0_n = NDARR_P("p0n", n, 0, 1); mesh.T0_n = NDARR_P("T0n", n, 0, 1); mesh.bet_n = NDARR_P("betn", n, 0.5, 1); \
  mesh.mu_s = NDARR_P("mus", g, 0.5, 2); mesh.X0_s = NDARR_P("X0s", g, 0, 1); \
  mesh.dil_s = NDARR_P("dils", g, 0, 0.5); mesh.fric_s = NDARR_P("frics", g, 0, 0.5); mesh.C_s = NDARR_P("Cs", g, 0, 1); mesh.p0_s = NDARR_P("p0s", g, 0, 1); mesh.bet_s = NDARR_P("bets", g, 0.5, 1); \
  mesh.eta_n = ARR_D("oeta_n", n); mesh.eta_phys_n = ARR_D("oeta_phys_n", n); mesh.VE_n = ARR_D("oVE_n", n); mesh.sxxd = ARR_D("osxxd", n); mesh.szzd = ARR_D("oszzd", n); mesh.sxz_n = ARR_D("osxz_n", n); mesh.eII_el = ARR_D("oeII_el", n); mesh.eII_pl = ARR_D("oeII_pl", n); mesh.eII_pwl = ARR_D("oeII_pwl", n); mesh.eII_exp = ARR_D("oeII_exp", n); mesh.eII_lin = ARR_D("oeII_lin", n); mesh.eII_gbs = ARR_D("oeII_gbs", n); mesh.eII_cst = ARR_D("oeII_cst", n); mesh.d_n = ARR_D("od_n", n); mesh.p_corr = ARR_D("op_corr", n); mesh.div_u_el = ARR_D("odiv_u_el", n); mesh.div_u_pl = ARR_D("odiv_u_pl", n); mesh.div_u_r = ARR_D("odiv_u_r", n); mesh.Wtot = ARR_D("oWtot", n); mesh.Wel = ARR_D("oWel", n); mesh.Wdiss = ARR_D("oWdiss", n); mesh.X_n = ARR_D("oX_n", n); mesh.OverS_n = ARR_D("oOverS_n", n); mesh.rho_n = NDARR("rho", n, 1, 2); \
  mesh.T_s = ARR_D("oT_s", g); mesh.P_s = ARR_D("oP_s", g); mesh.d0_s = ARR_D("od0_s", g); mesh.phi0_s = ARR_D("ophi0_s", g); mesh.sxxd_s = ARR_D("osxxd_s", g); mesh.szzd_s = ARR_D("oszzd_s", g); mesh.sxz = ARR_D("osxz", g); mesh.eta_phys_s = ARR_D("oeta_phys_s", g); mesh.eta_s = ARR_D("oeta_s", g); mesh.X_s = ARR_D("oX_s", g); \
  mesh.phase_eta_n = NDARR2("ophn", 20, n, 0, 0); mesh.phase_eta_s = NDARR2("ophs", 20, g, 0, 0); \
  M = &mesh; MODEL = &model; MAT = &m; SC = &sc

#define ACTIVE(P, c) ((P)[p][c] > 1e-13 || (P)[p][c] < -1e-13)
#define MEAN(NAME, ARRAY, I) do { double s = 0.0; for (int p = 0; p < np; p++) if (ACTIVE(mesh.phase_perc_n, c)) { state(p, c, 1); s += mesh.phase_perc_n[p][c]*V(I); } \
    CHECK(NAME, EQS(mesh.ARRAY[c], AIR(mesh.BCp.type[c]) ? 0.0 : s, 10)); } while (0)

#define CELLS(AVG, F, INV) GRID_STATE(AVG); PHASES(n, 1); \
  NonNewtonianViscosityGrid(&mesh, &m, &model, nm, &sc, 0); \
  FORALL(c, 0, n) { \
    double s = 0.0, t = 0.0; \
    for (int p = 0; p < np; p++) if (ACTIVE(mesh.phase_perc_n, c)) { state(p, c, 1); s += mesh.phase_perc_n[p][c]*F(V(1)); t += mesh.phase_perc_n[p][c]*F(V(0)); } \
    CHECK("effective", EQS(mesh.eta_n[c], AIR(mesh.BCp.type[c]) ? 0.0 : INV(s), 10)); \
    CHECK("physical", EQS(mesh.eta_phys_n[c], AIR(mesh.BCp.type[c]) ? 0.0 : INV(t), 10)); \
  }
#define SAME(x) (x)
#define RECIP(x) (1.0/(x))
void H_arithmetic(void) { CELLS(0, SAME, SAME) }
void H_harmonic(void)   { CELLS(1, RECIP, RECIP) }
void H_geometric(void)  { CELLS(2, log, exp) }

void H_stress(void) {
  GRID_STATE(0); PHASES(n, 1);
  NonNewtonianViscosityGrid(&mesh, &m, &model, nm, &sc, 0);
  FORALL(c, 0, n) {
    int air = AIR(mesh.BCp.type[c]); double e = mesh.eta_n[c];
    CHECK("xx", EQ(mesh.sxxd[c], air ? 0.0 : 2.0*e*eff(mesh.exxd[c], mesh.sxxd0[c], mesh.mu_n[c])));
    CHECK("zz", EQ(mesh.szzd[c], air ? 0.0 : 2.0*e*eff(mesh.ezzd[c], mesh.szzd0[c], mesh.mu_n[c])));
    CHECK("xz", EQ(mesh.sxz_n[c], air ? 0.0 : 2.0*e*eff(mesh.exz_n[c], mesh.sxz0_n[c], mesh.mu_n[c])));
  }
}
/* strain rates of the mechanisms, corrected pressure, volume changes, work: fraction-weighted means; grain size harmonic */
void H_rates(void) {
  GRID_STATE(ND_IR("avg", 0, 2)); PHASES(n, 1);
  NonNewtonianViscosityGrid(&mesh, &m, &model, nm, &sc, 0);
  FORALL(c, 0, n) {
    MEAN("elastic", eII_el, 3); MEAN("plastic", eII_pl, 4); MEAN("dislocation", eII_pwl, 5); MEAN("peierls", eII_exp, 6); MEAN("diffusion", eII_lin, 7); MEAN("gbs", eII_gbs, 8); MEAN("constant", eII_cst, 9);
  }
}
void H_volume(void) {
  GRID_STATE(ND_IR("avg", 0, 2)); PHASES(n, 1);
  NonNewtonianViscosityGrid(&mesh, &m, &model, nm, &sc, 0);
  FORALL(c, 0, n) {
    MEAN("composition", X_n, 11); MEAN("overstress", OverS_n, 12); MEAN("pressure", p_corr, 13); MEAN("div-elastic", div_u_el, 15); MEAN("div-plastic", div_u_pl, 16); MEAN("div-reaction", div_u_r, 17);
    MEAN("work", Wtot, 18); MEAN("work-elastic", Wel, 19); MEAN("dissipation", Wdiss, 20);
    double s = 0.0, r = 0.0;
    for (int p = 0; p < np; p++) if (ACTIVE(mesh.phase_perc_n, c)) { state(p, c, 1); s += mesh.phase_perc_n[p][c]/V(10); r += mesh.phase_perc_n[p][c]*V(14); }
    CHECK("grain-size", EQS(mesh.d_n[c], AIR(mesh.BCp.type[c]) ? 0.0 : 1.0/s, 10));
    CHECK("density", EQS(mesh.rho_n[c], model.density_variations ? (AIR(mesh.BCp.type[c]) ? 0.0 : r) : IN_D("rho", c), 10));
  }
}

#define AIRV(c) (mesh.BCg.type[c] == 30)
#define VERTICES(AVG, F, INV) GRID_STATE(AVG); PHASES(g, 0); \
  NonNewtonianViscosityGrid(&mesh, &m, &model, nm, &sc, 0); \
  FORALL(c, 0, g) { \
    double s = 0.0, t = 0.0; \
    for (int p = 0; p < np; p++) if (ACTIVE(mesh.phase_perc_s, c)) { state(p, c, 0); s += mesh.phase_perc_s[p][c]*F(V(1)); t += mesh.phase_perc_s[p][c]*F(V(0)); } \
    CHECK("effective", EQS(mesh.eta_s[c], AIRV(c) ? 0.0 : INV(s), 10)); \
    CHECK("physical", EQS(mesh.eta_phys_s[c], AIRV(c) ? 0.0 : INV(t), 10)); \
  }
void H_v_arithmetic(void) { VERTICES(0, SAME, SAME) }
void H_v_harmonic(void)   { VERTICES(1, RECIP, RECIP) }
void H_v_geometric(void)  { VERTICES(2, log, exp) }
void H_v_stress(void) {
  GRID_STATE(0); PHASES(g, 0);
  NonNewtonianViscosityGrid(&mesh, &m, &model, nm, &sc, 0);
  FORALL(c, 0, g) {
    double e = mesh.eta_s[c], s = 0.0;
    CHECK("xx", EQ(mesh.sxxd_s[c], AIRV(c) ? 0.0 : 2.0*e*eff(mesh.exxd_s[c], mesh.sxxd0_s[c], mesh.mu_s[c])));
    CHECK("zz", EQ(mesh.szzd_s[c], AIRV(c) ? 0.0 : 2.0*e*eff(mesh.ezzd_s[c], mesh.szzd0_s[c], mesh.mu_s[c])));
    CHECK("xz", EQ(mesh.sxz[c], AIRV(c) ? 0.0 : 2.0*e*eff(mesh.exz[c], mesh.sxz0[c], mesh.mu_s[c])));
    for (int p = 0; p < np; p++) if (ACTIVE(mesh.phase_perc_s, c)) { state(p, c, 0); s += mesh.phase_perc_s[p][c]*V(11); }
    CHECK("composition", EQS(mesh.X_s[c], AIRV(c) ? 0.0 : s, 10));
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx) {
    int c = k + l*Nx; double z = AIRV(c) ? 0.0 : 1.0;
    CHECK("temperature", EQ(mesh.T_s[c], AIRV(c) ? 0.0 : c2v(mesh.T, mesh.BCp.type, k, l, Nx, Nz, model.periodic_x)));
    CHECK("pressure", EQ(mesh.P_s[c], AIRV(c) ? 0.0 : c2v(mesh.p_in, mesh.BCp.type, k, l, Nx, Nz, model.periodic_x)));
    CHECK("grains", EQ(mesh.d0_s[c], AIRV(c) ? 0.0 : c2v(mesh.d0_n, mesh.BCp.type, k, l, Nx, Nz, model.periodic_x)));
    CHECK("melt", EQ(mesh.phi0_s[c], AIRV(c) ? 0.0 : c2v(mesh.phi0_n, mesh.BCp.type, k, l, Nx, Nz, model.periodic_x)));
  }
}
