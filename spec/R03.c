/* R03: the tangent operators of the flow problem are the stress of R02 (Picard) and its derivative (Newton) */
#include "vspec.h"
#include "contracts.h"
void RheologicalOperators(grid*, params*, mat_prop*, scale*, int, int);
void PhaseRheologyLoop_v1(int, double, double, double, double, double, double, double, double, double, double, double, double, int, double**, double*, double*, double*, double, double*, double*, double*, double*, double*, double*, double*, double*,
  double*, double*, double*, double*, params*, mat_prop*, scale*, double*, double*, double*, double*, double**);
static grid *M; static params *MODEL; static int ANI;

/* ---- effective strain rate: strain rate plus the elastic part, whose stress is the old stress ---- */
void H_effective(void) {
  OPTION("ratbranch", 1);
  double e[3] = { ND_D("exx", -1, 1), ND_D("ezz", -1, 1), ND_D("exz", -1, 1) }, T[3] = { ND_D("txx", -1, 1), ND_D("tzz", -1, 1), ND_D("txz", -1, 1) };
  double n = ND_DR("n", 0, 1), d1 = ND_DR("d1", 0, 0.5), d2 = ND_DR("d2", -0.5, 0.5), a = ND_DR("a", 0, 0.9), g = ND_DP("g", 0.5, 2), X, Z, S;
  /* the director turns the strain rate: 2 d1 and 2 d2 are sine squared and sine times cosine of twice its angle */
  ASSUME(d2*d2 == d1*(0.5 - d1)); NATIVE(d2 = sqrt(d1*(0.5 - d1));)
  int elastic = ND_IR("elastic", 0, 1);
  EffectiveStrainRate(&X, &Z, &S, e[0], e[1], e[2], T[0], T[1], T[2], d1, d2, a, g, elastic);
  double x = (X - e[0])*g, z = (Z - e[1])*g, s = 2.0*(S - e[2])*g;
  double el = elastic ? 1.0 : 0.0;
  CHECK("xx", EQS(2.0*(1.0 - a*d1)*x + 2.0*a*d1*z - 2.0*a*d2*s, el*T[0], 4));
  CHECK("zz", EQS(2.0*a*d1*x + 2.0*(1.0 - a*d1)*z + 2.0*a*d2*s, el*T[1], 4));
  CHECK("xz", EQS(-2.0*a*d2*x + 2.0*a*d2*z + (1.0 + 2.0*a*(d1 - 0.5))*s, el*T[2], 4));
}
void H_effective_isotropic(void) {
  double e[3] = { ND_D("exx", -1, 1), ND_D("ezz", -1, 1), ND_D("exz", -1, 1) }, T[3] = { ND_D("txx", -1, 1), ND_D("tzz", -1, 1), ND_D("txz", -1, 1) }, g = ND_DP("g", 0.5, 2), X, Z, S;
  EffectiveStrainRate(&X, &Z, &S, e[0], e[1], e[2], T[0], T[1], T[2], 0.0, 0.0, 0.0, g, 1);
  CHECK("xx", EQ(X, e[0] + T[0]/(2.0*g))); CHECK("zz", EQ(Z, e[1] + T[1]/(2.0*g))); CHECK("xz", EQ(S, e[2] + T[2]/(2.0*g)));
}

/* ---- operators ---- */
static double **DV;
static int node_n(int k, double X, double Z, double S, double P, double ani, double d1, double d2, double angle, double lx2, double lxlz) {
  double x, z, s, l = M->angle_n[k] - M_PI/2.0;
  double a = ANI ? M->aniso_factor_n[k] : 1.0, n1 = ANI ? M->d1_n[k] : 0.0, n2 = ANI ? M->d2_n[k] : 0.0;
  EffectiveStrainRate(&x, &z, &s, M->exxd[k], M->ezzd[k], M->exz_n[k], M->sxxd0[k], M->szzd0[k], M->sxz0_n[k], n1, n2, 1.0 - 1.0/a, MODEL->elastic == 1 ? MODEL->dt*M->mu_n[k] : 1.0, MODEL->elastic);
  return X == x && Z == z && S == s && P == M->p_in[k] && ani == a && d1 == n1 && d2 == n2 && (!ANI || (angle == M->angle_n[k] && lx2 == cos(l)*cos(l) && lxlz == cos(l)*sin(l)));
}
static int node_s(int k, double X, double Z, double S, double P, double ani, double d1, double d2, double angle, double lx2, double lxlz) {
  double x, z, s, l = M->angle_s[k] - M_PI/2.0;
  double a = ANI ? M->aniso_factor_s[k] : 1.0, n1 = ANI ? M->d1_s[k] : 0.0, n2 = ANI ? M->d2_s[k] : 0.0;
  EffectiveStrainRate(&x, &z, &s, M->exxd_s[k], M->ezzd_s[k], M->exz[k], M->sxxd0_s[k], M->szzd0_s[k], M->sxz0[k], n1, n2, 1.0 - 1.0/a, MODEL->elastic == 1 ? MODEL->dt*M->mu_s[k] : 1.0, MODEL->elastic);
  return X == x && Z == z && S == s && P == M->P_s[k] && ani == a && d1 == n1 && d2 == n2 && (!ANI || (angle == M->angle_s[k] && lx2 == cos(l)*cos(l) && lxlz == cos(l)*sin(l)));
}
#ifdef VSPEC_SYM
/* the derivatives at a node are any numbers, obtained only by asking for the state of that node */
void CONTRACT_DerivativesOnTheFly_n(double *exx, double *ezz, double *gxz, double *p, double *vxx, double *vzz, double *vxz, double *vp, double *axx, double *azz, double *axz, double *ap, double *rho, int k,
  double X, double Z, double S, double P, double ani, double d1, double d2, double angle, double lx2, double lxlz, grid *mesh, mat_prop *m, params *model, scale *sc) {
  int ok = node_n(k, X, Z, S, P, ani, d1, d2, angle, lx2, lxlz);
  *exx = ok ? DV[0][k] : 0.0; *ezz = ok ? DV[1][k] : 0.0; *gxz = ok ? DV[2][k] : 0.0; *p = ok ? DV[3][k] : 0.0;
  *vxx = ok ? DV[4][k] : 0.0; *vzz = ok ? DV[5][k] : 0.0; *vxz = ok ? DV[6][k] : 0.0; *vp = ok ? DV[7][k] : 0.0;
  *axx = ok ? DV[8][k] : 0.0; *azz = ok ? DV[9][k] : 0.0; *axz = ok ? DV[10][k] : 0.0; *ap = ok ? DV[11][k] : 0.0;
  *rho = ok ? DV[12][k] : 0.0;
}
void CONTRACT_DerivativesOnTheFly_s(double *exx, double *ezz, double *gxz, double *p, double *axx, double *azz, double *axz, double *ap, int k,
  double X, double Z, double S, double P, double ani, double d1, double d2, double angle, double lx2, double lxlz, grid *mesh, mat_prop *m, params *model, scale *sc) {
  int ok = node_s(k, X, Z, S, P, ani, d1, d2, angle, lx2, lxlz);
  *exx = ok ? DV[0][k] : 0.0; *ezz = ok ? DV[1][k] : 0.0; *gxz = ok ? DV[2][k] : 0.0; *p = ok ? DV[3][k] : 0.0;
  *axx = ok ? DV[8][k] : 0.0; *azz = ok ? DV[9][k] : 0.0; *axz = ok ? DV[10][k] : 0.0; *ap = ok ? DV[11][k] : 0.0;
}
#define DERIV(N, n) do { DV = NDARR2("dv", 13, n, -1, 1); } while (0)
#define D(i) DV[i][k]
#else
static double WD[13];
#define D(i) WD[i]
#define DERIV(N, n) (void)DV
#endif

#define STATE(JAC, aniso) OPTION("noexit", 0); NEW_GRID(mesh); NEW_PARAMS(model); NEW_MATPROP(m); NEW_SCALE(sc); \
  int Nx = ND_I("Nx", 3, 4), Nz = ND_I("Nz", 3, 4), Ncx = Nx-1, Ncz = Nz-1, n = Ncx*Ncz, g = Nx*Nz; \
  mesh.Nx = Nx; mesh.Nz = Nz; model.elastic = ND_IR("elastic", 0, 1); model.dt = ND_DP("dt", 0.5, 1); model.compressible = ND_IR("comp", 0, 1); model.anisotropy = aniso; ANI = aniso; \
  mesh.BCp.type = NDARR_C("tp", n, 28, 31); mesh.BCg.type = NDARR_C("tg", g, 29, 30); \
  mesh.eta_n = NDARR_P("eta", n, 0.5, 2); mesh.eta_s = NDARR_P("etas", g, 0.5, 2); mesh.mu_n = NDARR_P("mu", n, 0.5, 2); mesh.mu_s = NDARR_P("mus", g, 0.5, 2); mesh.bet_n = NDARR_P("bet", n, 0.5, 2); \
  mesh.aniso_factor_n = NDARR_P("ani", n, 1, 5); mesh.aniso_factor_s = NDARR_P("anis", g, 1, 5); mesh.FS_AR_n = NDARR_P("far", n, 1, 5); mesh.FS_AR_s = NDARR_P("fars", g, 1, 5); \
  mesh.d1_n = NDARR("d1", n, 0, 0.5); mesh.d1_s = NDARR("d1s", g, 0, 0.5); mesh.d2_n = NDARR("d2", n, -0.2, 0.2); mesh.d2_s = NDARR("d2s", g, -0.2, 0.2); mesh.angle_n = NDARR("an", n, 0, 1); mesh.angle_s = NDARR("ans", g, 0, 1); \
  mesh.exxd = NDARR("exxd", n, -1, 1); mesh.ezzd = NDARR("ezzd", n, -1, 1); mesh.exz_n = NDARR("exzn", n, -1, 1); mesh.sxxd0 = NDARR("sxx0", n, -1, 1); mesh.szzd0 = NDARR("szz0", n, -1, 1); mesh.sxz0_n = NDARR("sxz0n", n, -1, 1); \
  mesh.exxd_s = NDARR("exxds", g, -1, 1); mesh.ezzd_s = NDARR("ezzds", g, -1, 1); mesh.exz = NDARR("exz", g, -1, 1); mesh.sxxd0_s = NDARR("sxx0s", g, -1, 1); mesh.szzd0_s = NDARR("szz0s", g, -1, 1); mesh.sxz0 = NDARR("sxz0", g, -1, 1); \
  mesh.p_in = NDARR("p", n, 0, 1); mesh.P_s = NDARR("ps", g, 0, 1); mesh.drhodp_n = ARR_D("odr", n); \
  mesh.D11_n = ARR_D("o11", n); mesh.D12_n = ARR_D("o12", n); mesh.D13_n = ARR_D("o13", n); mesh.D14_n = ARR_D("o14", n); mesh.D21_n = ARR_D("o21", n); mesh.D22_n = ARR_D("o22", n); mesh.D23_n = ARR_D("o23", n); mesh.D24_n = ARR_D("o24", n); \
  mesh.D31_s = ARR_D("o31", g); mesh.D32_s = ARR_D("o32", g); mesh.D33_s = ARR_D("o33", g); mesh.D34_s = ARR_D("o34", g); \
  M = &mesh; MODEL = &model

/* Picard: applied to a strain rate (xx, zz, twice xz) the operator gives twice the viscosity times the strain rate turned by the director */
#define PICARD(aniso) STATE(0, aniso); \
  RheologicalOperators(&mesh, &model, &m, &sc, 0, aniso); \
  FORALL(k, 0, n) { \
    double a = aniso ? 1.0 - 1.0/mesh.aniso_factor_n[k] : 0.0, d1 = mesh.d1_n[k], d2 = mesh.d2_n[k], e = AIR(mesh.BCp.type[k]) ? 0.0 : mesh.eta_n[k]; \
    CHECK("11", EQ(mesh.D11_n[k], 2.0*e*(1.0 - a*d1))); CHECK("12", EQ(mesh.D12_n[k], 2.0*e*a*d1)); CHECK("13", EQ(mesh.D13_n[k], -2.0*e*a*d2)); CHECK("14", EQ(mesh.D14_n[k], 0.0)); \
    CHECK("21", EQ(mesh.D21_n[k], 2.0*e*a*d1)); CHECK("22", EQ(mesh.D22_n[k], 2.0*e*(1.0 - a*d1))); CHECK("23", EQ(mesh.D23_n[k], 2.0*e*a*d2)); CHECK("24", EQ(mesh.D24_n[k], 0.0)); \
  } \
  FORALL(k, 0, g) { \
    double a = aniso ? 1.0 - 1.0/mesh.aniso_factor_s[k] : 0.0, d1 = mesh.d1_s[k], d2 = mesh.d2_s[k], e = mesh.BCg.type[k] == 30 ? 0.0 : mesh.eta_s[k]; \
    CHECK("31", EQ(mesh.D31_s[k], -2.0*e*a*d2)); CHECK("32", EQ(mesh.D32_s[k], 2.0*e*a*d2)); CHECK("33", EQ(mesh.D33_s[k], e*(1.0 + 2.0*a*(d1 - 0.5)))); CHECK("34", EQ(mesh.D34_s[k], 0.0)); \
  }
void H_picard(void) { PICARD(0) }
void H_picard_aniso(void) { PICARD(1) }

/* Newton: Picard plus the change of viscosity, of anisotropy and of plastic dilation with each strain rate and the pressure */
#define CELL(aniso) \
    int air = AIR(mesh.BCp.type[k]); double f = aniso ? mesh.aniso_factor_n[k] : 1.0, a = 1.0 - 1.0/f, d1 = aniso ? mesh.d1_n[k] : 0.0, d2 = aniso ? mesh.d2_n[k] : 0.0, e = mesh.eta_n[k], X, Z, S, l = mesh.angle_n[k] - M_PI/2.0; \
    EffectiveStrainRate(&X, &Z, &S, mesh.exxd[k], mesh.ezzd[k], mesh.exz_n[k], mesh.sxxd0[k], mesh.szzd0[k], mesh.sxz0_n[k], d1, d2, a, model.elastic == 1 ? model.dt*mesh.mu_n[k] : 1.0, model.elastic); \
    NATIVE(memset(WD, 0, sizeof WD); if (!air) DerivativesOnTheFly_n(WD, WD+1, WD+2, WD+3, WD+4, WD+5, WD+6, WD+7, WD+8, WD+9, WD+10, WD+11, WD+12, k, X, Z, S, mesh.p_in[k], f, d1, d2, mesh.angle_n[k], cos(l)*cos(l), cos(l)*sin(l), &mesh, &m, &model, &sc);) \
    double B = model.compressible ? model.dt/mesh.bet_n[k] : 0.0; \
    double cx = X*(1.0 - a*d1) + Z*a*d1 - 2.0*S*a*d2, cz = Z*(1.0 - a*d1) + X*a*d1 + 2.0*S*a*d2; \
    double px = e/(f*f)*(d1*(Z - X) - 2.0*d2*S), pz = -px
#define ROWX(i) (2.0*cx*D(i) + 2.0*px*D(8+i) - B*D(4+i))
#define ROWZ(i) (2.0*cz*D(i) + 2.0*pz*D(8+i) - B*D(4+i))
#define NEWTON_N(aniso) STATE(1, aniso); DERIV(N, n); \
  RheologicalOperators(&mesh, &model, &m, &sc, 1, aniso); \
  FORALL(k, 0, n) { CELL(aniso); \
    CHECK("11", EQS(mesh.D11_n[k], air ? 0.0 : 2.0*e*(1.0 - a*d1) + ROWX(0), 10)); CHECK("12", EQS(mesh.D12_n[k], air ? 0.0 : 2.0*e*a*d1 + ROWX(1), 10)); CHECK("13", EQS(mesh.D13_n[k], air ? 0.0 : -2.0*e*a*d2 + ROWX(2), 10)); CHECK("14", EQS(mesh.D14_n[k], air ? 0.0 : ROWX(3), 10)); \
    CHECK("21", EQS(mesh.D21_n[k], air ? 0.0 : 2.0*e*a*d1 + ROWZ(0), 10)); CHECK("22", EQS(mesh.D22_n[k], air ? 0.0 : 2.0*e*(1.0 - a*d1) + ROWZ(1), 10)); CHECK("23", EQS(mesh.D23_n[k], air ? 0.0 : 2.0*e*a*d2 + ROWZ(2), 10)); CHECK("24", EQS(mesh.D24_n[k], air ? 0.0 : ROWZ(3), 10)); \
    if (!air) CHECK("density", EQS(mesh.drhodp_n[k], D(12), 10)); \
  }
#define ROWS(i) (2.0*cs*D(i) + 2.0*ps*D(8+i))
#define NEWTON_S(aniso) STATE(1, aniso); DERIV(S, g); \
  RheologicalOperators(&mesh, &model, &m, &sc, 1, aniso); \
  FORALL(k, 0, g) { \
    int air = mesh.BCg.type[k] == 30; double f = aniso ? mesh.aniso_factor_s[k] : 1.0, a = 1.0 - 1.0/f, d1 = aniso ? mesh.d1_s[k] : 0.0, d2 = aniso ? mesh.d2_s[k] : 0.0, e = mesh.eta_s[k], X, Z, S, l = mesh.angle_s[k] - M_PI/2.0; \
    EffectiveStrainRate(&X, &Z, &S, mesh.exxd_s[k], mesh.ezzd_s[k], mesh.exz[k], mesh.sxxd0_s[k], mesh.szzd0_s[k], mesh.sxz0[k], d1, d2, a, model.elastic == 1 ? model.dt*mesh.mu_s[k] : 1.0, model.elastic); \
    NATIVE(memset(WD, 0, sizeof WD); if (!air) DerivativesOnTheFly_s(WD, WD+1, WD+2, WD+3, WD+8, WD+9, WD+10, WD+11, k, X, Z, S, mesh.P_s[k], f, d1, d2, mesh.angle_s[k], cos(l)*cos(l), cos(l)*sin(l), &mesh, &m, &model, &sc);) \
    double cs = a*d2*(Z - X) + 2.0*S*(a*(d1 - 0.5) + 0.5), ps = e/(f*f)*(d2*(Z - X) + 2.0*S*(d1 - 0.5)); \
    CHECK("31", EQS(mesh.D31_s[k], air ? 0.0 : -2.0*e*a*d2 + ROWS(0), 10)); CHECK("32", EQS(mesh.D32_s[k], air ? 0.0 : 2.0*e*a*d2 + ROWS(1), 10)); \
    CHECK("33", EQS(mesh.D33_s[k], air ? 0.0 : e*(1.0 + 2.0*a*(d1 - 0.5)) + ROWS(2), 10)); CHECK("34", EQS(mesh.D34_s[k], air ? 0.0 : ROWS(3), 10)); \
  }
void H_newton(void) { NEWTON_N(0) }
void H_newton_aniso(void) { NEWTON_N(1) }
void H_newton_s(void) { NEWTON_S(0) }
void H_newton_s_aniso(void) { NEWTON_S(1) }

/* ---- derivatives at a node: exact for every viscosity, dilation, anisotropy and density that is a quadratic function of
 * strain rates and pressure (the phase loop enters through the sum it forms, proved below) ---- */
static double Q[4][15];
static int CEN;
static double quad(double *q, double x, double z, double s, double p) {
  return q[0] + q[1]*x + q[2]*z + q[3]*s + q[4]*p + q[5]*x*x + q[6]*z*z + q[7]*s*s + q[8]*p*p + q[9]*x*z + q[10]*x*s + q[11]*x*p + q[12]*z*s + q[13]*z*p + q[14]*s*p;
}
#ifdef VSPEC_SYM
void CONTRACT_PhaseRheologyLoop_v1(int cen, double sign, double denom, double X, double Z, double S, double P, double ani, double d0, double d1, double angle, double lx2, double lxlz, int c, double **vol,
  double *G, double *T, double *P0, double T0, double *gs0, double *phi0, double *X0, double *txx0, double *tzz0, double *txz0, double *beta, double *div, double *strain, double *dil, double *fric, double *C,
  params *model, mat_prop *m, scale *sc, double *eta, double *dil1, double *an, double *rho, double **phase_eta) {
  int ok = CEN ? cen >= 1 && vol[0][c] == M->phase_perc_n[0][c] && G[c] == M->mu_n[c] && T[c] == M->T[c] && P0[c] == M->p0_n[c] && T0 == M->T0_n[c] && gs0[c] == M->d0_n[c] && phi0[c] == M->phi0_n[c] && X0[c] == M->X0_n[c]
      && txx0[c] == M->sxxd0[c] && tzz0[c] == M->szzd0[c] && txz0[c] == M->sxz0_n[c] && beta[c] == M->bet_n[c] && dil[c] == M->dil_n[c] && fric[c] == M->fric_n[c] && C[c] == M->C_n[c] && phase_eta[0][c] == M->phase_eta_n[0][c]
    : vol[0][c] == M->phase_perc_s[0][c] && G[c] == M->mu_s[c] && T[c] == M->T_s[c] && P0[c] == M->p0_s[c] && gs0[c] == M->d0_s[c] && phi0[c] == M->phi0_s[c] && X0[c] == M->X0_s[c]
      && txx0[c] == M->sxxd0_s[c] && tzz0[c] == M->szzd0_s[c] && txz0[c] == M->sxz0[c] && beta[c] == M->bet_s[c] && dil[c] == M->dil_s[c] && fric[c] == M->fric_s[c] && C[c] == M->C_s[c] && phase_eta[0][c] == M->phase_eta_s[0][c];
  ok = ok && ani == IN_S("ani") && angle == IN_S("angle") && lx2 == IN_S("lx2") && lxlz == IN_S("lxlz");
  if (ok) {
    *eta += sign*quad(Q[0], X, Z, S, P)/denom;
    *an  += sign*quad(Q[1], X, Z, S, P)/denom;
    if (cen > 0)  *dil1 += sign*quad(Q[2], X, Z, S, P)/denom;
    if (cen == 2) *rho  += sign*quad(Q[3], X, Z, S, P)/denom;
  }
}
#endif
#define COEF(i) do { double *q = Q[i]; \
  q[0] = ND_D2("q", i, 0, -1, 1); q[1] = ND_D2("q", i, 1, -1, 1); q[2] = ND_D2("q", i, 2, -1, 1); q[3] = ND_D2("q", i, 3, -1, 1); q[4] = ND_D2("q", i, 4, -1, 1); q[5] = ND_D2("q", i, 5, -1, 1); q[6] = ND_D2("q", i, 6, -1, 1); q[7] = ND_D2("q", i, 7, -1, 1); \
  q[8] = ND_D2("q", i, 8, -1, 1); q[9] = ND_D2("q", i, 9, -1, 1); q[10] = ND_D2("q", i, 10, -1, 1); q[11] = ND_D2("q", i, 11, -1, 1); q[12] = ND_D2("q", i, 12, -1, 1); q[13] = ND_D2("q", i, 13, -1, 1); q[14] = ND_D2("q", i, 14, -1, 1); } while (0)
static double slope(double *q, int i, double x, double z, double s, double p) {
  return i == 0 ? q[1] + 2.0*q[5]*x + q[9]*z + q[10]*s + q[11]*p : i == 1 ? q[2] + 2.0*q[6]*z + q[9]*x + q[12]*s + q[13]*p
    : i == 2 ? 0.5*(q[3] + 2.0*q[7]*s + q[10]*x + q[12]*z + q[14]*p) : q[4] + 2.0*q[8]*p + q[11]*x + q[13]*z + q[14]*s;
}
#define POINT NEW_GRID(mesh); NEW_PARAMS(model); NEW_MATPROP(m); NEW_SCALE(sc); M = &mesh; \
  int n = ND_I("n", 1, 9), k = ND_IR("k", 0, n-1); model.eta_average = ND_IR("avg", 0, 2); \
  double x = ND_D("x", -1, 1), z = ND_D("z", -1, 1), s = ND_D("s", -1, 1), p = ND_D("p", -1, 1), ani = ND_DP("ani", 1, 2), angle = ND_D("angle", 0, 1), lx2 = ND_D("lx2", 0, 1), lxlz = ND_D("lxlz", 0, 1); \
  double d1 = ND_D("d1", 0, 1), d2 = ND_D("d2", 0, 1), v[13] = { 0 }; COEF(0); COEF(1); COEF(2); COEF(3); (void)CEN
#ifdef VSPEC_SYM
void H_derivatives(void) {
  VERIFIES(DerivativesOnTheFly_n); POINT; CEN = 1;
  mesh.eta_n = NDARR_P("eta", n, 0.5, 2);
  DerivativesOnTheFly_n(v, v+1, v+2, v+3, v+4, v+5, v+6, v+7, v+8, v+9, v+10, v+11, v+12, k, x, z, s, p, ani, d1, d2, angle, lx2, lxlz, &mesh, &m, &model, &sc);
  double e = mesh.eta_n[k], f = model.eta_average == 1 ? e*e : model.eta_average == 2 ? e : 1.0;
  CHECK("eta-xx", v[0] == f*slope(Q[0], 0, x, z, s, p)); CHECK("eta-zz", v[1] == f*slope(Q[0], 1, x, z, s, p)); CHECK("eta-xz", v[2] == f*slope(Q[0], 2, x, z, s, p)); CHECK("eta-p", v[3] == f*slope(Q[0], 3, x, z, s, p));
  CHECK("dilation-xx", v[4] == slope(Q[2], 0, x, z, s, p)); CHECK("dilation-zz", v[5] == slope(Q[2], 1, x, z, s, p)); CHECK("dilation-xz", v[6] == slope(Q[2], 2, x, z, s, p)); CHECK("dilation-p", v[7] == slope(Q[2], 3, x, z, s, p));
  CHECK("anisotropy-xx", v[8] == slope(Q[1], 0, x, z, s, p)); CHECK("anisotropy-zz", v[9] == slope(Q[1], 1, x, z, s, p)); CHECK("anisotropy-xz", v[10] == slope(Q[1], 2, x, z, s, p)); CHECK("anisotropy-p", v[11] == slope(Q[1], 3, x, z, s, p));
  CHECK("density", v[12] == slope(Q[3], 3, x, z, s, p));
}
void H_derivatives_s(void) {
  VERIFIES(DerivativesOnTheFly_s); POINT; CEN = 0;
  mesh.eta_s = NDARR_P("etas", n, 0.5, 2);
  DerivativesOnTheFly_s(v, v+1, v+2, v+3, v+8, v+9, v+10, v+11, k, x, z, s, p, ani, d1, d2, angle, lx2, lxlz, &mesh, &m, &model, &sc);
  double e = mesh.eta_s[k], f = model.eta_average == 1 ? e*e : model.eta_average == 2 ? e : 1.0;
  CHECK("eta-xx", v[0] == f*slope(Q[0], 0, x, z, s, p)); CHECK("eta-zz", v[1] == f*slope(Q[0], 1, x, z, s, p)); CHECK("eta-xz", v[2] == f*slope(Q[0], 2, x, z, s, p)); CHECK("eta-p", v[3] == f*slope(Q[0], 3, x, z, s, p));
  CHECK("anisotropy-xx", v[8] == slope(Q[1], 0, x, z, s, p)); CHECK("anisotropy-zz", v[9] == slope(Q[1], 1, x, z, s, p)); CHECK("anisotropy-xz", v[10] == slope(Q[1], 2, x, z, s, p)); CHECK("anisotropy-p", v[11] == slope(Q[1], 3, x, z, s, p));
}
#else
void H_derivatives(void) { CHECK("none", 1); }
void H_derivatives_s(void) { CHECK("none", 1); }
#endif

/* ---- the phase loop adds the fraction-weighted mean over the phases of the node, scaled for the chosen averaging ---- */
static struct { double G, T, P, d, phi, X0, x, z, s, tx, tz, ts, dil, fric, C, P0, T0, beta, lx2, lxlz, angle, ani; int cen, c; } ND;
static double **PV;   /* viscosity, dilation and density of each phase */
#ifdef VSPEC_SYM
static int same(double G, double T, double P, double d, double phi, double X0, double x, double z, double s, double tx, double tz, double ts, double dil, double fric, double C, double P0, double T0, double beta, int cen) {
  return G == ND.G && T == ND.T && P == ND.P && d == ND.d && phi == ND.phi && X0 == ND.X0 && x == ND.x && z == ND.z && s == ND.s && tx == ND.tx && tz == ND.tz && ts == ND.ts && dil == ND.dil && fric == ND.fric && C == ND.C && P0 == ND.P0 && T0 == ND.T0 && beta == ND.beta && (cen > 0) == (ND.cen > 0);
}
double CONTRACT_ViscosityConcise(int p, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, mat_prop *materials, params *model, scale *scaling,
  double *Txx, double *Tzz, double *Txz, double *etaVE, double *VE, double *el, double *pl, double *pwl, double *ex, double *lin, double *gbs, double *cst, double *d1, double strain, double dil, double fric, double C, double P0, double T0,
  double *X1, double *Ov, double *Pc, double *rho, double beta, double div, double *de, double *dp, double *dr, double *Wt, double *We, double *Wd, int post, int centroid, int fin, int c) {
  int ok = MODEL->anisotropy == 0 && same(G, T, P, d, phi, X0, Exx, Ezz, Exz, Txx0, Tzz0, Txz0, dil, fric, C, P0, T0, beta, centroid);
  *etaVE = ok ? PV[0][p] : 0.0; *dp = ok ? PV[1][p] : 0.0; *rho = ok ? PV[2][p] : 0.0;
  return 0.0;
}
double CONTRACT_ViscosityConciseAniso(int p, double lxlz, double lx2, double angle, double ani, double G, double T, double P, double d, double phi, double X0, double Exx, double Ezz, double Exz, double Txx0, double Tzz0, double Txz0, mat_prop *materials, params *model, scale *scaling,
  double *Txx, double *Tzz, double *Txz, double *etaVE, double *el, double *pl, double *pwl, double *ex, double *lin, double *gbs, double *cst, double *d1, double strain, double dil, double fric, double C, double P0, double T0,
  double *X1, double *Ov, double *Pc, double *rho, double beta, double div, double *de, double *dp, double *dr, double *Wt, double *We, double *Wd, int post, int centroid, int fin, int c) {
  int ok = MODEL->anisotropy == 1 && lxlz == ND.lxlz && lx2 == ND.lx2 && angle == ND.angle && ani == ND.ani && same(G, T, P, d, phi, X0, Exx, Ezz, Exz, Txx0, Tzz0, Txz0, dil, fric, C, P0, T0, beta, centroid);
  *etaVE = ok ? PV[0][p] : 0.0; *dp = ok ? PV[1][p] : 0.0; *rho = ok ? PV[2][p] : 0.0;
  return 0.0;
}
#define WITH(x) double *x = NDARR(#x, n, 0, 1); ND.x = x[c]
#define PHASES(AVG) VERIFIES(PhaseRheologyLoop_v1); NEW_PARAMS(model); NEW_MATPROP(m); NEW_SCALE(sc); MODEL = &model; \
  int np = ND_IR("np", 1, 20), n = ND_I("n", 1, 9), c = ND_IR("c", 0, n-1), cen = ND_IR("cen", 0, 2); model.Nb_phases = np; model.eta_average = AVG; model.anisotropy = ND_IR("aniso", 0, 1); \
  PV = NDARR2("pv", 3, np, 0.5, 1); double **vol = NDARR2_R("vol", 20, n, 0, 1), **ph = NDARR2("ph", 20, n, 0.5, 1); \
  ND.cen = cen; ND.c = c; WITH(G); WITH(T); WITH(P0); WITH(d); WITH(phi); WITH(X0); WITH(tx); WITH(tz); WITH(ts); WITH(beta); WITH(dil); WITH(fric); WITH(C); double *div = NDARR("div", n, 0, 1), *strain = NDARR("strain", n, 0, 1); \
  ND.P = ND_D("P", 0, 1); ND.x = ND_D("x", 0, 1); ND.z = ND_D("z", 0, 1); ND.s = ND_D("s", 0, 1); ND.T0 = ND_D("T0", 0, 1); ND.lx2 = ND_D("lx2", 0, 1); ND.lxlz = ND_D("lxlz", 0, 1); ND.angle = ND_D("angle", 0, 1); ND.ani = ND_D("ani", 0, 1); \
  double sign = ND_D("sign", -1, 1), denom = ND_DP("denom", 0, 1), e0 = ND_D("e0", 0, 1), v0 = ND_D("v0", 0, 1), a0 = ND_D("a0", 0, 1), r0 = ND_D("r0", 0, 1), e = e0, v = v0, a = a0, r = r0; \
  PhaseRheologyLoop_v1(cen, sign, denom, ND.x, ND.z, ND.s, ND.P, ND.ani, 0.0, 0.0, ND.angle, ND.lx2, ND.lxlz, c, vol, G, T, P0, ND.T0, d, phi, X0, tx, tz, ts, beta, div, strain, dil, fric, C, &model, &m, &sc, &e, &v, &a, &r, ph); \
  double se = 0.0, sv = 0.0, sa = 0.0, sr = 0.0; \
  for (int p = 0; p < np; p++) if (vol[p][c] > 1e-13) { \
    se += sign*vol[p][c]*PV[0][p]/denom/(AVG == 1 ? ph[p][c]*ph[p][c] : AVG == 2 ? ph[p][c] : 1.0); sv += sign*vol[p][c]*PV[1][p]/denom; sa += sign*vol[p][c]/denom; sr += sign*vol[p][c]*PV[2][p]/denom; } \
  CHECK("viscosity", e == e0 + se); CHECK("dilation", v == v0 + (cen > 0 ? sv : 0.0)); CHECK("anisotropy", a == a0 + sa); CHECK("density", r == r0 + (cen == 2 ? sr : 0.0))
void H_phases_arithmetic(void) { PHASES(0); }
void H_phases_harmonic(void) { PHASES(1); }
void H_phases_geometric(void) { PHASES(2); }
#else
void H_phases_arithmetic(void) { CHECK("none", 1); }
void H_phases_harmonic(void) { CHECK("none", 1); }
void H_phases_geometric(void) { CHECK("none", 1); }
#endif
